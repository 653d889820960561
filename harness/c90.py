"""C90: Qiskit circuits convert to and from MQT Core without changing meaning."""
import math
import sys
import numpy as np
from qiskit import transpile
from qiskit.circuit import AncillaRegister, ClassicalRegister, Parameter, ParameterVector, QuantumCircuit, QuantumRegister
from qiskit.circuit import library as L
from qiskit.transpiler import CouplingMap
import pypbt
from pypbt import Discard, Prop, fail, require
from pyref import ONE, ONE_P, TWO, TWO_P, Sim, compare, run_mqt, run_qiskit
import mqt.core
from mqt.core.ir import QuantumComputation
from mqt.core.ir.operations import ClassicControlledOperation, CompoundOperation, Control, NonUnitaryOperation, OpType, StandardOperation, SymbolicOperation
from mqt.core.ir.symbolic import Expression, Term, Variable
from mqt.core.plugins.qiskit import mqt_to_qiskit, qiskit_to_mqt
assert mqt.core.__file__.startswith(__import__("os").environ["VERIF_PKG"]), mqt.core.__file__
PI = math.pi
ANG = [0.0, PI, PI / 2, -PI / 2, PI / 4, -PI / 4, 1, -1, 2, 0.5, -0.3, 1e-3, 2 * PI, 3 * PI / 2, -PI, -7, 1e-5, 3]


def angle(s):
    k = s.below(5)
    if k < 3:
        return s.pick(ANG)
    if k == 3:
        return s.real(-4 * PI, 4 * PI)
    return np.float64(s.real(-1, 1))


# ------------------------------------------------------------------ Qiskit circuits
def q_gate(s, n, par, depth=0, native=False):
    """-> (gate, number of qubits) with at most n qubits; par() draws a parameter"""
    for _ in range(20):
        k = s.below(5 if native else 9)
        if k == 0:
            g = s.pick([L.XGate, L.YGate, L.ZGate, L.HGate, L.SGate, L.SdgGate, L.TGate, L.TdgGate, L.SXGate, L.SXdgGate, L.IGate])()
        elif k == 1:
            c, np_ = s.pick([(L.RXGate, 1), (L.RYGate, 1), (L.RZGate, 1), (L.PhaseGate, 1), (L.U1Gate, 1), (L.U2Gate, 2), (L.U3Gate, 3), (L.UGate, 3)])
            g = c(*[par() for _ in range(np_)])
        elif k == 2:
            g = s.pick([L.CXGate, L.CYGate, L.CZGate, L.CHGate, L.CSGate, L.CSdgGate, L.CSXGate, L.SwapGate, L.iSwapGate, L.DCXGate, L.ECRGate, L.CCXGate, L.CSwapGate])()
        elif k == 3:
            c, np_ = s.pick([(L.CRXGate, 1), (L.CRYGate, 1), (L.CRZGate, 1), (L.CPhaseGate, 1), (L.CU1Gate, 1), (L.CU3Gate, 3)])
            g = c(*[par() for _ in range(np_)])
        elif k == 4:
            c, np_ = s.pick([(L.RXXGate, 1), (L.RYYGate, 1), (L.RZZGate, 1), (L.RZXGate, 1), (L.XXPlusYYGate, 2), (L.XXMinusYYGate, 2)])
            g = c(*[par() for _ in range(np_)])
        elif k == 5:
            c = s.pick([0, 1, 2, 3, 4, 5, 6, 7, 8])
            if c == 0: g = L.CUGate(*[float(par()) for _ in range(4)])
            elif c == 1: g = L.CCZGate()
            elif c == 2: g = L.RCCXGate()
            elif c == 3: g = L.C3XGate()
            elif c == 4: g = L.C3SXGate()
            elif c == 5: g = L.RC3XGate()
            elif c == 6: g = L.RGate(float(par()), float(par()))
            elif c == 7: g = L.RVGate(float(par()), float(par()), float(par()))
            else: g = L.C4XGate()
        elif k == 6:
            kk = s.range(1, max(1, n - 1))
            c = s.below(7)
            if c == 0: g = L.MCXGate(kk)
            elif c == 1: g = L.MCXGrayCode(kk)
            elif c == 2: g = L.MCPhaseGate(float(par()), kk)
            elif c == 3: g = L.PauliGate("".join(s.pick("IXYZ") for _ in range(s.range(1, min(3, n)))))
            elif c == 4: g = L.GlobalPhaseGate(float(par()))
            elif c == 5: g = L.QFTGate(s.range(1, min(3, n)))
            else: g = L.DiagonalGate([complex(math.cos(a), math.sin(a)) for a in [float(par()) for _ in range(1 << s.range(1, min(2, n)))]])
        elif k == 7:
            m = s.range(1, min(2, n))
            r = np.array([[complex(s.real(-1, 1), s.real(-1, 1)) for _ in range(1 << m)] for _ in range(1 << m)])
            qq, rr = np.linalg.qr(r)
            if np.abs(np.diag(rr)).min() < 1e-3: continue
            g = L.UnitaryGate(qq)
        else:
            # controlled, with any control state
            b, bn = q_gate(s, n - 1, par, depth + 1, True) if n > 1 and depth == 0 else (None, 0)
            if b is None: continue
            kk = s.range(1, n - bn)
            if kk < 1: continue
            st = s.below(1 << kk) if s.coin() else None
            try:
                g = b.control(kk, ctrl_state=st)
            except Exception:  # noqa: BLE001
                raise Discard from None
        if g.num_qubits <= n:
            if not native and s.chance(1, 8) and not any(hasattr(p, "parameters") for p in g.params):
                try:
                    g = g.inverse()
                except Exception:  # noqa: BLE001
                    raise Discard from None
            return g, g.num_qubits
    return L.HGate(), 1


def q_regs(s, maxq, withc):
    regs, left = [], maxq
    names = ["q", "r", "anc", "b0", "reg"]
    k = s.range(1, 3)
    for i in range(k):
        if left == 0: break
        sz = s.range(1, left) if i < k - 1 else left
        if i == k - 1 and s.chance(1, 3): sz = s.range(1, left)
        left -= sz
        regs.append((AncillaRegister if s.chance(1, 5) else QuantumRegister)(sz, names[i]))
        if s.chance(1, 15): regs.append(QuantumRegister(0, f"empty{i}"))
    regs = sorted(s.shuffle(regs), key=lambda r: isinstance(r, AncillaRegister))  # ancillas come last
    cregs = []
    if withc:
        for i in range(s.range(1, 2)):
            cregs.append(ClassicalRegister(s.range(1, 2), ["c", "meas"][i]))
    return regs, cregs


def q_fill(s, circ, length, par, meas, depth=0, native=False):
    n = circ.num_qubits
    nm = 0
    for _ in range(length):
        k = s.below(12)
        if k == 9 and meas and circ.num_clbits and nm < 3:
            nm += 1
            circ.measure(s.below(n), s.below(circ.num_clbits))
        elif k == 10 and meas and nm < 3:
            if s.coin():
                nm += 1
                circ.reset(s.below(n))
            else:
                circ.barrier(*s.sample(range(n), s.range(1, n)))
        elif k == 11 and depth < 2 and not native:
            m = s.range(1, n)
            mc = s.range(0, min(circ.num_clbits, 2)) if meas and nm < 2 else 0
            sub = QuantumCircuit(m, mc, name=s.pick(["sub", "blk", "mygate"]))
            if s.coin() and depth >= 0: sub.global_phase = s.pick([0.3, -0.5, PI, 1])
            had = q_fill(s, sub, s.range(1, 4), par, meas and mc > 0, depth + 1)
            nm += had
            qs, cs = s.sample(range(n), m), s.sample(range(circ.num_clbits), mc)
            if had or mc or any(i.operation.name in ("barrier", "reset", "measure") for i in sub.data):
                circ.append(sub.to_instruction(), qs, cs)
            else:
                g = sub.to_gate()
                circ.append(g, qs)
        else:
            g, m = q_gate(s, min(n, 5), par, 0, native)
            circ.append(g, s.sample(range(n), m))
    return nm


def show(circ, ind=""):
    o = ind + "qregs " + ", ".join(f"{type(r).__name__[0]}:{r.name}[{r.size}]" for r in circ.qregs) + " cregs " + ", ".join(f"{r.name}[{r.size}]" for r in circ.cregs) + f" phase {circ.global_phase}\n"
    qi, ci = {q: i for i, q in enumerate(circ.qubits)}, {q: i for i, q in enumerate(circ.clbits)}
    for i in circ.data:
        p = [x if not isinstance(x, np.ndarray) else x.tolist() for x in i.operation.params]
        o += ind + f"{i.operation.name}({', '.join(str(x) for x in p)}) {[qi[q] for q in i.qubits]}" + (f" -> {[ci[c] for c in i.clbits]}" if i.clbits else "") + "\n"
        d = i.operation.definition if i.operation.name in ("sub", "blk", "mygate") else None
        if d is not None: o += show(d, ind + "    ")
    return o


def show_mqt(qc):
    def one(op, ind):
        if isinstance(op, CompoundOperation):
            return ind + "compound\n" + "".join(one(o, ind + "  ") for o in op)
        t = ind + f"{op.type_.name} {op.parameter if op.parameter else ''} controls {sorted((c.qubit, c.type_ == Control.Type.Pos) for c in op.controls)} targets {op.targets}"
        if isinstance(op, NonUnitaryOperation): t += f" classics {op.classics}"
        return t + "\n"
    return (f"qregs {[(r.name, r.start, r.size) for r in qc.qregs.values()]} ancregs {[(r.name, r.start, r.size) for r in qc.ancregs.values()]} cregs {[(r.name, r.start, r.size) for r in qc.cregs.values()]} "
            f"phase {qc.global_phase} layout {dict(qc.initial_layout.items())} output {dict(qc.output_permutation.items())}\n" + "".join(one(o, "") for o in qc))


def sim_q(circ, inputs=None):
    s = Sim(circ.num_qubits, circ.num_clbits, inputs)
    run_qiskit(s, circ)
    return s


def sim_m(qc, inputs=None):
    s = Sim(qc.num_qubits, qc.num_classical_bits, inputs)
    s.phase(qc.global_phase)
    run_mqt(s, qc)
    return s


def check_regs(circ, qc, what):
    start = 0
    nq, na = 0, 0
    for r in circ.qregs:
        if r.size == 0: continue
        d = qc.ancregs if isinstance(r, AncillaRegister) else qc.qregs
        require(r.name in d, f"{what}: the register {r.name} is missing")
        m = d[r.name]
        require((m.start, m.size) == (start, r.size), f"{what}: register {r.name} is {(m.start, m.size)}, not {(start, r.size)}")
        start += r.size
        if isinstance(r, AncillaRegister): na += 1
        else: nq += 1
    require(len(qc.qregs) == nq and len(qc.ancregs) == na, f"{what}: additional quantum registers")
    require(qc.num_qubits == start, f"{what}: number of qubits")
    start = 0
    for r in circ.cregs:
        require(r.name in qc.cregs, f"{what}: the register {r.name} is missing")
        m = qc.cregs[r.name]
        require((m.start, m.size) == (start, r.size), f"{what}: register {r.name}")
        start += r.size
    require(qc.num_classical_bits == start, f"{what}: number of classical bits")


def importing(s, ctx):
    meas = s.chance(1, 3)
    maxq = s.range(1, 3 if meas else 4)
    if not meas and s.chance(1, 10): maxq = 5
    regs, cregs = q_regs(s, maxq, meas)
    circ = QuantumCircuit(*regs, *cregs)
    if circ.num_qubits == 0: raise Discard
    if s.chance(1, 3): circ.global_phase = angle(s)
    circ.name = s.pick(["circuit", "a b", "x"])
    q_fill(s, circ, s.sized(1, 9), lambda: angle(s), meas)
    text = show(circ)
    ctx.desc(text)
    qc = qiskit_to_mqt(circ)
    require(show(circ) == text, "the import changed the Qiskit circuit")
    ctx.nontrivial = len(circ.data) >= 2
    if any(i.operation.name in ("sub", "blk", "mygate") for i in circ.data): ctx.label("sub-circuits")
    if meas: ctx.label("measurements allowed")
    ctx.desc(text + "imported as\n" + show_mqt(qc))
    require(qc.name == circ.name, "name")
    check_regs(circ, qc, "import")
    m = compare(sim_q(circ), sim_m(qc), "import")
    if m: fail(m)
    require(dict(qc.initial_layout.items()) == {i: i for i in range(qc.num_qubits)}, "import: the initial layout is not trivial")
    # and back
    try:
        back = mqt_to_qiskit(qc)
    except (TypeError, NotImplementedError):
        ctx.label("export refused")
        return
    ctx.label("round trips")
    m = compare(sim_q(circ), sim_q(back), "round trip")
    if m: fail(m)
    regs_ = [(type(r).__name__, r.name, r.size) for r in circ.qregs if r.size] + [(r.name, r.size) for r in circ.cregs]
    regs2 = [(type(r).__name__, r.name, r.size) for r in back.qregs] + [(r.name, r.size) for r in back.cregs]
    require(regs_ == regs2, f"round trip: registers {regs_} became {regs2}")


def ancillas(s, ctx):
    """multi-controlled X with ancillas: equal to the plain gate on ancillas in the zero state"""
    k = s.range(1, 6)
    kind = s.pick(["recursive", "vchain", "gray"])
    g = {"recursive": lambda: L.MCXRecursive(k), "vchain": lambda: L.MCXVChain(min(k, 4)), "gray": lambda: L.MCXGrayCode(k)}[kind]()
    if kind == "vchain": k = min(k, 4)
    n = g.num_qubits + s.below(2)
    if n > 8: raise Discard
    circ = QuantumCircuit(n)
    qs = s.sample(range(n), g.num_qubits)
    circ.append(g, qs)
    ctx.desc(show(circ))
    ctx.nontrivial = k > 2
    ref = QuantumCircuit(n)
    ref.append(L.MCXGate(k), qs[: k + 1])
    qc = qiskit_to_mqt(circ)
    anc = qs[k + 1:]
    cols = [c for c in range(1 << n) if not any(c >> a & 1 for a in anc)]
    inp = np.eye(1 << n)[:, cols]
    m = compare(sim_q(ref, inp), sim_m(qc, inp), "import of " + kind) or compare(sim_q(circ, inp), sim_m(qc, inp), "import of " + kind)
    if m: fail(m)


# ------------------------------------------------------------------ symbolic parameters
def symbolic(s, ctx):
    n = s.range(1, 3)
    circ = QuantumCircuit(n)
    names = ["theta", "phi", "x1", "a_b", "lambda", "λ"]
    if s.chance(1, 4):
        ps = list(ParameterVector("v", 3))
    else:
        ps = [Parameter(x) for x in s.sample(names, 3)]
    used = []

    def coeff():
        return s.pick([1, 2, -1, 0.5, -0.25, 3, 1e-4, 1e-6, -2.5e-5, PI, 123456.789, 1e5 / 3, 1 / 3])

    def par():
        if s.chance(1, 4): return angle(s)
        e = 0
        for p in s.sample(ps, s.range(1, 3)):
            k = s.below(5)
            t = p if k == 0 else -p if k == 1 else coeff() * p if k == 2 else p / s.pick([2, -4, 3, 0.1]) if k == 3 else p * coeff()
            e = e - t if s.chance(1, 4) else e + t
        k = s.below(4)
        if k == 1: e = e + coeff()
        elif k == 2: e = e - coeff()
        elif k == 3: e = (e + coeff()) * s.pick([2, -1, 0.5])
        used.append(str(e))
        return e
    for _ in range(s.sized(1, 5)):
        k = s.below(6)
        if k == 5:
            m = s.range(1, n)
            sub = QuantumCircuit(m, name="sub")
            g, gm = q_gate(s, m, par, 0, True)
            sub.append(g, s.sample(range(m), gm))
            circ.append(sub.to_gate() if s.coin() else sub.to_instruction(), s.sample(range(n), m))
            ctx.label("symbolic sub-circuit")
        else:
            g, gm = q_gate(s, n, par, 0, True)
            circ.append(g, s.sample(range(n), gm))
    ctx.desc(show(circ))
    ctx.nontrivial = bool(used)
    qc = qiskit_to_mqt(circ)
    free = list(circ.parameters)
    ctx.label("variables", len(free))
    require({v.name for v in qc.variables} == {p.name for p in free}, f"variables {sorted(v.name for v in qc.variables)} for the parameters {sorted(p.name for p in free)}")
    require(qc.is_variable_free() == (not free), "is_variable_free")
    for _ in range(2):
        val = {p: angle(s) / 4 for p in free}
        a = circ.assign_parameters(val)
        b = qc.instantiate({Variable(p.name): float(v) for p, v in val.items()})
        require(b.is_variable_free(), "instantiated circuit is not variable-free")
        m = compare(sim_q(a), sim_m(b), f"assignment {[(p.name, float(v)) for p, v in val.items()]}", tol=1e-7)
        if m: fail(m)
    if free:
        try:
            mqt_to_qiskit(qc)
        except NotImplementedError:
            pass
        else:
            fail("exporting a circuit with variables is not refused")


def nonlinear(s, ctx):
    """expressions that are not linear are refused or keep their value"""
    x, y = Parameter("x"), Parameter("y")
    k = s.below(9)
    e = [lambda: x * y, lambda: x * x, lambda: x.sin(), lambda: (x + y) * (x - 1), lambda: x / y, lambda: 1 / x, lambda: (x - y).cos() + y, lambda: x ** 3, lambda: x.abs()][k]()
    e = s.pick([1, 2.5, -1]) * e + s.pick([0, 0.25, -1])
    circ = QuantumCircuit(2)
    g = s.pick([lambda: circ.rx(e, 0), lambda: circ.cp(e, 0, 1), lambda: circ.rzz(e, 0, 1), lambda: circ.u(0.1, e, x, 0)])
    g()
    ctx.desc(show(circ))
    ctx.nontrivial = True
    try:
        qc = qiskit_to_mqt(circ)
    except Exception:  # noqa: BLE001
        ctx.label("refused")
        return
    val = {p: s.pick([0.5, 1.25, -0.75, 2]) for p in circ.parameters}
    a = circ.assign_parameters(val)
    b = qc.instantiate({Variable(p.name): float(v) for p, v in val.items()})
    m = compare(sim_q(a), sim_m(b), f"assignment {[(p.name, float(v)) for p, v in val.items()]}")
    if m: fail("a parameter that is not linear is accepted and changes its value: " + m)


def refused(s, ctx):
    """what cannot be converted is refused"""
    circ = QuantumCircuit(2, 2)
    circ.h(0)
    circ.measure(0, 0)
    k = s.below(6)
    if k == 0:
        with circ.if_test((circ.clbits[0], 1)):
            circ.x(1)
    elif k == 1:
        with circ.for_loop(range(3)):
            circ.x(1)
    elif k == 2:
        with circ.while_loop((circ.clbits[0], 1)):
            circ.h(0)
            circ.measure(0, 0)
    elif k == 3:
        with circ.if_test((circ.cregs[0], 2)) as else_:
            circ.x(1)
        with else_:
            circ.z(1)
    elif k == 4:
        with circ.switch(circ.cregs[0]) as case:
            with case(0):
                circ.x(1)
    else:
        circ.delay(100, 0)
    ctx.desc(f"kind {k}\n")
    ctx.nontrivial = True
    try:
        qc = qiskit_to_mqt(circ)
    except Exception:  # noqa: BLE001
        return
    fail(f"a circuit with an operation that cannot be represented is imported as {show_mqt(qc)}")


# ------------------------------------------------------------------ layouts
def layouts(s, ctx):
    n = s.range(1, 4)
    m = s.range(n, 5)
    meas = s.chance(1, 3)
    regs, left = [], n
    while left:
        sz = s.range(1, left)
        left -= sz
        regs.append((AncillaRegister if s.chance(1, 5) else QuantumRegister)(sz, f"r{len(regs)}"))
    circ = QuantumCircuit(*regs)
    for _ in range(s.sized(1, 8)):
        g, gm = q_gate(s, min(n, 2), lambda: s.pick([PI, PI / 2, -PI / 4, 0.5, -0.3, 1, 2.5, -PI / 2]), 0, True)  # no tiny angles: the transpiler drops them
        circ.append(g, s.sample(range(n), gm))
    if meas: circ.measure_all()
    kind = s.below(4)
    edges = [[i, i + 1] for i in range(m - 1)] if kind <= 1 else [[0, i] for i in range(1, m)] if kind == 2 else [[i, (i + 1) % m] for i in range(m)]
    if kind == 3 and m <= 2: edges = [[i, i + 1] for i in range(m - 1)]
    edges = edges + [[b, a] for a, b in edges]
    if m == 1: cm = None
    else: cm = CouplingMap(edges)
    il = s.sample(range(m), n) if s.coin() else None
    lvl = s.below(4)
    t = transpile(circ, coupling_map=cm, basis_gates=s.pick([["rz", "sx", "x", "cx"], ["u", "cz"], ["h", "rz", "rx", "cx", "swap"]]), initial_layout=il, optimization_level=lvl, seed_transpiler=s.below(1000) + 1)
    ctx.desc(show(circ) + f"edges {edges} initial layout {il} level {lvl}, transpiled\n" + show(t) + (f"initial {t.layout.initial_index_layout()} final {t.layout.final_index_layout()}" if t.layout else "no layout"))
    if t.layout is None: raise Discard
    qc = qiskit_to_mqt(t)
    M = qc.num_qubits
    require(M == t.num_qubits, "number of qubits")
    lay, out = dict(qc.initial_layout.items()), dict(qc.output_permutation.items())
    ctx.nontrivial = list(t.layout.initial_index_layout()) != list(range(M)) or t.layout.final_layout is not None
    if t.layout.final_layout is not None: ctx.label("routed")
    require(sorted(lay) == list(range(M)) and sorted(lay.values()) == list(range(M)), f"the initial layout {lay} is not a permutation of the qubits")
    anc = set(range(n, M)) | {i for i, q in enumerate(circ.qubits) for r in circ.qregs if isinstance(r, AncillaRegister) and q in r}
    got = {q for q in range(M) if qc.is_circuit_qubit_ancillary(q)}
    require(got == anc, f"ancillary logical qubits {got}, expected {anc}")
    if not meas:
        msg = compare(sim_q(t), sim_m(qc), "import of the transpiled circuit")
        if msg: fail(msg)
    # logical inputs, with the ancillas in the zero state
    data = [b for b in range(1 << n) if not any(b >> l & 1 for l in anc)]
    K = len(data)
    inp, linp = np.zeros((1 << M, K)), np.zeros((1 << n, K))
    for i, b in enumerate(data):
        inp[sum(1 << p for p, l in lay.items() if l < n and b >> l & 1), i] = 1
        linp[b, i] = 1
    rng = np.random.default_rng(7)
    mix = rng.normal(size=(K, K)) + 1j * rng.normal(size=(K, K))
    mix, _ = np.linalg.qr(mix)
    a, b = sim_q(circ, linp @ mix), sim_m(qc, inp @ mix)
    if meas:
        def prob(x):
            d = {}
            for bits, arr in x.branches:
                v = (np.abs(arr.reshape(-1, K)) ** 2).sum(axis=0)
                d[tuple(bits)] = d.get(tuple(bits), 0) + v
            return d
        pa, pb = prob(a), prob(b)
        for k in set(pa) | set(pb):
            if np.abs(pa.get(k, 0) - pb.get(k, np.zeros(K))).max() > 1e-4: fail(f"the probability of outcome {k} differs")
        # the output permutation names the logical qubit of every measured physical qubit
        where = {}
        for op in qc:
            if op.type_ == OpType.measure:
                for q, c in zip(op.targets, op.classics): where[c] = q
        for l in range(n):
            require(out.get(where[l]) == l, f"the logical qubit {l} is measured on physical qubit {where[l]}, but the output permutation is {out}")
        return
    require(set(range(n)) - anc <= set(out.values()), f"the output permutation {out} misses a logical qubit")
    require(len(set(out.values())) == len(out), f"output permutation {out}")
    fin = b.branches[0][1].reshape(1 << M, K)
    exp = np.zeros_like(fin)
    ref = a.branches[0][1].reshape(1 << n, K)
    for x in range(1 << n):
        if any(x >> l & 1 and l not in out.values() for l in range(n)):
            require(np.abs(ref[x]).max() < 1e-9, f"a used ancilla is missing in the output permutation {out}")
            continue
        exp[sum(1 << p for p, l in out.items() if l < n and x >> l & 1)] = ref[x]
    w = np.vdot(exp, fin)
    e = np.abs(fin - exp * (w / abs(w) if abs(w) > 1e-9 else 1)).max()
    if e > 1e-4: fail(f"the transpiled circuit with initial layout {lay} and output permutation {out} differs from the circuit by {e:.3g}")
    # export with the layout and import again
    back = mqt_to_qiskit(qc, set_layout=True)
    qc2 = qiskit_to_mqt(back)
    require(dict(qc2.initial_layout.items()) == lay, f"round trip: initial layout {lay} became {dict(qc2.initial_layout.items())}")
    if len(out) == M:
        require(dict(qc2.output_permutation.items()) == out, f"round trip: output permutation {out} became {dict(qc2.output_permutation.items())}")


# ------------------------------------------------------------------ export
def m_gate(s, n, supported):
    for _ in range(20):
        k = s.below(4)
        if k == 0: g, np_, nt = s.pick(ONE), 0, 1
        elif k == 1:
            g = s.pick(list(ONE_P)); np_, nt = ONE_P[g], 1
        elif k == 2: g, np_, nt = s.pick([x for x in TWO if not supported or x in ("swap", "iswap", "dcx", "ecr")]), 0, 2
        else:
            g = s.pick(list(TWO_P)); np_, nt = TWO_P[g], 2
        if nt <= n: break
    else:
        g, np_, nt = "h", 0, 1
    qs = s.shuffle(range(n))
    nc = min(n - nt, s.pick([0, 0, 1, 1, 2, 3]))
    ctr = {Control(q, Control.Type.Neg if s.chance(1, 3) else Control.Type.Pos) for q in qs[nt:nt + nc]}
    ps = [float(angle(s)) for _ in range(np_)]
    return StandardOperation(ctr, qs[:nt], getattr(OpType, g), ps)


def m_ops(s, n, nc, length, supported, depth, budget):
    out = []
    for _ in range(length):
        k = s.below(12)
        if k == 8 and nc and budget[0] > 0:
            budget[0] -= 1
            w = s.range(1, min(n, nc, 2))
            out.append(NonUnitaryOperation(s.sample(range(n), w), s.sample(range(nc), w)))
        elif k == 9 and nc and budget[0] > 0:
            budget[0] -= 1
            out.append(NonUnitaryOperation(s.sample(range(n), 1)))
        elif k == 10:
            out.append(StandardOperation(s.sample(range(n), s.range(1, n)), OpType.barrier))
        elif k == 11 and depth < 2:
            out.append(CompoundOperation(m_ops(s, n, nc, s.range(1, 3), supported, depth + 1, budget)))
        else:
            out.append(m_gate(s, n, supported))
    return out


def m_circuit(s, supported, meas, maxq):
    qc = QuantumComputation()
    left = s.range(1, maxq)
    names = s.shuffle(["q", "r", "a0", "anc"])
    i = 0
    while left:
        sz = s.range(1, left)
        left -= sz
        (qc.add_ancillary_register if i and (len(qc.ancregs) or s.chance(1, 6)) else qc.add_qubit_register)(sz, names[i])
        i += 1
    if meas:
        for j in range(s.range(1, 2)): qc.add_classical_register(s.range(1, 2), ["c", "d"][j])
    if s.chance(1, 3): qc.name = s.pick(["circ", "x y"])
    if s.chance(1, 4): qc.gphase(float(angle(s)))
    for op in m_ops(s, qc.num_qubits, qc.num_classical_bits, s.sized(1, 8), supported, 0, [3]): qc.append(op)
    return qc


def exporting(s, ctx):
    meas = s.chance(1, 3)
    supported = s.chance(5, 6)
    qc = m_circuit(s, supported, meas, 3 if meas else 4)
    text = show_mqt(qc)
    ctx.desc(text)
    ctx.nontrivial = len(qc) >= 2
    try:
        circ = mqt_to_qiskit(qc)
    except (TypeError, NotImplementedError):
        require(not supported, "a circuit of supported operations is refused")
        ctx.label("refused")
        return
    ctx.label("exported")
    require(show_mqt(qc) == text, "the export changed the circuit")
    ctx.desc(text + "exported as\n" + show(circ))
    m = compare(sim_m(qc), sim_q(circ), "export")
    if m: fail(m)
    check_regs(circ, qc, "export")
    require(circ.name == qc.name or not qc.name, "name")
    back = qiskit_to_mqt(circ)
    m = compare(sim_m(qc), sim_m(back), "round trip")
    if m: fail(m)
    check_regs(circ, back, "round trip")


def export_layout(s, ctx):
    n = s.range(1, 5)
    qc = QuantumComputation(n)
    lay = s.shuffle(range(n))
    out = s.shuffle(range(n)) if s.coin() else lay
    for _ in range(s.range(1, 3)): qc.append(m_gate(s, n, True))
    for p in range(n):
        qc.initial_layout[p] = lay[p]
        qc.output_permutation[p] = out[p]
    gone = s.sample(range(n), s.range(1, n - 1)) if n > 1 and s.chance(1, 4) else []
    for p in gone: del qc.output_permutation[p]
    text = show_mqt(qc)
    ctx.desc(text)
    ctx.nontrivial = lay != list(range(n)) or out != lay
    circ = mqt_to_qiskit(qc, set_layout=True)
    # Qiskit's own reading: logical qubit v starts on initial[v] and ends on final[v]
    ini, fin = circ.layout.initial_index_layout(), circ.layout.final_index_layout()
    require([lay[p] for p in ini] == list(range(n)), f"the initial index layout {ini} does not belong to {lay}")
    require(sorted(fin) == list(range(n)), f"the final index layout {fin} is no permutation")
    require(all(out[fin[v]] == v for v in range(n) if out.index(v) not in gone), f"the final index layout {fin} does not belong to {out} without {gone}")
    if gone:
        ctx.label("qubits without output")
        return
    back = qiskit_to_mqt(circ)
    require(dict(back.initial_layout.items()) == dict(enumerate(lay)), f"round trip: initial layout {dict(back.initial_layout.items())}")
    require(dict(back.output_permutation.items()) == dict(enumerate(out)), f"round trip: output permutation {dict(back.output_permutation.items())}")
    m = compare(sim_m(qc), sim_m(back), "round trip")
    if m: fail(m)


def export_refused(s, ctx):
    qc = QuantumComputation(2, 2)
    qc.h(0)
    k = s.below(4)
    if k == 0: qc.classic_controlled(OpType.x, 1, 0)
    elif k == 1: qc.append(SymbolicOperation(0, OpType.rx, [Expression([Term(Variable("x"), 1.0)], 0.5)])); qc.add_variable(Expression([Term(Variable("x"), 1.0)], 0.5))
    elif k == 2: qc.append(CompoundOperation([ClassicControlledOperation(StandardOperation(1, OpType.x), 0)]))
    else: qc.append(CompoundOperation([StandardOperation([0, 1], s.pick([OpType.peres, OpType.peresdg]))]))
    ctx.desc(f"kind {k} {show_mqt(qc) if k != 2 else ''}")
    ctx.nontrivial = True
    try:
        circ = mqt_to_qiskit(qc)
    except Exception:  # noqa: BLE001
        return
    fail("a circuit that cannot be represented is exported")


SUITE = {
    "property": "C90",
    "rule": "a case is non-trivial if the circuit has at least two operations, an ancilla gate with more than two controls, a symbolic parameter, a layout that is not the identity, or an operation that must be refused",
    "assumptions": [
        "circuits of at most 5 qubits (8 for multi-controlled X gates with ancillas) and about ten top-level operations, sub-circuits nested at most twice",
        "the Qiskit side is evaluated with qiskit.quantum_info.Operator instruction by instruction",
        "circuits whose registers share bits and bits outside registers are not generated; gates with the name of a standard gate but another meaning are not generated",
        "symbolic global phases are not supported by the plugin (a warning is given) and not generated",
        "gates with clean ancillas are compared on ancillas in the zero state; the physical qubits a transpiler adds start in the zero state",
    ],
    "props": [
        Prop("importing", importing, 1600, 40000),
        Prop("ancillas", ancillas, 60, 1000),
        Prop("symbolic", symbolic, 1200, 30000),
        Prop("nonlinear", nonlinear, 80, 500),
        Prop("refused", refused, 40, 200),
        Prop("layouts", layouts, 500, 15000),
        Prop("exporting", exporting, 1600, 40000),
        Prop("export-layout", export_layout, 400, 10000),
        Prop("export-refused", export_refused, 40, 200),
    ],
}
if __name__ == "__main__":
    sys.exit(pypbt.mainImpl(SUITE))
