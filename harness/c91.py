"""C91: the Python interface of circuits, operations and decision diagrams behaves like the Python types it is documented as."""
import ast
import gc
import math
import os
import sys
import numpy as np
import pypbt
from pypbt import Discard, Prop, fail, require
from pyref import ONE, ONE_P, TWO, TWO_P, Sim, compare, ei, gate_matrix, run_mqt
import mqt.core
from mqt.core import dd
from mqt.core.ir import Permutation, QuantumComputation
from mqt.core.ir import operations as ops_mod
from mqt.core.ir import registers as regs_mod
from mqt.core.ir import symbolic as sym_mod
import mqt.core.ir as ir_mod
from mqt.core.ir.operations import ClassicControlledOperation, ComparisonKind, CompoundOperation, Control, NonUnitaryOperation, OpType, StandardOperation, SymbolicOperation
from mqt.core.ir.symbolic import Expression, Term, Variable
assert mqt.core.__file__.startswith(os.environ["VERIF_PKG"]), mqt.core.__file__
REPO = os.environ.get("VERIF_REPO", "/repo")
PI = math.pi
ANG = [0.0, PI, PI / 2, -PI / 2, PI / 4, -PI / 4, 1, -1, 2, 0.5, -0.3, 1e-3, 2 * PI, 3 * PI / 2, -PI, -7, 3]


def angle(s):
    return s.pick(ANG) if s.chance(2, 3) else s.real(-4 * PI, 4 * PI)


def raises(fn, *kinds):
    try:
        r = fn()
    except kinds:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}: {e}"
    return f"returned {r!r}"


# ------------------------------------------------------------------ documented names
STUBS = [("ir/__init__.pyi", ir_mod), ("ir/operations.pyi", ops_mod), ("ir/registers.pyi", regs_mod), ("ir/symbolic.pyi", sym_mod), ("dd.pyi", dd)]


def _stub(f):
    with open(os.path.join(REPO, "src/mqt/core", f)) as h:
        return ast.parse(h.read())


def _params(fn):
    return [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs if a.arg not in ("self", "cls")]


QC_DOC = {}
for _n in _stub("ir/__init__.pyi").body:
    if isinstance(_n, ast.ClassDef) and _n.name == "QuantumComputation":
        for _k in _n.body:
            if isinstance(_k, ast.FunctionDef):
                QC_DOC.setdefault(_k.name, []).append(_params(_k))


def documented(s, ctx):
    """every documented name of a module exists"""
    f, mod = STUBS[s.below(len(STUBS))]
    missing, n = [], 0

    def walk(body, obj, pre):
        nonlocal n
        for x in body:
            names = []
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): names = [x.name]
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name): names = [x.target.id]
            for k in names:
                n += 1
                if k.startswith("__") and k not in ("__init__", "__len__", "__getitem__", "__setitem__", "__delitem__", "__iter__", "__eq__", "__ne__", "__hash__"): continue
                if not hasattr(obj, k): missing.append(pre + k)
                elif isinstance(x, ast.ClassDef): walk(x.body, getattr(obj, k), pre + k + ".")
    walk(_stub(f).body, mod, "")
    ctx.desc(f"{f}: {n} documented names\n")
    ctx.nontrivial = n > 5
    if missing: fail(f"{f} documents names that do not exist: {missing}")


# ------------------------------------------------------------------ circuits built through the documented methods
def ctrl_obj(q, pos, s):
    return Control(q, Control.Type.Pos if pos else Control.Type.Neg) if not pos or s.coin() else q


def call(qc, s, name, args):
    """calls a documented method positionally, by keyword or mixed, with the documented parameter names"""
    doc = [d for d in QC_DOC.get(name, []) if len(d) >= len(args)]
    require(doc, f"{name} is not documented")
    d = doc[0] if len(doc) == 1 else None
    k = s.below(len(args) + 1) if d else len(args)
    getattr(qc, name)(*args[:k], **(dict(zip(d[k:], args[k:])) if d else {}))


def gate(s, n, maxctl=3):
    """-> (name, params, targets, controls) on n qubits"""
    while True:
        k = s.below(4)
        t = [ONE, list(ONE_P), TWO, list(TWO_P)][k]
        g = s.pick(t)
        m = 1 if k < 2 else 2
        if m <= n: break
    p = [angle(s) for _ in range((ONE_P | TWO_P).get(g, 0))]
    qs = s.sample(range(n), n)
    c = s.below(min(maxctl, n - m) + 1) if s.chance(1, 2) else 0
    return g, p, qs[:m], [(q, s.coin()) for q in qs[m:m + c]]


def add_gate(qc, s, g, p, ts, cs):
    if not cs: call(qc, s, g, [*p, *ts])
    elif len(cs) == 1 and s.coin(): call(qc, s, "c" + g, [*p, ctrl_obj(*cs[0], s), *ts])
    else: call(qc, s, "mc" + g, [*p, {ctrl_obj(q, b, s) for q, b in cs}, *ts])


def ref_gate(sim, g, p, ts, cs):
    sim.apply(gate_matrix(g, p), list(reversed(ts)), cs)


def spec_str(spec):
    return "".join(f"  {x}\n" for x in spec)


def builder(s, ctx):
    n = s.range(1, 4)
    qc = QuantumComputation(n) if s.coin() else QuantumComputation(nq=n, nc=0)
    sim = Sim(n, 0)
    spec = []
    gp = 0.0
    for _ in range(s.sized(1, 12)):
        k = s.below(12)
        if k == 0:
            x = angle(s)
            if s.coin():
                qc.gphase(x) if s.coin() else qc.gphase(phase=x)
                gp += x
                spec.append(("gphase", x))
            else:
                qc.global_phase = x
                gp = x
                spec.append(("global_phase =", x))
            require(abs(ei(qc.global_phase) - ei(gp)) < 1e-9, f"after {spec} the global phase is {qc.global_phase}")
        elif k == 1:
            j = s.below(3)
            if j == 0: qc.barrier()
            elif j == 1: qc.barrier(0) if s.coin() else qc.barrier(q=0)
            else: qc.barrier([0, n - 1] if n > 1 else [0]) if s.coin() else qc.barrier(qubits=list(range(n)))
            spec.append("barrier")
        else:
            g, p, ts, cs = gate(s, n)
            before = len(qc)
            add_gate(qc, s, g, p, ts, cs)
            require(len(qc) == before + 1 and qc.num_ops == before + 1, f"{g} added {len(qc) - before} operations")
            op = qc[-1]
            require({(c.qubit, c.type_ == Control.Type.Pos) for c in op.controls} == set(cs), f"{g} {p} {ts} {cs}: controls {op.controls}")
            require(sorted(op.targets) == sorted(ts), f"{g} {p} {ts} {cs}: targets {op.targets}")
            require(op.get_used_qubits() == set(ts) | {q for q, _ in cs}, f"{g} {ts} {cs}: used qubits {op.get_used_qubits()}")
            ref_gate(sim, g, p, ts, cs)
            spec.append((g, p, ts, cs))
    sim.phase(gp)
    ctx.desc(f"{n} qubits\n" + spec_str(spec))
    ctx.nontrivial = sum(isinstance(x, tuple) and len(x) == 4 for x in spec) >= 2
    want = sim.branches[0][1].reshape(1 << n, -1)
    for rec in (False, True):
        u = dd.build_unitary(qc, recursive=rec)
        got = np.array(u, copy=False) if s.coin() else np.array(u)
        require(got.shape == want.shape and np.abs(got - want).max() < 1e-7, f"build_unitary(recursive={rec}) differs from the reference by {np.abs(got - want).max() if got.shape == want.shape else got.shape}")
    v = np.array(dd.simulate_statevector(qc))
    require(v.shape == (1 << n,) and np.abs(v - want[:, 0]).max() < 1e-7, "simulate_statevector differs from the reference")
    h = dd.sample(qc, shots=64, seed=s.range(1, 9))
    require(sum(h.values()) == 64, f"sample: {h}")
    for k in h:
        require(len(k) == n and abs(want[int(k, 2), 0]) > 1e-6, f"sample returned the impossible outcome {k}")
    # lifetimes: results outlive the package
    p = dd.DDPackage(n)
    f = dd.build_functionality(qc, p, s.coin())
    w = dd.simulate(qc, p.zero_state(n), p)
    del p
    gc.collect()
    require(np.abs(np.array(f.get_matrix(n)) - want).max() < 1e-7, "build_functionality after the package went out of scope")
    require(np.abs(np.array(w.get_vector()) - want[:, 0]).max() < 1e-7, "simulate after the package went out of scope")
    # text round trip and inversion
    if s.coin():
        txt = qc.qasm3_str() if s.coin() else qc.qasm2_str()
        back = QuantumComputation.from_qasm_str(txt)
        got = np.array(dd.build_unitary(back))
        ph = np.vdot(want, got)  # the phase is not part of OpenQASM 2
        require(np.abs(got - want * ph / abs(ph)).max() < 1e-6, "reading the written OpenQASM changes the circuit:\n" + txt)
    inv = s.coin()
    if inv:
        refs = list(qc)
        qc.invert()
        require(all(a == b and a.targets == b.targets and a.name == b.name for a, b in zip(reversed(refs), qc)), "references to the operations do not show the inverted operations")
        got = np.array(dd.build_unitary(qc))
        require(np.abs(got - want.conj().T).max() < 1e-7, "invert() is not the inverse")
    gphase = qc.global_phase
    want2 = want.conj().T if inv else want
    if s.chance(1, 3) and len(qc):
        comp = len(qc) > 1
        op = qc.to_operation()
        require(len(qc) == 0, "to_operation leaves operations behind")
        require(not comp or isinstance(op, CompoundOperation), f"to_operation returned {op!r}")
        if op.type_ not in (OpType.barrier,):
            p = dd.DDPackage(n)
            m = p.from_operation(op)
            gc.collect()
            got = np.array(m.get_matrix(n)) * ei(gphase)
            require(np.abs(got - want2).max() < 1e-7, "the operation of to_operation differs from the circuit")
            got = np.array(p.from_operation(op, invert=True).get_matrix(n)) * ei(-gphase)
            require(np.abs(got - want2.conj().T).max() < 1e-7, "from_operation(invert=True) is not the inverse")


# ------------------------------------------------------------------ measurements, resets and conditions
def dynamic(s, ctx):
    n, nc = s.range(1, 3), s.range(1, 3)
    qc = QuantumComputation(n)
    regs = [qc.add_classical_register(nc, "c") if s.coin() else qc.add_classical_register(n=nc, name="c")]
    if s.chance(1, 3):
        regs.append(qc.add_classical_register(s.range(1, 2), "d"))
    nb = qc.num_classical_bits
    require(nb == sum(r.size for r in regs), "number of classical bits")
    sim = Sim(n, nb, np.eye(1 << n)[:, :1])
    spec = []
    K = ComparisonKind
    for _ in range(s.sized(2, 10)):
        k = s.below(6)
        if k <= 1:
            g, p, ts, cs = gate(s, n)
            add_gate(qc, s, g, p, ts, cs)
            ref_gate(sim, g, p, ts, cs)
            spec.append((g, p, ts, cs))
        elif k == 2:
            if s.coin():
                q, c = s.below(n), s.below(nb)
                qc.measure(q, c) if s.coin() else qc.measure(qubit=q, cbit=c)
                sim.measure(q, c)
                spec.append(("measure", q, c))
            else:
                m = s.range(1, min(n, nb))
                qs, cs = s.sample(range(n), m), s.sample(range(nb), m)
                qc.measure(qs, cs) if s.coin() else qc.measure(qubits=qs, cbits=cs)
                for q, c in zip(qs, cs): sim.measure(q, c)
                spec.append(("measure", qs, cs))
        elif k == 3:
            qs = s.sample(range(n), s.range(1, n))
            if len(qs) == 1 and s.coin(): qc.reset(qs[0]) if s.coin() else qc.reset(q=qs[0])
            else: qc.reset(qs) if s.coin() else qc.reset(qubits=qs)
            for q in qs: sim.reset(q)
            spec.append(("reset", qs))
        else:
            g = s.pick(ONE + ["rx", "ry", "rz", "p"])
            p = [angle(s)] if g in ONE_P else []
            qs = s.sample(range(n), n)
            t, cs = qs[0], [(q, s.coin()) for q in qs[1:1 + s.below(n)]]
            kw = {"op": getattr(OpType, g), "target": t, "params": p}
            if len(cs) == 1 and s.coin(): kw["control"] = ctrl_obj(*cs[0], s)
            elif cs: kw["controls"] = {ctrl_obj(q, b, s) for q, b in cs}
            if s.coin():
                b, v, kind = s.below(nb), s.below(2), s.pick([K.eq, K.neq])
                kw["cbit"] = b
                pred = lambda bits, b=b, v=v, kind=kind: (bits[b] == v) == (kind == K.eq)  # noqa: E731
                desc = f"bit {b}"
            else:
                r = s.pick(regs)
                v, kind = s.below(1 << r.size), s.pick([K.eq, K.neq, K.lt, K.leq, K.gt, K.geq])
                kw["creg"] = r
                lo, sz = r.start, r.size

                def pred(bits, lo=lo, sz=sz, v=v, kind=kind):
                    x = sum(bits[lo + i] << i for i in range(sz))
                    return {K.eq: x == v, K.neq: x != v, K.lt: x < v, K.leq: x <= v, K.gt: x > v, K.geq: x >= v}[kind]
                desc = f"register {r!r}"
            if v != 1 or s.coin(): kw["expected_value"] = v
            if kind != K.eq or s.coin(): kw["comparison_kind"] = kind
            if not p: kw.pop("params") if s.coin() else None
            qc.classic_controlled(**kw)
            sim.cond(pred, lambda z: ref_gate(z, g, p, [t], cs))
            spec.append((g, p, t, cs, desc, v, kind.name))
            op = qc[-1]
            require(isinstance(op, ClassicControlledOperation) and op.is_classic_controlled_operation(), f"{op!r}")
            if "creg" in kw: require(op.expected_value == v and op.comparison_kind == kind, f"{op!r}, expected {spec[-1]}")
            else: require(op.expected_value in (0, 1) and (op.comparison_kind == K.eq) == (op.expected_value == (v if kind == K.eq else 1 - v)), f"{op!r}, expected {spec[-1]}")
            require((op.control_bit == kw.get("cbit")) and (op.control_register == kw.get("creg")), f"{op!r}, expected {spec[-1]}")
    ctx.desc(f"{n} qubits, {nb} bits\n" + spec_str(spec))
    ctx.nontrivial = any(len(x) > 4 for x in spec)
    b = Sim(n, nb, np.eye(1 << n)[:, :1])
    run_mqt(b, qc)
    m = compare(sim, b, "operations of the circuit against the calls that made them")
    if m: fail(m)
    back = QuantumComputation.from_qasm_str(qc.qasm3_str())
    b = Sim(n, nb, np.eye(1 << n)[:, :1])
    run_mqt(b, back)
    m = compare(sim, b, "reading the written OpenQASM")
    if m: fail(m + "\n" + qc.qasm3_str())
    # stepping through the circuit with the DD package follows a branch of the reference
    p = dd.DDPackage(n)
    v = p.zero_state(n)
    bits = [False] * nb
    for op in qc:
        if op.type_ == OpType.measure: v, bits = p.apply_measurement(v, op, bits)
        elif op.type_ == OpType.reset: v = p.apply_reset(v, op)
        elif isinstance(op, ClassicControlledOperation): v = p.apply_classic_controlled_operation(v, op, bits)
        elif op.type_ != OpType.barrier: v = p.apply_unitary_operation(v, op)
    del p
    gc.collect()
    got = np.array(v.get_vector())
    require(abs(np.linalg.norm(got) - 1) < 1e-7, f"norm {np.linalg.norm(got)} after stepping")
    # (branches that agree in the final bits are mixed: the state has to lie in their span)
    cand = [a.reshape(1 << n) for c, a in sim.branches if [bool(x) for x in c] == list(bits)]
    require(cand, f"the outcome {bits} is impossible")
    best = max(abs(np.vdot(c / np.linalg.norm(c), got)) for c in cand)
    require(best > 1 - 1e-7, f"the state after the outcome {bits} is no branch of the circuit (overlap {best})")
    h = dd.sample(qc, 32, s.range(1, 99))
    require(sum(h.values()) == 32, f"sample: {h}")


# ------------------------------------------------------------------ sequences
def mk(k, s=None):
    """an operation that can be told apart by k"""
    j = 0 if s is None else s.below(4)
    if j == 1: return StandardOperation({Control(1), Control(2, Control.Type.Neg)}, 0, OpType.rx, [0.001 * (k + 1)])
    if j == 2: return CompoundOperation([StandardOperation(0, OpType.rx, [0.001 * (k + 1)]), StandardOperation(1, OpType.x)])
    if j == 3: return ClassicControlledOperation(StandardOperation(1, OpType.rx, [0.001 * (k + 1)]), 0)
    return StandardOperation(k % 3, OpType.rx, [0.001 * (k + 1)])


def key(op):
    if isinstance(op, CompoundOperation): op = op[0]
    if isinstance(op, ClassicControlledOperation): op = op.operation
    return round(op.parameter[0] * 1000) - 1


def rnd_slice(s, n):
    def b():
        return None if s.chance(1, 4) else s.range(-n - 2, n + 2)
    st = None if s.chance(1, 3) else s.pick([1, 2, -1, -2, 3, -3])
    return slice(b(), b(), st)


def sequence(s, ctx):
    comp = s.coin()
    q = CompoundOperation() if comp else QuantumComputation(3, 1)
    model, log, nxt = [], [], 0
    if comp and s.coin():
        ks = list(range(s.below(6)))
        q = CompoundOperation([mk(k, s) for k in ks])
        model, nxt = ks, len(ks)
    nontriv = 0
    for _ in range(s.sized(3, 25)):
        k = s.below(12)
        n = len(model)
        if k <= 2:
            q.append(mk(nxt, s))
            model.append(nxt)
            log.append("append")
            nxt += 1
        elif k == 3:
            i = s.range(-n - 2, n + 2)
            q.insert(i, mk(nxt, s)) if s.coin() else q.insert(idx=i, op=mk(nxt, s))
            model.insert(i, nxt)
            log.append(f"insert {i}")
            nxt += 1
        elif k == 4:
            i = s.range(-n - 1, n)
            log.append(f"set {i}")
            if -n <= i < n:
                q[i] = mk(nxt, s)
                model[i] = nxt
                nxt += 1
            else:
                def f(): q[i] = mk(nxt)
                r = raises(f, IndexError)
                if r: fail(f"{log}: assigning index {i} of {n}: {r}")
        elif k == 5:
            i = s.range(-n - 1, n)
            log.append(f"del {i}")
            if -n <= i < n:
                del q[i]
                del model[i]
            else:
                def f(): del q[i]
                r = raises(f, IndexError)
                if r: fail(f"{log}: deleting index {i} of {n}: {r}")
        elif k == 6:
            sl = rnd_slice(s, n)
            log.append(f"del {sl}")
            del q[sl]
            if 0 < len(model[sl]) and (sl.step or 1) != 1: nontriv += 1
            del model[sl]
        elif k in (7, 8):
            sl = rnd_slice(s, n)
            m = len(range(*sl.indices(n)))
            if s.coin():
                new = list(range(nxt, nxt + m))
                q[sl] = [mk(x, s) for x in new]
                nxt += m
                log.append(f"{sl} = new")
            else:  # from the sequence itself
                idx = [s.below(n) for _ in range(m)]
                q[sl] = [q[j] for j in idx]
                new = [model[j] for j in idx]
                log.append(f"{sl} = own {idx}")
                if m: nontriv += 1
            for j, x in zip(range(*sl.indices(n)), new): model[j] = x
        elif k == 9:
            sl = rnd_slice(s, n)
            m = len(range(*sl.indices(n)))
            log.append(f"{sl} = {m + 1} operations")

            def f(): q[sl] = [mk(nxt + 1000)] * (m + 1)
            r = raises(f, Exception)
            if r: fail(f"{log}: an assignment of the wrong length {r}")
        elif k == 10:
            if s.chance(1, 6):
                q.clear()
                model = []
                log.append("clear")
                if not comp: q = QuantumComputation(3, 1)
            elif not comp:
                q.reverse()
                model.reverse()
                log.append("reverse")
        elif n:
            # write access through the element; ownership: the element is a copy of what was assigned
            i = s.range(-n, n - 1)
            op = q[i]
            if type(op) is StandardOperation:
                op.parameter = [0.001 * (nxt + 1)]
                model[i] = nxt
                nxt += 1
                log.append(f"write through {i}")
        require(len(q) == len(model), f"{log}: length {len(q)}, expected {len(model)}")
        got = [key(o) for o in q]
        require(got == model, f"{log}: {got}, expected {model}")
        n = len(model)
        sl = rnd_slice(s, n)
        got = [key(o) for o in q[sl]]
        require(got == model[sl], f"{log}: [{sl}] is {got}, expected {model[sl]}")
        i = s.range(-n - 1, n)
        if -n <= i < n: require(key(q[i]) == model[i], f"{log}: [{i}] is {key(q[i])}, expected {model[i]}")
        else:
            r = raises(lambda: q[i], IndexError)
            if r: fail(f"{log}: index {i} of {n}: {r}")
        if comp: require(q.empty() == (n == 0), "empty")
        else: require(q.num_ops == n, "num_ops")
        require([key(o) for o in reversed(q)] == model[::-1], f"{log}: reversed")
        if n:
            require(q[0] in q and mk(model[0] + 5000) not in q, "in")
            require(3 not in q and (q[0] == 3) is False and (q[0] != "x") is True, "comparison with another type")
    ctx.desc(("compound operation" if comp else "circuit") + f": {log}\n")
    ctx.nontrivial = nontriv >= 1 and len(model) > 1


# ------------------------------------------------------------------ permutations
def permutation(s, ctx):
    log = []
    ini = {s.below(8): s.below(8) for _ in range(s.below(5))}
    k = s.below(3)
    p = Permutation(ini) if k == 0 else Permutation(permutation=ini) if k == 1 else Permutation()
    m = dict(ini) if k < 2 else {}
    log.append(f"Permutation({m})")
    for _ in range(s.sized(1, 12)):
        k = s.below(8)
        a = s.below(8)
        if k <= 2:
            b = s.below(8)
            p[a] = b
            m[a] = b
            log.append(f"[{a}] = {b}")
        elif k == 3:
            log.append(f"del {a}")
            if a in m:
                del p[a]
                del m[a]
            else:
                def f(): del p[a]
                r = raises(f, KeyError)
                if r: fail(f"{log}: deleting the missing key {a}: {r}")
        elif k == 4 and s.chance(1, 5):
            p.clear()
            m = {}
            log.append("clear")
        elif k == 5:
            # a short-lived copy
            it = iter(Permutation(m))
            gc.collect()
            require(sorted(it) == sorted(m), f"{log}: iterating over a temporary")
            it = Permutation(m).items()
            gc.collect()
            require(dict(it) == m, f"{log}: items of a temporary")
        elif k == 6 and m:
            t = [s.pick(sorted(m)) for _ in range(s.below(4))]
            require(p.apply(t) == [m[x] for x in t] and p.apply(targets=t) == [m[x] for x in t], f"{log}: apply({t}) is {p.apply(t)}")
            c = {(x, s.coin()) for x in t}
            got = p.apply({Control(x, Control.Type.Pos if b else Control.Type.Neg) for x, b in c}) if c else set()
            got = {(x.qubit, x.type_ == Control.Type.Pos) for x in got}
            require(got == {(m[x], b) for x, b in c}, f"{log}: apply to the controls {c} is {got}")
        require(len(p) == len(m), f"{log}: length {len(p)}")
        require(sorted(p) == sorted(m) and list(p) == sorted(m), f"{log}: keys {list(p)}")
        require(dict(p.items()) == m, f"{log}: items {dict(p.items())}")
        for x in range(8):
            require((x in p) == (x in m), f"{log}: {x} in p")
            if x in m: require(p[x] == m[x], f"{log}: [{x}] is {p[x]}")
            else:
                r = raises(lambda: p[x], KeyError)
                if r: fail(f"{log}: missing key {x}: {r}")
        o = Permutation(dict(reversed(list(m.items()))))
        require(p == o and not p != o and hash(p) == hash(o), f"{log}: equality with a copy")
        o[9] = 9
        require(p != o and not p == o, f"{log}: equality with another permutation")
        require(eval(repr(p), {"Permutation": Permutation}) == p and eval(str(p)) == m, f"{log}: text {p!r} {p}")
    ctx.desc("; ".join(log) + "\n")
    ctx.nontrivial = len(log) > 3


# ------------------------------------------------------------------ operations
def mk_std(s, g, p, ts, cs):
    T = getattr(OpType, g)
    c = {ctrl_obj(q, b, s) for q, b in cs}
    one = Control(cs[0][0], Control.Type.Pos if cs[0][1] else Control.Type.Neg) if len(cs) == 1 else None
    k = s.below(3)
    tail = {"op_type": T} | ({"params": p} if p or s.coin() else {})
    if k == 0 and len(ts) == 2 and cs: return StandardOperation(controls=c, target0=ts[0], target1=ts[1], **tail)
    t = ts[0] if len(ts) == 1 and s.coin() else list(ts)
    tn = "target" if isinstance(t, int) else "targets"
    if one is not None and s.coin():
        return StandardOperation(one, t, T, p) if s.coin() else StandardOperation(**{"control": one, tn: t}, **tail)
    if cs: return StandardOperation(c, t, T, p) if s.coin() else StandardOperation(**{"controls": c, tn: t}, **tail)
    return StandardOperation(t, T, p) if s.coin() else StandardOperation(**{tn: t}, **tail)


def op_matrix(n, g, p, ts, cs):
    sim = Sim(n, 0)
    ref_gate(sim, g, p, ts, cs)
    return sim.branches[0][1].reshape(1 << n, -1)


def operations(s, ctx):
    n = s.range(1, 4)
    g, p, ts, cs = gate(s, n)
    op = mk_std(s, g, p, ts, cs)
    log = [f"{n} qubits: {g} {p} {ts} {cs}"]
    pkg = dd.DDPackage(n)

    def check(op, g, p, ts, cs, adj=False):
        want = op_matrix(n, g, p, ts, cs)
        if adj: want = want.conj().T
        require({(c.qubit, c.type_ == Control.Type.Pos) for c in op.controls} == set(cs), f"{log}: controls {op.controls}")
        require(op.num_controls == len(cs) and op.is_controlled() == bool(cs), f"{log}: num_controls")
        require(op.num_targets == len(ts) and sorted(op.targets) == sorted(ts), f"{log}: targets {op.targets}")
        used = set(ts) | {q for q, _ in cs}
        require(op.get_used_qubits() == used, f"{log}: used qubits {op.get_used_qubits()}")
        require(all(op.acts_on(q) == (q in used) for q in range(n + 2)), f"{log}: acts_on")
        require(op.is_unitary() and op.is_standard_operation() and not op.is_compound_operation() and not op.is_non_unitary_operation() and not op.is_classic_controlled_operation() and not op.is_symbolic_operation(), f"{log}: kind")
        got = np.array(pkg.from_operation(op).get_matrix(n))
        require(np.abs(got - want).max() < 1e-7, f"{log}: from_operation differs from the reference")
        got = np.array(pkg.from_operation(operation=op, invert=True).get_matrix(n))
        require(np.abs(got - want.conj().T).max() < 1e-7, f"{log}: from_operation(invert=True) is not the inverse")
        b = Sim(n, 0)
        run_mqt(b, [op])
        require(np.abs(b.branches[0][1].reshape(1 << n, -1) - want).max() < 1e-7, f"{log}: type, parameters and targets {op!r} differ from the reference")
    check(op, g, p, ts, cs)
    adj = False
    for _ in range(s.sized(1, 8)):
        free = [q for q in range(n) if q not in ts and q not in [c for c, _ in cs]]
        k = s.below(7)
        if k == 0 and free:
            q, b = s.pick(free), s.coin()
            op.add_control(ctrl_obj(q, b, s)) if s.coin() else op.add_control(control=ctrl_obj(q, b, s))
            cs = [*cs, (q, b)]
            log.append(f"add control {q} {b}")
        elif k == 1 and cs:
            c = s.pick(cs)
            op.remove_control(ctrl_obj(*c, s)) if s.coin() else op.remove_controls({ctrl_obj(*c, s)})
            cs = [x for x in cs if x != c]
            log.append(f"remove control {c}")
        elif k == 2:
            op.clear_controls()
            cs = []
            log.append("clear controls")
        elif k == 3 and free:
            new = [(q, s.coin()) for q in s.sample(free, s.range(1, len(free)))]
            if s.coin():
                op.add_controls({ctrl_obj(q, b, s) for q, b in new})
                cs = cs + new
            else:
                op.controls = {ctrl_obj(q, b, s) for q, b in new}
                cs = new
            log.append(f"controls {cs}")
        elif k == 4:
            inv = op.get_inverted()
            require(op.get_inverted() is not op, "get_inverted returns the operation itself")
            check(op, g, p, ts, cs, adj)
            op = inv
            adj = not adj
            log.append("get_inverted")
        elif k == 5:
            op.invert()
            adj = not adj
            log.append("invert")
        elif k == 6 and len(op.targets) == 1 and free:
            t = s.pick(free)
            op.targets = [t]
            ts = [t]
            log.append(f"targets {ts}")
        check(op, g, p, ts, cs, adj)
    # equality and hash
    if not any("inv" in x for x in log):
        other = mk_std(s, g, p, ts, cs)
        require(op == other and not op != other and hash(op) == hash(other), f"{log}: not equal to an operation built the same way: {op!r} {other!r}")
    t2 = [n + 3] + ts[1:]
    require(mk_std(s, g, p, t2, cs) != mk_std(s, g, p, ts, cs), f"{log}: equal to an operation on other qubits")
    if cs:
        c2 = [(cs[0][0], not cs[0][1]), *cs[1:]]
        require(mk_std(s, g, p, ts, c2) != mk_std(s, g, p, ts, cs), f"{log}: equal to an operation with another control polarity")
    a, b = Control(s.below(3), s.pick([Control.Type.Pos, Control.Type.Neg])), Control(s.below(3), s.pick([Control.Type.Pos, Control.Type.Neg]))
    same = a.qubit == b.qubit and a.type_ == b.type_
    require((a == b) == same and (a != b) == (not same) and (not same or hash(a) == hash(b)) and (a == "c") is False and len({a, b}) == (1 if same else 2), f"controls {a!r} {b!r}")
    ctx.desc("; ".join(log) + "\n")
    ctx.nontrivial = len(log) > 2


# ------------------------------------------------------------------ symbolic
VARS = ["x", "y", "z"]


class Lin:
    def __init__(self, t=None, c=0.0):
        self.t, self.c = dict(t or {}), float(c)

    def ev(self, a):
        return self.c + sum(k * a[v] for v, k in self.t.items())

    def add(self, o, f=1):
        t = dict(self.t)
        for v, k in o.t.items(): t[v] = t.get(v, 0) + f * k
        return Lin(t, self.c + f * o.c)

    def mul(self, f):
        return Lin({v: k * f for v, k in self.t.items()}, self.c * f)


def symbolic(s, ctx):
    log = []
    num = lambda: s.pick([1, -1, 2, 0.5, -2.5, 3, 0.25, -0.75])  # noqa: E731
    # every item: (kind, object, model)
    items = []

    def leaf():
        v, k = s.pick(VARS), num()
        if s.coin():
            return ("term", Term(Variable(v), k) if s.coin() else Term(variable=Variable(name=v), coefficient=k), Lin({v: k}))
        c = num()
        j = s.below(3)
        if j == 0: return ("expr", Expression(c), Lin({}, c))
        if j == 1: return ("expr", Expression(Term(Variable(v), k), c), Lin({v: k}, c))
        w, l = s.pick(VARS), num()
        return ("expr", Expression([Term(Variable(v), k), Term(Variable(w), l)], c), Lin({v: k}, c).add(Lin({w: l})))
    for _ in range(3): items.append(leaf())
    for _ in range(s.sized(2, 14)):
        if s.chance(1, 4): items.append(leaf())
        ka, a, ma = s.pick(items)
        kb, b, mb = s.pick(items)
        f = num()
        k = s.below(8)
        if k == 0 and "expr" in (ka, kb): items.append(("expr", a + b, ma.add(mb))); log.append("+")
        elif k == 1 and "expr" in (ka, kb): items.append(("expr", a - b, ma.add(mb, -1))); log.append("-")
        elif k == 2: items.append((ka, a * f, ma.mul(f))); log.append(f"* {f}")
        elif k == 3: items.append((ka, f * a, ma.mul(f))); log.append(f"{f} *")
        elif k == 4: items.append((ka, a / f, ma.mul(1 / f))); log.append(f"/ {f}")
        elif k == 5 and ka == "expr": items.append(("expr", a + f, ma.add(Lin({}, f)))); log.append(f"+ {f}")
        elif k == 6 and ka == "expr": items.append(("expr", f + a, ma.add(Lin({}, f)))); log.append(f"{f} +")
        elif k == 7 and ka == "expr":
            if s.coin(): items.append(("expr", a - f, ma.add(Lin({}, -f)))); log.append(f"- {f}")
            else: items.append(("expr", f - a, ma.mul(-1).add(Lin({}, f)))); log.append(f"{f} -")
        asg = {v: s.pick([0.5, -1.25, 2, 3.5, -0.1]) for v in VARS}
        for kind, o, m in items:
            got = o.evaluate({Variable(v): x for v, x in asg.items()})
            require(abs(got - m.ev(asg)) < 1e-7 * max(1, abs(got)), f"{log}: {o} is {got} for {asg}, expected {m.ev(asg)}")
            if kind == "expr":
                require(len(o) == o.num_terms() == len(o.terms) and [t.variable.name for t in o] == [o[i].variable.name for i in range(len(o))], f"{log}: terms of {o}")
                require({v.name for v in o.variables} == {t.variable.name for t in o.terms}, f"{log}: variables of {o}")
                require(abs(o.constant - m.c) < 1e-7 * max(1, abs(m.c)), f"{log}: constant of {o}")
                require(o.is_constant() == (len(o) == 0), f"{log}: is_constant of {o}")
                if raises(lambda: o[len(o)], IndexError): fail("index past the end")
    e = items[-1][1]
    if items[-1][0] == "expr":
        it = iter(items[-1][1] * 1.0)
        gc.collect()
        require(len([t.coefficient for t in it]) == len(e), "iterating over a temporary")
    # circuits
    ex = [o if k == "expr" else Expression(o) for k, o, _ in items if True]
    qc = QuantumComputation(2)
    i = s.below(len(items))
    kind, o, m = items[i]
    par = ex[i]
    g = s.pick(["rx", "ry", "rz", "p", "rzz"])
    call(qc, s, g, [par, 0] if g != "rzz" else [par, 0, 1])
    asg = {v: s.pick([0.5, -1.25, 2, 3.5]) for v in VARS}
    A = {Variable(v): x for v, x in asg.items()}
    free = all(abs(c) < 1e-12 for c in m.t.values())
    if not free or all(abs(c) > 1e-9 for c in m.t.values()):
        if any(abs(c) > 1e-9 for c in m.t.values()):
            require(not qc.is_variable_free(), "is_variable_free with a symbolic parameter")
            require({v.name for v in qc.variables} >= {v for v, c in m.t.items() if abs(c) > 1e-9}, "variables of the circuit")
    inst = qc.instantiate(assignment=A)
    require(inst.is_variable_free(), "variables left after instantiate")
    b = Sim(2, 0)
    run_mqt(b, inst)
    r = Sim(2, 0)
    ref_gate(r, g, [m.ev(asg)], [0] if g != "rzz" else [0, 1], [])
    msg = compare(r, b, f"{g}({par}) with {asg}")
    if msg: fail(msg)
    qc.instantiate_inplace(A)
    b = Sim(2, 0)
    run_mqt(b, qc)
    msg = compare(r, b, f"in place: {g}({par}) with {asg}")
    if msg: fail(msg)
    v, w = Variable(s.pick(VARS)), Variable(s.pick(VARS))
    require((v == w) == (v.name == w.name) and (v < w) == (v.name < w.name) or v.name != w.name, "variables")
    require(hash(Variable("x")) == hash(Variable("x")) and Variable("x") != Variable("y"), "variables")
    ctx.desc("; ".join(log) + f"; {e}\n")
    ctx.nontrivial = len(log) > 2


# ------------------------------------------------------------------ decision diagrams
def rnd_vec(s, n):
    k = s.below(5)
    N = 1 << n
    if k == 0:
        v = np.zeros(N, dtype=complex)
        v[s.below(N)] = s.pick([1, 1j, -1])
    elif k == 1:
        rng = np.random.default_rng(s.below(1 << 20))
        v = rng.normal(size=N) + 1j * rng.normal(size=N)
        v /= np.linalg.norm(v)
    elif k == 2:
        v = np.array([s.pick([0, 1, -1, 1j, 0.5, -0.5j]) for _ in range(N)], dtype=complex)
        if not np.abs(v).max(): v[0] = 1
        v /= np.linalg.norm(v)
    elif k == 3:
        v = np.ones(1, dtype=complex)
        for _ in range(n): v = np.kron(s.pick([np.array([1, 0]), np.array([0, 1]), np.array([1, 1]) / math.sqrt(2), np.array([1, -1j]) / math.sqrt(2)]), v)
    else:
        v = np.array([s.real(-2, 2) + 1j * s.real(-2, 2) for _ in range(N)])
    return v


def rnd_mat(s, n):
    k = s.below(4)
    N = 1 << n
    rng = np.random.default_rng(s.below(1 << 20))
    if k == 0: return np.eye(N, dtype=complex) * s.pick([1, 1j, 0.5])
    if k == 1: return rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
    if k == 2: return np.diag(np.array([s.pick([1, -1, 1j, 0, 0.5]) for _ in range(N)], dtype=complex)) + (rng.integers(0, 2, size=(N, N)) if s.coin() else 0)
    m = np.ones((1, 1), dtype=complex)
    for _ in range(n): m = np.kron(s.pick([np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]]), np.array([[1, 1], [1, -1]]) / math.sqrt(2)]), m)
    return m


def layout_of(s, a):
    """the same values with another memory layout or type"""
    k = s.below(5)
    if k == 1: return np.asfortranarray(a)
    if k == 2: return np.repeat(a, 2, axis=0)[::2]
    if k == 3: return a[::-1].copy()[::-1]
    if k == 4 and np.abs(a.imag).max() == 0: return a.real.copy()
    return a


def dds(s, ctx):
    n = s.range(1, 3)
    extra = s.below(3)
    p = dd.DDPackage(n + extra) if s.coin() else dd.DDPackage(num_qubits=n + extra)
    require(p.max_qubits == n + extra, "max_qubits")
    N = 1 << n
    vecs, mats, log = [], [], []
    TOL = 1e-7

    def addv(e, v, what, ref=True):
        if ref: p.inc_ref_vec(e)
        vecs.append((e, np.asarray(v, dtype=complex)))
        log.append(what)

    def addm(e, m, what):
        p.inc_ref_mat(e)
        mats.append((e, np.asarray(m, dtype=complex)))
        log.append(what)
    H = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
    BS = {"zero": [1, 0], "one": [0, 1], "plus": [1 / math.sqrt(2)] * 2, "minus": [1 / math.sqrt(2), -1 / math.sqrt(2)], "right": [1 / math.sqrt(2), 1j / math.sqrt(2)], "left": [1 / math.sqrt(2), -1j / math.sqrt(2)]}

    def checkv(e, v, what):
        got = np.array(e.get_vector())
        if e.is_zero_terminal(): got = np.zeros_like(v)  # the number of qubits is not known
        require(got.shape == v.shape and np.abs(got - v).max() < TOL * max(1, np.abs(v).max()), f"{log}: {what}: {got} expected {v}")

    def checkm(e, m, what):
        got = np.array(e.get_matrix(n), copy=False) if s.coin() else np.array(e.get_matrix(num_qubits=n))
        require(got.shape == m.shape and np.abs(got - m).max() < TOL * max(1, np.abs(m).max()), f"{log}: {what}: {got} expected {m}")
    steps = s.sized(3, 18)
    for _ in range(steps):
        k = s.below(22)
        if k == 0:
            v = np.zeros(N); v[0] = 1
            addv(p.zero_state(n), v, "zero_state", False)
        elif k == 1:
            b = [s.coin() for _ in range(n)]
            v = np.zeros(N); v[sum(1 << i for i in range(n) if b[i])] = 1
            addv(p.computational_basis_state(n, b) if s.coin() else p.computational_basis_state(num_qubits=n, state=b), v, f"basis {b}", False)
        elif k == 2:
            b = [s.pick(sorted(BS)) for _ in range(n)]
            v = np.ones(1)
            for x in b: v = np.kron(BS[x], v)
            addv(p.basis_state(n, [getattr(dd.BasisStates, x) for x in b]), v, f"basis {b}", False)
        elif k == 3:
            v = np.zeros(N)
            if s.coin():
                v[0] = v[-1] = 1 / math.sqrt(2)
                addv(p.ghz_state(n), v, "ghz", False)
            else:
                for i in range(n): v[1 << i] = 1 / math.sqrt(n)
                addv(p.w_state(n), v, "w", False)
        elif k in (4, 5):
            v = rnd_vec(s, n)
            w = layout_of(s, v)
            addv(p.from_vector(w) if s.coin() else p.from_vector(state=w), v, f"from_vector({v.tolist()})", False)
        elif k == 6:
            m = rnd_mat(s, n)
            w = layout_of(s, m)
            addm(p.from_matrix(w) if s.coin() else p.from_matrix(matrix=w), m, f"from_matrix({m.tolist()})")
        elif k == 7:
            g, par, ts, cs = gate(s, n)
            U = np.asarray(gate_matrix(g, par))
            W = layout_of(s, U.astype(complex))
            c = {ctrl_obj(q, b, s) for q, b in cs}
            if len(ts) == 1:
                if not cs: e = p.single_qubit_gate(W, ts[0]) if s.coin() else p.single_qubit_gate(matrix=W, target=ts[0])
                elif len(cs) == 1 and s.coin(): e = p.controlled_single_qubit_gate(W, ctrl_obj(*cs[0], s), ts[0])
                else: e = p.multi_controlled_single_qubit_gate(matrix=W, controls=c, target=ts[0])
            else:
                if not cs: e = p.two_qubit_gate(W, *ts) if s.coin() else p.two_qubit_gate(matrix=W, target0=ts[0], target1=ts[1])
                elif len(cs) == 1 and s.coin(): e = p.controlled_two_qubit_gate(W, ctrl_obj(*cs[0], s), *ts)
                else: e = p.multi_controlled_two_qubit_gate(matrix=W, controls=c, target0=ts[0], target1=ts[1])
            addm(e, op_matrix(n, g, par, ts, cs), f"gate {g} {par} {ts} {cs}")
        elif k == 8:
            g, par, ts, cs = gate(s, n)
            op = mk_std(s, g, par, ts, cs)
            if s.coin() and n > 1:
                pm = s.shuffle(range(n))
                # a permutation relabels the qubits of the operation
                if vecs:
                    e, v = s.pick(vecs)
                    p.inc_ref_vec(e)
                    r = p.apply_unitary_operation(e, op, Permutation(dict(enumerate(pm))))
                    addv(r, op_matrix(n, g, par, [pm[t] for t in ts], [(pm[q], b) for q, b in cs]) @ v, f"apply {g} {par} {ts} {cs} permuted {pm}", False)
            elif s.coin() and vecs:
                e, v = s.pick(vecs)
                p.inc_ref_vec(e)
                addv(p.apply_unitary_operation(vec=e, operation=op), op_matrix(n, g, par, ts, cs) @ v, f"apply {g} {par} {ts} {cs}", False)
            else:
                inv = s.coin()
                M = op_matrix(n, g, par, ts, cs)
                addm(p.from_operation(op, inv), M.conj().T if inv else M, f"from_operation {g} {par} {ts} {cs} {inv}")
        elif k == 9 and len(vecs) > 0:
            (a, v), (b, w) = s.pick(vecs), s.pick(vecs)
            addv(p.vector_add(a, b), v + w, "vector_add")
        elif k == 10 and mats:
            (a, v), (b, w) = s.pick(mats), s.pick(mats)
            if np.abs(w + v).max() < 1e3: addm(p.matrix_add(lhs=a, rhs=b), v + w, "matrix_add")
        elif k == 11 and vecs:
            a, v = s.pick(vecs)
            addv(p.conjugate(a), v.conj(), "conjugate")
        elif k == 12 and mats:
            a, v = s.pick(mats)
            addm(p.conjugate_transpose(mat=a), v.conj().T, "conjugate_transpose")
        elif k == 13 and mats and vecs:
            (a, m), (b, v) = s.pick(mats), s.pick(vecs)
            if np.abs(m @ v).max() < 1e3: addv(p.matrix_vector_multiply(mat=a, vec=b), m @ v, "matrix_vector_multiply")
        elif k == 14 and mats:
            (a, m), (b, v) = s.pick(mats), s.pick(mats)
            if np.abs(m @ v).max() < 1e3: addm(p.matrix_multiply(lhs=a, rhs=b), m @ v, "matrix_multiply")
        elif k == 15 and vecs:
            (a, v), (b, w) = s.pick(vecs), s.pick(vecs)
            want = np.vdot(v, w)
            got = p.inner_product(lhs=a, rhs=b)
            require(abs(got - want) < TOL * max(1, abs(want), np.abs(v).max() * np.abs(w).max()), f"{log}: inner product {got}, expected {want}")
            got = p.fidelity(lhs=a, rhs=b)
            require(abs(got - abs(want) ** 2) < 10 * TOL * max(1, abs(want) ** 2), f"{log}: fidelity {got}, expected {abs(want) ** 2}")
        elif k == 16 and vecs and mats:
            (a, v), (b, m) = s.pick(vecs), s.pick(mats)
            hm = m + m.conj().T
            if np.abs(hm @ v).max() < 1e3:
                h = p.from_matrix(hm)
                want = np.vdot(v, hm @ v).real
                got = p.expectation_value(observable=h, state=a)
                require(abs(got - want) < 10 * TOL * max(1, abs(want), np.abs(hm).max() * np.linalg.norm(v) ** 2), f"{log}: expectation value {got}, expected {want}")
        elif k == 17 and vecs and extra:
            a, v = s.pick(vecs)
            j = s.range(1, extra)
            w = rnd_vec(s, j)
            b = p.from_vector(w)
            top = s.coin()
            r = p.vector_kronecker(top=a, bottom=b, bottom_num_qubits=j) if top else p.vector_kronecker(b, a, n)
            want = np.kron(v, w) if top else np.kron(w, v)
            got = np.array(r.get_vector())
            require(got.shape == want.shape and np.abs(got - want).max() < TOL * max(1, np.abs(want).max()), f"{log}: vector_kronecker with {w} (as {'bottom' if top else 'top'}): {got}, expected {want}")
        elif k == 18 and mats and extra:
            a, m = s.pick(mats)
            j = s.range(1, extra)
            w = rnd_mat(s, j)
            b = p.from_matrix(w)
            top = s.coin()
            r = p.matrix_kronecker(top=a, bottom=b, bottom_num_qubits=j) if top else p.matrix_kronecker(b, a, n)
            want = np.kron(m, w) if top else np.kron(w, m)
            got = np.array(r.get_matrix(n + j))
            require(np.abs(got - want).max() < TOL * max(1, np.abs(want).max()), f"{log}: matrix_kronecker with {w.tolist()} (as {'bottom' if top else 'top'})")
        elif k == 19 and mats:
            a, m = s.pick(mats)
            got, want = p.trace(mat=a, num_qubits=n), np.trace(m) / N
            require(abs(got - want) < TOL * max(1, np.abs(m).max()), f"{log}: trace {got}, expected {want}")
            el = [s.coin() for _ in range(n)]
            r = p.partial_trace(mat=a, eliminate=el)
            t = m.reshape((2,) * (2 * n))
            keep = [i for i in reversed(range(n)) if not el[i]]
            row, col = list(range(n)), list(range(n, 2 * n))
            for i in range(n):
                if el[n - 1 - i]: col[i] = row[i]
            t = np.einsum(t, row + col, [row[n - 1 - i] for i in keep] + [col[n - 1 - i] for i in keep])
            K = 1 << len(keep)
            want = t.reshape(K, K) / (N // K)
            got = np.array(r.get_matrix(len(keep))).reshape(K, K)
            require(np.abs(got - want).max() < TOL * max(1, np.abs(m).max()), f"{log}: partial trace over {el}: {got}, expected {want}")
        elif k == 20 and vecs:
            i = s.below(len(vecs))
            e, v = vecs[i]
            if abs(np.linalg.norm(v) - 1) < 1e-9:
                if s.coin():
                    q = s.below(n)
                    p.inc_ref_vec(e)
                    fresh = p.vector_add(e, p.from_vector(np.zeros(N)))  # another edge object: measuring changes its argument
                    p.inc_ref_vec(fresh)
                    r = p.measure_collapsing(fresh, q)
                    require(r in ("0", "1"), f"measurement result {r}")
                    mask = np.array([(x >> q & 1) == int(r) for x in range(N)])
                    w = np.where(mask, v, 0)
                    pr = np.linalg.norm(w)
                    require(pr > 1e-6, f"{log}: measuring qubit {q} gave the impossible result {r}")
                    got = np.array(fresh.get_vector())
                    ph = np.vdot(w / pr, got)
                    require(abs(abs(ph) - 1) < 1e-6 and abs(np.linalg.norm(got) - 1) < 1e-6, f"{log}: state after measuring {r} on qubit {q}: {got}, expected {w / pr}")
                    checkv(e, v, "a measurement changed another state")
                else:
                    r = p.measure_all(e)
                    require(len(r) == n and abs(v[int(r, 2)]) > 1e-6, f"{log}: measure_all gave the impossible result {r}")
                    checkv(e, v, "measure_all without collapse changed the state")
        elif k == 21:
            if s.coin(): p.garbage_collect(True)
            else: p.garbage_collect(force=s.coin())
            log.append("garbage_collect")
            if s.chance(1, 3) and len(vecs) > 1:
                e, _ = vecs.pop(s.below(len(vecs)))
                p.dec_ref_vec(e)
                log.append("drop a vector")
            if s.chance(1, 3) and len(mats) > 1:
                e, _ = mats.pop(s.below(len(mats)))
                p.dec_ref_mat(mat=e)
                log.append("drop a matrix")
        # everything alive keeps its value
        for i, (e, v) in enumerate(vecs): checkv(e, v, f"vector {i}")
        for i, (e, m) in enumerate(mats): checkm(e, m, f"matrix {i}")
    ctx.desc(f"{n} qubits of {n + extra}: " + "; ".join(x[:120] for x in log) + "\n")
    ctx.nontrivial = len(vecs) + len(mats) > 3
    for e, v in vecs:
        i = s.below(N)
        require(abs(e[i] - v[i]) < TOL * max(1, np.abs(v).max()) and abs(e.get_amplitude(n, "".join(str(i >> j & 1) for j in range(n))) - v[i]) < TOL * max(1, np.abs(v).max()), f"{log}: amplitude {i}: {e[i]}, expected {v[i]}")
        require(e.is_zero_terminal() == (np.abs(v).max() < 1e-9) or np.abs(v).max() < 1e-5, "is_zero_terminal")
    for e, m in mats:
        i, j = s.below(N), s.below(N)
        path = "".join(str(2 * (i >> b & 1) + (j >> b & 1)) for b in range(n))
        require(abs(e.get_entry(num_qubits=n, row=i, col=j) - m[i, j]) < TOL * max(1, np.abs(m).max()) and abs(e.get_entry_by_path(n, path) - m[i, j]) < TOL * max(1, np.abs(m).max()), f"{log}: entry {i} {j}: {e.get_entry(n, i, j)}, expected {m[i, j]}")
        ph = m[0, 0]
        isid = abs(abs(ph) - 1) < 1e-9 and np.abs(m - ph * np.eye(N)).max() < 1e-12
        noid = np.abs(m - ph * np.eye(N)).max() > 1e-4 or abs(abs(ph) - 1) > 1e-4
        if isid: require(e.is_identity() and e.is_identity(up_to_global_phase=True) and e.is_identity(False) == (abs(ph - 1) < 1e-9), f"{log}: is_identity of {m}")
        if noid and np.abs(m - ph * np.eye(N)).max() > 1e-4: require(not e.is_identity() and not e.is_identity(False), f"{log}: is_identity of {m}")
    # canonicity is visible through sizes: equal values have equal diagrams
    del p
    gc.collect()
    for i, (e, v) in enumerate(vecs): checkv(e, v, f"vector {i} after the package variable is gone")
    for i, (e, m) in enumerate(mats): checkm(e, m, f"matrix {i} after the package variable is gone")


# ------------------------------------------------------------------ registers and layouts
def registers(s, ctx):
    qc = QuantumComputation()
    log, nq, nc = [], 0, 0
    q, c, anc = {}, {}, set()
    for i in range(s.range(1, 5)):
        k, sz = s.below(3), s.range(1, 3)
        if k == 0 and not anc:
            r = qc.add_qubit_register(sz, f"q{i}") if s.coin() else qc.add_qubit_register(n=sz, name=f"q{i}")
            q[f"q{i}"] = (nq, sz)
            require((r.name, r.start, r.size, r.end) == (f"q{i}", nq, sz, nq + sz - 1), f"{r!r}")
            require([r[j] for j in range(sz)] == list(range(nq, nq + sz)) and all((x in r) == (nq <= x < nq + sz) for x in range(12)), f"{r!r}")
            if raises(lambda: r[sz], IndexError): fail(f"{r!r}[{sz}]: {raises(lambda: r[sz], IndexError)}")
            nq += sz
            log.append(f"qubits {sz}")
        elif k == 1:
            r = qc.add_classical_register(sz, f"c{i}")
            c[f"c{i}"] = (nc, sz)
            require((r.name, r.start, r.size, r.end) == (f"c{i}", nc, sz, nc + sz - 1), f"{r!r}")
            require([r[j] for j in range(sz)] == list(range(nc, nc + sz)) and all((x in r) == (nc <= x < nc + sz) for x in range(12)), f"{r!r}")
            nc += sz
            log.append(f"bits {sz}")
        elif k == 2:
            r = qc.add_ancillary_register(sz, f"a{i}")
            require((r.name, r.start, r.size) == (f"a{i}", nq, sz), f"{r!r}")
            anc |= set(range(nq, nq + sz))
            nq += sz
            log.append(f"ancillas {sz}")
    if not nq:
        raise Discard
    if s.coin():
        lo = s.below(nq)
        hi = s.range(lo, nq - 1)
        qc.set_circuit_qubits_ancillary(q_min=lo, q_max=hi) if s.coin() else [qc.set_circuit_qubit_ancillary(j) for j in range(lo, hi + 1)]
        anc |= set(range(lo, hi + 1))
        log.append(f"ancillary {lo}..{hi}")
    gar = set()
    if s.coin():
        lo = s.below(nq)
        hi = s.range(lo, nq - 1)
        qc.set_circuit_qubits_garbage(q_min=lo, q_max=hi) if s.coin() else [qc.set_circuit_qubit_garbage(q=j) for j in range(lo, hi + 1)]
        gar = set(range(lo, hi + 1))
        log.append(f"garbage {lo}..{hi}")
    ctx.desc("; ".join(log) + "\n")
    ctx.nontrivial = len(log) > 2
    require({n: (r.start, r.size) for n, r in qc.qregs.items()} == q, f"{log}: qregs {qc.qregs}")
    require({n: (r.start, r.size) for n, r in qc.cregs.items()} == c, f"{log}: cregs {qc.cregs}")
    require(qc.num_qubits == nq and qc.num_classical_bits == nc, f"{log}: sizes")
    require(qc.num_ancilla_qubits == len(anc) and qc.num_garbage_qubits == len(gar), f"{log}: {qc.num_ancilla_qubits} ancillas, {qc.num_garbage_qubits} garbage")
    require(qc.num_data_qubits == nq - len(anc) and qc.num_measured_qubits == nq - len(gar), f"{log}: data and measured qubits")
    require([qc.is_circuit_qubit_ancillary(j) for j in range(nq)] == [j in anc for j in range(nq)] == list(qc.ancillary), f"{log}: ancillary {qc.ancillary}")
    require([qc.is_circuit_qubit_garbage(j) for j in range(nq)] == [j in gar for j in range(nq)] == list(qc.garbage), f"{log}: garbage {qc.garbage}")
    require(dict(qc.initial_layout.items()) == {j: j for j in range(nq)}, f"{log}: initial layout")
    require(dict(qc.output_permutation.items()) == {j: j for j in range(nq) if j not in gar}, f"{log}: output permutation")
    pm = dict(enumerate(s.shuffle(range(nq))))
    qc.initial_layout = pm if s.coin() else Permutation(pm)
    require(dict(qc.initial_layout.items()) == pm, f"{log}: assigned layout")
    x, y = s.below(nq), s.below(nq)
    qc.output_permutation = Permutation({j: j for j in range(nq)})
    qc.output_permutation[x], qc.output_permutation[y] = y, x
    want = {j: j for j in range(nq)}
    want[x], want[y] = y, x
    require(dict(qc.output_permutation.items()) == want, f"{log}: writing into the output permutation")
    qc.name = "n" + str(nq)
    require(qc.name == "n" + str(nq), "name")


SUITE = {
    "property": "C91",
    "rule": "circuits with at least two gates / at least one condition / sequences with a strided or self-referential slice / more than three live diagrams; documentation: modules with documented names",
    "assumptions": ["references into a circuit are not used after the operation they refer to was deleted or replaced; arguments respect the documented preconditions (states and operators fit the package, reference counts are kept by the caller)"],
    "props": [
        Prop("documented", documented, 40, 40),
        Prop("builder", builder, 1500, 200000),
        Prop("dynamic", dynamic, 2400, 150000),
        Prop("sequence", sequence, 4000, 400000),
        Prop("permutation", permutation, 2000, 100000),
        Prop("operations", operations, 3000, 200000),
        Prop("symbolic", symbolic, 2000, 150000),
        Prop("registers", registers, 2000, 100000),
        Prop("dds", dds, 2000, 300000),
    ],
    "probes": [],
}
if __name__ == "__main__":
    sys.exit(pypbt.mainImpl(SUITE))
