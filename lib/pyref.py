"""Reference semantics for circuits, in numpy. Qubit q is bit q of a basis index."""
import cmath
import math
import numpy as np
I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)


def ei(x):
    return cmath.exp(1j * x)


def exp_pauli(P, th):
    return math.cos(th / 2) * np.eye(len(P)) - 1j * math.sin(th / 2) * P


def perm(p):
    m = np.zeros((len(p), len(p)), dtype=complex)
    for c, r in enumerate(p):
        m[r, c] = 1
    return m


def u(th, phi, lam):
    c, s = math.cos(th / 2), math.sin(th / 2)
    return np.array([[c, -ei(lam) * s], [ei(phi) * s, ei(phi + lam) * c]])


# two-target gates: the first target is the more significant bit of the matrix index
def gate_matrix(g, p):
    if g == "i": return I2
    if g == "x": return X
    if g == "y": return Y
    if g == "z": return Z
    if g == "h": return (X + Z) / math.sqrt(2)
    if g in ("s", "sdg", "t", "tdg"): return np.diag([1, ei({"s": 2, "sdg": -2, "t": 1, "tdg": -1}[g] * math.pi / 4)])
    if g == "v": return exp_pauli(X, math.pi / 2)
    if g == "vdg": return exp_pauli(X, -math.pi / 2)
    if g == "sx": return ei(math.pi / 4) * exp_pauli(X, math.pi / 2)
    if g == "sxdg": return ei(-math.pi / 4) * exp_pauli(X, -math.pi / 2)
    if g == "rx": return exp_pauli(X, p[0])
    if g == "ry": return exp_pauli(Y, p[0])
    if g == "rz": return exp_pauli(Z, p[0])
    if g == "p": return np.diag([1, ei(p[0])])
    if g == "u2": return u(math.pi / 2, p[0], p[1])
    if g == "u": return u(*p)
    if g == "swap": return perm([0, 2, 1, 3])
    if g in ("iswap", "iswapdg"):
        m = perm([0, 2, 1, 3]).astype(complex)
        m[1, 2] = m[2, 1] = 1j if g == "iswap" else -1j
        return m
    if g == "dcx": return perm([0, 3, 1, 2])
    if g == "peres": return perm([2, 3, 1, 0])
    if g == "peresdg": return perm([2, 3, 1, 0]).conj().T
    if g == "ecr": return (np.kron(X, I2) - np.kron(Y, X)) / math.sqrt(2)
    if g == "rxx": return exp_pauli(np.kron(X, X), p[0])
    if g == "ryy": return exp_pauli(np.kron(Y, Y), p[0])
    if g == "rzz": return exp_pauli(np.kron(Z, Z), p[0])
    if g == "rzx": return exp_pauli(np.kron(Z, X), p[0])
    if g == "xx_plus_yy":
        m = np.eye(4, dtype=complex)
        c, s = math.cos(p[0] / 2), math.sin(p[0] / 2)
        m[1, 1] = m[2, 2] = c
        m[1, 2], m[2, 1] = -1j * ei(p[1]) * s, -1j * ei(-p[1]) * s
        return m
    if g == "xx_minus_yy":
        m = np.eye(4, dtype=complex)
        c, s = math.cos(p[0] / 2), math.sin(p[0] / 2)
        m[0, 0] = m[3, 3] = c
        m[0, 3], m[3, 0] = -1j * ei(-p[1]) * s, -1j * ei(p[1]) * s
        return m
    raise ValueError("reference: unknown gate " + g)


ONE = ["i", "x", "y", "z", "h", "s", "sdg", "t", "tdg", "v", "vdg", "sx", "sxdg"]
ONE_P = {"rx": 1, "ry": 1, "rz": 1, "p": 1, "u2": 2, "u": 3}
TWO = ["swap", "iswap", "iswapdg", "dcx", "ecr", "peres", "peresdg"]
TWO_P = {"rxx": 1, "ryy": 1, "rzz": 1, "rzx": 1, "xx_minus_yy": 2, "xx_plus_yy": 2}


class Sim:
    """All measurement branches of a circuit, applied to every basis input at once."""

    def __init__(self, n, nc, inputs=None):
        self.n, self.nc = n, nc
        a = np.eye(1 << n, dtype=complex) if inputs is None else np.asarray(inputs, dtype=complex)
        self.branches = [([0] * nc, a.reshape((2,) * n + (a.shape[1],)))]
        self.split = False

    def ax(self, q):
        return self.n - 1 - q

    def _apply1(self, a, m, qs, ctrls):
        k = len(qs)
        if ctrls:
            sl = [slice(None)] * a.ndim
            for q, pos in ctrls:
                sl[self.ax(q)] = slice(1, 2) if pos else slice(0, 1)
            a = a.copy()
            a[tuple(sl)] = self._apply1(a[tuple(sl)], m, qs, [])
            return a
        if k == 0:
            return a * m[0, 0]
        axes = [self.ax(q) for q in reversed(qs)]
        t = np.tensordot(np.asarray(m, dtype=complex).reshape((2,) * (2 * k)), a, axes=(list(range(k, 2 * k)), axes))
        return np.moveaxis(t, list(range(k)), axes)

    def apply(self, m, qs, ctrls=()):
        """bit j of the matrix index is qubit qs[j]"""
        self.branches = [(b, self._apply1(a, m, qs, ctrls)) for b, a in self.branches]

    def phase(self, ph):
        self.branches = [(b, a * ei(ph)) for b, a in self.branches]

    def project(self, a, q, v):
        z = np.zeros_like(a)
        sl = [slice(None)] * a.ndim
        sl[self.ax(q)] = v
        z[tuple(sl)] = a[tuple(sl)]
        return z

    def measure(self, q, c):
        self.split = True
        out = []
        for b, a in self.branches:
            for v in (0, 1):
                z = self.project(a, q, v)
                if np.abs(z).max(initial=0) > 1e-12:
                    nb = list(b)
                    nb[c] = v
                    out.append((nb, z))
        self.branches = out

    def reset(self, q):
        self.split = True
        out = []
        for b, a in self.branches:
            for v in (0, 1):
                z = self.project(a, q, v)
                if np.abs(z).max(initial=0) > 1e-12:
                    out.append((b, np.flip(z, self.ax(q)) if v else z))
        self.branches = out

    def cond(self, pred, fn):
        """fn(sim) on the branches whose classical bits satisfy pred"""
        yes, no = [x for x in self.branches if pred(x[0])], [x for x in self.branches if not pred(x[0])]
        self.branches = yes
        fn(self)
        self.branches += no

    def dist(self):
        """classical outcome -> process matrix"""
        d = {}
        for b, a in self.branches:
            v = a.reshape(-1)
            r = np.outer(v, v.conj())
            k = tuple(b)
            d[k] = d[k] + r if k in d else r
        return d


def compare(a, b, what, exact=True, tol=1e-8):
    """None, or a message. exact: with the global phase."""
    if not a.split and not b.split:
        x, y = a.branches[0][1], b.branches[0][1]
        x, y = x.reshape(1 << a.n, -1), y.reshape(1 << b.n, -1)
        if x.shape != y.shape:
            return f"{what}: different sizes {x.shape} {y.shape}"
        ph = 1
        if not exact:
            w = np.vdot(y, x)
            ph = w / abs(w) if abs(w) > 1e-9 else 1
        e = np.abs(x - ph * y).max(initial=0)
        if e > tol:
            i = np.unravel_index(np.argmax(np.abs(x - ph * y)), x.shape)
            return f"{what}: unitaries differ by {e:.3g} at {tuple(int(t) for t in i)}: {x[i]:.6g} and {y[i]:.6g}"
        return None
    da, db = a.dist(), b.dist()
    for k in sorted(set(da) | set(db)):
        x, y = da.get(k), db.get(k)
        if x is None or y is None:
            z = x if y is None else y
            e = np.abs(z).max()
        else:
            if x.shape != y.shape:
                return f"{what}: different sizes"
            e = np.abs(x - y).max()
        if e > tol:
            return f"{what}: the processes for the classical outcome {k} differ by {e:.3g}"
    return None


def run_mqt(sim, ops, qmap=None):
    """Applies MQT operations (through the Python interface) to a Sim."""
    from mqt.core.ir.operations import ClassicControlledOperation, CompoundOperation, Control
    for op in ops:
        t = op.type_.name
        if isinstance(op, CompoundOperation):
            run_mqt(sim, op)
        elif isinstance(op, ClassicControlledOperation):
            run_classic(sim, op)
        elif t == "measure":
            for q, c in zip(op.targets, op.classics):
                sim.measure(q, c)
        elif t == "reset":
            for q in op.targets:
                sim.reset(q)
        elif t == "barrier":
            pass
        elif t == "gphase":
            sim.apply(np.array([[ei(op.parameter[0])]]), [], [(c.qubit, c.type_ == Control.Type.Pos) for c in op.controls])
        else:
            ctr = [(c.qubit, c.type_ == Control.Type.Pos) for c in op.controls]
            sim.apply(gate_matrix(t, op.parameter), list(reversed(op.targets)), ctr)


def run_classic(sim, op):
    from mqt.core.ir.operations import ComparisonKind as K
    reg, bit, ev, kind = op.control_register, op.control_bit, op.expected_value, op.comparison_kind

    def pred(bits):
        v = bits[bit] if reg is None else sum(bits[reg.start + i] << i for i in range(reg.size))
        return {K.eq: v == ev, K.neq: v != ev, K.lt: v < ev, K.leq: v <= ev, K.gt: v > ev, K.geq: v >= ev}[kind]
    sim.cond(pred, lambda s: run_mqt(s, [op.operation]))


def run_qiskit(sim, circ, qidx=None, cidx=None, params=None):
    """Applies a Qiskit circuit to a Sim; unitary instructions through qiskit.quantum_info.Operator."""
    from qiskit.quantum_info import Operator
    if qidx is None:
        qidx = {q: i for i, q in enumerate(circ.qubits)}
        cidx = {c: i for i, c in enumerate(circ.clbits)}
    sim.phase(float(circ.global_phase))
    for inst in circ.data:
        op, qs, cs = inst.operation, [qidx[q] for q in inst.qubits], [cidx[c] for c in inst.clbits]
        if op.name == "measure":
            sim.measure(qs[0], cs[0])
        elif op.name == "reset":
            sim.reset(qs[0])
        elif op.name in ("barrier", "delay"):
            pass
        else:
            m = None
            if not cs:
                try:
                    m = Operator(op).data
                except Exception:  # noqa: BLE001  (not unitary)
                    m = None
            if m is not None:
                sim.apply(m, qs)
            else:
                d = op.definition
                run_qiskit(sim, d, {q: qs[i] for i, q in enumerate(d.qubits)}, {c: cs[i] for i, c in enumerate(d.clbits)})
