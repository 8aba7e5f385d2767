"""Independent evaluator of circuits (no code shared with the simulator of the repo).

Semantics used: a gate given by four angles is the textbook u3 matrix times a global phase; a controlled gate applies
its base gate iff every control qubit equals its control digit; a composite gate is its definition; measurement, reset
and classically controlled gates branch. Sparse representation: {basis state (bit i = qubit i): amplitude}, so circuits on
hundreds of qubits are fine as long as few basis states are populated.
"""
import cmath
import math

import numpy as np

EPS = 1e-12
TOL = 2e-4            # angles inside the repo pass through complex64 in a few places


class SimError(Exception):
    """operation without semantics"""


def _f(x):
    try:
        return float(x)
    except TypeError:
        return complex(x).real


def u3(theta, phi, lam, gp=0.0):
    theta, phi, lam, gp = _f(theta), _f(phi), _f(lam), _f(gp)
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    g = cmath.exp(1j * gp)
    return ((c * g, -cmath.exp(1j * lam) * s * g), (cmath.exp(1j * phi) * s * g, cmath.exp(1j * (phi + lam)) * c * g))


def kind(op):
    return type(op).__name__


def mat1(op):
    """2x2 matrix of a single-qubit primitive gate"""
    if hasattr(op, "theta"):
        return u3(op.theta, op.phi, op.lam, op.global_phase)
    return None


class Branch:
    __slots__ = ("st", "cl")

    def __init__(self, st, cl):
        self.st, self.cl = st, cl


def is_controlled(op):
    return hasattr(op, "base_operation") and hasattr(op, "ctrl_state") and hasattr(op, "controls")


class Dense:
    """full vector of a small register (numpy), dict-like for readers"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, n

    def _nz(self):
        f = self.v.reshape(-1)
        ix = np.flatnonzero(np.abs(f) > 1e-9)
        return ix.tolist(), f[ix].tolist()

    def items(self):
        return zip(*self._nz())

    def values(self):
        return self._nz()[1]

    def keys(self):
        return self._nz()[0]

    __iter__ = lambda self: iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def get(self, k, d=None):
        x = complex(self.v.reshape(-1)[k])
        return x if abs(x) > 1e-9 else d

    def __contains__(self, k):
        return self.get(k) is not None

    def __getitem__(self, k):
        return complex(self.v.reshape(-1)[k])

    def ix(self, fixed):
        r = [slice(None)] * self.n
        for q, b in fixed:
            r[self.n - 1 - q] = b
        return tuple(r)


class Sparse:
    """expand: 'auto' (controlled gates by their meaning) or 'def' (controlled gates through their definition if any)"""

    def __init__(self, expand="auto", limit=1 << 16):
        self.expand, self.limit = expand, limit
        self._u = {}
        self.n = None

    def run(self, qc, init=0, cl=None, keep=None):
        """init: int basis state or dict. Returns list of Branch; qubit i of qc.qubits is bit i."""
        pos = {q: i for i, q in enumerate(qc.qubits)}
        st = dict(init) if isinstance(init, dict) else {init: 1.0 + 0j}
        cpos = {c: i for i, c in enumerate(qc.clbits)}
        br = [Branch(st, dict(cl or {}))]
        last = {}
        if getattr(self, "merge", False):
            for i, ins in enumerate(qc.data):
                for c in ins.clbits:
                    last[cpos[c]] = i
        dirty = False
        self.n = len(qc.qubits) + getattr(self, "extra", 0)
        for i, ins in enumerate(qc.data):
            br = self.ins(br, ins.op, [pos[q] for q in ins.qubits], [cpos[c] for c in ins.clbits])
            if last:
                dirty = dirty or bool(ins.clbits)
                if len(br) > 1 and (ins.clbits or (dirty and ins.op.name in ("reset", "qb_dealloc"))):
                    br = self._merge(br, last, i)
        return br

    def _merge(self, br, last, i):
        """forget measurement records that are never read again; equal states (up to a phase) then form one branch"""
        out = []
        for b in br:
            b.cl = {c: v for c, v in b.cl.items() if last.get(c, -1) > i or c in getattr(self, "keep_cl", ())}
            nb = sum(abs(v) ** 2 for v in b.st.values())
            for o in out:
                if o.cl != b.cl or len(o.st) != len(b.st):
                    continue
                no = sum(abs(v) ** 2 for v in o.st.values())
                ov = 0
                for k, v in b.st.items():
                    w = o.st.get(k)
                    if w is None:
                        break
                    ov += w.conjugate() * v
                else:
                    if abs(ov) ** 2 > (1 - 1e-12) * nb * no:
                        f = (1 + nb / no) ** .5
                        o.st = {k: v * f for k, v in o.st.items()}
                        break
            else:
                out.append(b)
        return out

    # -------------------------------------------------------------- one instruction on all branches
    def ins(self, br, op, qs, cs):
        n = op.name
        if n == "barrier" or n in ("qb_alloc", "qb_dealloc"):
            if n == "qb_dealloc" and getattr(self, "check_dealloc", False):
                m = 1 << qs[0]
                for b in br:
                    if any((k & m) and abs(v) > 1e-4 for k, v in b.st.items()):
                        raise DirtyDealloc(f"qubit {qs[0]} deallocated while not zero")
            return br
        if n == "measure":
            return self._measure(br, qs[0], cs[0])
        if n == "reset":
            out = []
            for b in self._measure(br, qs[0], None):
                m = 1 << qs[0]
                out.append(Branch({k & ~m: v for k, v in b.st.items()}, b.cl))
            return out
        if kind(op) == "ClControlledOperation":
            k = op.num_control
            want = op.ctrl_state
            out = []
            for b in br:
                if all(b.cl.get(c, 0) == int(w) for c, w in zip(cs[:k], want)):
                    out += self.ins([b], op.base_op, qs, cs[k:])
                else:
                    out.append(b)
            return out
        if cs or (op.num_clbits and op.definition is not None):
            d = op.definition
            if d is None:
                raise SimError(f"operation {n} with classical bits")
            pos = {q: p for q, p in zip(d.qubits, qs)}
            cp = {c: p for c, p in zip(d.clbits, cs)}
            for ins in d.data:
                br = self.ins(br, ins.op, [pos[q] for q in ins.qubits], [cp[c] for c in ins.clbits])
            return br
        if op.definition is not None and not hasattr(op, "theta") and not (is_controlled(op) and self.expand == "auto") and self._nonunitary(op):
            d = op.definition
            pos = {q: p for q, p in zip(d.qubits, qs)}
            for ins in d.data:
                br = self.ins(br, ins.op, [pos[q] for q in ins.qubits], [])
            return br
        return [Branch(self.gate(b.st, op, qs), b.cl) for b in br]

    def _nonunitary(self, op):
        d = op.definition
        return any(i.op.name in ("measure", "reset", "qb_dealloc") or (i.op.definition is not None and self._nonunitary(i.op)) for i in d.data)

    def _measure(self, br, q, c):
        out = []
        m = 1 << q
        for b in br:
            s0 = {k: v for k, v in b.st.items() if not k & m}
            s1 = {k: v for k, v in b.st.items() if k & m}
            for bit, s in ((0, s0), (1, s1)):
                if s and sum(abs(v) ** 2 for v in s.values()) > 1e-10:
                    cl = dict(b.cl)
                    if c is not None:
                        cl[c] = bit
                    out.append(Branch(s, cl))      # amplitudes stay un-normalised: norm^2 = probability
        return out

    # -------------------------------------------------------------- unitary part
    def gate(self, st, op, qs, ctrl=()):
        """ctrl: tuple of (bit position, value)"""
        if op.name in ("barrier", "qb_alloc", "qb_dealloc"):
            return st
        m = mat1(op)
        if m is not None:
            return self._app1(st, m, qs[0], ctrl)
        if is_controlled(op):
            pt = kind(op) != "ControlledOperation"
            usedef = op.definition is not None and (pt or self.expand == "def")
            if not usedef:
                k = len(op.ctrl_state)
                c2 = tuple(ctrl) + tuple((q, int(v)) for q, v in zip(qs[:k], op.ctrl_state))
                return self.gate(st, op.base_operation, qs[k:], c2)
        if op.definition is not None:
            d = op.definition
            pos = {q: p for q, p in zip(d.qubits, qs)}
            for ins in d.data:
                st = self.gate(st, ins.op, [pos[q] for q in ins.qubits], ctrl)
            return st
        if hasattr(op, "unitary"):
            return self._appn(st, np.asarray(op.unitary, dtype=complex), qs, ctrl)
        raise SimError(f"no semantics for operation {op.name}")

    def _app1(self, st, m, q, ctrl):
        (a, b), (c, d) = m
        if type(st) is dict and len(st) > 256 and self.n is not None and self.n <= 20 and len(st) << 6 > 1 << self.n:
            v = np.zeros(1 << self.n, dtype=complex)
            v[list(st.keys())] = list(st.values())
            st = Dense(v.reshape((2,) * self.n), self.n)
        if type(st) is Dense:
            for p, v in ctrl:
                if p == q:
                    raise SimError("control equals target")
            v = st.v.copy()
            i0, i1 = st.ix(tuple(ctrl) + ((q, 0),)), st.ix(tuple(ctrl) + ((q, 1),))
            x, y = st.v[i0], st.v[i1]
            if abs(b) < EPS and abs(c) < EPS:
                v[i0] = a * x
                v[i1] = d * y
            else:
                v[i0] = a * x + b * y
                v[i1] = c * x + d * y
            return Dense(v, st.n)
        mask = 1 << q
        cm = cv = 0
        for p, v in ctrl:
            cm |= 1 << p
            if v:
                cv |= 1 << p
        if abs(b) < EPS and abs(c) < EPS:
            if abs(a - 1) < EPS:
                return {k: (v * d if (k & cm) == cv and k & mask else v) for k, v in st.items()}
            return {k: (v * (d if k & mask else a) if (k & cm) == cv else v) for k, v in st.items()}
        if abs(a) < EPS and abs(d) < EPS:
            if abs(b - 1) < EPS and abs(c - 1) < EPS:
                return {(k ^ mask if (k & cm) == cv else k): v for k, v in st.items()}
            return {(k ^ mask if (k & cm) == cv else k): (v * (b if k & mask else c) if (k & cm) == cv else v) for k, v in st.items()}
        out = {}
        for k, v in st.items():
            if (k & cm) != cv:
                out[k] = out.get(k, 0) + v
                continue
            if k & mask:
                x, y = v * b, v * d
            else:
                x, y = v * a, v * c
            k0, k1 = k & ~mask, k | mask
            out[k0] = out.get(k0, 0) + x
            out[k1] = out.get(k1, 0) + y
        out = {k: v for k, v in out.items() if abs(v) > 1e-9}
        if len(out) > self.limit:
            raise SimError("state too large")
        return out

    def _appn(self, st, u, qs, ctrl):
        n = len(qs)
        out = {}
        for k, v in st.items():
            if any(((k >> p) & 1) != w for p, w in ctrl):
                out[k] = out.get(k, 0) + v
                continue
            col = 0
            base = k
            for q in qs:
                col = 2 * col + ((k >> q) & 1)
                base &= ~(1 << q)
            for row in range(2 ** n):
                a = u[row, col]
                if abs(a) > EPS:
                    kk = base
                    for j, q in enumerate(qs):
                        if (row >> (n - 1 - j)) & 1:
                            kk |= 1 << q
                    out[kk] = out.get(kk, 0) + v * a
        return {k: v for k, v in out.items() if abs(v) > 1e-9}


class DirtyDealloc(Exception):
    pass


def unitary(qc, expand="auto"):
    """dense unitary, index with qubit 0 as the MOST significant bit (convention of the repo)"""
    n = len(qc.qubits)
    s = Sparse(expand)
    U = np.zeros((2 ** n, 2 ** n), dtype=complex)
    rev = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2 ** n)]
    for i in range(2 ** n):
        br = s.run(qc, rev[i])
        if len(br) != 1:
            raise SimError("not unitary")
        for k, v in br[0].st.items():
            U[rev[k], i] = v
    return U


def op_unitary(op, expand="auto"):
    n = op.num_qubits
    s = Sparse(expand)
    U = np.zeros((2 ** n, 2 ** n), dtype=complex)
    rev = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2 ** n)]
    for i in range(2 ** n):
        st = s.gate({rev[i]: 1.0 + 0j}, op, list(range(n)))
        for k, v in st.items():
            U[rev[k], i] = v
    return U


def close(U, V, tol=TOL):
    return U.shape == V.shape and float(np.max(np.abs(U - V))) < tol if U.size else True


def close_phase(U, V, tol=TOL):
    """equal up to one global phase"""
    if U.shape != V.shape:
        return False
    t = np.trace(V.conj().T @ U) if U.ndim == 2 else np.vdot(V, U)
    if abs(t) < 1e-9:
        return False
    return float(np.max(np.abs(U - V * (t / abs(t))))) < tol


def distribution(qc, init=0, expand="auto"):
    """outcome distribution over clbits: {tuple(bits in qc.clbits order): prob}"""
    n = len(qc.clbits)
    out = {}
    for b in Sparse(expand).run(qc, init):
        p = sum(abs(v) ** 2 for v in b.st.values())
        key = tuple(b.cl.get(i, 0) for i in range(n))
        out[key] = out.get(key, 0) + p
    return out


def extract(k, bits):
    """value of the listed bit positions (little endian) in basis state k"""
    r = 0
    for j, p in enumerate(bits):
        if (k >> p) & 1:
            r |= 1 << j
    return r


def deposit(v, bits, base=0):
    for j, p in enumerate(bits):
        if (v >> j) & 1:
            base |= 1 << p
        else:
            base &= ~(1 << p)
    return base
