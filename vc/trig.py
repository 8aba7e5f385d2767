"""Exact decision procedure for circuits with symbolic angles.

A number is a trigonometric polynomial  sum_k c_k * exp(i*(pi*r_k + L_k))  with rational c_k, dyadic rational r_k and L_k a
rational linear form in real symbols. exp(i*pi)=-1 is used to bring r_k into [0,1); for dyadic r the numbers exp(i*pi*r),
r in [0,1), are linearly independent over Q (cyclotomic polynomial x^(2^m)+1) and characters exp(i*L) with different L are
linearly independent over C, so the normal form is unique: equality of normal forms <=> equality for ALL real values of the
symbols. No numeric evaluation is involved in a verdict.

Machine floats met in the code under test (e.g. numpy.pi/2, 0.5) are read as the real number they approximate: a dyadic
multiple of pi or a small dyadic rational (tolerance 1e-9); anything else raises NotExact and the obligation is not claimed.
"""
import math
from fractions import Fraction

import numpy as np


class NotExact(Exception):
    pass


def dyadic(x, what):
    for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024):
        y = x * d
        if abs(y - round(y)) < 1e-9 * d:
            return Fraction(round(y), d)
    raise NotExact(f"{what} {x} is not a dyadic rational")


class Lin:
    """pi*r + sum q_s * s"""
    __slots__ = ("r", "q")

    def __init__(self, r=Fraction(0), q=()):
        self.r, self.q = r, tuple(sorted((k, v) for k, v in dict(q).items() if v))

    def __add__(self, o):
        d = dict(self.q)
        for k, v in o.q:
            d[k] = d.get(k, 0) + v
        return Lin(self.r + o.r, d)

    def __mul__(self, f):
        return Lin(self.r * f, {k: v * f for k, v in self.q})


def angle(x):
    """angle met in the code (float, int, sympy expression) -> Lin"""
    import sympy
    if isinstance(x, Lin):
        return x
    if isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool):
        x = float(x)
        if not math.isfinite(x):
            raise NotExact("non-finite angle")
        return Lin(dyadic(x / math.pi, "angle / pi"))
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        if abs(x.imag) > 1e-12:
            raise NotExact("complex angle")
        return angle(float(x.real))
    if hasattr(x, "free_symbols"):
        e = sympy.expand(x)
        out = Lin()
        for t in sympy.Add.make_args(e):
            c, rest = t.as_independent(*t.free_symbols) if t.free_symbols else (t, sympy.Integer(1))
            if t.free_symbols:
                if not rest.is_Symbol:
                    raise NotExact(f"angle {x} is not linear")
                out = out + Lin(Fraction(0), {str(rest): dyadic(float(c), "coefficient")})
            else:
                out = out + angle(float(sympy.N(t, 30)))
        return out
    if hasattr(x, "item"):
        return angle(x.item())
    raise NotExact(f"angle of type {type(x).__name__}")


class TP:
    """trigonometric polynomial: {(r, q): Fraction}"""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        return TP({(Fraction(0), ()): Fraction(c)} if c else {})

    @staticmethod
    def expi(lin, c=Fraction(1)):
        k = math.floor(lin.r)
        return TP({(lin.r - k, lin.q): c * (-1 if k % 2 else 1)})

    def __add__(self, o):
        d = dict(self.t)
        for k, v in o.t.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return TP(d)

    def __neg__(self):
        return TP({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for (r1, q1), v1 in self.t.items():
            for (r2, q2), v2 in o.t.items():
                r, c = r1 + r2, v1 * v2
                if r >= 1:
                    r, c = r - 1, -c
                if q1 and q2:
                    dq = dict(q1)
                    for k, v in q2:
                        w = dq.get(k, 0) + v
                        if w:
                            dq[k] = w
                        else:
                            dq.pop(k, None)
                    q = tuple(sorted(dq.items()))
                else:
                    q = q1 or q2
                w = d.get((r, q), 0) + c
                if w:
                    d[(r, q)] = w
                else:
                    d.pop((r, q), None)
        return TP(d)

    def conj(self):
        d = TP()
        for (r, q), v in self.t.items():
            d = d + TP.expi(Lin(-r, {k: -w for k, w in q}), v)
        return d

    def __eq__(self, o):
        return self.t == o.t

    def __bool__(self):
        return bool(self.t)

    def numeric(self, env):
        return sum(float(v) * np.exp(1j * (math.pi * float(r) + sum(float(w) * env[k] for k, w in q))) for (r, q), v in self.t.items())

    def __repr__(self):
        return " + ".join(f"{v}*e^i({r}pi{''.join(f'+{w}*{k}' for k, w in q)})" for (r, q), v in sorted(self.t.items())) or "0"


ZERO, ONE = TP(), TP.const(1)
HALF = Fraction(1, 2)


def cos(l):
    return TP.expi(l, HALF) + TP.expi(l * -1, HALF)


def isin(l):
    """i*sin"""
    return TP.expi(l, HALF) - TP.expi(l * -1, HALF)


MINUS_I = TP.expi(Lin(-HALF))


def sin(l):
    return isin(l) * MINUS_I


def u3(theta, phi, lam, gp=0):
    th, ph, la, g = angle(theta) * HALF, angle(phi), angle(lam), angle(gp)
    c, s, G = cos(th), sin(th), TP.expi(g)
    return ((c * G, -(TP.expi(la) * s * G)), (TP.expi(ph) * s * G, TP.expi(ph + la) * c * G))


def from_sympy(e):
    """sympy expression built from exp/cos/sin/numbers/I -> TP"""
    import sympy
    e = sympy.sympify(e)
    if e.is_Add:
        r = ZERO
        for a in e.args:
            r = r + from_sympy(a)
        return r
    if e.is_Mul:
        r = ONE
        for a in e.args:
            r = r * from_sympy(a)
        return r
    if e == sympy.I:
        return TP.expi(Lin(HALF))
    if e.is_Number:
        f = float(e)
        s = f * math.sqrt(2)
        try:
            return TP.const(dyadic(f, "number"))
        except NotExact:
            return TP.const(dyadic(s, "number*sqrt2")) * cos(Lin(Fraction(1, 4)))
    if isinstance(e, sympy.exp):
        return TP.expi(angle(sympy.expand(e.args[0] / sympy.I)))
    if e.is_Pow and e.base == sympy.E:
        return TP.expi(angle(sympy.expand(e.exp / sympy.I)))
    if isinstance(e, sympy.cos):
        return cos(angle(e.args[0]))
    if isinstance(e, sympy.sin):
        return sin(angle(e.args[0]))
    if e.is_Pow and e.exp.is_Integer and e.exp > 0:
        r = ONE
        for _ in range(int(e.exp)):
            r = r * from_sympy(e.base)
        return r
    raise NotExact(f"cannot read {e}")


class Exact:
    """evaluates the real circuit objects produced by the code under test; states are {basis int: TP}"""

    def __init__(self, expand="auto"):
        self.expand = expand

    def run(self, qc, init=0):
        pos = {q: i for i, q in enumerate(qc.qubits)}
        st = dict(init) if isinstance(init, dict) else {init: ONE}
        for ins in qc.data:
            if ins.clbits:
                raise NotExact("classical bits")
            st = self.gate(st, ins.op, [pos[q] for q in ins.qubits])
        return st

    def gate(self, st, op, qs, ctrl=()):
        from vb.sim import is_controlled, kind
        n = op.name
        if n in ("barrier", "qb_alloc", "qb_dealloc"):
            return st
        if kind(op) == "ClControlledOperation" or n in ("measure", "reset"):
            raise NotExact(f"non-unitary {n}")
        if hasattr(op, "theta"):
            return self.app1(st, u3(op.theta, op.phi, op.lam, op.global_phase), qs[0], ctrl)
        if is_controlled(op) and (self.expand == "auto" or op.definition is None):
            k = len(op.controls)
            return self.gate(st, op.base_operation, qs[k:], ctrl + tuple((q, int(c)) for q, c in zip(qs[:k], op.ctrl_state)))
        if op.definition is None:
            raise NotExact(f"gate {n} without definition")
        pos = {q: p for q, p in zip(op.definition.qubits, qs)}
        for ins in op.definition.data:
            if ins.clbits:
                raise NotExact("classical bits")
            st = self.gate(st, ins.op, [pos[q] for q in ins.qubits], ctrl)
        return st

    def app1(self, st, m, q, ctrl):
        out = {}
        b = 1 << q
        for k, v in st.items():
            if any((k >> p & 1) != c for p, c in ctrl):
                out[k] = out[k] + v if k in out else v
                continue
            j = 1 if k & b else 0
            for i in (0, 1):
                e = m[i][j]
                if e:
                    kk = (k & ~b) | (b if i else 0)
                    w = e * v
                    out[kk] = out[kk] + w if kk in out else w
        return {k: v for k, v in out.items() if v}


def matrix(qc_or_op, expand="auto"):
    """columns: {col: {row: TP}}; qubit 0 most significant"""
    op = qc_or_op
    if hasattr(op, "data"):
        n = len(op.qubits)
        f = lambda b: Exact(expand).run(op, b)
    else:
        n = op.num_qubits
        f = lambda b: Exact(expand).gate({b: ONE}, op, list(range(n)))
    rev = lambda x: int(format(x, f"0{n}b")[::-1], 2) if n else 0
    return [{rev(k): v for k, v in f(rev(c)).items()} for c in range(1 << n)]


def adjoint(M):
    out = [dict() for _ in M]
    for c, col in enumerate(M):
        for r, v in col.items():
            out[r][c] = v.conj()
    return out


def mul(A, B):
    out = []
    for col in B:
        d = {}
        for k, v in col.items():
            for r, w in A[k].items():
                x = w * v
                d[r] = d[r] + x if r in d else x
        out.append({k: v for k, v in d.items() if v})
    return out


def eye(n):
    return [{i: ONE} for i in range(n)]


def controlled(M, pattern):
    """block matrix: M on the block selected by the pattern (list of bits, first = most significant)"""
    n, k = len(M), len(pattern)
    i = int("".join(map(str, pattern)), 2) if k else 0
    out = []
    for c in range(n << k):
        blk, cc = divmod(c, n)
        out.append({i * n + r: v for r, v in M[cc].items()} if blk == i else {c: ONE})
    return out


def equal(A, B):
    """None if equal for all real symbol values, else a description"""
    if len(A) != len(B):
        return "dimension mismatch"
    for c, (x, y) in enumerate(zip(A, B)):
        for r in set(x) | set(y):
            if x.get(r, ZERO) != y.get(r, ZERO):
                return f"entry ({r},{c}): {x.get(r, ZERO)!r}  !=  {y.get(r, ZERO)!r}"[:600]
    return None


def from_rows(rows):
    n = len(rows)
    return [{r: from_sympy(rows[r][c]) for r in range(n) if from_sympy(rows[r][c])} for c in range(n)]


def witness(A, B, r):
    """numeric values of the symbols at which the two matrices differ"""
    syms = sorted({k for M in (A, B) for col in M for v in col.values() for (_, q) in v.t for k, _ in q})
    for _ in range(50):
        env = {s: round(r.uniform(-6, 6), 3) for s in syms}
        d = max(abs(A[c].get(k, ZERO).numeric(env) - B[c].get(k, ZERO).numeric(env)) for c in range(len(A)) for k in range(len(A)))
        if d > 1e-6:
            return env, d
    return None, 0
