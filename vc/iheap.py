"""Integer-level basis-state machine: registers of symbolic width holding integers; in-place additions are used through
their contract  b := (b + a) mod 2^|b|  (decided by C01) while everything around them is the real code.

A view (slice / concatenation of registers) is read and written through the unique base-2^w decomposition of the
register value: value = low + 2^lo * mid + 2^(lo+w) * high with low < 2^lo, mid < 2^w.
"""
import z3

from . import qheap, sym
from .engine import Engine, Lemma, Unsupported
from .load import LoopSpec, Shim
from .qheap import Q, QV, Reg, as_reg, guard, live, one, record, st
from .sym import W, wrap

ASSUME_ADD = ("in-place addition b += a (mod 2^|b|), also inverted and under control, is used through its contract (decided by C01)")


def E():
    return Engine.cur


def P(k):
    """2^k with its definitional facts at k"""
    k = z3.simplify(k)
    if z3.is_int_value(k):
        return z3.IntVal(2 ** k.as_long())
    e = E()
    e.assume(z3.And(sym.pow2(z3.IntVal(0)) == 1, z3.Implies(k >= 0, z3.And(sym.pow2(k) >= 1, sym.pow2(k + 1) == 2 * sym.pow2(k)))))
    return sym.pow2(k)


L_padd = Lemma("2^(a+b) = 2^a * 2^b", lambda a, b: z3.Implies(z3.And(a >= 0, b >= 0), z3.And(sym.pow2(a + b) == sym.pow2(a) * sym.pow2(b), sym.pow2(a) >= 1, sym.pow2(b) >= 1)),
               [z3.IntSort(), z3.IntSort()], ("induction", 1),
               lambda a, b: [sym.pow2(z3.IntVal(0)) == 1, z3.Implies(a + b >= 0, sym.pow2(a + b + 1) == 2 * sym.pow2(a + b)), sym.pow2(b + 1) == 2 * sym.pow2(b),
                             z3.Implies(a >= 0, sym.pow2(a) >= 1), sym.pow2(a) * sym.pow2(b + 1) == 2 * (sym.pow2(a) * sym.pow2(b))])
L_ppos = Lemma("2^a >= 1", lambda a: z3.Implies(a >= 0, sym.pow2(a) >= 1), [z3.IntSort()], ("induction", 0),
               lambda a: [sym.pow2(z3.IntVal(0)) == 1, sym.pow2(a + 1) == 2 * sym.pow2(a)])
LEMMAS = [L_ppos, L_padd]


class IV(QV):
    """variable whose content is an integer"""

    def __init__(self, size=None, name=None, qs=None, **kw):
        QV.__init__(self, size)
        st()["heap"][self.id] = z3.IntVal(0)
        E().assume(P(self._n) >= 1)

    def v(self):
        return st()["heap"][self.id]

    @property
    def reg(self):
        return IReg([(self, z3.IntVal(0), self._n)])

    def delete(self, verify=False, recompute=False):
        live()
        E().prove(z3.Implies(guard(), self.v() == 0), "deleted workspace is back in the zero state")

    def duplicate(self, name=None, qs=None, init=False):
        if init:
            raise Unsupported("duplicate(init)")
        return type(self)(self.size)


    def reduce(self, qubits, verify=False):
        """removes the lowest qubit (which must be clean)"""
        live()
        qs = [one(q) for q in (qubits if isinstance(qubits, list) else [qubits])]
        e = E()
        if len(qs) != 1 or not e.entails(qs[0].i == 0) or st()["rec"]:
            raise Unsupported("reduce")
        e.prove(z3.Not(qs[0].val()), "removed qubit is back in the zero state")
        lo, mid, hi = split(self, z3.IntVal(0), z3.IntVal(1))
        st()["heap"][self.id] = hi
        self._n = z3.simplify(self._n - 1)


def have(f, label):
    """intermediate assertion: proved, then available"""
    E().prove(f, label)
    E().assume(f)


class IF(IV):
    def __init__(self, size=None, exponent=0, qs=None, name=None, signed=False):
        IV.__init__(self, size)
        self.exponent, self.signed = exponent, signed


class IB(IV):
    def __init__(self, name=None, qs=None):
        IV.__init__(self, 1)

    def duplicate(self, **k):
        return IB()

    def flip(self):
        qheap.g_x(self[0])
        return self


class IReg(Reg):
    def __getitem__(self, i):
        r = Reg.__getitem__(self, i)
        if isinstance(r, Reg):
            return IReg(r.segs)
        return IQ(r.qv, r.i)

    def __add__(self, o):
        return IReg(self.segs + as_reg(o).segs)

    def __radd__(self, o):
        return IReg(as_reg(o).segs + self.segs)


class IQ(Q):
    def __init__(self, qv, idx):
        self.qv, self.i = qv, z3.simplify(idx)

    def val(self):
        return read([(self.qv, self.i, z3.IntVal(1))])[0] == 1

    def set(self, new):
        g = guard()
        old = self.val()
        write([(self.qv, self.i, z3.IntVal(1))], z3.If(z3.And(g, new) if not z3.is_true(g) else new, z3.IntVal(1), z3.If(z3.Or(g, z3.Not(old)) if not z3.is_true(g) else z3.BoolVal(True), z3.IntVal(0), z3.IntVal(1))))


def split(qv, off, ln):
    """(low, mid, high) of the register at [off, off+ln)"""
    e = E()
    off, ln = z3.simplify(off), z3.simplify(ln)
    if e.entails(z3.And(off == 0, ln == qv._n)):
        return z3.IntVal(0), qv.v(), z3.IntVal(0)
    e.prove(z3.And(off >= 0, ln >= 0, off + ln <= qv._n), "slice lies inside its register")
    return split_t(qv.v(), qv._n, off, ln)


def add_t(*xs):
    xs = [x for x in xs if not (z3.is_int_value(x) and x.as_long() == 0)]
    return xs[0] if len(xs) == 1 else (z3.Sum(xs) if xs else z3.IntVal(0))


def mul_t(p, x):
    if z3.is_int_value(x) and x.as_long() in (0,):
        return x
    if z3.is_int_value(p) and p.as_long() == 1:
        return x
    return p * x


def is0(x):
    return z3.is_int_value(x) and x.as_long() == 0


def PM(a, b):
    """2^(a+b) with 2^(a+b) = 2^a * 2^b"""
    a, b = z3.simplify(a), z3.simplify(b)
    if not z3.is_int_value(a) and not z3.is_int_value(b):
        E().use(L_padd, a, b)
    elif z3.is_int_value(a) and not z3.is_int_value(b) and a.as_long() > 0:
        E().use(L_padd, b, a)
        E().assume(sym.pow2(a) == 2 ** a.as_long())
    elif z3.is_int_value(b) and not z3.is_int_value(a) and b.as_long() > 0:
        E().use(L_padd, a, b)
        E().assume(sym.pow2(b) == 2 ** b.as_long())
    return P(a + b)


def split_t(t, w, off, ln):
    """unique decomposition t = lo + 2^off*mid + 2^(off+ln)*hi of a number below 2^w; decompositions of the same term and of
    its parts are shared, so two readings of the same bits are the same term"""
    e = E()
    t, w, off, ln = [z3.simplify(x) for x in (t, w, off, ln)]
    if is0(t) or is0(ln) and is0(off):
        return z3.IntVal(0), z3.IntVal(0), t
    if e.entails(z3.And(off == 0, ln == w)):
        return z3.IntVal(0), t, z3.IntVal(0)
    cache = st(e).setdefault("dec", [])
    for t0, o0, l0, r in cache:
        if t0.eq(t) and o0.eq(off) and l0.eq(ln):
            return r
    for t0, o0, l0, (lo, mid, hi) in cache:
        if not t0.eq(t):
            continue
        e1 = z3.simplify(o0 + l0)
        if e.entails(off + ln <= o0):
            a, b, c = split_t(lo, o0, off, ln)
            PM(off, ln), PM(off + ln, o0 - off - ln), PM(o0, l0)
            r = (a, b, z3.simplify(add_t(c, mul_t(P(o0 - off - ln), add_t(mid, mul_t(P(l0), hi))))))
        elif e.entails(off >= e1):
            a, b, c = split_t(hi, w - e1, off - e1, ln)
            PM(o0, l0), PM(e1, off - e1), PM(off, ln), PM(off - e1, ln)
            low = z3.simplify(add_t(lo, mul_t(P(o0), add_t(mid, mul_t(P(l0), a)))))
            if not is0(low):
                cache.append((low, o0, l0, (lo, mid, a)))
            r = (low, b, c)
        elif e.entails(z3.And(off >= o0, off + ln <= e1)):
            a, b, c = split_t(mid, l0, off - o0, ln)
            PM(o0, off - o0), PM(off - o0, ln), PM(off, ln), PM(o0, l0), PM(off + ln - o0, e1 - off - ln), PM(off + ln, e1 - off - ln)
            r = (z3.simplify(add_t(lo, mul_t(P(o0), a))), b, z3.simplify(add_t(c, mul_t(P(e1 - off - ln), hi))))
        else:
            continue
        cache.append((t, off, ln, r))
        bound(e, t, w, off, ln, r)
        return r
    z = lambda c: z3.IntVal(0) if c else None
    lo = z(is0(off)) if is0(off) else e.fresh("lo")
    hi = z3.IntVal(0) if e.entails(off + ln == w) else e.fresh("hi")
    mid = e.fresh("mid")
    r = (lo, mid, hi)
    PM(off, ln), PM(off + ln, w - off - ln)
    e.assume(t == add_t(lo, mul_t(P(off), mid), mul_t(P(off), mul_t(P(ln), hi))))
    bound(e, t, w, off, ln, r)
    cache.append((t, off, ln, r))
    return r


def bound(e, t, w, off, ln, r):
    lo, mid, hi = r
    e.assume(z3.And(lo >= 0, lo < P(off), mid >= 0, mid < P(ln), hi >= 0, hi < P(w - off - ln)))


def read(segs):
    """value of a view and its width"""
    tot, off = z3.IntVal(0), z3.IntVal(0)
    for qv, o, l in segs:
        _, m, _ = split(qv, o, l)
        if not (z3.is_int_value(off) and off.as_long() == 0):
            m = P(off) * m
        tot = tot + m
        off = z3.simplify(off + l)
    return z3.simplify(tot), off


def write(segs, val):
    e = E()
    h = st()["heap"]
    if len(segs) == 1:
        parts = [val]
    else:
        parts, off, s = [], z3.IntVal(0), z3.IntVal(0)
        for i, (qv, o, l) in enumerate(segs):
            p = e.fresh("part")
            e.assume(z3.And(p >= 0, p < P(l)))
            parts.append(p)
            s = s + (P(off) * p if i else p)
            if i:
                e.use(L_padd, off, l)
            off = z3.simplify(off + l)
        e.assume(s == val)
    for (qv, o, l), p in zip(segs, parts):
        lo, mid, hi = split(qv, o, l)
        if e.entails(z3.And(o == 0, l == qv._n)):
            h[qv.id] = p
        else:
            nv = e.fresh("val")
            e.assume(z3.And(nv == add_t(lo, mul_t(P(o), p), mul_t(P(o), mul_t(P(l), hi))), nv >= 0, nv < P(qv._n)))
            h[qv.id] = nv
            st()["dec"].append((nv, z3.simplify(o), z3.simplify(l), (lo, z3.simplify(p), hi)))


def flip_view(segs, cond):
    v, n = read(segs)
    g = z3.And(guard(), cond)
    write(segs, z3.If(g, P(n) - 1 - v, v))


def g_x(q):
    if isinstance(q, (QV, Reg)):
        segs = as_reg(q).segs
        record(lambda inv: flip_view(segs, z3.BoolVal(True)))
        return q
    return qheap.g_x(q)


def g_cx(c, t):
    if isinstance(t, (QV, Reg)) and not E().entails(as_reg(t).n() == 1):
        c, segs = one(c), as_reg(t).segs

        def op(inv):
            E().prove(disjoint([(c.qv, c.i, z3.IntVal(1))], segs), "control and target are different qubits")
            flip_view(segs, c.val())
        record(op)
        return
    return qheap.g_cx(c, t)


GATES = dict(qheap.GATES, x=g_x, cx=g_cx)


def disjoint(s1, s2):
    cs = []
    for q1, o1, l1 in s1:
        for q2, o2, l2 in s2:
            if q1 is q2:
                cs.append(z3.Or(o1 + l1 <= o2, o2 + l2 <= o1))
    return z3.And(cs) if cs else z3.BoolVal(True)


def adder(a, b, c_in=None, c_out=None, ctrl=None):
    if c_in is not None or c_out is not None:
        raise Unsupported("carry arguments at integer level")
    segb = as_reg(b).segs
    quantum = isinstance(a, (QV, Reg, Q, list))
    sega = as_reg(a).segs if quantum else None
    cls = None if quantum else wrap(a).t
    cs = [] if ctrl is None else [one(ctrl)]

    def op(inv):
        e = E()
        vb, nb = read(segb)
        if quantum:
            va, na = read(sega)
            e.prove(disjoint(sega, segb), "summand and target of the addition are different qubits")
            e.prove(na <= nb, "summand is not wider than the target")
        else:
            va = cls
            e.prove(va >= 0, "classical summand is not negative")
        for c in cs:
            e.prove(disjoint([(c.qv, c.i, z3.IntVal(1))], segb), "control is not part of the target")
        g = guard()
        if cs:
            g = z3.And([g] + [c.val() for c in cs])
        new, q = e.fresh("sum"), e.fresh("wrap")
        pn = P(nb)
        e.assume(z3.And(new >= 0, new < pn, new == (vb - va if inv else vb + va) + q * pn))
        if not inv:
            e.assume(q <= 0)
        else:
            e.assume(q >= 0)
        e.notes.setdefault("adds", []).append((vb, va, new, q, pn))
        write(segb, new if z3.is_true(g) else z3.If(g, new, vb))
    record(op)


def fresh(e, cls, n, name):
    v = cls(W(n, None, 0, None)) if cls is not IB else IB()
    t = e.fresh(name)
    e.assume(z3.And(t >= 0, t < P(v._n)))
    st(e)["heap"][v.id] = t
    st(e)["alloc"].remove(v)
    return v


def shims(tracing, extra=None):
    s = qheap.shims(tracing)
    s["qrisp.core"] = Shim(QuantumVariable=IV, **GATES)
    s["qrisp.core.gate_application_functions"] = s["qrisp.core"]
    s["qrisp.qtypes"] = Shim(QuantumBool=IB, QuantumFloat=IF, QuantumVariable=IV)
    s["qrisp.qtypes.*"] = s["qrisp.qtypes"]
    s["qrisp.alg_primitives.arithmetic.adders.*"] = Shim(gidney_adder=adder, cuccaro_adder=adder, fourier_adder=adder)
    s["qrisp"].QuantumVariable, s["qrisp"].QuantumBool, s["qrisp"].QuantumFloat = IV, IB, IF
    for k, f in GATES.items():
        setattr(s["qrisp"], k, f)
    s["qrisp.alg_primitives.arithmetic.adders"] = Shim(gidney_adder=adder, cuccaro_adder=adder, fourier_adder=adder)
    if extra:
        s.update(extra)
    return s


class IntLoop(LoopSpec):
    """loop contract over register values: inv(e, k, notes, L) -> [(label, formula)], mod(notes) -> variables it may change"""

    def __init__(self, inv, mod, lemma=None):
        self._inv, self.mod, self.variant, self.lemma = inv, mod, None, lemma

    def hint(self, e, k, env0, env, L):
        n = st(e)
        ch = {v.id for v in self.mod(n)}
        for vid, a in n["heap"].items():
            if vid not in ch and vid in L.heap0:
                e.prove(a == L.heap0[vid], "loop changes only the registers it is allowed to change")
        if self.lemma:
            self.lemma(e, k, n)

    def inv(self, e, k, env, L):
        return self._inv(e, k, st(e), L)

    def havoc(self, e, k, env, names, L):
        n = st(e)
        for v in self.mod(n):
            t = e.fresh("h_" + v.id)
            e.assume(z3.And(t >= 0, t < P(v._n)))
            n["heap"][v.id] = t
        L.heap0 = dict(n["heap"])
        return LoopSpec.havoc(self, e, k, env, names, L)

    _havoc = None
