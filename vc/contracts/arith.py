"""Contracts of arithmetic built on in-place addition: unsigned comparisons, modular addition, multiplication. Every
register width, every register content, every classical operand."""
import z3

from .. import iheap, qheap, sym
from ..engine import Engine, Lemma, Unsupported, prove_lemma
from ..iheap import IB, IF, IntLoop, IV, L_padd, P, fresh
from ..load import load
from ..qheap import one, st
from ..sym import W

UINT = "alg_primitives/arithmetic/uint_clifford_t_comparisons.py"
MODADD = "alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_adder.py"
MULT = "alg_primitives/arithmetic/jasp_arithmetic/jasp_multiplyers.py"


def clean(e, keep):
    """every variable allocated by the code and not returned holds zero; operands are unchanged"""
    for v in st(e)["alloc"]:
        if not any(v is k for k in keep):
            e.prove(v.v() == 0, "workspace is back in the zero state")


def v_uint(kind, op):
    ns = load(UINT, iheap.shims(True))
    fn = ns[op]

    def run(e):
        na, nb = e.fresh("na"), e.fresh("nb")
        e.assume(z3.And(na >= 1, nb >= 1))
        if kind[0] == "q":
            a = fresh(e, IF, na, "a")
            va, ma = a.v(), na
        else:
            va = e.fresh("a")
            a = W(va)
        if kind[1] == "q":
            b = fresh(e, IF, nb, "b")
            vb = b.v()
        else:
            vb = e.fresh("b")
            b = W(vb)
        if kind == "qq":
            # 2^na * 2^(nb-na) = 2^nb and conversely
            e.use(L_padd, na, nb - na)
            e.use(L_padd, nb, na - nb)
        r = fn(a, b, iheap.adder)
        spec = {"uint_lt": va < vb, "uint_gt": va > vb, "uint_le": va <= vb, "uint_ge": va >= vb}[op]
        e.prove((r.v() == 1) == spec, "result is the comparison of the values")
        e.prove(z3.Or(r.v() == 0, r.v() == 1), "result is one bit")
        for x, v in ((a, va), (b, vb)):
            if isinstance(x, IV):
                e.prove(x.v() == v, "operand unchanged")
        clean(e, [r])
    return run


def v_modadd(quantum, ctrl):
    ns = load(MODADD, iheap.shims(True))

    def run(e):
        n, N = e.fresh("n"), e.fresh("N")
        e.assume(z3.And(n >= 2, N >= 1))
        b = fresh(e, IF, n, "b")
        vb = b.v()
        half = P(n - 1)
        e.assume(sym.pow2(n) == 2 * half)
        e.assume(z3.And(N <= half, vb < N))
        if quantum:
            na = e.fresh("na")
            e.assume(z3.And(na >= 1, na <= n))
            a = fresh(e, IF, na, "a")
            va = a.v()
            e.assume(va < N)
        else:
            va = e.fresh("a")
            a = W(va)
            e.assume(va >= 0) if quantum else None
        c = None
        on = z3.BoolVal(True)
        if ctrl:
            cv = fresh(e, IB, None, "c")
            c = cv[0]
            c0 = cv.v()
            on = c0 == 1
        ns["jasp_mod_adder"](a, b, W(N, None, 1, None), iheap.adder, *([c] if ctrl else []))
        av = va if quantum else va % N
        s = vb + av
        e.prove(b.v() == z3.If(on, z3.If(s >= N, s - N, s), vb), "target = (target + summand) mod N")
        if quantum:
            e.prove(a.v() == va, "summand unchanged")
        if ctrl:
            e.prove(cv.v() == c0, "control unchanged")
        clean(e, [])
    return run


I = z3.IntSort()
L_rem = Lemma("the low part of a decomposition is the remainder", lambda v, lo, p, w: z3.Implies(
    z3.And(p >= 1, lo >= 0, lo < p, v == lo + p * w), v % p == lo), [I, I, I, I], "direct",
    lambda v, lo, p, w: [z3.Implies(p >= 1, z3.And(v == p * (v / p) + v % p, v % p >= 0, v % p < p)),
                         z3.Or(v / p == w, v / p >= w + 1, v / p <= w - 1),
                         z3.Implies(z3.And(p >= 1, v / p >= w + 1), p * (v / p) >= p * (w + 1)),
                         z3.Implies(z3.And(p >= 1, v / p <= w - 1), p * (v / p) <= p * (w - 1))])
L_mono = Lemma("products of bounded factors are bounded", lambda a, p, l, q: z3.Implies(
    z3.And(a >= 0, a < p, l >= 0, l < q), z3.And(a * l >= 0, a * l < p * q)), [I, I, I, I], "direct",
    lambda a, p, l, q: [z3.Implies(z3.And(a >= 0, l >= 0), a * l >= 0), z3.Implies(z3.And(a >= 0, a < p, l >= 0), a * l <= p * l),
                        z3.Implies(z3.And(p >= 1, l < q), p * l < p * q)])
L_zero = Lemma("a multiple of p that is below p is zero", lambda p, h, r, s: z3.Implies(
    z3.And(p >= 1, h >= 0, r >= 0, s == r + p * h, s < p), h == 0), [I, I, I, I], "direct",
    lambda p, h, r, s: [z3.Implies(z3.And(p >= 1, h >= 1), p * h >= p)])
L_lt = Lemma("cancelling a positive factor", lambda p, x, y, r: z3.Implies(
    z3.And(p >= 1, r >= 0, r + p * x < p * y), x < y), [I, I, I, I], "direct",
    lambda p, x, y, r: [z3.Implies(z3.And(p >= 1, x >= y), p * x >= p * y)])
LEMMAS = [L_rem, L_mono, L_zero, L_lt]


def v_mult(square, tracing=True):
    fn = "jasp_squaring" if square else "jasp_controlling_multiplyer"

    def inv(e, k, n, L):
        g = n["ghost"]
        s = [v for v in n["alloc"] if v is not g.get("tmp")][0]
        g["s"] = s
        out = [("s = a * (b mod 2^i)", s.v() == g["va"] * (g["vb"] % P(k)))]
        for v in n["alloc"]:
            if v is not s:
                out.append(("helper qubit is zero", v.v() == 0))
        # arithmetic facts used with the invariant
        a, na, bv = g["va"], g["na"], g["vb"]
        p = P(k)
        e.use(L_padd, na, k)
        e.use(L_padd, k, na + 1)
        e.use(L_padd, na, z3.IntVal(1))
        e.use(L_mono, a, sym.pow2(na), bv % p, p)
        return out

    def hint(e, k, n):
        g = n["ghost"]
        a, bv, na, s = g["va"], g["vb"], g["na"], g["s"]
        p, pa = P(k), P(na)
        P(k + 1)
        for v0, o0, l0, (lo, mid, hi) in list(n.get("dec", [])):
            if v0.eq(bv) and z3.is_int_value(l0):
                e.use(L_rem, bv, lo, p, mid + 2 * hi)
                e.use(L_rem, bv, lo + p * mid, sym.pow2(k + 1), hi)
            elif not v0.eq(a):
                e.use(L_zero, p * (2 * pa), hi, lo + p * mid, v0)
                e.use(L_lt, p, mid, pa, lo)
    ns = load(MULT, iheap.shims(tracing), loops={(fn, 0): IntLoop(inv, lambda n: list(n["alloc"]), hint)})

    def run(e):
        na, nb = e.fresh("na"), e.fresh("nb")
        e.assume(z3.And(na >= 1, nb >= 1))
        a = fresh(e, IF, na, "a")
        if square:
            b, nb = a, na
        else:
            b = fresh(e, IF, nb, "b")
        va, vb = a.v(), b.v()
        st(e)["ghost"] = dict(va=va, vb=vb, na=na, b=b)
        r = ns[fn](a, iheap.adder) if square else ns[fn](a, b, iheap.adder)
        e.use(L_rem, vb, vb, P(nb), z3.IntVal(0))
        e.prove(r.v() == va * vb, "result = product of the factors")
        e.prove(r._n == na + nb, "result is wide enough for every product")
        e.prove(a.v() == va, "first factor unchanged")
        e.prove(b.v() == vb, "second factor unchanged")
        clean(e, [r])
    return run


RIPPLE = "alg_primitives/arithmetic/ripple_mult.py"


def rems(e, v, k):
    """v mod 2^k read off every known decomposition of v with a boundary at k (uniqueness of remainders)"""
    p = P(k)
    for t, o, l, (lo, mid, hi) in list(st(e).get("dec", [])):
        if not t.eq(v):
            continue
        if e.entails(o == k):
            e.use(L_rem, v, lo, p, mid + P(l) * hi)
        if e.entails(o + l == k):
            e.use(L_rem, v, lo + P(o) * mid, p, hi)


L_div = Lemma("the high part of a decomposition is the quotient", lambda v, lo, p, w: z3.Implies(
    z3.And(p >= 1, lo >= 0, lo < p, v == lo + p * w), z3.And(v % p == lo, v / p == w)), [I, I, I, I], "direct",
    lambda v, lo, p, w: [z3.Implies(p >= 1, z3.And(v == p * (v / p) + v % p, v % p >= 0, v % p < p)),
                         z3.Or(v / p == w, v / p >= w + 1, v / p <= w - 1),
                         z3.Implies(z3.And(p >= 1, v / p >= w + 1), p * (v / p) >= p * (w + 1)),
                         z3.Implies(z3.And(p >= 1, v / p <= w - 1), p * (v / p) <= p * (w - 1))])
L_sc = Lemma("scaling inequalities", lambda y, a, b: z3.Implies(z3.And(y >= 0, a <= b), y * a <= y * b), [I, I, I], "direct",
             lambda y, a, b: [z3.Implies(z3.And(y >= 0, b - a >= 0), y * (b - a) >= 0), y * (b - a) == y * b - y * a])
LEMMAS += [L_div, L_sc]


def v_inpl_mult():
    """operand := operand * cl mod 2^n for odd cl.  Before step k (m = n-1-k bits still to be processed):
    operand = lo + 2^m * h,  original = lo + 2^m * u,  h = cl * u + 2^(k+1) * q"""
    def ghosts(e, k, n):
        g = n["ghost"]
        m = z3.simplify(g["n"] - 1 - k)
        lo, u, q = e.fresh("g_lo"), e.fresh("g_u"), e.fresh("g_q")
        return m, lo, u, q

    class Spec(IntLoop):
        def inv(self, e, k, env, L):
            n = st(e)
            g = n["ghost"]
            m, N = z3.simplify(g["n"] - 1 - k), g["n"]
            b, v0, cl = g["b"], g["v0"], g["cl"]
            lo, u, q, h = g["wit"](e, k, m)
            pm, pk = P(m), P(k + 1)
            g.update(lo=lo, u=u, q=q, m=m, h=h)
            return [("untouched low part", z3.And(lo >= 0, lo < pm, v0 == lo + pm * u, u >= 0)),
                    ("processed high part", z3.And(h >= 0, h < pk)), ("parts make up the operand", b.v() == lo + pm * h),
                    ("high part multiplied", h == cl * u + pk * q)]

        def havoc(self, e, k, env, names, L):
            r = IntLoop.havoc(self, e, k, env, names, L)
            n = st(e)
            g = n["ghost"]
            lo, u, q = e.fresh("g_lo"), e.fresh("g_u"), e.fresh("g_q")
            h = e.fresh("g_h")
            g["wit"] = lambda e, k, m: (lo, u, q, h)
            m = z3.simplify(g["n"] - 1 - k)
            iheap.PM(m, k + 1)
            st(e).setdefault("dec", []).append((g["b"].v(), m, z3.simplify(k + 1), (lo, h, z3.IntVal(0))))
            e.assume(z3.And(h >= 0, h < P(k + 1), lo >= 0, lo < P(m), g["b"].v() == lo + P(m) * h))
            return r

        def hint(self, e, k, env0, env, L):
            n = st(e)
            g = n["ghost"]
            lo, u, q, h, m, cl = g["lo"], g["u"], g["q"], g["h"], z3.simplify(g["n"] - 1 - k), g["cl"]
            # next witnesses: bit m-1 of the untouched part joins the processed part
            l2, bit_, _ = iheap.split_t(lo, m, z3.simplify(m - 1), z3.IntVal(1))
            adds = n.get("adds", [])
            if not adds:
                raise Unsupported("no addition in the loop body")
            vb, va, new, w, pn = adds[-1]
            on = bit_ == 1
            P(k + 2), P(k + 1), P(m - 1)
            iheap.have(g["half"] * bit_ == z3.If(on, g["half"], z3.IntVal(0)), "selected half factor")
            g["wit"] = lambda e, k, m: (l2, bit_ + 2 * u, z3.If(on, q + w, q), bit_ + 2 * z3.If(on, new, h))
            IntLoop.hint(self, e, k, env0, env, L)
    fn = "inpl_q_int_mult"
    spec = Spec(None, lambda n: [n["ghost"]["b"]])
    ns = load(RIPPLE, iheap.shims(False), loops={(fn, 0): spec})

    def run(e):
        N, half = e.fresh("n"), e.fresh("half")
        e.assume(z3.And(N >= 1, half >= 0))
        b = fresh(e, IF, N, "b")
        v0 = b.v()
        cl = 2 * half + 1
        lo, top, _ = iheap.split_t(v0, N, N - 1, z3.IntVal(1))
        P(N - 1)
        st(e)["ghost"] = dict(b=b, v0=v0, cl=cl, half=half, n=N, wit=lambda e, k, m: (lo, top, -half * top, top))
        e.assume(P(z3.IntVal(1)) == 2)
        ns[fn](b, W(cl, None, 1, None), iheap.adder)
        g = st(e)["ghost"]
        m, u, q = g["m"], g["u"], g["q"]
        pN = P(N)
        e.prove(z3.And(b.v() >= 0, b.v() < pN), "result fits the register")
        e.prove(b.v() == cl * v0 + pN * q, "operand = operand * factor modulo 2^n")
        clean(e, [])
    return run


def v_int_mult():
    """s = factor_1 * factor_2 (additive ripple multiplication, arXiv 2112.10537). With t_k = y*2^nx - y*2^k + 2*y*(x mod 2^k)
    the accumulator holds t_k if bit min(k, nx-1) of x is set and its complement otherwise."""
    fn = "q_int_mult"
    have = iheap.have

    def roles(n):
        g = n["ghost"]
        return g["s"], g["x"], g["y"], g["nx"], g["ny"]

    def pick(e, n):
        g = n["ghost"]
        if "s" not in g:
            g["s"] = n["alloc"][0]
            # the code multiplies with the wider factor in the role of x
            f1, f2 = g["a"], g["b"]
            if e.entails(f1._n < f2._n):
                f1, f2 = f2, f1
            g.update(f1=f1, f2=f2, x=f1.v(), y=f2.v(), nx=f1._n, ny=f2._n)

    def inv0(e, k, n, L):
        pick(e, n)
        s, X, Y, nx, ny = roles(n)
        e.use(L_rem, Y, z3.IntVal(0), P(z3.IntVal(0)), Y)
        low = Y % P(k)
        e.assume(z3.And(low >= 0, low < P(k)))
        iheap.PM(nx, k)
        return [("shifted copy of the low bits", s.v() == P(nx) * low)]

    def hint0(e, k, n):
        s, X, Y, nx, ny = roles(n)
        P(k + 1)
        iheap.PM(nx, k), iheap.PM(nx, k + 1)
        rems(e, Y, k), rems(e, Y, k + 1)
        for t, o, l, (lo, mid, hi) in list(n.get("dec", [])):
            if e.entails(o == nx + k):
                sk = t
                e.use(L_div, sk, lo, P(nx + k), mid + P(l) * hi)
                e.use(L_div, sk, sk, P(nx + k), z3.IntVal(0))

    def inv1(e, k, n, L):
        s, X, Y, nx, ny = roles(n)
        k = z3.simplify(k)
        pk, pN, pY, M = P(k), P(nx), P(ny), P(s._n)
        iheap.PM(nx, ny), iheap.PM(k, nx - k), P(nx + ny)
        idx = k if e.branch(k < nx) else nx - 1
        _, bit_, _ = iheap.split_t(X, nx, idx, z3.IntVal(1))
        rems(e, X, k)
        low = X % pk
        e.assume(z3.And(low >= 0, low < pk))
        A, Bk, C = Y * pN, Y * pk, Y * low
        t = A - Bk + 2 * C
        n["ghost"]["t"] = (t, A, Bk, C, bit_)
        return [("accumulator holds the partial product or its complement", s.v() == z3.If(bit_ == 1, t, M - 1 - t)),
                ("first factor restored", n["ghost"]["f1"].v() == X)]

    class S1(IntLoop):
        def havoc(self, e, k, env, names, L):
            r = IntLoop.havoc(self, e, k, env, names, L)
            n = st(e)
            s, X, Y, nx, ny = roles(n)
            n["heap"][n["ghost"]["f1"].id] = X
            L.heap0 = dict(n["heap"])
            return r


    def hint1(e, k, n):
        s, X, Y, nx, ny = roles(n)
        t, A, Bk, C, bit_ = n["ghost"]["t"]
        pk, pN, pY, M = P(k), P(nx), P(ny), P(s._n)
        low = X % pk
        P(k + 1)
        rems(e, X, k), rems(e, X, k + 1)
        have(X % P(k + 1) == low + pk * bit_, "next low part")
        iheap.PM(k + 1, nx - k - 1)
        e.use(L_sc, Y, 2 * pk, pN)
        e.use(L_sc, Y, low, pk - 1)
        e.use(L_sc, pN, Y, pY - 1)
        e.use(L_sc, Y, z3.IntVal(0), low)
        have(z3.And(Y * P(k + 1) == 2 * Bk, Y * (X % P(k + 1)) == C + z3.If(bit_ == 1, Bk, z3.IntVal(0))), "products of the next step")
        have(z3.And(t >= Bk, t + Bk < M, M == 2 * (pN * pY)), "partial products stay in range")
        vb, va, new, w, pn = n["adds"][-1]
        iheap.PM(k, s._n - k)
        for tt, o, l, (lo, mid, hi) in list(n.get("dec", [])):
            if mid.eq(vb) and is0(hi) and e.entails(o == k):
                e.use(L_lt, pk, vb + va, pn, lo)
                have(z3.And(lo + pk * vb == If_(bit_, t, M), lo >= 0), "accumulator before the addition")
                have(lo + pk * (vb + va) < pk * pn, "no overflow of the addition")
                have(z3.And(w == 0, new == vb + va), "exact addition")

    def run(e):
        na, nb = e.fresh("na"), e.fresh("nb")
        e.assume(z3.And(na >= 1, nb >= 1))
        a, b = fresh(e, IF, na, "a"), fresh(e, IF, nb, "b")
        va, vb = a.v(), b.v()
        st(e)["ghost"] = dict(a=a, b=b)
        e.use(L_rem, va, va, P(na), z3.IntVal(0))
        e.use(L_rem, vb, vb, P(nb), z3.IntVal(0))
        n = st(e)
        r = ns[fn](a, b, iheap.adder)
        e.prove(r.v() == va * vb, "result = product of the factors")
        e.prove(r._n == na + nb, "result is wide enough for every product")
        e.prove(a.v() == va, "first factor unchanged")
        e.prove(b.v() == vb, "second factor unchanged")
        clean(e, [r])
    ns = load(RIPPLE, iheap.shims(False), loops={(fn, 0): IntLoop(inv0, lambda n: [n["ghost"]["s"]], hint0),
                                                 (fn, 1): S1(inv1, lambda n: [n["ghost"]["s"], n["ghost"]["f1"]], hint1)})
    return run


def v_multiplyer():
    """traced multiplication s = factor_1 * factor_2. With t_k = y*2^(nx-1) - y*2^(k-1) + y*(x mod 2^k), k >= 1, the accumulator
    holds t_k if bit k of x is set and its complement otherwise."""
    fn = "jasp_multiplyer"
    have = iheap.have

    def roles(n):
        g = n["ghost"]
        if "s" not in g:
            g["s"] = n["alloc"][0]
        return g["s"], g["x"], g["y"], g["nx"], g["ny"]

    def copy_inv(which, shift):
        def inv(e, k, n, L):
            s, X, Y, nx, ny = roles(n)
            src = Y if which == "y" else X
            low = src % P(k)
            e.use(L_rem, src, z3.IntVal(0), P(z3.IntVal(0)), src)
            e.assume(z3.And(low >= 0, low < P(k)))
            sh = nx - 1 if shift else z3.IntVal(0)
            iheap.PM(sh, k)
            return [("copied low bits", s.v() == z3.If(qheap.guard(), iheap.mul_t(P(sh), low), z3.IntVal(0)))]

        def hint(e, k, n):
            s, X, Y, nx, ny = roles(n)
            src = Y if which == "y" else X
            sh = nx - 1 if shift else z3.IntVal(0)
            P(k + 1)
            iheap.PM(sh, k), iheap.PM(sh, k + 1)
            rems(e, src, k), rems(e, src, k + 1)
            for t, o, l, (lo, mid, hi) in list(n.get("dec", [])):
                if e.entails(o == sh + k) and not t.eq(src):
                    e.use(L_div, t, lo, P(sh + k), mid + P(l) * hi)
                    e.use(L_div, t, t, P(sh + k), z3.IntVal(0))
        return IntLoop(inv, lambda n: [roles(n)[0]], hint)

    class Flip(IntLoop):
        """complements the bits of s one after the other if the control qubit is set"""

        def __init__(self, idx):
            IntLoop.__init__(self, None, lambda n: [roles(n)[0]], self.lem)
            self.idx = idx

        def inv(self, e, k, env, L):
            n = st(e)
            s = roles(n)[0]
            if not hasattr(L, "s0"):
                L.s0 = e.fresh("s_at_entry")
                iheap.have(z3.And(s.v() >= 0, s.v() < P(s._n)), "value fits the register")
                e.assume(z3.And(L.s0 == s.v(), L.s0 >= 0, L.s0 < P(s._n)))
            c = iheap.IQ(n["ghost"]["f1"], self.idx(n)).val()
            p = P(k)
            low = L.s0 % p
            e.assume(z3.And(low >= 0, low < p))
            e.use(L_rem, L.s0, z3.IntVal(0), z3.IntVal(1), L.s0)
            iheap.PM(k, s._n - k)
            e.use(L_rem, L.s0, L.s0, P(s._n), z3.IntVal(0))
            self.L = L
            return [("low bits complemented", s.v() == z3.If(c, L.s0 - 2 * low + p - 1, L.s0))]

        def lem(self, e, k, n):
            s, L = roles(n)[0], self.L
            sk = L.heap0[s.id]
            p = P(k)
            P(k + 1)
            lo, mid, hi = iheap.split_t(L.s0, s._n, k, z3.IntVal(1))
            rems(e, L.s0, k), rems(e, L.s0, k + 1)
            lo2, mid2, hi2 = iheap.split_t(sk, s._n, k, z3.IntVal(1))
            c = iheap.IQ(n["ghost"]["f1"], self.idx(n)).val()
            # the partially complemented value has the same bits from position k on
            lc = z3.If(c, p - 1 - lo, lo)
            e.use(L_div, sk, lc, p, mid + 2 * hi)
            e.use(L_div, sk, lo2, p, mid2 + 2 * hi2)

    def tk(e, n, k):
        s, X, Y, nx, ny = roles(n)
        ph, pn = P(k - 1), P(nx - 1)
        pk = P(k)
        e.assume(z3.Implies(k >= 1, pk == 2 * ph))
        low = X % pk
        e.assume(z3.And(low >= 0, low < pk))
        return Y * pn - Y * ph + Y * low, Y * pn, Y * ph, Y * low

    def main_inv(e, k0, n, L):
        s, X, Y, nx, ny = roles(n)
        k = z3.simplify(k0 + 1)
        M = P(s._n)
        iheap.PM(nx - 1, ny), iheap.PM(k - 1, nx - k), iheap.PM(k, nx - k), P(nx + ny - 1)
        _, bit_, _ = iheap.split_t(X, nx, k, z3.IntVal(1))
        rems(e, X, k)
        t, A, Bk, C = tk(e, n, k)
        n["ghost"].update(t=(t, A, Bk, C, bit_), i=k)
        if z3.is_int_value(k) and k.as_long() == 1:
            lo, b0, hi = iheap.split_t(X, nx, z3.IntVal(0), z3.IntVal(1))
            e.use(L_rem, X, b0, z3.IntVal(2), hi)
            facts(e, n, t, A, Bk, C, k, bit_, False)
        return [("accumulator holds the partial product or its complement", s.v() == z3.If(bit_ == 1, t, M - 1 - t)),
                ("first factor restored", n["ghost"]["f1"].v() == X)]

    def facts(e, n, t, A, Bk, C, k, bit_, step):
        s, X, Y, nx, ny = roles(n)
        pn, pY, M = P(nx - 1), P(ny), P(s._n)
        ph = P(k - 1)
        low = X % P(k)
        iheap.PM(k - 1, nx - k), P(nx)
        e.use(L_sc, Y, ph, pn)
        e.use(L_sc, Y, low, 2 * ph - 1)
        e.use(L_sc, pn, Y, pY - 1)
        e.use(L_sc, Y, z3.IntVal(0), low)

    def last_add(e, n, k):
        """the addition of y*2^(k-1) just done was exact"""
        s, X, Y, nx, ny = roles(n)
        t, A, Bk, C, bit_ = n["ghost"]["t"]
        pn, pY, M = P(nx - 1), P(ny), P(s._n)
        facts(e, n, t, A, Bk, C, k, bit_, True)
        iheap.PM(k, nx - 1 - k)
        e.use(L_sc, Y, 2 * P(k - 1), pn)
        have(z3.And(t + Bk < M, M == 2 * (pn * pY), t - z3.If(bit_ == 1, z3.IntVal(0), Bk) >= 0), "partial products stay in range")
        vb, va, new, w, pq = n["adds"][-1]
        iheap.PM(k - 1, s._n - k + 1)
        ph = P(k - 1)
        for tt, o, l, (lo, mid, hi) in list(n.get("dec", [])):
            if mid.eq(vb) and is0(hi) and e.entails(o == k - 1):
                e.use(L_lt, ph, vb + va, pq, lo)
                have(z3.And(lo + ph * vb == If_(bit_, t, M), lo >= 0), "accumulator before the addition")
                have(lo + ph * (vb + va) < ph * pq, "no overflow of the addition")
                have(z3.And(w == 0, new == vb + va), "exact addition")

    def main_hint(e, k0, n):
        s, X, Y, nx, ny = roles(n)
        k = z3.simplify(k0 + 1)
        t, A, Bk, C, bit_ = n["ghost"]["t"]
        pk = P(k)
        P(k + 1)
        rems(e, X, k), rems(e, X, k + 1)
        have(X % P(k + 1) == X % pk + pk * bit_, "next low part")
        have(z3.And(Y * pk == 2 * Bk, Y * (X % P(k + 1)) == C + z3.If(bit_ == 1, 2 * Bk, z3.IntVal(0))), "products of the next step")

    class Main(IntLoop):
        def havoc(self, e, k, env, names, L):
            r = IntLoop.havoc(self, e, k, env, names, L)
            n = st(e)
            n["heap"][n["ghost"]["f1"].id] = n["ghost"]["x"]
            L.heap0 = dict(n["heap"])
            return r

    class NestedFlip(Flip):
        def inv(self, e, k, env, L):
            if not hasattr(L, "s0"):
                last_add(e, st(e), st(e)["ghost"]["i"])
            return Flip.inv(self, e, k, env, L)

    class FinalFlip(Flip):
        def inv(self, e, k, env, L):
            if not hasattr(L, "s0"):
                n = st(e)
                s, X, Y, nx, ny = roles(n)
                last_add(e, n, nx - 1)
                t, A, Bk, C, bit_ = n["ghost"]["t"]
                rems(e, X, nx - 1), P(nx)
                e.use(L_rem, X, X, P(nx), z3.IntVal(0))
                have(X == X % P(nx - 1) + P(nx - 1) * bit_, "top bit of the first factor")
                have(X * Y == C + z3.If(bit_ == 1, A, z3.IntVal(0)), "product by top bit")
                have(A == 2 * Bk, "last summand")
            return Flip.inv(self, e, k, env, L)

    loops = {(fn, 0): copy_inv("y", False), (fn, 1): copy_inv("x", False), (fn, 2): copy_inv("y", True),
             (fn, 3): Flip(lambda n: z3.IntVal(1)), (fn, 4): NestedFlip(lambda n: z3.simplify(n["ghost"]["i"] + 1)),
             (fn, 5): Main(main_inv, lambda n: [n["ghost"]["s"], n["ghost"]["f1"]], main_hint),
             (fn, 6): FinalFlip(lambda n: z3.simplify(n["ghost"]["nx"] - 1))}
    ns = load(MULT, iheap.shims(True), loops=loops)

    def run(e):
        na, nb = e.fresh("na"), e.fresh("nb")
        e.assume(z3.And(na >= 1, nb >= 1))
        a, b = fresh(e, IF, na, "a"), fresh(e, IF, nb, "b")
        va, vb = a.v(), b.v()
        st(e)["ghost"] = dict(f1=a, f2=b, x=va, y=vb, nx=na, ny=nb)
        e.use(L_rem, va, va, P(na), z3.IntVal(0))
        e.use(L_rem, vb, vb, P(nb), z3.IntVal(0))
        P(na - 1), P(nb - 1)
        r = ns[fn](a, b, iheap.adder)
        e.prove(r.v() == va * vb, "result = product of the factors")
        e.prove(r._n == na + nb, "result is wide enough for every product")
        e.prove(a.v() == va, "first factor unchanged")
        e.prove(b.v() == vb, "second factor unchanged")
        clean(e, [r])
    return run


def is0(x):
    return z3.is_int_value(x) and x.as_long() == 0


def If_(bit_, t, M):
    return z3.If(bit_ == 1, t, M - 1 - t)


def programs():
    Pg = {}
    for op in ("uint_lt", "uint_gt", "uint_le", "uint_ge"):
        for kind in ("qq", "qc", "cq"):
            Pg[f"{op}[{kind}]"] = (v_uint, (kind, op))
    for q in (True, False):
        for c in (False, True):
            Pg[f"jasp_mod_adder[{'quantum' if q else 'classical'}{', ctrl' if c else ''}]"] = (v_modadd, (q, c))
    Pg["jasp_controlling_multiplyer"] = (v_mult, (False,))
    Pg["jasp_squaring"] = (v_mult, (True,))
    Pg["inpl_q_int_mult"] = (v_inpl_mult, ())
    Pg["q_int_mult"] = (v_int_mult, ())
    Pg["jasp_multiplyer"] = (v_multiplyer, ())
    return Pg


def run_one(ctx, name):
    mk, args = programs()[name]
    try:
        eng = Engine(name=name)
        eng.linear_entails = True
        eng.explore(mk(*args)).report(ctx, name)
    except Exception as ex:
        ctx.undecided(f"{name}: {type(ex).__name__}: {ex}")
