"""Contracts of the multi-limb integer type (all limb counts n >= 1, all limb contents).

Val(a, k) = sum_{i<k} a[i]*B^i,  Bp(k) = B^k, both given by their defining recursion; the lemmas below are proved by
induction on k. `digits` arrays are uint32 arrays: the range fact 0 <= a[i] < 2^32 is the type invariant of the array.
"""
import z3

from .. import jaxshim, sym
from ..engine import Engine, Lemma, Unsupported, prove_lemma
from ..load import load
from ..sym import ARR, Arr, B, W

FILE = "alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py"
BASE = 2 ** 32
I = z3.IntSort()
Val = z3.Function("Val", ARR, I, I)
Bp = z3.Function("Bp", I, I)


def unfold(a, k):
    """defining equations at k"""
    ka = z3.Select(a, k)
    return [Val(a, z3.IntVal(0)) == 0, Bp(z3.IntVal(0)) == 1,
            z3.Implies(k >= 0, z3.And(Bp(k + 1) == BASE * Bp(k), Val(a, k + 1) == Val(a, k) + ka * Bp(k)))]


def rng(a, k):
    return z3.And(z3.Select(a, k) >= 0, z3.Select(a, k) < BASE)


L_frame = Lemma("frame: writing limb i >= k does not change the first k limbs' value",
                lambda a, i, v, k: z3.Implies(z3.And(k >= 0, i >= k), Val(z3.Store(a, i, v), k) == Val(a, k)),
                [ARR, I, I, I], ("induction", 3), lambda a, i, v, k: unfold(a, k) + unfold(z3.Store(a, i, v), k))
L_pos = Lemma("powers are positive", lambda k: z3.Implies(k >= 0, Bp(k) >= 1), [I], ("induction", 0),
              lambda k: [Bp(z3.IntVal(0)) == 1, z3.Implies(k >= 0, Bp(k + 1) == BASE * Bp(k))])
L_bound = Lemma("k limbs hold a value below B^k",
                lambda a, k: z3.Implies(k >= 0, z3.And(Val(a, k) >= 0, Val(a, k) < Bp(k))), [ARR, I], ("induction", 1),
                lambda a, k: unfold(a, k) + [rng(a, k), z3.Implies(k >= 0, Bp(k) >= 1),
                                             # monotone multiplication instances
                                             z3.Implies(Bp(k) >= 0, z3.And(z3.Select(a, k) * Bp(k) <= (BASE - 1) * Bp(k), z3.Select(a, k) * Bp(k) >= 0))])
L_mulmono = Lemma("monotone multiplication", lambda x, c, p: z3.Implies(z3.And(x >= 0, x <= c, p >= 0), z3.And(x * p <= c * p, x * p >= 0)),
                  [I, I, I])
L_cong = Lemma("congruence of multiplication", lambda x, y, p: z3.Implies(x == y, x * p == y * p), [I, I, I])
L_mod = Lemma("uniqueness of remainder", lambda x, q, m, r: z3.Implies(z3.And(x == q * m + r, r >= 0, r < m), x % m == r), [I, I, I, I])
L_modk = Lemma("adding multiples keeps the remainder", lambda x, q, m: z3.Implies(m > 0, (x + q * m) % m == x % m), [I, I, I])
L_zero = Lemma("all-zero limbs have value zero", lambda k: z3.Implies(k >= 0, Val(z3.K(I, z3.IntVal(0)), k) == 0), [I], ("induction", 0),
               lambda k: unfold(z3.K(I, z3.IntVal(0)), k))
LEMMAS = [L_frame, L_pos, L_bound, L_mulmono, L_cong, L_zero]


def bi(ns, e, name, n):
    a = e.fresh(name, ARR)
    return ns["BigInteger"](Arr(n, a, "u32")), a


def find(st, kind):
    """identify parts of the loop state by kind, not by position"""
    flat = []

    def rec(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
        elif hasattr(x, "tree_flatten"):
            rec(tuple(x.tree_flatten()[0]))
        else:
            flat.append(x)
    rec(st)
    r = [x for x in flat if isinstance(x, kind) or (kind is W and isinstance(x, int))]
    if len(r) != 1:
        raise Unsupported("unexpected loop state")
    return sym.wrap(r[0]) if kind is W else r[0]


def setup(e):
    n = e.fresh("n")
    e.assume(n >= 1)
    return n


def std(e, arrs, k):
    for a in arrs:
        for f in unfold(a, k):
            e.assume(f)
        e.assume(rng(a, k))
    e.use(L_pos, k)


def as_int(x):
    return sym.wrap(x).t


def v_add():
    def inv(e, k, st, info):
        res, c = find(st, Arr), find(st, W)
        a, b = e.notes["a"], e.notes["b"]
        std(e, [a, b, res.t], k)
        return [("carry is a bit", z3.And(c.t >= 0, c.t <= 1)),
                ("partial sums agree", Val(res.t, k) + c.t * Bp(k) == Val(a, k) + Val(b, k))]

    def hint(e, k, st, st2, info):
        r1, r2, c1, c2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        a, b = e.notes["a"], e.notes["b"]
        d = z3.Select(r2.t, k)
        std(e, [a, b, r1.t, r2.t], k)
        e.use(L_cong, d + BASE * c2.t, z3.Select(a, k) + z3.Select(b, k) + c1.t, Bp(k))
        frame(e, r1.t, r2.t, k)

    ns = load(FILE, jaxshim.make([dict(name="carry loop", inv=inv, hint=hint)]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        e.notes.update(a=a, b=b)
        r = ns["BigInteger"].__add__(x, y)
        mod_post(e, r, n, Val(a, n) + Val(b, n), "sum", [z3.IntVal(0), z3.IntVal(1)])
    return run


def frame(e, t1, t2, k):
    """if t2 is a (conditional) update of t1 at k, instantiate the frame lemma"""
    t2 = z3.simplify(t2)
    if z3.is_app_of(t2, z3.Z3_OP_STORE) and t2.arg(0).eq(z3.simplify(t1)):
        e.use(L_frame, t2.arg(0), t2.arg(1), t2.arg(2), k)


def mod_post(e, r, n, exact, what, quotients):
    """r.digits hold  exact mod B^n  (exact - q*B^n for one of the candidate quotient terms)"""
    d = r.digits
    e.prove(d.n == n, f"{what}: limb count is preserved")
    e.use(L_pos, n)
    e.use(L_bound, d.t, n)
    for a in ("a", "b"):
        if a in e.notes:
            e.use(L_bound, e.notes[a], n)
    v = Val(d.t, n)
    e.prove(z3.And(v >= 0, v < Bp(n), z3.Or([exact == q * Bp(n) + v for q in quotients])),
            f"{what}: result = exact {what} mod 2^(32n)")


def v_sub():
    def inv(e, k, st, info):
        res, c = find(st, Arr), find(st, W)
        a, b = e.notes["a"], e.notes["b"]
        std(e, [a, b, res.t], k)
        return [("borrow is a bit", z3.And(c.t >= 0, c.t <= 1)),
                ("partial differences agree", Val(res.t, k) == Val(a, k) - Val(b, k) + c.t * Bp(k))]

    def hint(e, k, st, st2, info):
        r1, r2, c1, c2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        a, b = e.notes["a"], e.notes["b"]
        std(e, [a, b, r1.t, r2.t], k)
        e.use(L_cong, z3.Select(r2.t, k), z3.Select(a, k) - z3.Select(b, k) - c1.t + BASE * c2.t, Bp(k))
        frame(e, r1.t, r2.t, k)

    ns = load(FILE, jaxshim.make([dict(name="borrow loop", inv=inv, hint=hint)]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        e.notes.update(a=a, b=b)
        r = ns["BigInteger"].__sub__(x, y)
        mod_post(e, r, n, Val(a, n) - Val(b, n), "difference", [z3.IntVal(0), z3.IntVal(-1)])
    return run


def v_cmp(op):
    def inv(e, k, st, info):
        i, res = [sym.wrap(x) for x in st]
        a, b, n = e.notes["a"], e.notes["b"], e.notes["n"]
        for j in (i.t, i.t - 1):
            std(e, [a, b], j)
            e.use(L_bound, a, j)
            e.use(L_bound, b, j)
        va, vb = Val(a, n), Val(b, n)
        return [("index in range", z3.And(i.t >= 0, i.t <= n)),
                ("verdict so far", z3.Or(
                    z3.And(res.t == -5, va - Val(a, i.t) == vb - Val(b, i.t)),
                    z3.And(res.t == 1, va < vb),
                    z3.And(res.t == 0, va > vb)))]

    def hint(e, k, st, st2, info):
        a, b = e.notes["a"], e.notes["b"]
        i2 = sym.wrap(st2[0]).t
        std(e, [a, b], i2)
        e.use(L_bound, a, i2)
        e.use(L_bound, b, i2)
        d = z3.Select(a, i2) - z3.Select(b, i2)
        e.use(L_mulmono, d - 1, z3.IntVal(BASE), Bp(i2))
        e.use(L_mulmono, -d - 1, z3.IntVal(BASE), Bp(i2))

    ns = load(FILE, jaxshim.make([dict(name="limb scan", inv=inv, hint=hint, variant=lambda st: sym.wrap(st[0]).t)]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        e.notes.update(a=a, b=b, n=n)
        r = getattr(ns["BigInteger"], op)(x, y)
        va, vb = Val(a, n), Val(b, n)
        if op == "__gt__" or op == "__ge__":
            pass
        spec = {"__lt__": va < vb, "__le__": va <= vb, "__gt__": va > vb, "__ge__": va >= vb}[op]
        for f in unfold(a, n) + unfold(b, n):
            e.assume(f)
        e.prove(sym.bt(r) == spec, "result = order of the represented integers")
    return run



L_padd = Lemma("B^(i+d) = B^i * B^d", lambda i, d: z3.Implies(z3.And(i >= 0, d >= 0), Bp(i + d) == Bp(i) * Bp(d)), [I, I], ("induction", 1),
               lambda i, d: [Bp(z3.IntVal(0)) == 1, z3.Implies(z3.And(i >= 0, d >= 0), z3.And(Bp(i + d + 1) == BASE * Bp(i + d), Bp(d + 1) == BASE * Bp(d)))])
Hi = z3.Function("Hi", ARR, I, I, I)       # value of limbs m..m+d-1 shifted down (definition by recursion on d)


def unfold_hi(a, m, d):
    return [Hi(a, m, z3.IntVal(0)) == 0, z3.Implies(d >= 0, Hi(a, m, d + 1) == Hi(a, m, d) + z3.Select(a, m + d) * Bp(d))]


L_split = Lemma("splitting limbs at m", lambda a, m, d: z3.Implies(z3.And(m >= 0, d >= 0), Val(a, m + d) == Val(a, m) + Hi(a, m, d) * Bp(m)),
                [ARR, I, I], ("induction", 2),
                lambda a, m, d: unfold_hi(a, m, d) + [z3.Implies(z3.And(m >= 0, d >= 0), z3.And(
                    Val(a, m + d + 1) == Val(a, m + d) + z3.Select(a, m + d) * Bp(m + d), Bp(m + d) == Bp(m) * Bp(d)))])
LEMMAS += [L_padd, L_split]


def v_mul():
    def oinv(e, i, st, info):
        res = find(st, Arr)
        a, b, n = e.notes["a"], e.notes["b"], e.notes["n"]
        std(e, [a], i)
        if "q" not in info:
            info["q"] = z3.IntVal(0)
        return [("limb count", res.n == n), ("partial product", Val(res.t, n) + info["q"] * Bp(n) == Val(a, i) * Val(b, n))]

    def ohavoc(e, i, init, info):
        info["q"] = e.fresh("q")
        e.notes["i"] = i
        return jaxshim.tree_havoc(init, "R")

    def ohint(e, i, st, st2, info):
        a, b, n = e.notes["a"], e.notes["b"], e.notes["n"]
        ai = z3.Select(a, i)
        std(e, [a], i)
        c = e.notes["carry_out"]
        h = Hi(b, n - i, i)
        # Val(b,n)*Bp(i) = Val(b,n-i)*Bp(i) + h*Bp(n)
        e.use(L_split, b, n - i, i)
        e.use(L_padd, n - i, i)
        e.use(L_cong, Val(b, n), Val(b, n - i) + h * Bp(n - i), Bp(i) * ai)
        e.use(L_cong, Bp(n), Bp(n - i) * Bp(i), h * ai)
        e.use(L_cong, Val(a, i + 1), Val(a, i) + ai * Bp(i), Val(b, n))
        info["q"] = info["q"] + c + ai * h

    def iinv(e, j, st, info):
        res, c = find(st, Arr), find(st, W)
        a, b, n, i = e.notes["a"], e.notes["b"], e.notes["n"], e.notes["i"]
        R0 = find(info["init"], Arr)
        e.notes["carry_out"] = c.t
        std(e, [b], j)
        std(e, [R0.t, res.t], i + j)
        t = e.fresh("t")
        ai = a_i(e)
        return [("carry is a limb", z3.And(c.t >= 0, c.t < BASE)), ("limb count", res.n == n),
                ("limbs above are untouched", z3.Implies(t >= i + j, z3.Select(res.t, t) == z3.Select(R0.t, t))),
                ("partial row", Val(res.t, i + j) + c.t * Bp(i + j) == Val(R0.t, i + j) + ai * Val(b, j) * Bp(i))]

    def a_i(e):
        return z3.Select(e.notes["a"], e.notes["i"])

    def ihavoc(e, j, init, info):
        st = jaxshim.tree_havoc(init, "r")
        R0 = find(init, Arr)
        t = z3.Int("t_i")
        new = Arr(R0.n, z3.Lambda([t], z3.If(t >= e.notes["i"] + j, z3.Select(R0.t, t), z3.Select(find(st, Arr).t, t))), "u32")
        return tuple(new if isinstance(x, Arr) else x for x in st)

    def ihint(e, j, st, st2, info):
        a, b, n, i = e.notes["a"], e.notes["b"], e.notes["n"], e.notes["i"]
        r1, r2, c1, c2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        R0 = find(info["init"], Arr)
        std(e, [b], j)
        std(e, [R0.t, r1.t, r2.t], i + j)
        e.use(L_padd, i, j)
        ai = a_i(e)
        e.use(L_cong, z3.Select(r2.t, i + j) + BASE * c2.t, z3.Select(R0.t, i + j) + ai * z3.Select(b, j) + c1.t, Bp(i + j))
        e.use(L_cong, Bp(i + j), Bp(i) * Bp(j), ai * z3.Select(b, j))
        e.use(L_cong, Val(b, j + 1), Val(b, j) + z3.Select(b, j) * Bp(j), ai * Bp(i))
        frame(e, r1.t, r2.t, i + j)

    ns = load(FILE, jaxshim.make([dict(name="row loop", inv=oinv, havoc=ohavoc, hint=ohint),
                                  dict(name="limb loop", inv=iinv, havoc=ihavoc, hint=ihint)]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        e.notes.update(a=a, b=b, n=n)
        e.use(L_zero, n)
        for f in unfold(a, z3.IntVal(0)):
            e.assume(f)
        r = ns["BigInteger"].__mul__(x, y)
        d = r.digits
        e.prove(d.n == n, "product: limb count is preserved")
        e.use(L_bound, d.t, n)
        q = e.fresh("qq")
        v = Val(d.t, n)
        # the row-loop invariant at i = n supplies the quotient witness
        wit = [f for f in e.pc if z3.is_eq(f)]
        e.prove(z3.And(v >= 0, v < Bp(n), z3.Exists([q], Val(a, n) * Val(b, n) == q * Bp(n) + v)), "product: result = exact product mod 2^(32n)")
    return run


def v_create():
    def inv(e, k, st, info):
        d, num = find(st, Arr), find(st, W)
        std(e, [d.t], k)
        return [("remaining number non-negative", num.t >= 0), ("digits so far", e.notes["x"] == Val(d.t, k) + num.t * Bp(k))]

    def hint(e, k, st, st2, info):
        d1, d2, x1, x2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        std(e, [d1.t, d2.t], k)
        e.use(L_cong, x1.t, z3.Select(d2.t, k) + BASE * x2.t, Bp(k))
        frame(e, d1.t, d2.t, k)
    ns = load(FILE, jaxshim.make([dict(name="digit loop", inv=inv, hint=hint)]))

    def run(e):
        n = setup(e)
        x = e.fresh("x")
        e.assume(x >= 0)
        e.notes["x"] = x
        r = ns["BigInteger"].create(W(x, None), W(n, None, 1, None))
        e.prove(r.digits.n == n, "limb count is the requested size")
        e.use(L_bound, r.digits.t, n)
        q = e.fresh("qq")
        v = Val(r.digits.t, n)
        e.prove(z3.And(v >= 0, v < Bp(n), z3.Exists([q], x == q * Bp(n) + v)), "construction: digits represent the number mod 2^(32n)")
    return run


L_ext = Lemma("equal limbs have equal value (pointwise form)",
              lambda a, b, k: z3.Implies(z3.And(k >= 0, z3.Select(a, k) == z3.Select(b, k), Val(a, k) == Val(b, k)), Val(a, k + 1) == Val(b, k + 1)),
              [ARR, ARR, I], "direct", lambda a, b, k: unfold(a, k) + unfold(b, k))
jj = z3.Int("jj")
L_exta = Lemma("equal limbs have equal value",
               lambda a, b, k: z3.Implies(z3.And(k >= 0, z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < k), z3.Select(a, jj) == z3.Select(b, jj)))), Val(a, k) == Val(b, k)),
               [ARR, ARR, I], ("induction", 2), lambda a, b, k: unfold(a, k) + unfold(b, k))
L_inj = Lemma("equal value forces equal limbs",
              lambda a, b, w, k: z3.Implies(z3.And(k >= 0, w >= 0, w < k, Val(a, k) == Val(b, k)), z3.Select(a, w) == z3.Select(b, w)),
              [ARR, ARR, I, I], ("induction", 3),
              lambda a, b, w, k: unfold(a, k) + unfold(b, k) + [rng(a, k), rng(b, k)]
              + [L_bound.stmt(a, k), L_bound.stmt(b, k), L_pos.stmt(k),
                 L_mulmono.stmt(z3.Select(a, k) - z3.Select(b, k) - 1, z3.IntVal(BASE), Bp(k)),
                 L_mulmono.stmt(z3.Select(b, k) - z3.Select(a, k) - 1, z3.IntVal(BASE), Bp(k))])
LEMMAS += [L_exta, L_inj]


def v_eq(op):
    ns = load(FILE, jaxshim.make([]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        r = getattr(ns["BigInteger"], op)(x, y)
        for q, w, _, _ in e.notes.get("allmask", []):
            e.use(L_inj, a, b, w, n)
            e.assume(rng(a, w)); e.assume(rng(b, w))
        e.use(L_exta, a, b, n)
        same = Val(a, n) == Val(b, n)
        e.prove(sym.bt(r) == (same if op == "__eq__" else z3.Not(same)), "result = equality of the represented integers")
    return run


def v_divmod_single():
    """processes limbs from the top: after k limbs, (value of the k top limbs) = q_top*d + rem"""
    def inv(e, k, st, info):
        q, rem = find(st, Arr), find(st, W)
        u, d, n = e.notes["u"], e.notes["d"], e.notes["n"]
        m = n - k
        for f in unfold(u, m) + unfold(q.t, m) + unfold(u, m - 1) + unfold(q.t, m - 1):
            e.assume(f)
        t = e.fresh("t")
        return [("remainder below divisor", z3.And(rem.t >= 0, rem.t < d)), ("limb count", q.n == n),
                ("top limbs divided", Val(u, n) - Val(u, m) == (Val(q.t, n) - Val(q.t, m)) * d + rem.t * Bp(m))]

    def hint(e, k, st, st2, info):
        q1, q2, r1, r2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        u, d, n = e.notes["u"], e.notes["d"], e.notes["n"]
        m = n - k - 1
        for a in (u, q1.t, q2.t):
            for f in unfold(a, m):
                e.assume(f)
        e.assume(rng(u, m))
        e.use(L_pos, m)
        qi = z3.Select(q2.t, m)
        e.prove(qi * d + r2.t == r1.t * BASE + z3.Select(u, m), "one limb: exact quotient digit and remainder")
        e.assume(qi * d + r2.t == r1.t * BASE + z3.Select(u, m))
        e.use(L_cong, qi * d + r2.t, r1.t * BASE + z3.Select(u, m), Bp(m))
        # digits above m are unchanged: difference Val(.,n)-Val(.,m+1)
        upd(e, q1.t, q2.t, m, n)

    def upd(e, t1, t2, m, n):
        t2 = z3.simplify(t2)
        if z3.is_app_of(t2, z3.Z3_OP_STORE) and t2.arg(0).eq(z3.simplify(t1)):
            e.use(L_top, t2.arg(0), t2.arg(1), t2.arg(2), m, n - m - 1)
            e.use(L_frame, t2.arg(0), t2.arg(1), t2.arg(2), m)
    ns = load(FILE, jaxshim.make([dict(name="limb division loop", inv=inv, hint=hint)]))

    def run(e):
        n = setup(e)
        u = e.fresh("u", ARR)
        d = e.fresh("d")
        e.assume(z3.And(d >= 1, d < BASE))
        e.notes.update(u=u, d=d, n=n)
        for f in unfold(u, n):
            e.assume(f)
        q, r = ns["_divmod_single_limb"](Arr(n, u, "u32"), W(d, "u32", 1, BASE - 1))
        for f in unfold(q.t, z3.IntVal(0)):
            e.assume(f)
        e.prove(z3.And(Val(u, n) == Val(q.t, n) * d + sym.wrap(r).t, sym.wrap(r).t >= 0, sym.wrap(r).t < d), "u = q*d + r with 0 <= r < d")
    return run



def v_swapcmp(op):
    """__gt__/__ge__ against the contracts of __lt__/__le__"""
    ns = load(FILE, jaxshim.make([]))

    def run(e):
        n = setup(e)
        C = ns["BigInteger"]
        C.__lt__ = lambda s, o: B(Val(s.digits.t, n) < Val(o.digits.t, n))
        C.__le__ = lambda s, o: B(Val(s.digits.t, n) <= Val(o.digits.t, n))
        C.__eq__ = lambda s, o: B(Val(s.digits.t, n) == Val(o.digits.t, n))
        C.__ne__ = lambda s, o: B(Val(s.digits.t, n) != Val(o.digits.t, n))
        x, a = bi(ns, e, "a", n)
        y, b = bi(ns, e, "b", n)
        r = getattr(C, op)(x, y)
        va, vb = Val(a, n), Val(b, n)
        e.prove(sym.bt(r) == {"__gt__": va > vb, "__ge__": va >= vb}[op], "result = order of the represented integers")
    return run


def v_shl():
    def inv(e, k, st, info):
        out, c = find(st, Arr), find(st, W)
        a, p = e.notes["a"], e.notes["p"]
        std(e, [a, out.t], k)
        return [("carry below 2^s", z3.And(c.t >= 0, c.t < p)), ("limb count", out.n == e.notes["n"]),
                ("partial shift", Val(out.t, k) + c.t * Bp(k) == Val(a, k) * p)]

    def hint(e, k, st, st2, info):
        o1, o2, c1, c2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        a, p = e.notes["a"], e.notes["p"]
        std(e, [a, o1.t, o2.t], k)
        e.use(L_cong, z3.Select(o2.t, k) + BASE * c2.t, z3.Select(a, k) * p + c1.t, Bp(k))
        frame(e, o1.t, o2.t, k)
    ns = load(FILE, jaxshim.make([dict(name="shift loop", inv=inv, hint=hint)]))

    def mk(s):
        def run(e):
            n = setup(e)
            a = e.fresh("a", ARR)
            p = 2 ** s
            e.notes.update(a=a, n=n, p=p, or_splits=[p])
            out, c = ns["_shl_bits"](Arr(n, a, "u32"), W(s, "i32"))
            e.prove(z3.And(Val(a, n) * p == Val(out.t, n) + sym.wrap(c).t * Bp(n), sym.wrap(c).t >= 0, sym.wrap(c).t < p), "value * 2^s = out + carry * B^n")
        return run
    return [mk(s) for s in range(32)]


def v_shr():
    def inv(e, k, st, info):
        out, c = find(st, Arr), find(st, W)
        a, p, n = e.notes["a"], e.notes["p"], e.notes["n"]
        m = n - k
        for f in unfold(a, m) + unfold(out.t, m) + unfold(a, m - 1) + unfold(out.t, m - 1):
            e.assume(f)
        return [("carry below 2^s", z3.And(c.t >= 0, c.t < p)), ("limb count", out.n == n),
                ("top limbs shifted", Val(a, n) - Val(a, m) == (Val(out.t, n) - Val(out.t, m)) * p + c.t * Bp(m))]

    def hint(e, k, st, st2, info):
        o1, o2, c1, c2 = find(st, Arr), find(st2, Arr), find(st, W), find(st2, W)
        a, p, n = e.notes["a"], e.notes["p"], e.notes["n"]
        m = n - k - 1
        for x in (a, o1.t, o2.t):
            for f in unfold(x, m):
                e.assume(f)
        e.assume(rng(a, m))
        e.use(L_pos, m)
        e.use(L_cong, z3.Select(o2.t, m) * p + c2.t, c1.t * BASE + z3.Select(a, m), Bp(m))
        t2 = z3.simplify(o2.t)
        if z3.is_app_of(t2, z3.Z3_OP_STORE) and t2.arg(0).eq(z3.simplify(o1.t)):
            e.use(L_top, t2.arg(0), t2.arg(1), t2.arg(2), m, n - m - 1)
            e.use(L_frame, t2.arg(0), t2.arg(1), t2.arg(2), m)
    ns = load(FILE, jaxshim.make([dict(name="shift loop", inv=inv, hint=hint)]))

    def mk(s):
        def run(e):
            n = setup(e)
            a = e.fresh("a", ARR)
            p = 2 ** s
            e.notes.update(a=a, n=n, p=p, or_splits=[2 ** (32 - s)])
            for f in unfold(a, n):
                e.assume(f)
            out = ns["_shr_bits"](Arr(n, a, "u32"), W(s, "i32"))
            for f in unfold(out.t, z3.IntVal(0)):
                e.assume(f)
            r = Val(a, n) - Val(out.t, n) * p
            e.prove(z3.And(r >= 0, r < p), "out = floor(value / 2^s)")
        return run
    return [mk(s) for s in range(32)]


def v_mslen():
    def inv(e, k, st, info):
        i = sym.wrap(st).t
        a, n = e.notes["a"], e.notes["n"]
        for f in unfold(a, i) + unfold(a, i - 1):
            e.assume(f)
        return [("index in range", z3.And(i >= 0, i <= n - 1)), ("dropped limbs are zero", Val(a, n) == Val(a, i + 1))]
    ns = load(FILE, jaxshim.make([dict(name="leading limb scan", inv=inv, variant=lambda st: sym.wrap(st).t)]))

    def run(e):
        n = setup(e)
        a = e.fresh("a", ARR)
        e.notes.update(a=a, n=n)
        r = sym.wrap(ns["_ms_length"](Arr(n, a, "u32"))).t
        z = z3.K(I, z3.IntVal(0))
        e.use(L_zero, n)
        e.use(L_exta, a, z, n)
        for f in unfold(a, z3.IntVal(0)) + unfold(a, r - 1) + unfold(a, r):
            e.assume(f)
        e.assume(rng(a, r - 1))
        for q, w, _, _ in e.notes.get("allmask", []):
            e.use(L_inj, a, z, w, n)
        e.prove(z3.And(r >= 0, r <= n, Val(a, n) == Val(a, r), z3.Or(r == 0, z3.Select(a, r - 1) != 0)), "length = position of the leading non-zero limb")
    return run


def v_clz():
    def inv(e, k, st, info):
        x, s = sym.wrap(st[0]).t, sym.wrap(st[1]).t
        x0 = e.notes["x0"]
        p = sym.pow2(s)
        e.assume(z3.And(sym.pow2(z3.IntVal(0)) == 1, z3.Implies(s >= 0, sym.pow2(s + 1) == 2 * p)))
        e.assume(sym.pow2(z3.IntVal(32)) == 2 ** 32)
        return [("shift in range", z3.And(s >= 0, s <= 32)), ("shifted value", z3.And(x == x0 * p, x >= p, p >= 1, x < BASE))]

    def hint(e, k, st, st2, info):
        e.use(L_cong, sym.pow2(sym.wrap(st[1]).t + 1), 2 * sym.pow2(sym.wrap(st[1]).t), e.notes["x0"])
    ns = load(FILE, jaxshim.make([dict(name="leading zero loop", inv=inv, hint=hint, variant=lambda st: 33 - sym.wrap(st[1]).t)]))

    def run(e):
        x0 = e.fresh("x0")
        e.assume(z3.And(x0 >= 1, x0 < BASE))
        e.notes["x0"] = x0
        s = sym.wrap(ns["_clz32"](W(x0, "u32", 1, BASE - 1))).t
        e.prove(z3.And(s >= 0, s < 32, x0 * sym.pow2(s) >= 2 ** 31, x0 * sym.pow2(s) < 2 ** 32), "2^31 <= x * 2^s < 2^32")
    return run


def v_larger():
    ns = load(FILE, jaxshim.make([]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        r = ns["BigInteger"].get_larger(x).digits
        e.prove(r.n == 2 * n, "limb count doubles")
        L = L_pad
        e.use(L, a, r.t, n, n)
        i, j = e.fresh("i"), e.fresh("j")
        e.prove(z3.Implies(z3.And(i >= 0, i < n), z3.Select(r.t, i) == z3.Select(a, i)), "low limbs kept")
        e.prove(z3.Implies(z3.And(j >= n, j < 2 * n), z3.Select(r.t, j) == 0), "high limbs zero")
    run.lemmas = [L_pad]
    return run


def v_coerce():
    ns = load(FILE, jaxshim.make([]))

    def run(e):
        n = setup(e)
        m = e.fresh("m")
        e.assume(m >= 1)
        x, a = bi(ns, e, "a", n)
        try:
            r = ns["BigInteger"].coerce(x, W(m, None, 1, None)).digits
        except ValueError:
            e.prove(n > m, "rejected only if limbs would be dropped")
            return
        e.prove(z3.And(r.n == m, m >= n), "target limb count, never truncating")
        i = e.fresh("i")
        e.prove(z3.Implies(z3.And(i >= 0, i < m), z3.Select(r.t, i) == z3.If(i < n, z3.Select(a, i), z3.IntVal(0))), "limbs kept, padding zero")
    return run


L_pad = Lemma("zero padding keeps the value", lambda a, b, m, d: z3.Implies(
    z3.And(m >= 0, d >= 0, Val(a, m) == Val(b, m), z3.ForAll([jj], z3.Implies(jj >= m, z3.Select(b, jj) == 0))), Val(b, m + d) == Val(a, m)),
    [ARR, ARR, I, I], ("induction", 3), lambda a, b, m, d: unfold(b, m + d))


def v_getbit():
    ns = load(FILE, jaxshim.make([]))

    def mk(s):
        def run(e):
            n = setup(e)
            x, a = bi(ns, e, "a", n)
            L = e.fresh("limb")
            e.assume(z3.And(L >= 0, L < n))
            r = sym.wrap(ns["BigInteger"].get_bit(x, W(L * 32 + s, None, 0, None))).t
            d = z3.Select(a, L)
            e.prove(r == (d / 2 ** s) % 2, "bit 32*L+s of the number = bit s of limb L")
        return run
    return [mk(s) for s in range(32)]


def v_flipbit():
    ns = load(FILE, jaxshim.make([]))

    def mk(s):
        def run(e):
            n = setup(e)
            x, a = bi(ns, e, "a", n)
            L, j = e.fresh("limb"), e.fresh("j")
            e.assume(z3.And(L >= 0, L < n, j >= 0, j < n))
            r = ns["BigInteger"].flip_bit(x, W(L * 32 + s, None, 0, None)).digits
            d, d2 = x.digits.raw(L), r.raw(L)
            e.prove(z3.And(r.n == n, z3.Implies(j != L, z3.Select(r.t, j) == z3.Select(a, j))), "other limbs unchanged")
            e.prove(d2 == z3.If((d / 2 ** s) % 2 == 0, d + 2 ** s, d - 2 ** s), "exactly bit s of limb L is flipped")
        return run
    return [mk(s) for s in range(32)]


def v_invert():
    ns = load(FILE, jaxshim.make([]))

    def run(e):
        n = setup(e)
        x, a = bi(ns, e, "a", n)
        r = ns["BigInteger"].__invert__(x).digits
        e.prove(r.n == n, "limb count kept")
        e.use(L_compl, a, n)
        i = z3.Int("inv_i")
        lam = z3.Lambda([i], 2 ** 32 - 1 - z3.Select(a, i))
        j = e.fresh("j")
        e.prove(z3.Select(r.t, j) == 2 ** 32 - 1 - z3.Select(a, j), "limb-wise complement")
    run.lemmas = []
    return run


L_compl = Lemma("complement", lambda a, k: z3.BoolVal(True), [ARR, I])
L_top = Lemma("writing limb m keeps the value of the limbs above",
              lambda a, i, v, m, d: z3.Implies(z3.And(m >= 0, d >= 0, i == m),
                                               Val(z3.Store(a, i, v), m + 1 + d) - Val(z3.Store(a, i, v), m + 1) == Val(a, m + 1 + d) - Val(a, m + 1)),
              [ARR, I, I, I, I], ("induction", 4), lambda a, i, v, m, d: unfold(a, m + 1 + d) + unfold(z3.Store(a, i, v), m + 1 + d))
LEMMAS += [L_top]


def bitview(ns, e, n):
    """get_bit / flip_bit through their contracts (proved above): digits are viewed as the array of the 32*n bits"""
    C = ns["BigInteger"]

    def at(i, what):
        i = sym.wrap(i).t
        e.prove(z3.And(i >= 0, i < 32 * n), f"{what}: bit position exists")
        return i

    def get_bit(self, i):
        i = at(i, "read")
        return W(z3.Select(self.digits.t, i), "u32", 0, 1)

    def flip_bit(self, i):
        i = at(i, "flip")
        return C(Arr(self.digits.n, z3.Store(self.digits.t, i, 1 - z3.Select(self.digits.t, i)), "u32"))
    C.get_bit, C.flip_bit = get_bit, flip_bit
    return C


def v_shift(op):
    def shape(e, k):
        """bits after k iterations"""
        a, s = e.notes["a"], e.notes["s"]
        if op == "__lshift__":
            return lambda t: z3.If(z3.And(t >= s, t < s + k), z3.Select(a, t - s), z3.IntVal(0))
        return lambda t: z3.If(z3.And(t >= 0, t < k - s), z3.Select(a, t + s), z3.IntVal(0))

    def inv(e, k, st, info):
        res = find(st, Arr)
        t = e.fresh("t")
        a, s = e.notes["a"], e.notes["s"]
        for x in (t, t - s, t + s, k):
            e.assume(z3.And(z3.Select(a, x) >= 0, z3.Select(a, x) <= 1))
        return [("limb count", res.n == e.notes["n"]), ("bits moved so far", z3.Implies(z3.And(t >= 0, t < 32 * e.notes["n"]), z3.Select(res.t, t) == shape(e, k)(t)))]

    def havoc(e, k, init, info):
        st = jaxshim.tree_havoc(init, "x")
        t = z3.Int("t_s")
        C = e.notes["C"]
        return C(Arr(find(init, Arr).n, z3.Lambda([t], shape(e, k)(t)), "u32"))
    ns = load(FILE, jaxshim.make([dict(name="bit loop", inv=inv, havoc=havoc)]))

    def run(e):
        n = setup(e)
        C = bitview(ns, e, n)
        x, a = bi(ns, e, "a", n)
        s = e.fresh("s")
        e.assume(s >= 0)
        e.notes.update(a=a, n=n, s=s, C=C)
        r = getattr(C, op)(x, W(s, None, 0, None)).digits
        t = e.fresh("bit")
        e.assume(z3.And(t >= 0, t < 32 * n))
        e.prove(r.n == n, "limb count is preserved")
        spec = z3.If(t >= s, z3.Select(a, t - s), z3.IntVal(0)) if op == "__lshift__" else z3.If(t + s < 32 * n, z3.Select(a, t + s), z3.IntVal(0))
        e.prove(z3.Select(r.t, t) == spec, "every bit moves by the shift amount, vacated bits are zero")
    return run


def v_bitsize():
    def inv(e, k, st, info):
        i = sym.wrap(st).t
        a, n = e.notes["a"], e.notes["n"]
        for f in unfold(a, i) + unfold(a, i - 1):
            e.assume(f)
        return [("index in range", z3.And(i >= 0, i <= n - 1)), ("dropped limbs are zero", Val(a, n) == Val(a, i + 1))]
    ns = load(FILE, jaxshim.make([dict(name="leading limb scan", inv=inv, variant=lambda st: sym.wrap(st).t)]))

    def mk(s):
        def run(e):
            n = setup(e)
            x, a = bi(ns, e, "a", n)
            e.notes.update(a=a, n=n, limb=None)
            z = z3.K(I, z3.IntVal(0))
            for f in unfold(a, z3.IntVal(0)) + unfold(a, n):
                e.assume(f)
            e.use(L_zero, n)
            e.use(L_exta, a, z, n)

            def clz(d):
                # contract of the leading zero count, one case per result
                d = sym.wrap(d).t
                for q, w, _, _ in e.notes.get("allmask", []):
                    e.use(L_inj, a, z, w, n)
                    e.assume(rng(a, w))
                e.use(L_bound, a, z3.IntVal(0))
                e.prove(z3.And(d >= 1, d < BASE), "leading limb is a non-zero limb")
                e.assume(z3.And(d * 2 ** s >= 2 ** 31, d * 2 ** s < 2 ** 32))
                e.notes["limb"] = d
                return W(z3.IntVal(s), "i32", 0, 31)
            ns["_clz32"] = clz
            r = sym.wrap(ns["BigInteger"].bit_size(x)).t
            v = Val(a, n)
            if e.notes["limb"] is None:
                for q, w, _, _ in e.notes.get("allmask", []):
                    e.use(L_inj, a, z, w, n)
                e.prove(z3.And(r == 0, v == 0), "length 0 exactly for zero")
                return
            m = (r - (32 - s)) / 32
            e.prove(r == 32 * m + (32 - s), "length = 32 * (index of the leading limb) + length of that limb")
            d = z3.Select(a, m)
            e.use(L_bound, a, m)
            e.use(L_pos, m)
            for f in unfold(a, m):
                e.assume(f)
            e.prove(z3.And(m >= 0, m < n, v == Val(a, m) + d * Bp(m), d == e.notes["limb"]), "length counts the bits up to the leading limb")
            e.assume(z3.And(v == Val(a, m) + d * Bp(m), d == e.notes["limb"]))
            e.use(L_mulmono, d, z3.IntVal(2 ** (32 - s) - 1), Bp(m))
            e.use(L_mulmono, d - 2 ** (31 - s), z3.IntVal(BASE), Bp(m))
            e.prove(z3.And(v < 2 ** (32 - s) * Bp(m), v >= 2 ** (31 - s) * Bp(m)), "2^(length-1) <= value < 2^length")
        return run
    return [mk(s) for s in range(32)]


PROGS = {"BigInteger.__add__": v_add, "BigInteger.__sub__": v_sub, "BigInteger.__mul__": v_mul, "BigInteger.create": v_create,
         "BigInteger.__lt__": lambda: v_cmp("__lt__"), "BigInteger.__le__": lambda: v_cmp("__le__"),
         "BigInteger.__gt__": lambda: v_swapcmp("__gt__"), "BigInteger.__ge__": lambda: v_swapcmp("__ge__"),
         "BigInteger.__eq__": lambda: v_eq("__eq__"), "BigInteger.__ne__": lambda: v_eq("__ne__"),
         "_divmod_single_limb": v_divmod_single, "_shl_bits": v_shl, "_shr_bits": v_shr, "_ms_length": v_mslen, "_clz32": v_clz,
         "BigInteger.get_larger": v_larger, "BigInteger.coerce": v_coerce, "BigInteger.get_bit": v_getbit, "BigInteger.flip_bit": v_flipbit,
         "BigInteger.__invert__": v_invert, "BigInteger.__lshift__": lambda: v_shift("__lshift__"),
         "BigInteger.__rshift__": lambda: v_shift("__rshift__"), "BigInteger.bit_size": v_bitsize}


DIVISION = ["_divmod_single_limb", "_shl_bits", "_shr_bits", "_ms_length", "_clz32"]       # used by long division


def run_all(ctx, which=None):
    for l in LEMMAS:
        prove_lemma(ctx, l)
    for fn, mk in PROGS.items():
        if which and fn not in which:
            continue
        try:
            prog = mk()
            for l in getattr(prog, "lemmas", []):
                prove_lemma(ctx, l)
            for p in (prog if isinstance(prog, list) else [prog]):
                Engine(name=fn).explore(p).report(ctx, fn)
        except Unsupported as ex:
            ctx.undecided(f"{fn}: {ex}")
    ctx.assume(sym.ASSUMPTION_INT)
