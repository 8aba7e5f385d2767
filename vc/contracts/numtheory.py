"""Contracts of the integer helpers behind modular arithmetic, for all integers (no bound)."""
import z3

from .. import jaxshim, sym
from ..engine import Engine, Lemma, Unsupported, prove_lemma
from ..load import LoopSpec, Shim, load
from ..sym import W, wrap

JT = "alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py"
MT = "alg_primitives/arithmetic/modular_arithmetic/mod_tools.py"
I = z3.IntSort()
G = z3.Function("gcd", I, I, I)
R = z3.Function("powmod", I, I, I, I)      # R(b, k, N) = b^k mod N

ASSUME_GCD = "gcd is the function with gcd(x, 0) = x and gcd(x, y) = gcd(y, x - q*y) for all x, y >= 0 and q (Euclid)"
ASSUME_POW = "b^k mod N is the function with b^0 = 1, b^(2k) = (b^2)^k and b^(2k+1) = b * (b^2)^k (mod N)"

L_cong = Lemma("numbers that differ by a multiple of N have the same remainder", lambda u, v, n, w: z3.Implies(
    z3.And(n >= 1, u - v == n * w), u % n == v % n), [I, I, I, I], "direct",
    lambda u, v, n, w: [z3.Implies(n >= 1, z3.And(u == n * (u / n) + u % n, u % n >= 0, u % n < n, v == n * (v / n) + v % n, v % n >= 0, v % n < n)),
                        z3.Or(u / n - v / n == w, u / n - v / n >= w + 1, u / n - v / n <= w - 1),
                        n * (u / n) - n * (v / n) == n * (u / n - v / n),
                        z3.Implies(z3.And(n >= 1, u / n - v / n >= w + 1), n * (u / n - v / n) >= n * (w + 1)),
                        z3.Implies(z3.And(n >= 1, u / n - v / n <= w - 1), n * (u / n - v / n) <= n * (w - 1))])
L_divs = Lemma("division with remainder", lambda u, n: z3.Implies(n >= 1, z3.And(u == n * (u / n) + u % n, u % n >= 0, u % n < n)), [I, I])
L_small = Lemma("a number in [0,N) is its own remainder", lambda u, n: z3.Implies(z3.And(u >= 0, u < n), u % n == u), [I, I])
LEMMAS = [L_cong, L_divs, L_small]


def euclid(e, x, y, q):
    e.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(G(x, y) == G(y, x - q * y), G(x, z3.IntVal(0)) == x, G(y, z3.IntVal(0)) == y)))


def T(v):
    return wrap(v).t


def shims(specs, tracing):
    s = jaxshim.make(specs)
    s["qrisp"] = Shim(check_for_tracing_mode=lambda: tracing)

    class BigInteger:
        pass
    s["qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger"] = Shim(
        BigInteger=BigInteger, bi_modinv=None, bi_montgomery_decode=None, bi_montgomery_encode=None)
    return s


def v_egcd():
    def inv(e, k, st, info):
        r, o, s, os_, t, ot = [T(x) for x in st]
        a, b = e.notes["ab"]
        return [("remainders are not negative", z3.And(r >= 0, o >= 0)), ("Bezout combination of the current remainder", r == s * a + t * b),
                ("Bezout combination of the previous remainder", o == os_ * a + ot * b), ("gcd is kept", G(o, r) == G(a, b))]

    def hint(e, k, st, st2, info):
        r, o = T(st[0]), T(st[1])
        q = o / r
        e.use(L_divs, o, r)
        euclid(e, o, r, q)
        r, o, s, os_, t, ot = [T(x) for x in st]
        a, b = e.notes["ab"]
        have(e, q * (s * a + t * b) == (q * s) * a + (q * t) * b, "distributes")
    ns = load(JT, shims([dict(name="Euclid loop", inv=inv, hint=hint, variant=lambda st: T(st[0]))], True))

    def run(e):
        a, b = e.fresh("a"), e.fresh("b")
        e.assume(z3.And(a >= 0, b >= 0))
        e.notes["ab"] = (a, b)
        g, x, y = [T(v) for v in ns["egcd"](W(a, None, 0, None), W(b, None, 0, None))]
        euclid(e, g, z3.IntVal(0), z3.IntVal(0))
        e.prove(g == a * x + b * y, "g = a*x + b*y")
        e.prove(g == G(a, b), "g is the greatest common divisor")
    return run


def v_egcd_rec():
    """recursive version: the recursive call is used through the contract (arguments decrease)"""
    ns = load(MT, shims([], False))

    def run(e):
        a, b = e.fresh("a"), e.fresh("b")
        e.assume(z3.And(a >= 0, b >= 0))
        real = ns["egcd"]

        def callee(x, y):
            x, y = T(x), T(y)
            e.prove(z3.And(x >= 0, y >= 0, x < a), "recursive call on smaller arguments")
            g, u, v = e.fresh("g"), e.fresh("u"), e.fresh("v")
            e.assume(z3.And(g == u * x + v * y, g == G(y, x)))
            return W(g), W(u), W(v)
        ns["egcd"] = callee
        try:
            g, x, y = [T(v) for v in real(W(a, None, 0, None), W(b, None, 0, None))]
        finally:
            ns["egcd"] = real
        e.use(L_divs, b, a)
        euclid(e, b, a, b / a)
        e.assume(z3.Implies(b >= 0, G(b, z3.IntVal(0)) == b))
        e.prove(g == a * x + b * y, "g = a*x + b*y")
        e.prove(g == G(b, a), "g is the greatest common divisor")
    return run


def inv_modinv(e, a, m, t, nt, r, nr):
    ab = lambda x: z3.If(x >= 0, x, -x)
    u, nu = e.notes["u"]
    e.assume(z3.Implies(r >= 0, G(r, z3.IntVal(0)) == r))
    return [("remainders", z3.And(r >= 1, nr >= 0, r > nr)), ("gcd is kept", G(r, nr) == G(m, a)),
            ("r = t*a modulo m", t * a + u * m == r), ("nr = nt*a modulo m", nt * a + nu * m == nr),
            ("coefficients alternate in sign", z3.Or(z3.And(t <= 0, nt >= 1), z3.And(t >= 0, nt <= -1))),
            ("size of the coefficients", z3.And(r * ab(nt) + nr * ab(t) == m, ab(t) <= ab(nt)))]


def v_modinv(path, tracing):
    def gh(e):
        u, nu = e.fresh("g_u"), e.fresh("g_nu")
        e.notes["u"] = (u, nu)

    def step(e, t, nt, r, nr):
        """witness of the next congruence, facts of the division"""
        u, nu = e.notes["u"]
        a, m = e.notes["am"]
        q = r / nr
        e.use(L_divs, r, nr)
        euclid(e, r, nr, q)
        have(e, z3.And(q >= 1), "quotient is positive")
        have(e, q * nr == nr * q, "commutes")
        e.notes["u"] = (nu, u - q * nu)
        have(e, z3.And((t - q * nt) * a == t * a - q * (nt * a), (u - q * nu) * m == u * m - q * (nu * m)), "distributes")
        have(e, q * (nt * a) + q * (nu * m) == q * nr, "scaled congruence")
        ab = lambda x: z3.If(x >= 0, x, -x)
        P_ = e.fresh("prod")
        e.assume(P_ == q * ab(nt))
        have(e, z3.And(P_ >= ab(nt), q * nt == z3.If(nt >= 0, P_, -P_)), "scaled coefficient")
        have(e, ab(t - q * nt) == ab(t) + P_, "size of the next coefficient")
        have(e, nr * P_ == (nr * q) * ab(nt), "scaled size")
        have(e, nr * (ab(t) + P_) + (r - q * nr) * ab(nt) == r * ab(nt) + nr * ab(t), "size is kept")

    def inv(e, k, st, info):
        t, nt, r, nr = [T(x) for x in st]
        a, m = e.notes["am"]
        if st is info["init"]:
            e.notes["u"] = (z3.IntVal(1), z3.IntVal(0))
        elif not e.notes.get("stepped"):
            gh(e)
        return inv_modinv(e, a, m, t, nt, r, nr)

    def hint(e, k, st, st2, info):
        step(e, *[T(x) for x in st])
        e.notes["stepped"] = True

    class While(LoopSpec):
        def __init__(self, names):
            self.names, self.variant, self._havoc = names, lambda e, k, env, L: T(env[names[3]]), None

        def inv(self, e, k, env, L):
            a, m = e.notes["am"]
            if not hasattr(L, "env0_done"):
                L.env0_done = True
                e.notes["u"] = (z3.IntVal(1), z3.IntVal(0))
            return inv_modinv(e, a, m, *[T(env[x]) for x in self.names])

        def havoc(self, e, k, env, names, L):
            gh(e)
            return LoopSpec.havoc(self, e, k, env, names, L)

        def hint(self, e, k, env0, env, L):
            step(e, *[T(env0[x]) for x in self.names])
    loops = {} if tracing else {("modinv", 0): While(["t", "nt", "r", "nr"])}
    ns = load(path, shims([dict(name="Euclid loop", inv=inv, hint=hint, variant=lambda st: T(st[3]))], tracing), loops=loops)

    def run(e):
        a, m = e.fresh("a"), e.fresh("m")
        e.assume(z3.And(a >= 1, a < m, G(m, a) == 1))
        e.notes["am"] = (a, m)
        if path == MT and not tracing:
            def egcd(x, y):
                g, u, v = e.fresh("g"), e.fresh("u"), e.fresh("v")
                e.assume(z3.And(g == T(x) * u + T(y) * v, g == G(T(y), T(x))))
                e.notes["u"] = (v, v)
                e.use(L_divs, u, m)
                e.notes["wits"] = [-v - a * (u / m)]
                return W(g), W(u), W(v)
            ns["egcd"] = egcd
        w = T(ns["modinv"](W(a, None, 1, None), W(m, None, 2, None)))
        x = e.notes["u"][0]
        e.prove(z3.And(w >= 0, w < m), "result lies in [0, m)")
        # a*w = 1 + m*(something): the congruence of the loop plus the final correction
        for wit in [-x, a - x] + e.notes.get("wits", []):
            e.use(L_cong, a * w, z3.IntVal(1), m, wit)
        e.use(L_small, z3.IntVal(1), m)
        e.prove((a * w) % m == 1, "a * result = 1 modulo m")
    return run


def have(e, f, label):
    e.prove(f, label)
    e.assume(f)


def v_pow2mod():
    def inv(e, k, st, info):
        res, b, ex, md = [T(x) for x in st]
        m, N = e.notes["mN"]
        return [("modulus kept", md == N), ("ranges", z3.And(res >= 0, res < N, b >= 0, b < N, ex >= 0)),
                ("res * b^exp = 2^m modulo N", (res * R(b, ex, N)) % N == R(z3.IntVal(2) % N, m, N))]

    def hint(e, k, st, st2, info):
        res, b, ex, md = [T(x) for x in st]
        m, N = e.notes["mN"]
        b2 = (b * b) % N
        h = ex / 2
        r2 = R(b2, h, N)
        e.assume(z3.And(r2 >= 0, r2 < N))
        e.assume(z3.If(ex % 2 == 1, R(b, ex, N) == (b * r2) % N, R(b, ex, N) == r2))
        y = (b * r2) % N
        z = (res * b) % N
        for u in (b * r2, res * b, b * b):
            e.use(L_divs, u, N)
        q1, q2 = (b * r2) / N, (res * b) / N
        have(e, z3.And(res * y == (res * b) * r2 - N * (res * q1), z * r2 == (res * b) * r2 - N * (q2 * r2)), "products of remainders")
        have(e, res * y - z * r2 == N * (q2 * r2 - res * q1), "difference is a multiple of the modulus")
        e.use(L_cong, res * y, z * r2, N, q2 * r2 - res * q1)
    ns = load(JT, shims([dict(name="square and multiply", inv=inv, hint=hint, variant=lambda st: T(st[2]))], True))

    def run(e):
        m, N = e.fresh("m"), e.fresh("N")
        e.assume(z3.And(m >= 0, N >= 2))
        e.notes["mN"] = (m, N)
        two = z3.IntVal(2) % N
        e.use(L_divs, z3.IntVal(2), N)
        rr = R(two, m, N)
        e.assume(z3.And(rr >= 0, rr < N))
        e.use(L_small, rr, N)
        r = T(ns["pow2_mod_N"](W(m, "i64", 0, None), W(N, None, 2, None)))
        b_ = z3.Int("any_b")
        e.use(L_small, r, N)
        e.assume(z3.ForAll([b_], R(b_, z3.IntVal(0), N) == 1))
        e.prove(r == rr, "result = 2^m modulo N")
    return run


def v_mont(path, which):
    """decode(y)*R = y and encode(y) = y*R modulo N (R a positive integer)"""
    ns = load(path, shims([], False))

    def run(e):
        y, R_, N = e.fresh("y"), e.fresh("R"), e.fresh("N")
        e.assume(z3.And(y >= 0, R_ >= 1, N >= 2))
        w = e.fresh("inv")
        e.assume(z3.And(w >= 0, w < N, (R_ * w) % N == 1))

        def modinv(a, m):
            e.prove(z3.And(T(a) == R_, T(m) == N), "inverse of the radix modulo the modulus is requested")
            return W(w, None, 0, None)
        ns["modinv"] = modinv
        e.use(L_divs, y, N)
        e.use(L_divs, R_, N)
        e.use(L_small, w, N)
        yr, Rr = y % N, R_ % N
        if which == "decode":
            r = T(ns["montgomery_decoder"](W(y, None, 0, None), W(R_, None, 1, None), W(N, None, 2, None)))
            # r = Y*w - N*q1 with Y = y or Y = y mod N
            e.use(L_divs, R_ * w, N)
            q2 = (R_ * w) / N
            have(e, R_ * w == N * q2 + 1, "inverse")
            for Y in (y, yr):
                e.use(L_divs, Y * w, N)
                q1 = (Y * w) / N
                rY = (Y * w) % N
                have(e, rY == Y * w - N * q1, "quotient")
                have(e, rY * R_ == Y * (R_ * w) - N * (q1 * R_), "expand")
                have(e, Y * (R_ * w) == N * (Y * q2) + Y, "expand inverse")
                d = Y * q2 - q1 * R_ - (z3.IntVal(0) if Y is y else y / N)
                have(e, rY * R_ - y == N * d, "difference is a multiple of the modulus")
                e.use(L_cong, rY * R_, y, N, d)
            e.prove((r * R_) % N == y % N, "decoded value times R = encoded value modulo N")
        else:
            r = T(ns["montgomery_encoder"](W(y, None, 0, None), W(R_, None, 1, None), W(N, None, 2, None)))
            for A, da in ((y, z3.IntVal(0)), (yr, y / N)):
                for Bv, db in ((R_, z3.IntVal(0)), (Rr, R_ / N)):
                    e.use(L_divs, A * Bv, N)
                    e.use(L_small, (A * Bv) % N, N)
                    d = -(da * Bv + A * db + N * (da * db))
                    have(e, A * Bv - y * R_ == N * d, "difference is a multiple of the modulus")
                    e.use(L_cong, A * Bv, y * R_, N, d)
            e.prove(r == (y * R_) % N, "encoded value = value times R modulo N")
        e.prove(z3.And(r >= 0, r < N), "result lies in [0, N)")
    return run


def programs():
    return {"egcd (loop)": (v_egcd, ()), "egcd (recursive)": (v_egcd_rec, ()),
            "modinv (jasp_mod_tools, direct)": (v_modinv, (JT, False)), "modinv (jasp_mod_tools, traced)": (v_modinv, (JT, True)),
            "modinv (mod_tools, traced)": (v_modinv, (MT, True)), "modinv (mod_tools, direct)": (v_modinv, (MT, False)),
            "pow2_mod_N": (v_pow2mod, ()),
            "montgomery_decoder (mod_tools)": (v_mont, (MT, "decode")), "montgomery_encoder (mod_tools)": (v_mont, (MT, "encode")),
            "montgomery_decoder (jasp_mod_tools)": (v_mont, (JT, "decode")), "montgomery_encoder (jasp_mod_tools)": (v_mont, (JT, "encode"))}


def run_one(ctx, name):
    mk, args = programs()[name]
    try:
        Engine(name=name).explore(mk(*args)).report(ctx, name)
    except Exception as ex:
        ctx.undecided(f"{name}: {type(ex).__name__}: {ex}")
