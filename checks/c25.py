"""C25: division and number theory of multi-limb integers. Deductive: division by a single limb, limb shifts used for normalisation, effective
length and leading-zero count proved for every limb count and content (vc/contracts/bigint.py). Bounded: long division by several limbs,
inverse, extended gcd, Montgomery conversion and continued fractions on adversarial numbers."""
import math

from vlib.api import case, check, need, task, thorough
from vb.limb import B32, M, SPECIAL, as_py, mk, num, pair

ID = "C25"
LEVEL = "exploration"
RULE = "one evaluation = one operation on one tuple of numbers with a given limb count; nontrivial = distinct"
TRUSTED = ["CPython integers", "z3 5.3.2 (cvc5 1.4.2 as second back end)", "vc obligation generator", "symbolic counterparts of jax.numpy/lax (vc/jaxshim.py)"]
MIN_OBLIGATIONS = 100
TECHNIQUE = ("contract-based deductive verification (single-limb division, normalising shifts, effective length, leading zeros: loop invariants, every limb count); "
             "bounded contract evaluation of multi-limb long division and number theory on adversarial numbers")
THEOREMS = ["_divmod_single_limb: u = q*d + r, 0 <= r < d for every limb count", "_shl_bits, _shr_bits, _ms_length, _clz32: exact for every limb count"]


@task("proof", timeout=300, weight=3)
def t_proof(ctx):
    from vc.contracts import bigint
    bigint.run_all(ctx, bigint.DIVISION)


BIN = {"floordiv": (lambda a, b: a // b, lambda a, b: a // b), "mod": (lambda a, b: a % b, lambda a, b: a % b)}


@case("binary")
def c_binary(op, n, a, b, mode="big", jit=False):
    f, ref = BIN[op]
    x = a if mode == "rint" else mk(a, n)
    y = b if mode == "int" else mk(b, n)
    if jit:
        import jax
        r = jax.jit(f)(x, y)
    else:
        r = f(x, y)
    check(r.digits.shape[0] == n, lambda: f"{op}: result has {r.digits.shape[0]} limbs, operands have {n}")
    got, exp = as_py(r), ref(a, b)
    check(got == exp, lambda: f"{op}({hex(a)}, {hex(b)}) with {n} limbs gave {hex(int(got))}, expected {hex(exp)}")


@case("divmod")
def c_divmod(n, a, b):
    r, q = mk(a, n).remainder_division(mk(b, n))
    check((q(), r()) == divmod(a, b), lambda: f"division of {hex(a)} by {hex(b)} with {n} limbs gave quotient {hex(q())} remainder {hex(r())}")


@case("numtheory")
def c_nt(op, n, a, b, c=0):
    mod = need(M)
    m = 2 ** (32 * n)
    if op == "modinv":
        got = mod.bi_modinv(mk(a, n), mk(b, n))()
        check((got * a) % b == 1 % b and got < b, f"inverse of {a} mod {b}: got {got}")
    elif op == "euclid":
        g, s, t = (x() for x in mod.bi_extended_euclidean(mk(a, n), mk(b, n)))
        check(g == math.gcd(a, b), f"gcd({a},{b}) gave {g}")
        check((s * a + t * b - g) % m == 0, f"Bezout identity fails for {a},{b}: {s},{t}")
    elif op == "mont_enc":
        got = mod.bi_montgomery_encode(mk(a, n), mk(b, n), mk(c, n))()
        check(got == a * b % c, f"montgomery encode({a},R={b},N={c}) = {got}")
    elif op == "mont_dec":
        got = mod.bi_montgomery_decode(mk(a, n), mk(b, n), mk(c, n))()
        check(got == a * pow(b, -1, c) % c, f"montgomery decode({a},R={b},N={c}) = {got}")
    elif op == "contfrac":
        p, q = (x() for x in mod.bi_contfrac_best_approx(mk(a, n), mk(b, n), mk(c, n) if c else None))
        exp = ref_contfrac(a, b, c or m - 1)
        check((p, q) == exp, f"best approximation of {a}/{b} below {c}: got {(p, q)}, expected {exp}")
    elif op == "shor":
        q = mod.bi_shor_recover_denominator(mk(a, n), mk(b, n), c)()
        check(q == ref_contfrac(a, b, c)[1], f"denominator of {a}/{b} bound {c}: {q}")
    elif op == "convergents":
        got = [(p(), q()) for p, q in mod.bi_contfrac_convergents(mk(a, n), mk(b, n))]
        exp = list(ref_convergents(a, b))
        check(got == exp, f"convergents of {a}/{b}: {got} expected {exp}")


def ref_convergents(a, b):
    p0, p1, q0, q1 = 0, 1, 1, 0
    while True:
        t, r = divmod(a, b)
        p0, p1 = p1, t * p1 + p0
        q0, q1 = q1, t * q1 + q0
        yield p1, q1
        if r == 0:
            return
        a, b = b, r


def ref_contfrac(a, b, maxd):
    """documented behaviour: last convergent with q<=maxd, or the intermediate one filling the bound"""
    p0, p1, q0, q1 = 0, 1, 1, 0
    while True:
        t, r = divmod(a, b)
        pn, qn = t * p1 + p0, t * q1 + q0
        if qn > maxd:
            t = (maxd - q0) // (q1 if q1 else 1)
            return t * p1 + p0, t * q1 + q0
        if r == 0:
            return pn, qn
        a, b, p0, p1, q0, q1 = b, r, p1, pn, q1, qn


for _n in (1, 2, 3, 4, 5, 8):
    def _mk(n):
        @task(f"operators.n{n}", timeout=400, tiers=("quick", "thorough") if n != 8 else ("thorough",))
        def t(ctx):
            ctx.bound(f"// and %: {n} limbs, 450 adversarial pairs per operator, plain integers on either side")
            r = ctx.rng
            for op in BIN:
                for i in range(1500 if thorough() else 450):
                    if ctx.full():
                        return
                    a, b = pair(r, n)
                    if b:
                        ctx.run(c_binary, op=op, n=n, a=a, b=b)
                for i in range(6):
                    a, b = num(r, n), r.choice([1, 2, 5, 2 ** 31, 2 ** 32 + 7 if n > 1 else 9, 2 ** 62 - 1 if n > 1 else 11])
                    ctx.run(c_binary, op=op, n=n, a=a, b=b, mode="int")
                    if op == "mod" and a:
                        ctx.run(c_binary, op=op, n=n, a=b, b=a, mode="rint")
                for i in range(2):
                    a, b = pair(r, n)
                    ctx.run(c_binary, op=op, n=n, a=a, b=b or 1, jit=True)

        @task(f"divmod.n{n}", timeout=400, tiers=("quick", "thorough") if n != 8 else ("thorough",))
        def t2(ctx):
            ctx.bound(f"long division: {n} limbs, 1500 adversarial pairs incl. quotient-digit overestimates")
            r = ctx.rng
            for i in range(6000 if thorough() else 1500):
                if ctx.full():
                    return
                m = r.randint(1, n)
                b = sum((r.choice(SPECIAL) if r.random() < .6 else r.randrange(B32)) << (32 * i) for i in range(m))
                if b == 0:
                    continue
                if n > m > 1 and r.random() < .4:
                    # largest quotient digits: leading limb of the running remainder equals that of the divisor
                    b = r.choice([b, (b % B32 ** (m - 1)) + r.choice([B32 - 1, B32 // 2, B32 // 2 + 1, r.randrange(B32 // 2, B32)]) * B32 ** (m - 1)])
                    q = sum(r.choice([B32 - 1, B32 - 1, B32 - 2, B32 - 3, 0, 1, r.randrange(B32)]) << (32 * i) for i in range(n - m))
                    a = q * b + r.choice([0, 1, b - 1, b - 2, b // 2, r.randrange(b)])
                elif r.random() < .5:
                    # dividend close to a multiple of b: hits the correction steps
                    q = num(r, max(1, n - m)) if n > m else r.choice([0, 1, 2, 3])
                    a = q * b + r.choice([0, -1, 1, b - 1, r.randrange(b)])
                    if not 0 <= a < 2 ** (32 * n):
                        a = num(r, n)
                else:
                    a = num(r, n)
                ctx.run(c_divmod, n=n, a=a, b=b)
    _mk(_n)


@task("numtheory", timeout=500)
def t_nt(ctx):
    ctx.bound("inverse, gcd, Montgomery, continued fractions: 1..3 limbs, 60 inputs per size")
    r = ctx.rng
    for n in (1, 2, 3):
        for i in range(150 if thorough() else 60):
            if ctx.full():
                return
            m = max(3, num(r, n) | 1)
            a = r.randrange(1, m)
            if math.gcd(a, m) == 1:
                ctx.run(c_nt, op="modinv", n=n, a=a, b=m)
                ctx.run(c_nt, op="mont_dec", n=n, a=r.randrange(m), b=a, c=m)
            ctx.run(c_nt, op="mont_enc", n=n, a=r.randrange(m), b=r.randrange(1, m), c=m)
            x, y = max(1, num(r, n)), max(1, num(r, n))
            ctx.run(c_nt, op="euclid", n=n, a=x, b=y)
            # continued fractions as used after phase estimation
            nb = r.randint(4, 16 * n - 2)
            b = 2 ** nb
            a = r.randrange(b)
            c = r.randrange(2, 2 ** max(2, nb // 2))
            if i < 3:
                ctx.run(c_nt, op="contfrac", n=n, a=a, b=b, c=c)
                if i == 0:
                    ctx.run(c_nt, op="contfrac", n=n, a=a, b=b, c=0)
                if c < 2 ** 31:
                    ctx.run(c_nt, op="shor", n=n, a=a, b=b, c=c)
                ctx.gc()
            if i < 8:
                ctx.run(c_nt, op="convergents", n=n, a=a, b=b)
