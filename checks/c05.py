"""C05: multi-limb integers. Deductive: construction, addition, subtraction, multiplication, shifts, bit access, bit size and comparisons
proved for every limb count and content (vc/contracts/bigint.py). The same operations, operands given as plain integers, powers, compiled
use and rejections are also evaluated on adversarial numbers (bounded). Division is property C25."""
from vlib.api import Undecided, case, check, need, task, thorough
from vb.limb import M, as_py, mk, num, pair

ID = "C05"
LEVEL = "proof"
TRUSTED = ["CPython", "z3 5.3.2 (cvc5 1.4.2 as second back end)", "vc obligation generator", "symbolic counterparts of jax.numpy/lax (vc/jaxshim.py)"]
MIN_OBLIGATIONS = 300
THEOREMS = ["BigInteger create, +, -, *, <<, >>, ~, comparisons, bit access, bit size: exact modulo 2^(32 n) for every limb count n and every content"]


@task("proof", timeout=300, weight=5)
def t_proof(ctx):
    from vc.contracts import bigint
    bigint.run_all(ctx, [p for p in bigint.PROGS if p not in bigint.DIVISION])


BIN = {
    "add": (lambda a, b: a + b, lambda a, b, m: (a + b) % m),
    "sub": (lambda a, b: a - b, lambda a, b, m: (a - b) % m),
    "mul": (lambda a, b: a * b, lambda a, b, m: (a * b) % m),
    "and": (lambda a, b: a & b, lambda a, b, m: a & b),
    "or": (lambda a, b: a | b, lambda a, b, m: a | b),
    "xor": (lambda a, b: a ^ b, lambda a, b, m: a ^ b),
    "lt": (lambda a, b: a < b, lambda a, b, m: a < b),
    "le": (lambda a, b: a <= b, lambda a, b, m: a <= b),
    "gt": (lambda a, b: a > b, lambda a, b, m: a > b),
    "ge": (lambda a, b: a >= b, lambda a, b, m: a >= b),
    "eq": (lambda a, b: a == b, lambda a, b, m: a == b),
    "ne": (lambda a, b: a != b, lambda a, b, m: a != b),
}


@case("binary")
def c_binary(op, n, a, b, mode="big", jit=False):
    f, ref = BIN[op]
    x = mk(a, n)
    y = mk(b, n) if mode == "big" else b
    if jit:
        import jax
        r = jax.jit(f)(x, y)
    else:
        r = f(x, y)
    if hasattr(r, "digits"):
        check(r.digits.shape[0] == n, f"{op}: result has {r.digits.shape[0]} limbs, operands have {n}")
    got, exp = as_py(r), ref(a, b, 2 ** (32 * n))
    check(got == exp, f"{op}({hex(a)}, {hex(b)}) with {n} limbs gave {got if isinstance(got, bool) else hex(int(got))}, expected {exp if isinstance(exp, bool) else hex(exp)}")


@case("unary")
def c_unary(op, n, a, s=0):
    BI = need(M, "BigInteger")
    x = mk(a, n)
    m = 2 ** (32 * n)
    if op == "roundtrip":
        got, exp = x(), a % m
    elif op == "invert":
        got, exp = (~x)(), m - 1 - a
    elif op == "lshift":
        got, exp = (x << s)(), (a << s) % m
    elif op == "rshift":
        got, exp = (x >> s)(), a >> s
    elif op == "get_bit":
        got, exp = int(x.get_bit(s)), (a >> s) & 1
    elif op == "flip_bit":
        got, exp = x.flip_bit(s)(), a ^ (1 << s)
    elif op == "bit_size":
        got, exp = int(x.bit_size()), a.bit_length()
    elif op == "pow":
        got, exp = (x ** s)(), pow(a, s, m)
    elif op == "larger":
        r = x.get_larger()
        check(r.digits.shape[0] == 2 * n, "limb count not doubled")
        got, exp = r(), a
    elif op == "coerce":
        r = BI.coerce(x, s)
        check(r.digits.shape[0] == s, "wrong limb count")
        got, exp = r(), a
    elif op == "create":
        got, exp = BI.create(a, n)(), a % m
    else:
        raise Undecided(op)
    check(got == exp, f"{op}({hex(a)}, {s}) with {n} limbs gave {got}, expected {exp}")


@case("coerce_reject")
def c_coerce(n, size, a):
    BI = need(M, "BigInteger")
    try:
        r = BI.coerce(mk(a, n), size)
    except ValueError:
        return
    check(r() == a, f"truncation from {n} to {size} limbs silently changed the value")


@case("negative_reject")
def c_neg(n, a):
    BI = need(M, "BigInteger")
    try:
        BI.create_static(a, n)
    except ValueError:
        return
    check(False, f"create_static({a}) accepted a negative number")


def sizes():
    return (1, 2, 3, 5, 8) if thorough() else (1, 2, 3, 5)


for _n in (1, 2, 3, 5, 8):
    def _mk(n):
        @task(f"binary.n{n}", timeout=400, tiers=("quick", "thorough") if n != 8 else ("thorough",))
        def t(ctx):
            ctx.bound(f"binary operators: {n} limbs, 150+ adversarial pairs per operator (limb patterns 0,1,2^31,2^32-1,...)")
            cnt = 500 if thorough() else 150
            for op in BIN:
                for i in range(cnt * (3 if op == "mul" else 1)):
                    a, b = pair(ctx.rng, n)
                    if ctx.full():
                        return
                    ctx.run(c_binary, op=op, n=n, a=a, b=b)
                for i in range(6):
                    a, b = num(ctx.rng, n), ctx.rng.choice([0, 1, 2, 5, 2 ** 31, 2 ** 32 + 7 if n > 1 else 9, 2 ** 62 - 1 if n > 1 else 11])
                    ctx.run(c_binary, op=op, n=n, a=a, b=b, mode="int")
                for i in range(2):
                    a, b = pair(ctx.rng, n)
                    ctx.run(c_binary, op=op, n=n, a=a, b=b, jit=True)

        @task(f"unary.n{n}", timeout=400, tiers=("quick", "thorough") if n != 8 else ("thorough",))
        def t3(ctx):
            ctx.bound(f"unary operators and shifts: {n} limbs, shift amounts 0..32n+40")
            r = ctx.rng
            for i in range(120 if not thorough() else 400):
                if ctx.full():
                    return
                a = num(r, n)
                for op in ("roundtrip", "invert", "bit_size", "larger"):
                    ctx.run(c_unary, op=op, n=n, a=a)
                ctx.run(c_unary, op="create", n=n, a=a % 2 ** 62)
                s = r.choice([0, 1, 31, 32, 33, 32 * n - 1, 32 * n, 32 * n + 1, r.randrange(32 * n + 40)])
                ctx.run(c_unary, op="lshift", n=n, a=a, s=s)
                ctx.run(c_unary, op="rshift", n=n, a=a, s=s)
                ctx.run(c_unary, op="get_bit", n=n, a=a, s=s % (32 * n))
                ctx.run(c_unary, op="flip_bit", n=n, a=a, s=s % (32 * n))
                ctx.run(c_unary, op="pow", n=n, a=a, s=r.choice([0, 1, 2, 3, 5, 16, 17, 100]))
                ctx.run(c_unary, op="coerce", n=n, a=a, s=n + r.randint(0, 3))
                if n > 1:
                    ctx.run(c_coerce, n=n, size=n - 1, a=a)
                ctx.run(c_neg, n=n, a=-a - 1)
    _mk(_n)
