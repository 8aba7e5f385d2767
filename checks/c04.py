"""C04: modular number theory helpers and modular quantum numbers.
Deductive: the Euclid-type loops and the Montgomery helpers are proved for all integers (vc/contracts/numtheory.py).
Bounded: the quantum operations on all residues for small moduli, direct and traced."""
import itertools
import math

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb.prog import extract, traced
from vb.q import map_state, qubits

ID = "C04"
LEVEL = "exploration"
RULE = "one evaluation = one helper call, or one quantum operation x modulus x operand on the superposition of all residues"
TRUSTED = ["vb.sim evaluator", "CPython integers (pow, gcd)", "vc engine (symbolic execution, loop cutting)", "z3 / cvc5"]
MIN_OBLIGATIONS = 150
TECHNIQUE = ("contract-based deductive verification (Euclid loops, modular inverse, powers of two, Montgomery encode/decode for all integers; modular in-place adder for "
             "every width and modulus; obligations discharged by z3/cvc5); bounded contract evaluation of the quantum operations on all residues")
THEOREMS = ['egcd, modinv, pow2_mod_N, montgomery_encoder, montgomery_decoder for all integers', 'jasp_mod_adder: target = (target + summand) mod N, workspace clean, for all widths and moduli']

MT = "qrisp.alg_primitives.arithmetic.modular_arithmetic.mod_tools"
JT = "qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_mod_tools"


# ------------------------------------------------------------------ classical helpers
@case("egcd")
def c_egcd(mod, a, b):
    g, x, y = (int(v) for v in need(mod, "egcd")(a, b))
    check(g == math.gcd(a, b) and a * x + b * y == g, f"extended gcd of {a},{b}: ({g},{x},{y})")


@case("modinv")
def c_modinv(mod, a, m):
    f = need(mod, "modinv")
    v = f(a, m)
    check(0 <= v < m and a * int(v) % m == 1 % m, f"inverse of {a} mod {m}: {v}")


@case("montgomery")
def c_mont(mod, y, k, N):
    """encoder multiplies by R, decoder divides; R = 2^k, k may be negative"""
    enc, dec = need(mod, "montgomery_encoder"), need(mod, "montgomery_decoder")
    R = 2 ** k
    if k >= 0 or mod == MT:
        r = pow(2, k, N)
        e = enc(y, R, N)
        check(int(e) == e and int(e) == y * r % N, f"encoding of {y} with R=2^{k} mod {N}: {e}, expected {y * r % N}")
    if k >= 0:
        d = dec(y, R, N)
        check(int(d) == d and int(d) == y * pow(2, -k, N) % N, f"decoding of {y} with R=2^{k} mod {N}: {d}")
    if mod == JT:
        d = need(mod, "new_montgomery_decoder")(y, k, N)
        check(int(d) == y * pow(2, -k, N) % N, f"decoding of {y} with shift {k} mod {N}: {d}")
        p = need(mod, "pow2mod")(abs(k), N)
        check(int(p) == pow(2, abs(k), N), f"2^{abs(k)} mod {N}: {p}")


@case("shift")
def c_shift(n, N):
    f = need(JT, "best_montgomery_shift")
    s = need(JT, "smallest_power_of_two")
    ref = 0
    while 2 ** ref < n:
        ref += 1
    check(int(s(n)) == ref, f"ceil(log2({n})) = {s(n)}")
    ref = 0
    while 2 ** ref * N < n * (N - 1):
        ref += 1
    check(int(f(n, N)) == ref, f"Montgomery shift for {n} mod {N}: {f(n, N)} instead of {ref}")
    if n < N:
        f = need("qrisp.alg_primitives.arithmetic.modular_arithmetic", "find_best_montgomery_shift")
        ref = 0
        while not (N - 1) * (n * 2 ** ref % N) < N * 2 ** ref:
            ref += 1
        check(int(f(n, N)) == ref, f"best shift for {n} mod {N}: {f(n, N)} instead of {ref}")


@case("reduction")
def c_red(t, N, m):
    f = need("qrisp.alg_primitives.arithmetic.modular_arithmetic", "cl_montgomery_reduction")
    S, u = f(t, N, m)
    check((S * 2 ** m - t) % N == 0 and 0 <= u < 2 ** m and (t - u * N) % 2 ** m == 0, f"reduction of {t} mod {N} by {m} bits: {S},{u}")


def helper_prog(which):
    import importlib
    mt, jt = importlib.import_module(MT), importlib.import_module(JT)

    def main(a, b, c):
        if which == "modinv":
            return mt.modinv(a, b), jt.modinv(a, b)
        if which == "pow":
            return jt.pow2mod(a, b), jt.smallest_power_of_two(b)
        if which == "mont":
            return jt.montgomery_encoder(a, 1 << c, b), jt.new_montgomery_decoder(a, c, b), jt.montgomery_decoder(a, 1 << c, b)
        if which == "mneg":
            return jt.new_montgomery_decoder(a, -c, b), jt.best_montgomery_shift(a, b)
        if which == "egcd":
            return jt.egcd(a, b)
    return traced(("h", which), main, (1, 3, 1))


@case("traced_helper")
def c_th(which, a, b, c=0):
    r = [int(v) for v in helper_prog(which)(a, b, c)]
    if which == "modinv":
        e = [pow(a, -1, b)] * 2
    elif which == "pow":
        e = [pow(2, a, b), (b - 1).bit_length()]
    elif which == "mont":
        e = [a * 2 ** c % b, a * pow(2, -c, b) % b, a * pow(2, -c, b) % b]
    elif which == "mneg":
        k = 0
        while 2 ** k * b < a * (b - 1):
            k += 1
        e = [a * 2 ** c % b, k]
    else:
        g, x, y = r
        check(g == math.gcd(a, b) and a * x + b * y == g, f"traced extended gcd of {a},{b}: {r}")
        return
    check(r == e, f"traced {which} helper on ({a},{b},{c}): {r} instead of {e}")


@task("helpers", timeout=300)
def t_h(ctx):
    ctx.bound("number theory helpers: exhaustive for moduli up to 40, random up to 2^200 (direct) and 2^30 (traced)")
    r = ctx.rng
    for a in range(0, 30):
        for b in range(1, 30):
            if ctx.full():
                return
            ctx.run(c_egcd, mod=MT, a=a, b=b)
            if a < 12 and b < 12:
                ctx.run(c_egcd, mod=JT, a=a, b=b)
            if b > 1 and math.gcd(a, b) == 1:
                ctx.run(c_modinv, mod=MT, a=a, m=b)
                ctx.run(c_modinv, mod=JT, a=a, m=b)
    for _ in range(200):
        b = r.randrange(2, 1 << r.choice([8, 31, 64, 200]))
        a = r.randrange(1, b)
        ctx.run(c_egcd, mod=MT, a=a, b=b)
        if math.gcd(a, b) == 1:
            ctx.run(c_modinv, mod=MT, a=a, m=b)
            ctx.run(c_modinv, mod=JT, a=a, m=b)
    for N in range(3, 40, 2):
        for k in range(-6, 9):
            for y in r.sample(range(N), min(N, 5)):
                ctx.run(c_mont, mod=MT, y=y, k=k, N=N)
                ctx.run(c_mont, mod=JT, y=y, k=k, N=N)
    for N in range(3, 40):
        for n in range(1, 2 * N):
            ctx.run(c_shift, n=n, N=N)
    for N in range(3, 20, 2):
        for m in range(0, 6):
            for t in range(0, N << m, max(1, (N << m) // 40)):
                ctx.run(c_red, t=t, N=N, m=m)


@task("helpers.traced", timeout=300)
def t_ht(ctx):
    r = ctx.rng
    for which in ("modinv", "pow", "mont", "mneg", "egcd"):
        for _ in range(60):
            if ctx.full():
                return
            b = r.randrange(1, 1 << r.choice([3, 6, 14])) * 2 + 1
            a = r.randrange(1, b)
            while which == "modinv" and math.gcd(a, b) > 1:
                a = r.randrange(1, b)
            ctx.run(c_th, which=which, a=a, b=b, c=r.randrange(1, 9))
    ctx.gc()


# ------------------------------------------------------------------ quantum operations
def adder(name):
    import qrisp
    return None if name is None else getattr(qrisp, name)


def spec_fn(op, N, c):
    """(a, b) -> value of the result / of the updated first operand"""
    return {"+": lambda a, b: (a + b) % N, "-": lambda a, b: (a - b) % N, "*": lambda a, b: a * b % N,
            "+c": lambda a, b: (a + c) % N, "-c": lambda a, b: (a - c) % N, "*c": lambda a, b: a * c % N,
            "c+": lambda a, b: (a + c) % N, "c-": lambda a, b: (c - a) % N, "c*": lambda a, b: a * c % N,
            "+=": lambda a, b: (a + b) % N, "-=": lambda a, b: (a - b) % N, "+=c": lambda a, b: (a + c) % N,
            "-=c": lambda a, b: (a - c) % N, "*=c": lambda a, b: a * c % N}[op]


def apply(op, a, b, c):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "+c":
        return a + c
    if op == "-c":
        return a - c
    if op == "*c":
        return a * c
    if op == "c+":
        return c + a
    if op == "c-":
        return c - a
    if op == "c*":
        return c * a
    if op == "+=":
        a += b
    elif op == "-=":
        a -= b
    elif op == "+=c":
        a += c
    elif op == "-=c":
        a -= c
    elif op == "*=c":
        a *= c


@case("modular")
def c_mod(op, N, c=None, add=None, env=0, m=0, m2=None):
    """direct program; m: Montgomery shift of the operands (values stored multiplied by 2^m)"""
    import qrisp
    kw = {} if add is None else dict(inpl_adder=adder(add))
    a = qrisp.QuantumModulus(N, **kw)
    a.m = m
    two = not op.endswith("c") and not op.startswith("c")
    b = qrisp.QuantumModulus(N, **kw) if two else None
    if two:
        b.m = m if m2 is None else m2
    regs = [a] + ([b] if two else [])
    sh = [m] + ([b.m] if two else [])
    e = None
    if env:
        e = qrisp.QuantumBool()
        with qrisp.control(e[0]):
            res = apply(op, a, b, c)
    else:
        res = apply(op, a, b, c)
    outs = list(regs)
    f = spec_fn(op, N, c)
    inplace = "=" in op
    rm = None
    if not inplace:
        outs.append(res)
        check(int(res.modulus) == N, f"modulus of the result is {res.modulus}")
        rm = res.m
    if e is not None:
        regs, outs = regs + [e], outs + [e]
    enc = lambda v, k: v * pow(2, k, N) % N

    def spec(t):
        va = t[0] * pow(2, -sh[0], N) % N
        vb = t[1] * pow(2, -sh[1], N) % N if two else None
        on = t[-1] if env else 1
        o = list(t)
        if inplace:
            if on:
                o[0] = enc(f(va, vb), sh[0])
            return tuple(o)
        k = 2 if two else 1
        return tuple(o[:k] + [enc(f(va, vb), rm) if on else 0] + o[k:])
    ins = list(itertools.product(*[range(N) for _ in sh], *([range(2)] if env else [])))
    map_state(a.qs, regs, ins, spec, outs=outs, what=f"QuantumModulus({N}) {op} {c if c is not None else ''} adder={add} env={env} shifts={sh}")
    if not inplace and not env:
        dv = [res.decoder(i) for i in range(N)]
        check([int(x) for x in dv] == [i * pow(2, -rm, N) % N for i in range(N)], "decoder of the result")


@case("beauregard")
def c_beau(N, n, c=None):
    import qrisp
    f = need("qrisp.alg_primitives.arithmetic.modular_arithmetic", "beauregard_adder")
    a = qrisp.QuantumFloat(n)
    b = c if c is not None else qrisp.QuantumFloat(n)
    f(a, b, N)
    regs = [a] + ([] if c is not None else [b])
    map_state(a.qs, regs, list(itertools.product(range(N), repeat=len(regs))), lambda t: ((t[0] + (c if c is not None else t[1])) % N,) + t[1:], what=f"Beauregard adder mod {N}, addend {c}")


@case("semi")
def c_semi(which, N, X, ctrl):
    """in-place multiplication helpers of the direct mode"""
    import qrisp
    M = need("qrisp.alg_primitives.arithmetic.modular_arithmetic", None)
    a = qrisp.QuantumModulus(N, inpl_adder=qrisp.fourier_adder)
    e = qrisp.QuantumBool() if ctrl else None
    if which == "inplace":
        if ctrl:
            with qrisp.control(e[0]):
                need(M.__name__, "semi_cl_inpl_mult")(a, X)
        else:
            need(M.__name__, "semi_cl_inpl_mult")(a, X)
        regs = [a] + ([e] if ctrl else [])
        map_state(a.qs, regs, list(itertools.product(range(N), *([range(2)] if ctrl else []))), lambda t: ((t[0] * X % N if not ctrl or t[1] else t[0]),) + t[1:], what=f"in-place multiplication by {X} mod {N} ctrl={ctrl}")
    else:
        res = need(M.__name__, "montgomery_mod_semi_mul")(a, X)
        rm = res.m
        map_state(a.qs, [a], [(i,) for i in range(N)], lambda t: (t[0], t[0] * X * pow(2, rm, N) % N), outs=[a, res], what=f"semi-classical multiplication by {X} mod {N}")


def traced_mod(op, m):
    """N is a traced value, too"""
    import qrisp
    two = not op.endswith("c") and not op.startswith("c")

    def main(N, c, e):
        a = qrisp.QuantumModulus(N)
        b = qrisp.QuantumModulus(N) if two else None
        res = apply(op, a, b, c)
        r = [a] + ([b] if two else []) + ([res] if res is not None else [])
        return tuple(r) if len(r) > 1 else r[0]
    return traced(("m", op, m), main, (5, 2, 1)), two


@case("traced_modular")
def c_tm(op, N, c=0):
    j, two = traced_mod(op, 0)
    regs, rest, qc = extract(j, (N, c, 0))
    inplace = "=" in op
    k = 2 if two else 1
    check(len(regs) == k + (not inplace), "register structure")
    check(all(len(r) == (N - 1).bit_length() for r in regs), f"register widths {[len(r) for r in regs]} for modulus {N}")
    f = spec_fn(op, N, c)
    if inplace:
        cand = [0]
    else:
        # Montgomery shift of the result, determined from the documented normalisation of the helpers
        if op == "*":
            n = (N - 1).bit_length()
            cand = [-(((N - 1) ** 2).bit_length() - n)]
        else:
            cand = [0]
    rm = cand[0]

    def spec(t):
        v = f(t[0], t[1] if two else None)
        if inplace:
            return (v,) + t[1:]
        return t + (v * pow(2, rm, N) % N,)
    map_state(qc, regs[:k], list(itertools.product(range(N), repeat=k)), spec, outs=regs, what=f"traced QuantumModulus({N}) {op} {c}")


def traced_val():
    import qrisp

    def main(N, v, w, c):
        a, b = qrisp.QuantumModulus(N), qrisp.QuantumModulus(N)
        a[:] = v
        b[:] = w
        r = a * b
        s = qrisp.measure(r), qrisp.measure(a), qrisp.measure(b)
        return s
    return traced("val", main, (5, 1, 2, 1))


@case("traced_chain")
def c_tv(N, v, w):
    r, a, b = (int(x) for x in traced_val()(N, v, w, 1))
    check((r, a, b) == (v * w % N, v, w), f"traced r=a*b with a={v}, b={w} mod {N}: r={r}, a={a}, b={b}")


@case("rejects")
def c_rej(kind, N, v):
    import qrisp
    a = qrisp.QuantumModulus(N)
    if kind == "encode":
        try:
            a[:] = v
        except Exception:
            return
        raise Fail(f"encoding {v} into a modulus {N} number was accepted")
    b = qrisp.QuantumModulus(v)
    try:
        a * b
    except Exception:
        return
    raise Fail(f"product of numbers modulo {N} and {v} was accepted")


@task("quantum", timeout=500, weight=3)
def t_q(ctx):
    ctx.bound("direct modular operations: moduli 2..13 (all residues in superposition), all classical operands for N<=7, adders fourier/gidney/cuccaro, one control")
    r = ctx.rng
    for N in (2, 3, 5, 7, 4, 6, 9, 13):
        odd = N % 2
        for op in ("+", "-", "+=", "-=", "*"):
            if op == "*" and not odd:
                continue
            if ctx.full():
                return
            if op == "*" and N > 7:
                continue
            ctx.run(c_mod, op=op, N=N)
            if N < 10 and op != "*":
                ctx.run(c_mod, op=op, N=N, add="gidney_adder")
            if N <= 5 and op in ("+=", "-="):
                ctx.run(c_mod, op=op, N=N, env=1)
            if N in (5, 7) and op != "*":
                ctx.run(c_mod, op=op, N=N, m=r.randint(1, 3))
        for op in ("+c", "-c", "c+", "c-", "+=c", "-=c", "*c", "c*", "*=c"):
            if "*" in op and not odd:
                continue
            cs = list(range(-1 if "*" not in op else 1, N + 2)) if N <= 7 else [r.randrange(1, N) for _ in range(3)]
            if N > 3:
                cs = r.sample(cs, min(len(cs), 4))
            for c in cs:
                if "*" in op and (c <= 0 or c >= N):
                    continue
                if op == "*=c" and math.gcd(c, N) > 1:
                    continue
                ctx.run(c_mod, op=op, N=N, c=c)
                if N < 6 and r.random() < .5:
                    ctx.run(c_mod, op=op, N=N, c=c, add="gidney_adder")
                if N in (3, 5, 7) and op in ("+=c", "-=c", "*=c") and r.random() < .4:
                    ctx.run(c_mod, op=op, N=N, c=c, env=1)
                if N in (5, 7) and "*" not in op:
                    ctx.run(c_mod, op=op, N=N, c=c % N, m=r.choice([1, 2, -1, -2]))
    for N, n in ((3, 2), (5, 3), (4, 2), (7, 3), (5, 4), (2, 1)):
        for c in range(0, N):
            ctx.run(c_beau, N=N, n=n, c=c)
        ctx.run(c_beau, N=N, n=n)


@task("semi", timeout=400)
def t_s(ctx):
    ctx.bound("direct semi-classical multiplication helpers: moduli 3..9, all invertible factors")
    for N in (3, 5, 7, 9):
        for X in range(1, N):
            if ctx.full():
                return
            ctx.run(c_semi, which="semi", N=N, X=X, ctrl=0)
            if math.gcd(X, N) == 1:
                ctx.run(c_semi, which="inplace", N=N, X=X, ctrl=0)
                if N < 8:
                    ctx.run(c_semi, which="inplace", N=N, X=X, ctrl=1)


@task("traced", timeout=500, weight=2)
def t_t(ctx):
    ctx.bound("traced modular operations with traced modulus: N=2..13, all residues in superposition")
    r = ctx.rng
    for op in ("+", "-", "+=", "-=", "*", "+c", "-c", "c-", "+=c", "-=c", "*c", "*=c"):
        for N in (3, 5, 7, 11, 13) if "*" in op else (2, 3, 4, 5, 6, 7, 12):
            if ctx.full():
                return
            if op in ("+", "-", "+=", "-=", "*"):
                ctx.run(c_tm, op=op, N=N)
            else:
                for c in r.sample(range(1, N), min(N - 1, 3)):
                    if op == "*=c" and math.gcd(c, N) > 1:
                        continue
                    ctx.run(c_tm, op=op, N=N, c=c)
        ctx.gc()


@task("traced.chain", timeout=500)
def t_tc(ctx):
    r = ctx.rng
    for N in (3, 5, 7):
        for _ in range(3):
            if ctx.full():
                return
            ctx.run(c_tv, N=N, v=r.randrange(N), w=r.randrange(N))
    for N in (3, 5, 6, 13):
        for v in (N, N + 1, (1 << (N - 1).bit_length()), -1):
            ctx.run(c_rej, kind="encode", N=N, v=v)
        ctx.run(c_rej, kind="mul", N=N, v=N + 2)


@task("proof", timeout=400, weight=2)
def t_proof(ctx):
    """integer helpers for all integers; modular in-place addition for every width, modulus and content"""
    from vc import iheap
    from vc.contracts import arith, numtheory
    from vc.engine import prove_lemma
    for l in iheap.LEMMAS + numtheory.LEMMAS:
        prove_lemma(ctx, l)
    for n in numtheory.programs():
        numtheory.run_one(ctx, n)
    for n in arith.programs():
        if n.startswith("jasp_mod_adder"):
            arith.run_one(ctx, n)
    ctx.assume(numtheory.ASSUME_GCD)
    ctx.assume(numtheory.ASSUME_POW)
    ctx.assume(iheap.ASSUME_ADD)
    ctx.assume("traced integers do not overflow their machine type")
    ctx.assume("contracts of x / cx on basis states (C07); control and inversion blocks (C15)")


@case("matmul")
def c_matmul(N, A, B, left, traced):
    """array of modular registers times classical integer matrix"""
    import numpy as np
    from qrisp import QuantumArray, QuantumModulus, measure
    A, B = np.array(A), np.array(B)
    want = ((B @ A) if left else (A @ B)) % N

    def prog(conv):
        a = QuantumArray(QuantumModulus(N), shape=A.shape)
        a[:] = A
        return a, ((B @ a) if left else (a @ conv(B)))
    if traced:
        import jax.numpy as jnp
        from qrisp.jasp import jaspify

        def main():
            a, o = prog(jnp.array)
            return measure(o), measure(a)
        o, a = (np.asarray(v) for v in jaspify(main)())
    else:
        qa, qo = prog(lambda b: b)
        do, da = qo.get_measurement(), qa.get_measurement()
        check(len(do) == 1 and len(da) == 1, lambda: f"product of basis states is not a basis state: {do}, {da}")
        o, a = np.array(list(do)[0]), np.array(list(da)[0])
    check(o.shape == want.shape and bool((o == want).all()), lambda: f"matrix product modulo {N} of {A.tolist()} and {B.tolist()} ({'left' if left else 'right'}): {o.tolist()}, expected {want.tolist()}")
    check(bool((a == A).all()), lambda: f"the factor {A.tolist()} became {a.tolist()}")


@task("matmul", weight=2)
def t_matmul(ctx):
    r = ctx.rng
    ctx.bound("matrix products of modular registers with classical matrices: shapes up to 2x2, moduli 3, 5, 7 (11 in the thorough tier)")
    for k in range(5 if not thorough() else 40):
        if ctx.full():
            return
        N = r.choice([3, 5, 7] + ([11] if thorough() else []))
        n1, m, n2 = r.choice([(1, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1)])
        left = k % 3 == 2
        q = [[r.randrange(N) for _ in range(n2 if left else m)] for _ in range(m if left else n1)]
        c = [[r.randrange(-1, 2 * N) for _ in range(m if left else n2)] for _ in range(n1 if left else m)]
        ctx.run(c_matmul, N=N, A=q, B=c, left=left, traced=k % 3 == 1)
    ctx.gc()
