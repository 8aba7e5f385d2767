"""C03: encoding of values into quantum types and back."""
import itertools
import math
from fractions import Fraction

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb.prog import extract, traced
from vb.q import map_state, qubits
from vb.sim import Sparse

ID = "C03"
LEVEL = "exploration"
RULE = "one evaluation = one type/format with one value (or all its basis states) encoded, decoded, measured or rejected"
TRUSTED = ["vb.sim evaluator", "CPython rationals", "vc engine (symbolic execution)", "z3 / cvc5"]
MIN_OBLIGATIONS = 150
TECHNIQUE = ("contract-based deductive verification (fixed-point encoder/decoder for every register width and every value, exponents -6..6; two's complement "
             "isomorphism of the traced mode over 64-bit machine integers; obligations discharged by z3/cvc5); bounded contract evaluation of all types, labels, "
             "copies, resizing and traced codecs")
THEOREMS = ["QuantumFloat.decoder / encoder: mutually inverse, exact range check, for every width, signed and unsigned, exponents -6..6",
            "_signed_int_iso / _signed_int_iso_inv: mutually inverse for every width up to 61 and every 64-bit value"]


def value(i, f):
    n = f[0] + (1 if f[2] else 0)
    if f[2] and i >> (n - 1):
        i -= 1 << n
    return i * Fraction(2) ** f[1]


def py(v):
    """a python number for an exact rational"""
    return int(v) if v.denominator == 1 else float(v)


def var(f):
    import qrisp
    return qrisp.QuantumFloat(f[0], f[1], signed=bool(f[2]))


def basis(v):
    """the basis state a variable is in (value of its register)"""
    qc = v.qs
    br = Sparse().run(qc, 0)
    check(len(br) == 1 and len(br[0].st) == 1, "encoding does not give one basis state")
    k = next(iter(br[0].st))
    pos = {q: i for i, q in enumerate(qc.qubits)}
    r = 0
    for j, q in enumerate(qubits(v)):
        r |= (k >> pos[q] & 1) << j
        k &= ~(1 << pos[q])
    check(k == 0, "encoding changed other qubits")
    return r


@case("float_codec")
def c_codec(f, i):
    v = var(f)
    x = value(i, f)
    d = v.decoder(i)
    check(Fraction(d) == x, f"QuantumFloat{tuple(f)}: basis state {i} decodes to {d}, expected {x}")
    check(isinstance(d, int) if f[1] >= 0 else isinstance(d, float), f"label type {type(d)}")
    e = int(v.encoder(py(x)))
    check(e == i, f"QuantumFloat{tuple(f)}: {py(x)} is encoded as basis state {e}, expected {i}")
    v[:] = py(x)
    b = basis(v)
    check(b == i, f"QuantumFloat{tuple(f)}: assigning {py(x)} prepares basis state {b} instead of {i}")


@case("float_measure")
def c_meas(f, i):
    v = var(f)
    x = value(i, f)
    v[:] = py(x)
    r = dict(v.get_measurement())
    check(len(r) == 1 and Fraction(list(r)[0]) == x and abs(list(r.values())[0] - 1) < 1e-9, f"QuantumFloat{tuple(f)} set to {py(x)} measures {r}")


@case("float_offgrid")
def c_off(f, x):
    """out of range: rejected; between grid points: a neighbouring grid point (the nearest with rounding=True)"""
    X = Fraction(x)
    u = Fraction(2) ** f[1]
    lo, hi = (-(1 << f[0]) if f[2] else 0) * u, ((1 << f[0]) - 1) * u
    v = var(f)
    if X > hi or X < lo:
        try:
            v[:] = x
        except Exception:
            pass
        else:
            raise Fail(f"QuantumFloat{tuple(f)} silently accepted the out-of-range value {x} as basis state {basis(v)}")
    else:
        try:
            v[:] = x
        except Exception:
            pass
        else:
            y = value(basis(v), f)
            check(abs(y - X) < u, f"QuantumFloat{tuple(f)} set to {x} holds {y}")
    w = var(f)
    w.encode(x, rounding=True)
    y = value(basis(w), f)
    best = min(abs(value(i, f) - X) for i in range(1 << w.size))
    check(abs(y - X) == best, f"QuantumFloat{tuple(f)} set to {x} with rounding holds {y}")
    t = Fraction(float(w.truncate(x)))
    check(abs(t - X) == best, f"QuantumFloat{tuple(f)}.truncate({x}) = {t}")


def tprog(signed):
    import qrisp

    def main(m, e, x):
        v = qrisp.QuantumFloat(m, e, signed=bool(signed))
        v[:] = x
        return qrisp.measure(v)
    return traced(("enc", signed), main, (3, 0, 1.0))


@case("traced_float")
def c_tf(f, i):
    x = value(i, f)
    r = Fraction(float(tprog(f[2])(f[0], f[1], float(x))))
    check(r == x, f"traced QuantumFloat{tuple(f)} set to {float(x)} measures {r}")


@case("copy")
def c_copy(fa, fb, ro=False, ov=False):
    """initialising one number from another keeps the value, drops low bits / wraps only if explicitly permitted"""
    a, b = var(fa), var(fb)
    import qrisp
    qrisp.merge(a.qs, b.qs)
    try:
        a.init_from(b, ignore_rounding_errors=ro, ignore_overflow_errors=ov)
    except Exception:
        # a rejection must be justified: some value is not representable
        if not (fb[2] and not fa[2]):
            ok = all(any(value(i, fa) == value(j, fb) for i in range(1 << a.size)) for j in range(1 << b.size))
            check(not ok or (ro and ov), f"copying QuantumFloat{tuple(fb)} into {tuple(fa)} was rejected")
        return
    ua = Fraction(2) ** fa[1]
    n = a.size

    def spec(t):
        v = value(t[0], fb)
        k = math.floor(v / ua)
        if not ro:
            check(k * ua == v, f"copy of {v} into QuantumFloat{tuple(fa)} loses precision silently")
        if not ov:
            lo, hi = (-(1 << fa[0]) if fa[2] else 0), (1 << fa[0]) - 1
            check(lo <= k <= hi, f"copy of {v} into QuantumFloat{tuple(fa)} overflows silently")
        return (k % (1 << n), t[0])
    if ov and fa[2]:
        return        # wrap-around of signed numbers is not specified
    map_state(a.qs, [b], [(i,) for i in range(1 << b.size)], spec, outs=[a, b], what=f"initialise QuantumFloat{tuple(fa)} from {tuple(fb)}")


@case("labels")
def c_lab(kind, p):
    """types with explicit labels: bijection between basis states and labels, encode/measure, rejection of others"""
    import qrisp
    if kind == "char":
        mk = lambda: qrisp.QuantumChar(nisq_char=bool(p))
        labels = list("abcdefghijklmnopqrstuvwxyz .!?:,") if p else [chr(i) for i in range(256)]
        bad = ["A", "ab", 3, "é"] if p else ["ab", chr(300), 3]
    elif kind == "bool":
        mk, labels, bad = qrisp.QuantumBool, [False, True], [2]
    elif kind == "var":
        mk = lambda: qrisp.QuantumVariable(p)
        labels = [format(i, f"0{p}b")[::-1] if p else "" for i in range(1 << p)]
        bad = ["0" * (p + 1), "2" * p, 1]
    elif kind == "custom":
        from qrisp.misc import custom_qv
        mk = lambda: custom_qv(list(p))
        labels = list(p)
        bad = ["nothing"]
    else:
        mk = lambda: qrisp.QuantumModulus(p)
        labels = list(range(p))
        bad = [p, p + 1, -1]
    v = mk()
    check(1 << v.size >= len(labels) and (v.size <= 1 or 1 << (v.size - 1) < len(labels)), f"{kind} uses {v.size} qubits for {len(labels)} labels")
    dec = [v.decoder(i) for i in range(len(labels))]
    check(dec == labels, f"{kind}({p}): labels {dec[:8]}... expected {labels[:8]}...")
    rest = [v.decoder(i) for i in range(len(labels), 1 << v.size)]
    check(not any(x in labels for x in rest), f"{kind}({p}): unused states decode to used labels {rest}")
    for i, l in enumerate(labels):
        check(int(v.encoder(l)) == i, f"{kind}({p}): label {l!r} encodes to {v.encoder(l)}")
        if len(labels) <= 40 or i % 37 == 0:
            w = mk()
            w[:] = l
            check(basis(w) == i, f"{kind}({p}): assigning {l!r} prepares {basis(w)}")
            r = dict(w.get_measurement())
            check(list(r) == [l] and abs(r[l] - 1) < 1e-9, f"{kind}({p}): {l!r} measures {r}")
    for b in bad:
        w = mk()
        try:
            w[:] = b
        except Exception:
            continue
        raise Fail(f"{kind}({p}) accepted {b!r} as basis state {basis(w)}")


@case("string")
def c_str(s, nisq=True):
    import qrisp
    q = qrisp.QuantumString(len(s), nisq_char=nisq)
    q[:] = s
    r = q.get_measurement()
    check(list(r) == [s] and abs(r[s] - 1) < 1e-9, f"QuantumString set to {s!r} measures {dict(r)}")
    q2 = qrisp.QuantumString(len(s), nisq_char=nisq)
    q2.encode(s)
    check(list(q2.get_measurement()) == [s], f"QuantumString.encode({s!r}) measures {dict(q2.get_measurement())}")
    code = 0
    for k, ch in enumerate(s):
        code = code << (5 if nisq else 8) | qubits_code(ch, nisq)         # first character most significant
    check(q.decoder(code) == s, f"QuantumString.decoder gives {q.decoder(code)!r} for {s!r}")
    t = "".join(reversed(s))
    if s and nisq:
        c = q + q2
        check(list(c.get_measurement()) == [s + s], "concatenation of strings")
        q += t
        check(list(q.get_measurement()) == [s + t], "in-place concatenation with a classical string")


def qubits_code(ch, nisq):
    return "abcdefghijklmnopqrstuvwxyz .!?:,".index(ch) if nisq else ord(ch)


@case("helpers")
def c_help(n, k):
    U = need("qrisp.misc.utility")
    b = U.bin_rep(k, n)
    check(b == (format(k, f"0{n}b") if n else ""), f"bin_rep({k},{n}) = {b}")
    a = list(U.int_as_array(k, n))
    check(a == [int(c) for c in format(k, f"0{n}b")], f"int_as_array({k},{n}) = {a}")
    check(U.array_as_int(a) == k, f"array_as_int of {a}")
    if n <= 64:
        r = int(U.bit_reverse(k, n))
        check(r == int(format(k, f"0{n}b")[::-1], 2), f"bit_reverse({k},{n}) = {r}")
    if n <= 6:
        import numpy as np
        v = np.arange(1 << n)
        w = list(np.asarray(U.swap_endianness(v, n)))
        check(w == [int(format(i, f"0{n}b")[::-1], 2) for i in range(1 << n)], f"swap_endianness of size {n}")
    for bad in (1 << n, (1 << n) + 5, -1):
        try:
            U.bin_rep(bad, n)
        except Exception:
            continue
        raise Fail(f"bin_rep({bad},{n}) accepted")


@case("fresh")
def c_fresh(f):
    """initialising a register that was already used is rejected"""
    import qrisp
    v = var(f)
    qrisp.x(v[0])
    try:
        v[:] = py(value(1 if f[0] > 0 else 0, f))
    except Exception:
        return
    raise Fail("assignment to a used register accepted")


@case("statedict")
def c_sd(f, keys, amps):
    """initialising a superposition by labels"""
    v = var(f)
    d = {py(value(k, f)): a for k, a in zip(keys, amps)}
    nrm = sum(abs(a) ** 2 for a in amps)
    v.init_state(d)
    r = dict(v.get_measurement())
    for k, a in d.items():
        check(abs(r.get(k, 0) - abs(a) ** 2 / nrm) < 1e-4, f"QuantumFloat{tuple(f)} initialised with {d} measures {r}")
    check(abs(sum(r.values()) - 1) < 1e-6, "probabilities")


FORMATS = [[n, e, s] for n in range(1, 5) for e in (-3, -2, -1, 0, 1, 2) for s in (0, 1)]


@task("float", timeout=300, weight=2)
def t_f(ctx):
    ctx.bound("fixed-point numbers: mantissa 1..4, exponents -3..2, both signednesses, every basis state (complete); wide mantissas up to 62 bits sampled; off-grid and out-of-range values on the half grid")
    r = ctx.rng
    for f in FORMATS:
        n = f[0] + f[2]
        for i in range(1 << n):
            if ctx.full():
                return
            ctx.run(c_codec, f=f, i=i)
        for i in r.sample(range(1 << n), 1):
            ctx.run(c_meas, f=f, i=i)
        u = Fraction(2) ** f[1]
        lo, hi = (-(1 << f[0]) if f[2] else 0), (1 << f[0]) - 1
        for k in r.sample(range(2 * lo - 6, 2 * hi + 7), 5) + [2 * hi + 1, 2 * lo - 1, 2 * hi + 2, 2 * lo - 2]:
            ctx.run(c_off, f=f, x=float(k * u / 2))
        ctx.run(c_fresh, f=f)
    for n in (10, 31, 32, 33, 52, 53, 54, 60, 62, 64, 70):
        for s in (0, 1):
            for e in (0, 3, -5):
                if n > 53 and e < 0:
                    continue
                for i in ((1 << (n + s)) - 1, 1 << (n + s - 1), (1 << (n + s - 1)) + 1, r.randrange(1 << (n + s)), r.randrange(1 << (n + s)) | 1):
                    ctx.run(c_codec, f=[n, e, s], i=i)
    for _ in range(20):
        f = r.choice([g for g in FORMATS if 2 <= g[0] <= 3])
        ks = r.sample(range(1 << (f[0] + f[2])), 3)
        ctx.run(c_sd, f=f, keys=ks, amps=[r.uniform(.2, 1) for _ in ks])


@task("traced", timeout=300)
def t_t(ctx):
    ctx.bound("traced encode/measure: mantissa 1..4, exponents -3..2, every third basis state; widths 30, 31")
    r = ctx.rng
    for f in FORMATS:
        for i in range(1 << (f[0] + f[2])):
            if r.random() < .3 or i == (1 << (f[0] + f[2])) - 1:
                if ctx.full():
                    return
                ctx.run(c_tf, f=f, i=i)
    for f in ([20, 0, 0], [24, -3, 1], [26, 2, 0]):
        for _ in range(3):
            ctx.run(c_tf, f=f, i=r.randrange(1 << (f[0] + f[2])))


@task("copy", timeout=300)
def t_c(ctx):
    ctx.bound("copy between formats: mantissa 1..3, exponents -1..1, both signednesses, all option combinations")
    F = [[n, e, s] for n in (1, 2, 3) for e in (-1, 0, 1) for s in (0, 1)]
    for a in F:
        for b in F:
            if ctx.full():
                return
            ctx.run(c_copy, fa=a, fb=b)
            ctx.run(c_copy, fa=a, fb=b, ro=True)
            ctx.run(c_copy, fa=a, fb=b, ro=True, ov=True)


@task("labels", timeout=300)
def t_l(ctx):
    ctx.bound("label types: characters (both tables, complete), booleans, bit strings of 0..4, custom label lists of 1..9, modular numbers 2..17; strings up to 6 characters")
    r = ctx.rng
    ctx.run(c_lab, kind="char", p=1)
    ctx.run(c_lab, kind="char", p=0)
    ctx.run(c_lab, kind="bool", p=0)
    for n in range(1, 5):
        ctx.run(c_lab, kind="var", p=n)
    for n in range(1, 10):
        ctx.run(c_lab, kind="custom", p=[f"l{i}" for i in range(n)])
    for n in range(2, 18):
        ctx.run(c_lab, kind="modulus", p=n)
    A = "abcdefghijklmnopqrstuvwxyz .!?:,"
    for n in range(1, 5):
        ctx.run(c_str, s="".join(r.choice(A) for _ in range(n)))
    ctx.run(c_str, s="Qx9", nisq=False)
    for n in (1, 2, 3, 5, 8, 13, 31, 32, 33, 63, 64, 80):
        for k in {0, 1 % (1 << n), (1 << n) - 1, r.randrange(1 << n), r.randrange(1 << n)}:
            ctx.run(c_help, n=n, k=k)


# resizing: inserted qubits are zero and sit at the requested position, the others keep their values -------------------------------------
@case("resize")
def c_resize(bits, steps, traced=False):
    import qrisp
    model = list(bits)
    for st in steps:
        if st[0] == "extend":
            p = len(model) if st[2] == -1 else st[2]
            model[p:p] = [0] * st[1]
        else:
            model = [b for i, b in enumerate(model) if i not in st[1]]

    def go():
        qv = qrisp.QuantumVariable(len(bits))
        for i, b in enumerate(bits):
            if b:
                qrisp.x(qv[i])
        for st in steps:
            if st[0] == "extend":
                qv.extend(st[1], position=st[2])
            else:
                qv.reduce([qv[i] for i in st[1]])
        return qv
    what = f"{'traced ' if traced else ''}register {bits} after {steps}"
    if traced:
        from vb.prog import extract
        regs, _, qc = extract(qrisp.make_jaspr(go)(), ())
        reg = regs[0]
    else:
        qv = go()
        check(qv.size == len(model), lambda: f"{what}: {qv.size} qubits instead of {len(model)}")
        reg, qc = list(qv.reg), qv.qs.copy()
    check(len(reg) == len(model) and len({q.identifier for q in reg}) == len(reg), lambda: f"{what}: {len(reg)} qubits instead of {len(model)}, or qubits with equal names")
    new = qc.clearcopy()
    for ins in qc.data:
        if ins.op.name not in ("qb_alloc", "qb_dealloc"):
            new.append(ins.op, ins.qubits, ins.clbits)
    from vb.sim import Sparse
    (b,) = Sparse().run(new, 0)
    (k,) = [k for k, a in b.st.items() if abs(a) > 1e-6]
    got = [k >> new.qubits.index(q) & 1 for q in reg]
    check(got == model, lambda: f"{what}: qubit values {got} instead of {model}")
    if not traced:
        lab = "".join(map(str, model))
        m = dict(qv.get_measurement())
        check(abs(m.get(lab, 0) - 1) < 1e-3, lambda: f"{what}: measured {m} instead of {lab}")


@case("duplicate")
def c_dup(f, i, traced=False):
    """a duplicate has the same format; initialised duplicates hold the same value, others zero; the original keeps its value"""
    import qrisp
    from qrisp.jasp import terminal_sampling

    def go():
        a = qrisp.QuantumFloat(f[0], f[1], signed=f[2])
        a[:] = py(value(i, f))
        b = a.duplicate()
        return (a, b) if traced else (a, b, a.duplicate(init=True))     # initialisation from another variable is not offered in traced programs
    want = (float(value(i, f)), 0.0, float(value(i, f)))
    if traced:
        def main():
            return tuple(qrisp.measure(v) for v in go())
        got, want = tuple(float(x) for x in qrisp.make_jaspr(main)()()), want[:2]
    else:
        vs = go()
        check(all(type(v) is type(vs[0]) and v.size == vs[0].size and v.signed == vs[0].signed and v.exponent == vs[0].exponent for v in vs), "a duplicate has another format")
        qrisp.merge([v.qs for v in vs])
        check(len({q.identifier for v in vs for q in v.reg}) == 3 * vs[0].size, "a duplicate shares qubits with the original")
        got = []
        for v in vs:
            (k,) = [k for k, p in v.get_measurement().items() if p > 1e-4]
            got.append(float(k))
        got = tuple(got)
    check(got == want, lambda: f"{'traced ' if traced else ''}float {f} holding {want[0]}: original, duplicate and initialised duplicate hold {got}")


@case("moduli")
def c_moduli(a, b, big):
    """modular numbers of different modulus are not compared, of equal modulus they are"""
    import qrisp
    BI = need("qrisp", "BigInteger") if big else None
    mk = lambda N: qrisp.QuantumModulus(BI.create_static(N, 2) if big else N)
    x, y = mk(a), mk(b)
    if big:
        neq = need("qrisp.qtypes.quantum_modulus", "_moduli_neq")
        check(neq(x.modulus, y.modulus) == (a != b), f"moduli {a} and {b} are taken for {'different' if a == b else 'equal'}")
        return
    try:
        y[:] = 2
        x[:] = 1
        x == y
    except Exception:
        check(a != b, f"comparing numbers modulo {a} is rejected")
        return
    check(a == b, f"a number modulo {b} is compared with one modulo {a} without complaint")


@task("resize", timeout=300)
def t_resize(ctx):
    r = ctx.rng
    ctx.bound("registers of up to 5 qubits, up to 3 resizing steps; float formats of up to 4 qubits")
    for k in range(80 if not thorough() else 600):
        bits = [r.randint(0, 1) for _ in range(r.randint(1, 4))]
        model, steps = list(bits), []
        tr = k % 3 == 0
        for _ in range(r.randint(1, 2 if tr else 3)):
            z = [i for i, b in enumerate(model) if not b]
            if z and len(model) > 1 and not tr and r.random() < .4:
                d = r.sample(z, r.randint(1, min(len(z), len(model) - 1)))
                steps.append(["reduce", d])
                model = [b for i, b in enumerate(model) if i not in d]
            else:
                a, p = r.randint(1, 3), r.choice([-1, 0, r.randint(0, len(model))])
                steps.append(["extend", a, p])
                p = len(model) if p == -1 else p
                model[p:p] = [0] * a
        ctx.run(c_resize, bits=bits, steps=steps, traced=tr)
        if ctx.full():
            return
    for f in ([2, 0, False], [3, -1, False], [2, 1, True], [3, -2, True]):
        n = f[0] + f[2]
        for i in r.sample(range(1 << n), 3):
            ctx.run(c_dup, f=f, i=i)
            ctx.run(c_dup, f=f, i=i, traced=True)
    for a, b in ((5, 5), (5, 7), (7, 13), (13, 13)):
        ctx.run(c_moduli, a=a, b=b, big=False)
        ctx.run(c_moduli, a=a, b=b, big=True)


@task("proof", timeout=300)
def t_proof(ctx):
    """fixed-point codec for every width"""
    from vc import iheap
    from vc.contracts import codec
    from vc.engine import prove_lemma
    for l in iheap.LEMMAS + codec.LEMMAS:
        prove_lemma(ctx, l)
    for n in codec.programs():
        codec.run_one(ctx, n)
    ctx.assume(codec.ASSUME_REAL)
    ctx.bound("proof: exponents -6..6 enumerated; register width and value unbounded")
