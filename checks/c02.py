"""C02: comparisons of quantum numbers. Every format/operator combination is evaluated on the superposition of all operand contents."""
import itertools
import operator
from fractions import Fraction

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb.prog import extract, traced
from vb.q import map_state, qubits

ID = "C02"
LEVEL = "exploration"
RULE = "one evaluation = one comparison operator x operand formats (width, exponent, signedness) on the superposition of all operand values"
TRUSTED = ["vb.sim evaluator", "CPython rationals", "vc engine (symbolic execution, loop cutting)", "z3 / cvc5"]
MIN_OBLIGATIONS = 150
TECHNIQUE = ("contract-based deductive verification (unsigned comparisons: symbolic execution of the real functions on registers of symbolic width, adder used through "
             "its contract, obligations discharged by z3 for all widths and values); bounded contract evaluation for signed / mixed formats and equality")
THEOREMS = ['uint_lt, uint_gt, uint_le, uint_ge (quantum/quantum, quantum/classical, classical/quantum): result = comparison of the values, operands kept, workspace clean, for all widths']

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def value(i, f):
    """represented value of basis state i in format [msize, exponent, signed]"""
    n = f[0] + (1 if f[2] else 0)
    if f[2] and i >> (n - 1):
        i -= 1 << n
    return i * Fraction(2) ** f[1]


def var(f):
    import qrisp
    return qrisp.QuantumFloat(f[0], f[1], signed=bool(f[2]))


@case("qq")
def c_qq(op, fa, fb, same=False):
    a = var(fa)
    b = a if same else var(fb)
    r = OPS[op](a, b)
    import qrisp
    check(type(r) is qrisp.QuantumBool, f"result type {type(r)}")
    regs = [a] if same else [a, b]
    qrisp.merge([x.qs for x in regs] + [r.qs])
    f = OPS[op]
    ins = list(itertools.product(*[range(1 << len(x)) for x in regs]))
    map_state(a.qs, regs, ins, lambda t: t + (int(f(value(t[0], fa), value(t[-1], fa if same else fb))),), outs=regs + [r],
              what=f"QuantumFloat{tuple(fa)} {op} {'itself' if same else 'QuantumFloat' + str(tuple(fb))}")


@case("qc")
def c_qc(op, fa, c, swap=False):
    import qrisp
    a = var(fa)
    v = Fraction(c)
    cc = int(c) if float(c).is_integer() else float(c)
    r = OPS[op](cc, a) if swap else OPS[op](a, cc)
    check(type(r) is qrisp.QuantumBool, f"result type {type(r)}")
    qrisp.merge([a.qs, r.qs])
    f = OPS[op]
    map_state(a.qs, [a], [(i,) for i in range(1 << len(a))], lambda t: (t[0], int(f(v, value(t[0], fa)) if swap else f(value(t[0], fa), v))), outs=[a, r],
              what=f"{cc} {op} QuantumFloat{tuple(fa)}" if swap else f"QuantumFloat{tuple(fa)} {op} {cc}")


@case("block")
def c_block(op, fa, fb=None, c=None):
    """comparison used as the condition of a block"""
    import qrisp
    a = var(fa)
    b = var(fb) if fb else None
    t = qrisp.QuantumBool()
    qrisp.merge([a.qs, t.qs] + ([b.qs] if b is not None else []))
    cond = OPS[op](a, b if fb else c)
    with cond:
        qrisp.x(t)
    regs = [a] + ([b] if fb else []) + [t]
    f = OPS[op]
    ins = list(itertools.product(*[range(1 << len(x)) for x in regs]))
    cond.uncompute() if not cond.is_deleted() else None
    map_state(a.qs, regs, ins, lambda s: s[:-1] + (s[-1] ^ int(f(value(s[0], fa), value(s[1], fb) if fb else Fraction(c))),),
              what=f"block conditioned on QuantumFloat{tuple(fa)} {op} {fb or c}")


@case("modulus")
def c_mod(op, N, c=None):
    import qrisp
    a = qrisp.QuantumModulus(N)
    b = qrisp.QuantumModulus(N) if c is None else c
    r = OPS[op](a, b)
    regs = [a] + ([b] if c is None else [])
    qrisp.merge([x.qs for x in regs] + [r.qs])
    f = OPS[op]
    map_state(a.qs, regs, list(itertools.product(range(N), repeat=len(regs))), lambda t: t + (int(f(t[0], t[-1] if c is None else c)),), outs=regs + [r], what=f"QuantumModulus({N}) {op} {c}")


def tprog(op, kind):
    import qrisp

    def main(na, nb, c):
        a = qrisp.QuantumFloat(na)
        if kind == "qq":
            b = qrisp.QuantumFloat(nb)
            r = OPS[op](a, b)
            return a, b, r
        r = OPS[op](a, c)
        return a, r
    return traced((op, kind), main, (1, 1, 1))


@case("traced")
def c_tr(op, na, nb=None, c=0):
    j = tprog(op, "qc" if nb is None else "qq")
    regs, rest, qc = extract(j, (na, nb or 1, c))
    k = len(regs) - 1
    check([len(r) for r in regs] == [na] + ([] if nb is None else [nb]) + [1], "registers of the extracted circuit")
    f = OPS[op]
    map_state(qc, regs[:k], list(itertools.product(*[range(1 << len(r)) for r in regs[:k]])), lambda t: t + (int(f(t[0], c if nb is None else t[1])),), outs=regs,
              what=f"traced {na}-qubit number {op} {c if nb is None else f'{nb}-qubit number'}")


def tprog2(op, sa, sb, kind):
    import qrisp

    def main(na, ea, nb, eb, c):
        a = qrisp.QuantumFloat(na, ea, signed=bool(sa))
        if kind == "qq":
            b = qrisp.QuantumFloat(nb, eb, signed=bool(sb))
            return a, b, OPS[op](a, b)
        return a, OPS[op](a, c)
    return traced((op, sa, sb, kind), main, (1, 0, 1, 0, 1.0 if kind == "qf" else 1))


@case("traced_eq")
def c_te(op, fa, fb=None, c=0):
    """(in)equality in traced programs supports all formats"""
    kind = "qq" if fb else ("qf" if isinstance(c, float) else "qc")
    j = tprog2(op, fa[2], fb[2] if fb else 0, kind)
    regs, rest, qc = extract(j, (fa[0], fa[1], (fb or fa)[0], (fb or fa)[1], c))
    k = len(regs) - 1
    f = OPS[op]
    map_state(qc, regs[:k], list(itertools.product(*[range(1 << len(r)) for r in regs[:k]])), lambda t: t + (int(f(value(t[0], fa), value(t[1], fb) if fb else Fraction(c))),), outs=regs,
              what=f"traced QuantumFloat{tuple(fa)} {op} {fb or c}")


def formats(maxn):
    return [[n, e, s] for n in range(1, maxn + 1) for e in (-2, -1, 0, 1, 2) for s in (0, 1)]


def qq(ctx, ops, seedlist):
    F = formats(3)
    pairs = [(a, b) for a in F for b in F if a[0] + a[2] + b[0] + b[2] <= 6]
    r = ctx.rng
    r.shuffle(pairs)
    for op in ops:
        done = set()
        n = 0
        for a, b in pairs:
            if ctx.full():
                return
            # systematic over the order-relevant features, sampled over the rest
            key = (a[2], b[2], a[0] - b[0], max(-3, min(3, a[1] - b[1])), a[1] if a[1] == b[1] == 0 else None)
            if key in done and r.random() > (.5 if thorough() else .05):
                continue
            done.add(key)
            n += 1
            ctx.run(c_qq, op=op, fa=a, fb=b)
        for a in F[:6]:
            ctx.run(c_qq, op=op, fa=a, fb=a, same=True) if op in ("==", "!=") and False else None


for _o, _n in (("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"), ("==", "eq"), ("!=", "ne")):
    def _f(ctx, op=_o):
        ctx.bound("quantum-quantum comparison: mantissa 1..3, exponents -2..2, both signednesses (every combination of signs, width difference and exponent difference), all contents")
        qq(ctx, [op], None)
    task("qq." + _n, timeout=400)(_f)


@task("qc", timeout=400, weight=2)
def t_qc(ctx):
    ctx.bound("comparison with classical numbers: mantissa 1..3, exponents -2..2, all grid values, values between grid points and outside the range")
    r = ctx.rng
    for f in formats(3):
        u = Fraction(2) ** f[1]
        lo, hi = (-(1 << f[0]) if f[2] else 0), (1 << f[0]) - 1
        vals = [float(k * u / 2) for k in range(2 * lo - 3, 2 * hi + 4)]
        for op in OPS:
            if ctx.full():
                return
            for v in r.sample(vals, min(len(vals), 4)) + [float(lo * u), float(hi * u)]:
                ctx.run(c_qc, op=op, fa=f, c=v)
                if r.random() < .25:
                    ctx.run(c_qc, op=op, fa=f, c=v, swap=True)


@task("blocks", timeout=400)
def t_b(ctx):
    ctx.bound("comparison as block condition: formats up to 2 mantissa qubits; modular numbers: N=3..7")
    for op in OPS:
        for f in ([2, 0, 0], [2, 0, 1], [1, -1, 1]):
            for c in (0, 1, -1, 2):
                if ctx.full():
                    return
                ctx.run(c_block, op=op, fa=f, c=c)
            for g in ([2, 0, 0], [1, 0, 1], [2, 1, 0]):
                ctx.run(c_block, op=op, fa=f, fb=g)
        for N in (3, 4, 5, 7):
            ctx.run(c_mod, op=op, N=N)
            for c in range(0, N):
                ctx.run(c_mod, op=op, N=N, c=c)


@task("traced", timeout=400, weight=2)
def t_t(ctx):
    ctx.bound("traced comparisons of unsigned integers: widths 1..4 (all contents), classical operands inside the range; traced (in)equality in all formats")
    r = ctx.rng
    for op in OPS:
        for na in range(1, 5):
            for nb in range(1, 5):
                if ctx.full():
                    return
                if na + nb <= 7:
                    ctx.run(c_tr, op=op, na=na, nb=nb)
            for c in range(0, 1 << na):
                if na < 4 or r.random() < .4:
                    ctx.run(c_tr, op=op, na=na, c=c)
        if op in ("==", "!="):
            F = formats(2)
            for _ in range(60):
                ctx.run(c_te, op=op, fa=r.choice(F), fb=r.choice(F))
            for _ in range(60):
                f = r.choice(F)
                ctx.run(c_te, op=op, fa=f, c=float(r.randint(-8, 8) * Fraction(2) ** (f[1] - 1)))
    ctx.gc()


@task("proof", timeout=400, weight=2)
def t_proof(ctx):
    """unsigned comparisons proved for every register width, content and classical operand"""
    from vc import iheap
    from vc.contracts import arith
    from vc.engine import prove_lemma
    for l in iheap.LEMMAS + arith.LEMMAS:
        prove_lemma(ctx, l)
    for n in arith.programs():
        if n.startswith("uint_"):
            arith.run_one(ctx, n)
    ctx.assume(iheap.ASSUME_ADD)
    ctx.assume("contracts of x / cx on basis states (C07); control, inversion and conjugation blocks (C15)")
