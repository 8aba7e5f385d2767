"""C15: quantum environments. Randomly generated nestings of all block kinds are run through the real environments (directly and traced) and
compared with their matrix semantics on a generic product state; temporary qubits must be clean and released.

Contract of a block: [control c: B] = |c><c| x [B] + (1 - |c><c|), [invert: B] = [B]^dagger, [conjugate C: B] = [C]^dagger [B] [C], [iterate k: B] = [B]^k, ..."""
import json
import math
import random

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import lang
from vb.sim import DirtyDealloc, SimError, Sparse, extract as bits

ID = "C15"
LEVEL = "exploration"
RULE = "one evaluation = one program (tree of nested blocks) compared with its matrix semantics on a generic product state; nontrivial = distinct program"
TRUSTED = ["vb.sim evaluator", "vb.lang matrix semantics"]


def angles(seed=3):
    r = random.Random(seed)
    return [(r.uniform(.7, 2.4), r.uniform(0, 6.28)) for _ in range(lang.N)]


def prepare(R):
    from qrisp import p, ry
    for i, (th, ph) in enumerate(angles()):
        ry(th, R.q(i))
        p(ph, R.q(i))


def start():
    import numpy as np
    v = np.ones(1, dtype=complex)
    for th, ph in angles():
        v = np.kron([math.cos(th / 2), math.sin(th / 2) * complex(math.cos(ph), math.sin(ph))], v)
    return v


def compare(qc, pos, U, what):
    """circuit applied to |0..0> (preparation included) against U on the prepared state, everything else zero"""
    import numpy as np
    s = Sparse(limit=1 << 18)
    s.check_dealloc, s.merge = True, True
    try:
        br = s.run(qc, 0)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    want = U @ start()
    for b in br:
        got = np.zeros(1 << lang.N, dtype=complex)
        rest = 0.
        for k, v in b.st.items():
            x = bits(k, pos)
            if k != sum((x >> i & 1) << p for i, p in enumerate(pos)):
                rest += abs(v) ** 2
                if rest > 1e-6:
                    raise Fail(f"{what}: a qubit outside the data registers is left in |1>")
            else:
                got[x] = v
        nb = np.linalg.norm(got)
        if nb < 1e-5:
            continue
        ov = np.vdot(want, got)
        d = np.abs(got - ov * want)
        if d.max() > 2e-4 * max(nb, 1e-3):
            i = int(d.argmax())
            raise Fail(f"{what}: amplitude of basis state {i:0{lang.N}b} is {got[i] / nb:.4f}, expected {want[i] * (ov / abs(ov) if abs(ov) > 1e-9 else 1):.4f} (overlap of the final states {abs(ov) / nb:.4f})")


@case("direct")
def c_direct(prog, opts=None, compiled=False):
    import qrisp
    a, b, t = qrisp.QuantumFloat(2), qrisp.QuantumFloat(2), qrisp.QuantumBool()
    R = lang.Runner((a, b, t), opts=opts)
    prepare(R)
    try:
        R.run(prog)
    except Exception as e:
        if "creating/deleting QuantumVariables" in str(e) and "iter" in json.dumps(prog):
            raise Undecided("documented restriction of iteration blocks")
        raise
    qrisp.merge([a.qs, b.qs, t.qs])
    qs = a.qs
    check(not qs.env_stack, "a session is left inside a block")
    data = list(a.reg) + list(b.reg) + list(t.reg)
    qc = qs.compile() if compiled else qs.copy()
    live = {}
    for ins in qc.data:
        if ins.op.name == "qb_alloc":
            live[ins.qubits[0].identifier] = 1
        elif ins.op.name == "qb_dealloc":
            live.pop(ins.qubits[0].identifier, None)
    if not compiled:
        extra = set(live) - {q.identifier for q in data}
        check(not extra, lambda: f"temporary qubits are not released: {sorted(extra)}")
    names = {q.identifier: i for i, q in enumerate(qc.qubits)}
    compare(qc, [names[q.identifier] for q in data], lang.denote(prog), "direct")


def inverted(prog):
    return any(st[0] == "control" and st[3] and len(st[1]) > 1 or any(inverted(b) for b in st if isinstance(b, list) and b and isinstance(b[0], list)) for st in prog)


@case("traced")
def c_traced(prog, opts=None):
    import qrisp
    from qrisp.jasp import make_jaspr
    from vb.prog import extract
    if inverted(prog):
        raise Undecided("inverted multi-qubit control is rejected while tracing")

    def main(dyn):
        a, b, t = qrisp.QuantumFloat(2), qrisp.QuantumFloat(2), qrisp.QuantumBool()
        R = lang.Runner((a, b, t), traced=True, opts=opts)
        R.dyn = dyn
        prepare(R)
        R.run(prog)
        return a, b, t
    regs, rest, qc = extract(make_jaspr(main)(0), (0,))
    regs = [r for r in regs]
    data = [q for r in regs for q in r]
    if len(data) != lang.N:
        raise Undecided("returned registers not recognised")
    names = {q.identifier: i for i, q in enumerate(qc.qubits)}
    compare(qc, [names[q.identifier] for q in data], lang.denote(prog), "traced")


ALL = ["control", "control", "ctrlp", "cond", "condx", "invert", "conj", "iter", "wrap", "env", "cusc", "clctrl", "anc", "tmp"]
TR = ["control", "control", "invert", "conj", "iter", "env", "cusc", "clctrl", "anc", "tmp"]


def fuzz(ctx, kinds, n, case, depth, **kw):
    r = ctx.rng
    for i in range(n):
        prog = lang.rand_prog(r, r.randint(1, depth), list(range(lang.N)), kinds, 3)
        ctx.run(case, prog=prog, **{k: v(r) if callable(v) else v for k, v in kw.items()})
        if ctx.full():
            return
        if i % 20 == 19:
            ctx.gc()


def opt(r):
    return {"cond": r.choice(["q_eq", "op", "qc"]), "precompile": r.random() < .3}


@task("single", weight=2)
def t_single(ctx):
    """every block kind alone and every ordered pair of kinds"""
    ctx.bound("every block kind and every ordered pair of kinds with random bodies; random trees of depth up to 4; 5 data qubits, control patterns of up to 3 qubits")
    r = ctx.rng
    for k in sorted(set(ALL)):
        for _ in range(3 if not thorough() else 20):
            prog = lang.rand_prog(r, 1, list(range(lang.N)), [k], 4)
            ctx.run(c_direct, prog=prog, opts=opt(r))
            if ctx.full():
                return
    for k in sorted(set(ALL)):
        for l in sorted(set(ALL)):
            for _ in range(2 if not thorough() else 10):
                inner = [x for x in lang.rand_prog(r, 1, [1, 2, 3] if k in ("control", "ctrlp", "anc") else [0, 1] if k == "x" else list(range(lang.N)), [l], 3)]
                prog = nest(r, k, inner, l)
                if prog:
                    ctx.run(c_direct, prog=prog, opts=opt(r))
                if ctx.full():
                    return


def nest(r, k, inner, l):
    for _ in range(30):
        p = lang.rand_prog(r, 2, list(range(lang.N)), [k], 2)
        for st in p:
            if st[0] == k:
                # regenerate the body with blocks of kind l on the qubits that are left
                used = set(st[1]) if k in ("control", "ctrlp", "anc") else set(lang.cond_qubits(st[1])) if k in ("cond", "condx") else set()
                qs = [q for q in range(lang.N) if q not in used]
                if len(qs) < 2:
                    continue
                body = lang.rand_prog(r, 1, qs, [l], 3)
                if not any(b[0] == l for b in body):
                    continue
                st = list(st)
                st[2 if k in ("cond", "condx") else len(st) - 1] = body
                return [lang.leaf(r, list(range(lang.N))), st]
    return None


@task("deep", weight=3)
def t_deep(ctx):
    fuzz(ctx, ALL, 120 if not thorough() else 1500, c_direct, 4, opts=opt)


@task("deep2", weight=3)
def t_deep2(ctx):
    r = ctx.rng
    fuzz(ctx, ["control", "ctrlp", "cond", "condx", "invert", "conj", "cusc", "anc"], 120 if not thorough() else 1500, c_direct, 4, opts=opt)


@task("compiled", weight=3)
def t_comp(ctx):
    fuzz(ctx, ALL, 50 if not thorough() else 500, c_direct, 3, opts=opt, compiled=True)


@task("traced", weight=4)
def t_traced(ctx):
    fuzz(ctx, TR, 40 if not thorough() else 400, c_traced, 3)


@task("traced2", weight=4)
def t_traced2(ctx):
    ctx.rng.random()
    fuzz(ctx, ["control", "invert", "conj", "cusc", "anc", "clctrl"], 40 if not thorough() else 400, c_traced, 3)
