"""C14: compilation. Random programs (environments, arithmetic, multi-controlled gates, temporaries, Fourier transforms) are compiled with all
options; the final state of the compiled circuit on the live variables must equal that of the uncompiled session circuit, and every other
qubit - in particular every recycled one - must be back in zero whenever it is released."""
import json
import random

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import lang
from vb.session import N, SIZES, final, off
from vb.sim import DirtyDealloc, SimError, Sparse, extract as bits

ID = "C14"
LEVEL = "translation_validation"
EXPLANATION = "every compiled circuit is validated against the session it was compiled from"
RULE = "one evaluation = one program x compile options; the compiled circuit is compared with the uncompiled session on a generic state; nontrivial = distinct"
TRUSTED = ["vb.sim evaluator"]


def execute(prog, R):
    import qrisp
    for st in prog:
        k = st[0]
        if k == "add":
            R.v[st[1]] += R.v[st[2]] if isinstance(st[2], int) and st[3] == "v" else st[2]
        elif k == "sub":
            R.v[st[1]] -= st[2]
        elif k == "mcx":
            kw = {} if st[3] is None else {"ctrl_state": st[3]}
            qrisp.mcx([R.q(i) for i in st[1]], R.q(st[2]), method=st[4], **kw)
        elif k == "qft":
            qrisp.QFT(R.v[st[1]], inv=st[2])
        elif k == "mul":
            r = R.v[st[1]] * R.v[st[2]]
            qrisp.cx(r[st[3]], R.q(st[4]))
            qrisp.cz(r[0], R.q(st[4]))
            r.uncompute()
        elif k == "cmp":
            t = R.v[st[1]] < st[2] if st[3] == "lt" else R.v[st[1]] == st[2]
            qrisp.cx(t[0], R.q(st[4]))
            qrisp.p(.4, t[0])
            t.uncompute()
        elif k == "tmp":
            v = qrisp.QuantumVariable(st[1])
            qrisp.merge([v.qs] + [x.qs for x in R.v])
            for i in range(st[1]):
                qrisp.cx(R.q(st[2][i]), v[i])
            for (i, j, a) in st[3]:
                qrisp.cp(a, v[i % st[1]], R.q(j))
            for i in range(st[1]):
                qrisp.cx(R.q(st[2][i]), v[i])
            v.delete()
        elif k == "meas":
            qs = R.v[0].qs
            c = qs.add_clbit()
            R.cl = getattr(R, "cl", []) + [c]
            qs.measure(R.q(st[1]), c)
        elif k == "and":
            t = qrisp.QuantumBool()
            qrisp.merge([t.qs] + [x.qs for x in R.v])
            qrisp.mcx([R.q(i) for i in st[1]], t[0], method=st[4])
            qrisp.cp(st[3], t[0], R.q(st[2]))
            with qrisp.invert():
                qrisp.mcx([R.q(i) for i in st[1]], t[0], method=st[4])
            t.delete()
        elif k == "wrapf":
            qrisp.gate_wrap(lambda *v: execute(st[1], lang.Runner(v, sizes=SIZES)))(*R.v)
        else:
            R.one(st)


def sprinkle(r):
    """one random statement"""
    k = r.choice(["g", "g", "g", "add", "add", "sub", "mcx", "mcx", "qft", "mul", "cmp", "tmp", "tmp", "and", "and", "wrapf"])
    q = list(range(N))
    if k == "g":
        return lang.leaf(r, q)
    if k == "add":
        i, j = r.sample(range(3), 2)
        return ["add", i, j, "v"] if r.random() < .5 else ["add", i, r.randint(1, 3), "c"]
    if k == "sub":
        return ["sub", r.randrange(3), r.randint(1, 3)]
    if k == "mcx":
        m = r.randint(3, 6)
        c = r.sample(q, m + 1)
        return ["mcx", c[:m], c[m], None if r.random() < .5 else "".join(r.choice("01") for _ in range(m)), r.choice(["auto", "auto", "auto", "gray", "balauca", "maslov" if m in (3, 4) else "auto", "hybrid"])]
    if k == "qft":
        return ["qft", r.randrange(3), r.random() < .5]
    if k == "mul":
        return ["mul", 1, 2, r.randrange(4), r.randrange(3)]
    if k == "cmp":
        i = r.randrange(3)
        o = [x for x in q if not off(i) <= x < off(i) + SIZES[i]]
        return ["cmp", i, r.randrange(1, 1 << SIZES[i]), r.choice(["lt", "eq"]), r.choice(o)]
    if k == "tmp":
        n = r.randint(1, 2)
        src = r.sample(q, n)
        rest = [x for x in q if x not in src]
        return ["tmp", n, src, [[r.randrange(n), r.choice(rest), round(r.uniform(-3, 3), 3)] for _ in range(r.randint(1, 2))]]
    if k == "and":
        c = r.sample(q, 3)
        return ["and", c[:2], c[2], round(r.uniform(-3, 3), 3), r.choice(["auto", "gidney", "jones", "gray"])]
    return ["wrapf", [lang.leaf(r, q) for _ in range(3)]]


def rand(r, n):
    p = [sprinkle(r) for _ in range(n)]
    if r.random() < .5:
        p.insert(r.randrange(len(p) + 1), r.choice(lang.rand_prog(r, 2, list(range(N)), ["control", "invert", "conj", "wrap", "env", "anc", "tmp"], 2)))
    return [x if x[0] != "tmp" or len(x) == 4 else ["env", [x]] for x in p]


def resolve(opts):
    o = dict(opts)
    if o.pop("speed", False):
        o["gate_speed"] = lambda op: 0 if op.name in ("x", "p", "rz") else 1 + op.num_qubits
    return o


@case("compile")
def c_compile(prog, opts, prep=1):
    import qrisp
    import numpy as np
    v = [qrisp.QuantumFloat(s) for s in SIZES]
    R = lang.Runner(v, sizes=SIZES)
    qrisp.merge([x.qs for x in v])
    r = random.Random(prep)
    if prep:
        for i in range(N):
            qrisp.ry(r.uniform(.7, 2.4), R.q(i))
            qrisp.p(r.uniform(0, 6), R.q(i))
    execute(prog, R)
    qs = v[0].qs
    o = resolve(opts)
    im = o.pop("measure", None)
    data = [q.identifier for x in v for q in x.reg]
    raw = qs.copy()
    if im is not None:
        o["intended_measurements"] = [R.q(i) for i in im]
    comp = qs.compile(**o)
    check(qs.copy().data is not comp.data and len(raw.data) == len(qs.data), "compiling changed the session")
    cl = [c.identifier for c in getattr(R, "cl", [])]
    a = final(raw, data, "session circuit", 0, cl)
    check(not set(cl) - {c.identifier for c in comp.clbits}, "a classical bit is missing in the compiled circuit")
    try:
        b = final(comp, data, "compiled circuit", 0, cl)
    except KeyError as e:
        if im is None:
            raise Fail(f"qubit {e} of a live variable is missing in the compiled circuit")
        b = None
    if im is None:
        ref = {}
        for w, c in a:
            if c in ref:
                raise Undecided("session measures internally")
            ref[c] = w
        tot = dict.fromkeys(ref, 0)
        for w, c in b:
            nb = np.linalg.norm(w)
            if nb < 1e-5:
                continue
            check(c in ref, lambda: f"compiled circuit produces the measurement outcome {c}, which the session cannot")
            tot[c] += nb ** 2
            na = np.linalg.norm(ref[c])
            if na < 1e-5:
                raise Fail(f"compiled circuit produces the impossible outcome {c}")
            u = ref[c] / na
            ov = np.vdot(u, w)
            d = np.abs(w - ov * u)
            if d.max() > 3e-4 * max(nb, 1e-3):
                i = int(d.argmax())
                raise Fail(f"compiled circuit: amplitude of {i:0{N}b} is {w[i] / nb:.4f}, session gives {u[i] * (ov / abs(ov) if abs(ov) > 1e-9 else 1):.4f} (overlap {abs(ov) / nb:.4f})")
        for c in ref:
            check(abs(tot[c] - np.linalg.norm(ref[c]) ** 2) < 1e-3, lambda: f"compiled circuit: measurement outcome {c} has probability {tot[c]:.4f} instead of {np.linalg.norm(ref[c]) ** 2:.4f}")
    else:
        def dist(vec, idx):
            out = {}
            for x in range(len(vec)):
                y = tuple(x >> i & 1 for i in idx)
                out[y] = out.get(y, 0) + abs(vec[x]) ** 2
            return out
        if cl:
            raise Undecided("measurements in the session")
        da = dist(a[0][0], im)
        if b is None:
            names = {q.identifier for q in comp.qubits}
            miss = [data[i] for i in im if data[i] not in names]
            check(not miss, lambda: f"intended measurement qubits {miss} are missing in the compiled circuit")
            sub = [d for d in data if d in names]
            b = final_part(comp, sub)
            idx = [sub.index(data[i]) for i in im]
        else:
            idx = im
        db = {}
        for w, cl in b:
            for k, p in dist(w, idx).items():
                db[k] = db.get(k, 0) + p
        for k in da:
            if abs(da[k] - db.get(k, 0)) > 1e-3:
                raise Fail(f"light-cone compilation: outcome {k} of the intended measurement has probability {db.get(k, 0):.4f} instead of {da[k]:.4f}")


def local(R, st, keep):
    """a temporary computed by a classical function of the data, used as control, then dropped (keep) or undone by hand"""
    import qrisp
    v = qrisp.QuantumVariable(st[1])
    qrisp.merge([v.qs] + [x.qs for x in R.v])

    def comp(ops):
        for c, t, s in ops:
            qrisp.mcx([R.q(i) if i >= 0 else v[~i] for i in c], v[t], ctrl_state=s)
    comp(st[2])
    for i, j, k, a in st[3]:
        if k == "cx":
            qrisp.cx(v[i], R.q(j))
        elif k == "cp":
            qrisp.cp(a, v[i], R.q(j))
        else:
            qrisp.mcx([v[i], R.q(j[0])], R.q(j[1]))
    if not keep:
        comp(st[2][::-1])
        v.delete()


@case("auto")
def c_auto(prog, opts, prep):
    """automatic uncomputation of variables that went out of scope"""
    import contextlib
    import io
    import qrisp
    import numpy as np

    def build(keep):
        v = [qrisp.QuantumFloat(s) for s in SIZES]
        R = lang.Runner(v, sizes=SIZES)
        qrisp.merge([x.qs for x in v])
        r = random.Random(prep)
        for i in range(N):
            qrisp.ry(r.uniform(.7, 2.4), R.q(i))
            qrisp.p(r.uniform(0, 6), R.q(i))
        for st in prog:
            if st[0] == "local":
                local(R, st, keep)
            else:
                R.one(st)
        return v, [q.identifier for x in v for q in x.reg]
    v, data = build(False)
    a = final(v[0].qs.copy(), data, "session circuit")[0][0]
    v, data = build(True)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        comp = v[0].qs.compile(disable_uncomputation=False, **resolve(opts))
    if "Warning" in buf.getvalue():
        raise Undecided("uncomputation reported as failed")
    (w, _), = final(comp, data, "compiled circuit")
    ov = np.vdot(a, w)
    check(abs(abs(ov) - 1) < 1e-3, lambda: f"compiled with automatic uncomputation: overlap {abs(ov):.4f} with the program that undoes its temporaries")


def final_part(qc, data):
    return final(qc, data, "compiled circuit")


def options(r):
    o = {}
    if r.random() < .4:
        o["workspace"] = r.randint(1, 4)
    if r.random() < .3:
        o["cancel_qfts"] = False
    if r.random() < .3:
        o["compile_mcm"] = True
    if r.random() < .25:
        o["speed"] = True
    return o


def fuzz(ctx, n, ln, gen=None, opt=options, prep=True):
    r = ctx.rng
    for i in range(n):
        p = (gen or rand)(r, r.randint(2, ln))
        ctx.run(c_compile, prog=p, opts=opt(r), prep=r.randint(1, 9) if r.random() < .8 or not prep else 0)
        if ctx.full():
            return
        if i % 15 == 14:
            ctx.gc()


@task("mixed", weight=3)
def t_mixed(ctx):
    ctx.bound("random programs of up to 8 statements on 7 data qubits plus temporaries; all compile options sampled")
    fuzz(ctx, 60 if not thorough() else 600, 8)


@task("mixed2", weight=3)
def t_mixed2(ctx):
    ctx.rng.random()
    fuzz(ctx, 60 if not thorough() else 600, 5)


@task("mcx", weight=3)
def t_mcx(ctx):
    def gen(r, n):
        out = []
        while len(out) < n:
            s = sprinkle(r)
            if s[0] in ("mcx", "and", "g", "tmp"):
                out.append(s)
        return out
    fuzz(ctx, 60 if not thorough() else 600, 5, gen)


@task("lightcone", weight=2)
def t_light(ctx):
    def opt(r):
        return dict(options(r), measure=sorted(r.sample(range(N), r.randint(1, 4))))
    fuzz(ctx, 60 if not thorough() else 600, 6, None, opt)


@task("qft", weight=2)
def t_qft(ctx):
    def gen(r, n):
        out = []
        while len(out) < n:
            s = sprinkle(r)
            if s[0] in ("qft", "add", "sub") or s[0] == "g" and r.random() < .3:
                out.append(s)
        return out
    fuzz(ctx, 60 if not thorough() else 600, 5, gen, lambda r: {"cancel_qfts": True} if r.random() < .8 else options(r))


@task("auto", weight=2)
def t_auto(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 600):
        prog = []
        for _ in range(r.randint(1, 3)):
            n = r.randint(1, 2)
            qs = r.sample(range(N), N)
            src, dst = qs[:4], qs[4:]
            ops = []
            for _ in range(r.randint(1, 3)):
                t = r.randrange(n)
                c = r.sample(src + [~x for x in range(n) if x != t], r.randint(1, 3))
                ops.append([c, t, "".join(r.choice("01") for _ in c)])
            use = []
            for _ in range(r.randint(1, 3)):
                k = r.choice(["cx", "cp", "ccx"])
                use.append([r.randrange(n), r.sample(dst, 2) if k == "ccx" else r.choice(dst), k, round(r.uniform(-3, 3), 3)])
            prog.append(["local", n, ops, use])
            if r.random() < .5:
                prog.append(lang.leaf(r, list(range(N))))
        ctx.run(c_auto, prog=prog, opts=options(r), prep=r.randint(1, 9))
        if ctx.full():
            return


@task("measured", weight=2)
def t_measured(ctx):
    def gen(r, n):
        p = rand(r, n)
        for _ in range(r.randint(1, 2)):
            p.insert(r.randrange(len(p) + 1), ["meas", r.randrange(N)])
        return p
    fuzz(ctx, 50 if not thorough() else 500, 5, gen)
