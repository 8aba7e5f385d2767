"""C17: traced execution. Random dynamic programs (vb.jl: registers of argument-dependent size, loops, branches, slices, subroutines, inversion,
control, conjugation, temporaries, measurements) are executed by a reference interpreter and through the package: directly, as extracted
circuit, by simulation of the traced program, by sampling, by classical lowering and by resource counting."""
import math
import random

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import jl
from vb.sim import DirtyDealloc, SimError, Sparse

ID = "C17"
LEVEL = "exploration"
RULE = "one evaluation = one program with one tuple of classical arguments in one evaluation mode compared with the reference interpreter; nontrivial = distinct (program, arguments, mode)"
TRUSTED = ["vb.sim evaluator", "vb.jl reference interpreter"]

_J = {}


def key(prog):
    import json
    return json.dumps(prog, sort_keys=True)


def trace(prog, n, ret="regs"):
    from qrisp.jasp import make_jaspr
    k = (key(prog), n, ret)
    if k not in _J:
        _J.clear()
        try:
            _J[k] = make_jaspr(main(prog, ret))(*[1] * n)
        except Exception as e:
            rejected(e)
            raise
    return _J[k]


def rejected(e):
    """documented restriction: values assigned in a jrange loop or a classically controlled block are not available after it"""
    if "external carry value" in str(e) or "with carry value" in str(e):
        raise Undecided("documented restriction: value assigned inside a loop used after it")
    if "Don't know how to simulate quantum gate" in str(e):
        raise Undecided("gate outside the set of the stabilizer back end")
    if "more than 2 branches" in str(e):
        raise Undecided("documented restriction: machine code back end has no conditional with more than two branches")
    if "Unable to link" in str(e):
        raise Undecided("no linker for the machine code back end")


def main(prog, ret="regs"):
    import qrisp

    def f(*args):
        R = jl.Run(prog, args, True)
        regs = R.regs()
        R.block(prog["body"], regs)
        if ret == "regs":
            return tuple(regs)
        return tuple(qrisp.measure(r) for r in regs) + tuple(R.env[n] for n in prog.get("ret", ()))
    return f


def ref(prog, args):
    try:
        return jl.Ref(prog, args).run()
    except jl.Stop as e:
        raise Undecided(str(e))


def same_state(qc, pos, want, regs, what):
    """circuit on |0..0> prepares the state `want` of the reference on the data qubits (up to phase), everything else zero"""
    s = Sparse(limit=1 << 18)
    s.check_dealloc, s.merge = True, True
    try:
        br = s.run(qc, 0)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    data = [q for r in regs for q in r]
    check(len(data) == len(pos), lambda: f"{what}: {len(pos)} data qubits instead of {len(data)}")
    W = {}
    for k, v in want.items():
        x = 0
        for q, p in zip(data, pos):
            x |= (k >> q & 1) << p
        check(k & ~sum(1 << q for q in data) == 0, "reference leaves a temporary dirty") if False else None
        W[x] = W.get(x, 0) + v
    for b in br:
        nb = math.sqrt(sum(abs(v) ** 2 for v in b.st.values()))
        if nb < 1e-6:
            continue
        ov = sum(W.get(k, 0).conjugate() * v if isinstance(W.get(k, 0), complex) else W.get(k, 0) * v for k, v in b.st.items())
        if abs(abs(ov) - nb) > 2e-4 * nb:
            worst = max(set(W) | set(b.st), key=lambda k: abs(abs(W.get(k, 0)) - abs(b.st.get(k, 0)) / nb))
            raise Fail(f"{what}: overlap of the final state with the expected one is {abs(ov) / nb:.5f} (basis state {worst:b}: |amplitude| {abs(b.st.get(worst, 0)) / nb:.4f}, expected {abs(W.get(worst, 0)):.4f})")


@case("direct")
def c_direct(prog, args):
    import qrisp
    R = ref(prog, args)
    P = jl.Run(prog, args, False)
    regs = P.regs()
    P.block(prog["body"], regs)
    qrisp.merge([r.qs for r in regs])
    qc = regs[0].qs.copy()
    names = {q.identifier: i for i, q in enumerate(qc.qubits)}
    same_state(qc, [names[q.identifier] for r in regs for q in r.reg], R.st, R.regs, "direct")


@case("extract")
def c_extract(prog, args):
    """circuit extraction"""
    from vb.prog import extract
    R = ref(prog, args)
    regs, rest, qc = extract(trace(prog, len(args)), args)
    names = {q.identifier: i for i, q in enumerate(qc.qubits)}
    check(len(regs) == len(R.regs), f"{len(regs)} registers returned")
    same_state(qc, [names[q.identifier] for r in regs for q in r], R.st, R.regs, "extracted circuit")


def dist(prog, args):
    try:
        return jl.distribution(prog, args, 200, prog.get("ret", ()))
    except jl.Stop as e:
        raise Undecided(str(e))


def values(res):
    import numpy as np
    out = []
    for x in res if isinstance(res, (tuple, list)) else (res,):
        v = np.asarray(x).item()
        check(abs(v - round(v)) < 1e-9, f"value {v} is not an integer")
        out.append(int(round(v)))
    return tuple(out)


@case("simulate")
def c_simulate(prog, args, shots=3):
    """simulation of the traced program: every returned tuple of values is a possible outcome"""
    D = dist(prog, args)
    J = trace(prog, len(args), "vals")
    for _ in range(shots if len(D) > 1 else 1):
        got = values(J(*args))
        if len(D) == 1:
            check(got in D, lambda: f"simulation returns {got}, expected {next(iter(D))}")
        else:
            check(got in D, lambda: f"simulation returns {got}, which has probability 0 (possible: {sorted(D)[:8]})")


@case("jaspify")
def c_jaspify(prog, args):
    from qrisp.jasp import jaspify
    D = dist(prog, args)
    try:
        got = values(jaspify(main(prog, "vals"))(*args))
    except Exception as e:
        rejected(e)
        raise
    check(got in D, lambda: f"simulation returns {got}, which has probability 0 (possible: {sorted(D)[:8]})")


@case("lowering")
def c_lowering(prog, args, padding=1024, threshold=None):
    """classical lowering of a reversible program"""
    from qrisp.jasp import boolean_simulation
    D = dist(prog, args)
    if len(D) != 1:
        raise Undecided("not deterministic")
    k = (key(prog), padding, threshold, "low")
    if k not in _J:
        _J.clear()
        _J[k] = boolean_simulation(main(prog, "vals"), bit_array_padding=padding, callback_threshold=threshold)
    try:
        got = values(_J[k](*args))
    except Exception as e:
        rejected(e)
        raise
    check(got in D, lambda: f"classical lowering returns {got}, expected {next(iter(D))}")


@case("machine")
def c_machine(prog, args, shots=3):
    """execution of the program compiled to machine code"""
    try:
        import catalyst                                          # noqa: F401
    except ImportError:
        raise Undecided("machine code back end is not installed")
    from qrisp.jasp import qjit
    D = dist(prog, args)
    k = (key(prog), "qjit")
    if k not in _J:
        _J.clear()
        _J[k] = qjit(main(prog, "vals"))
    for _ in range(shots if len(D) > 1 else 1):
        try:
            got = values(_J[k](*args))
        except Exception as e:
            rejected(e)
            raise
        check(got in D, lambda: f"compiled program returns {got}, which has probability 0 (possible: {sorted(D)[:8]})")


@case("sampling")
def c_sampling(prog, args):
    """exact probabilities of the decoded register values"""
    from qrisp.jasp import terminal_sampling
    D = dist(dict(prog, ret=[]), args)
    try:
        got = terminal_sampling(main(prog))(*args)
    except Exception as e:
        rejected(e)
        raise
    n = len(prog["regs"])
    G = {}
    for k, v in got.items():
        G[values(k)] = G.get(values(k), 0) + float(v)
    for k in set(D) | set(G):
        check(abs(D.get(k, 0) - G.get(k, 0)) < 2e-4, lambda: f"probability of the values {k} is {G.get(k, 0):.5f}, expected {D.get(k, 0):.5f}")


ARGS = [(0, 0), (1, 2), (3, 1), (2, 3), (-1, 4)]


@task("extract", weight=3)
def t_extract(ctx):
    n = 60 if not thorough() else 400
    for i in range(n):
        r = ctx.rng
        prog = jl.Gen(r, 2, kinds=["g", "g", "for", "ifc", "call", "inv", "ctl", "conj", "tmp", "set", "fori", "if"]).program(r.randint(1, 3))
        for a in r.sample(ARGS, 3):
            if not ctx.run(c_extract, prog=prog, args=list(a)):
                break
        if ctx.full():
            return
        if i % 15 == 14:
            ctx.gc()


@task("direct", weight=1)
def t_direct(ctx):
    n = 60 if not thorough() else 400
    for i in range(n):
        r = ctx.rng
        prog = jl.Gen(r, 2).program(r.randint(1, 3))
        for a in r.sample(ARGS, 2):
            if not ctx.run(c_direct, prog=prog, args=list(a)):
                break
        if ctx.full():
            return


QK = ["g", "g", "for", "ifc", "call", "inv", "ctl", "conj", "tmp", "set", "fori", "if", "switch"]
MK = QK + ["meas", "meas", "measr", "reset", "resetr", "while"]


def fuzz(ctx, case_fn, n, gen, nargs=3, **kw):
    for i in range(n):
        r = ctx.rng
        prog = gen(r)
        for a in r.sample(ARGS, nargs):
            if not ctx.run(case_fn, prog=prog, args=list(a), **{k: v(r) if callable(v) else v for k, v in kw.items()}):
                break
        if ctx.full():
            return
        if i % 12 == 11:
            ctx.gc()


@task("simulate", weight=3)
def t_simulate(ctx):
    fuzz(ctx, c_simulate, 40 if not thorough() else 300, lambda r: jl.Gen(r, 2, kinds=QK).program(r.randint(1, 3)))
    fuzz(ctx, c_jaspify, 6 if not thorough() else 30, lambda r: jl.Gen(r, 2, kinds=QK).program(r.randint(1, 2)), 1)


@task("measured", weight=3)
def t_measured(ctx):
    fuzz(ctx, c_simulate, 40 if not thorough() else 300, lambda r: jl.Gen(r, 2, kinds=MK).program(r.randint(1, 3)))


@task("classical", weight=3)
def t_classical(ctx):
    fuzz(ctx, c_simulate, 40 if not thorough() else 300, lambda r: jl.Gen(r, 2, kinds=MK, classical=True).program(r.randint(1, 3)))


@task("lowering", weight=4)
def t_lowering(ctx):
    fuzz(ctx, c_lowering, 20 if not thorough() else 150, lambda r: jl.Gen(r, 2, kinds=MK, classical=True).program(r.randint(1, 3)))


@task("machine", weight=4)
def t_machine(ctx):
    fuzz(ctx, c_machine, 8 if not thorough() else 60, lambda r: jl.Gen(r, 2, kinds=[k for k in MK if k != "switch"], classical=r.random() < .5).program(r.randint(1, 3)))


@task("sampling", weight=3)
def t_sampling(ctx):
    fuzz(ctx, c_sampling, 25 if not thorough() else 200, lambda r: jl.Gen(r, 2, kinds=QK).program(r.randint(1, 3)), 2)


def counts(qc):
    c = {}
    for ins in qc.transpile().data:
        if ins.op.name not in ("qb_alloc", "qb_dealloc", "barrier"):
            c[ins.op.name] = c.get(ins.op.name, 0) + 1
    return c


def depth_of(qc):
    d = {}
    for ins in qc.transpile().data:
        if ins.op.name in ("qb_alloc", "qb_dealloc", "barrier", "measure", "reset", "disentangle") or not ins.qubits:
            continue
        m = 1 + max(d.get(q, 0) for q in ins.qubits)
        for q in ins.qubits:
            d[q] = m
    return max(d.values(), default=0)


def allocs(qc):
    cur = peak = al = de = 0
    for ins in qc.data:
        if ins.op.name == "qb_alloc":
            al += 1
            cur += 1
            peak = max(peak, cur)
        elif ins.op.name == "qb_dealloc":
            de += 1
            cur -= 1
    return {"total_allocated": al, "total_deallocated": de, "peak_allocations": peak, "finally_allocated": cur}


@case("resources")
def c_resources(prog, args, threshold=None):
    """resource counting against the circuit extracted for the same arguments"""
    from vb.prog import extract
    J = trace(prog, len(args))
    qc = extract(J, args)[2]
    kw = {} if threshold is None else {"callback_threshold": threshold}
    got = {k: int(v) for k, v in J.count_ops(*args, meas_behavior="0", **kw).items() if int(v)}
    want = counts(qc)
    check(got == want, lambda: f"operation counts {got}, extracted circuit has {want}")
    got = {k: int(v) for k, v in J.num_qubits(*args, meas_behavior="0", **kw).items()}
    want = allocs(qc)
    check(got == want, lambda: f"qubit counts {got}, extracted circuit has {want}")
    got = int(J.depth(*args, meas_behavior="0", max_qubits=64, **kw))
    want = depth_of(qc)
    check(got == want, lambda: f"depth {got}, extracted circuit has {want}")


@task("resources", weight=4)
def t_resources(ctx):
    fuzz(ctx, c_resources, 16 if not thorough() else 120, lambda r: jl.Gen(r, 2, kinds=QK[:-2]).program(r.randint(1, 2)), 2, threshold=lambda r: r.choice([None, None, 0]))


POST = {
    "sum": lambda *a: sum((i + 1) * x for i, x in enumerate(a)),
    "par": lambda *a: sum(a) % 2,
    "two": lambda *a: (a[0] % 2, a[-1] * a[-1]),
    "first": lambda *a: a[0],
}


def images(D, post):
    G = {}
    for k, v in D.items():
        w = POST[post](*k) if post else k
        w = w if isinstance(w, tuple) else (w,)
        G[w] = G.get(w, 0) + v
    return G


@case("post")
def c_post(prog, args, post, mode, shots):
    """sampling and expectation values with a function of the measured values"""
    import numpy as np
    from qrisp.jasp import expectation_value, jaspify, sample, terminal_sampling
    G = images(dist(dict(prog, ret=[]), args), post)
    f = main(prog)
    kw = {"post_processor": POST[post]} if post else {}
    n = len(next(iter(G)))
    try:
        if mode == "exact":
            got = terminal_sampling(f, shots=0, **kw)(*args)
        elif mode == "sample":
            got = sample(f, shots=shots, **kw)(*args)
        elif mode == "traced":
            got = jaspify(lambda *a: sample(f, shots=shots, **kw)(*a))(*args)
        elif mode == "terminal":
            got = jaspify(lambda *a: sample(f, shots=shots, **kw)(*a), terminal_sampling=True)(*args)
        else:
            got = jaspify(lambda *a: expectation_value(f, shots=shots, **kw)(*a), terminal_sampling=mode == "evt")(*args)
    except Exception as e:
        rejected(e)
        raise
    if mode in ("exact", "sample"):
        H = {}
        for k, v in got.items():
            H[values(k)] = H.get(values(k), 0) + float(v)
        for k in set(G) | set(H):
            check(k in G or abs(H[k]) < 1e-6, lambda: f"value {k} has probability 0 but is reported with weight {H[k]}")
            if mode == "exact" or len(G) == 1:
                check(abs(G[k] * (shots if mode == "sample" else 1) - H.get(k, 0)) < 3e-4, lambda: f"weight of {k} is {H.get(k, 0)}, expected {G[k]}")
        if mode == "sample":
            check(abs(sum(H.values()) - shots) < 1e-9, lambda: f"{sum(H.values())} shots reported instead of {shots}")
        return
    a = np.asarray(got, dtype=float)
    if mode in ("traced", "terminal"):
        check(a.shape == ((shots,) if n == 1 else (shots, n)), lambda: f"sample array has shape {a.shape} for {shots} shots of {n} values")
        for row in a.reshape(shots, n):
            check(values(list(row)) in G, lambda: f"sampled value {list(row)} has probability 0")
    else:
        check(a.size == n, lambda: f"expectation value has shape {a.shape}")
        for i, v in enumerate(a.reshape(-1)):
            vals = [k[i] for k, p in G.items() if p > 1e-9]
            check(min(vals) - 1e-9 <= v <= max(vals) + 1e-9, lambda: f"expectation value {v} outside the range of the values {min(vals)}..{max(vals)}")
            mean = sum(k[i] * p for k, p in G.items())
            sd = math.sqrt(max(0, sum((k[i] - mean) ** 2 * p for k, p in G.items())) / shots)
            check(abs(v - mean) <= 9 * sd + 1e-6, lambda: f"average over {shots} shots is {v}, expected {mean} +- {sd}")


@task("post", weight=4)
def t_post(ctx):
    for mode, n in (("exact", 12), ("sample", 8), ("traced", 4), ("terminal", 6), ("ev", 4), ("evt", 6)):
        fuzz(ctx, c_post, n if not thorough() else 8 * n, lambda r: jl.Gen(r, 2, kinds=QK, classical=r.random() < .3).program(r.randint(1, 2)), 1,
             post=lambda r: r.choice(["sum", "par", "two", "first", None]), mode=mode, shots=lambda r: r.choice([1, 7, 40] if mode in ("traced", "ev") else [1, 7, 400]))


CLIFF = {"sx": "h", "swap": "cx", "t": "s", "t_dg": "s_dg", "rx": "h", "ry": "h", "rz": "z", "p": "s", "cp": "cz", "crx": "cx", "rzz": "cz", "ccx": "cx"}


def clifford(x):
    if isinstance(x, list) and x and x[0] == "g" and len(x) == 4:
        g = CLIFF.get(x[1], x[1])
        return ["g", g, [], x[3][:2] if x[1] == "ccx" else x[3]]
    if isinstance(x, list):
        return [clifford(y) for y in x]
    if isinstance(x, dict):
        return {k: clifford(v) for k, v in x.items()}
    return x


@case("stimulate")
def c_stim(prog, args, shots=3):
    """simulation of Clifford programs by the stabilizer back end"""
    from qrisp.jasp import stimulate
    D = dist(prog, args)
    try:
        for _ in range(shots):
            got = values(stimulate(main(prog, "vals"))(*args))
            check(got in D, lambda: f"stabilizer simulation returns {got}, which has probability 0 (possible: {sorted(D)[:8]})")
    except Exception as e:
        rejected(e)
        raise


@task("stimulate", weight=2)
def t_stim(ctx):
    fuzz(ctx, c_stim, 14 if not thorough() else 120, lambda r: clifford(jl.Gen(r, 2, kinds=[k for k in MK if k not in ("ctl", "ifc")]).program(r.randint(1, 2))), 1)


@case("until")
def c_until(n, angle, goal):
    """repeat-until-success: the returned register is distributed as under a successful trial"""
    import numpy as np
    import qrisp
    from qrisp.jasp import RUS, jaspify

    def trial(k, a):
        qv = qrisp.QuantumFloat(k)
        for i in qrisp.jrange(k):
            qrisp.ry(a + i, qv[i])
        fl = qrisp.QuantumBool()
        for i in qrisp.jrange(k):
            qrisp.cx(qv[i], fl[0])
        m = qrisp.measure(fl)
        return (m if goal else ~m), qv

    def f(k, a):
        return qrisp.measure(RUS(trial)(k, a))
    for _ in range(4):
        v = int(np.asarray(jaspify(f)(n, angle)).item())
        check(0 <= v < 2 ** n and bin(v).count("1") % 2 == goal, f"value {v} returned although its trial fails")


@task("until", weight=1)
def t_until(ctx):
    for _ in range(4 if not thorough() else 20):
        ctx.run(c_until, n=ctx.rng.randint(1, 4), angle=round(ctx.rng.uniform(.5, 2.5), 3), goal=ctx.rng.randrange(2))


def _upd(xp, a, v, i):
    import numpy as np
    if xp is np:
        a = a.copy()
        a[i] = v
        return a
    return a.at[i].set(v)


def _lax(name, xp, a, i, n, u=None):
    """array primitives with JAX's clamping of dynamic positions"""
    import numpy as np
    from jax import lax
    if xp is np:
        if name == "stride":
            return a[::n]
        k = max(0, min(i, len(a) - n))
        if name == "slice":
            return a[k:k + n]
        a = a.copy()
        a[k:k + n] = u
        return a
    if name == "stride":
        return lax.slice(a, (0,), (len(a),), (n,))
    return lax.dynamic_slice(a, (i,), (n,)) if name == "slice" else lax.dynamic_update_slice(a, u, (i,))


RECORDS = {
    "stack": lambda xp, b, i: xp.stack(b),
    "rev": lambda xp, b, i: xp.stack(b)[::-1],
    "transpose": lambda xp, b, i: xp.stack(b).reshape(2, 3).T,
    "concat": lambda xp, b, i: xp.concatenate([xp.stack(b[:2]), xp.stack(b[3:])]),
    "concat1": lambda xp, b, i: xp.concatenate([xp.stack(b[:2]).reshape(2, 1), xp.stack(b[2:]).reshape(2, 2)], axis=1),
    "slice": lambda xp, b, i: xp.stack(b)[1:4],
    "stride": lambda xp, b, i: _lax("stride", xp, xp.stack(b), 0, 2),
    "row": lambda xp, b, i: xp.stack(b).reshape(3, 2)[1],
    "col": lambda xp, b, i: xp.stack(b).reshape(3, 2)[:, 1],
    "pick": lambda xp, b, i: xp.stack(b)[i],
    "drow": lambda xp, b, i: xp.stack(b).reshape(3, 2)[i],
    "dcol": lambda xp, b, i: xp.stack(b).reshape(2, 3)[:, i],
    "delem": lambda xp, b, i: xp.stack(b).reshape(2, 3)[1, i],
    "delem2": lambda xp, b, i: xp.stack(b).reshape(3, 2)[i, 1],
    "set": lambda xp, b, i: _upd(xp, xp.stack(b), b[0], 2),
    "dset": lambda xp, b, i: _upd(xp, xp.stack(b), b[5], i),
    "broadcast": lambda xp, b, i: xp.broadcast_to(xp.stack(b)[:2], (2, 2)),
    "broadcast1": lambda xp, b, i: xp.broadcast_to(xp.stack(b)[:2][:, None], (2, 2)),
    "swapaxes": lambda xp, b, i: xp.swapaxes(xp.stack(b).reshape(1, 2, 3), 0, 2),
    "roll": lambda xp, b, i: xp.roll(xp.stack(b), 2),
    "flip": lambda xp, b, i: xp.flip(xp.stack(b).reshape(2, 3), axis=1),
    "last": lambda xp, b, i: xp.stack(b)[-1],
    "fromend": lambda xp, b, i: xp.stack(b)[-1 - i],
    "dslice": lambda xp, b, i: _lax("slice", xp, xp.stack(b), i, 3),
    "dslice_end": lambda xp, b, i: _lax("slice", xp, xp.stack(b), i + 3, 3),
    "dupdate": lambda xp, b, i: _lax("update", xp, xp.stack(b), i, 2, xp.stack(b[:2])),
    "dupdate_end": lambda xp, b, i: _lax("update", xp, xp.stack(b), i + 3, 2, xp.stack(b[:2])),
    "where": lambda xp, b, i: xp.where(xp.array([True, False, True]), xp.stack(b[:3]), xp.stack(b[3:])),
    "select": lambda xp, b, i: xp.where(i > 1, xp.stack(b[:3]), xp.stack(b[3:])),
    "tile": lambda xp, b, i: xp.tile(xp.stack(b[:2]), 2),
    "repeat": lambda xp, b, i: xp.repeat(xp.stack(b[:2]), 2),
    # values computed from the bits (not available as plain measurement records)
    "fancy": lambda xp, b, i: xp.stack(b)[xp.array([4, 0, 2])],
    "pad": lambda xp, b, i: xp.pad(xp.stack(b[:2]), (1, 2)),
    "xor": lambda xp, b, i: xp.stack(b[:3]) ^ xp.stack(b[3:]),
    "number": lambda xp, b, i: (xp.stack(b).astype(int) * xp.array([1, 2, 4, 8, 16, 32])).sum() + i,
    "scan": lambda xp, b, i: _fold(xp, xp.stack(b), i, False),
    "scan_rev": lambda xp, b, i: _fold(xp, xp.stack(b), i, True),
    "fori": lambda xp, b, i: _fori(xp, xp.stack(b), i),
    "while": lambda xp, b, i: _while(xp, xp.stack(b), i),
    "cond": lambda xp, b, i: _cond(xp, xp.stack(b), i),
    "nested": lambda xp, b, i: _fori(xp, _fold(xp, xp.stack(b), i, False) % 2 == 1, i),
}
COMPUTED = {"fancy", "pad", "xor", "number", "scan", "scan_rev", "fori", "while", "cond", "nested"}


def _fold(xp, a, i, rev):
    """running weighted sums (all of them)"""
    import numpy as np
    if xp is np:
        c, out = i, []
        for x in (a[::-1] if rev else a):
            c = 2 * c + int(x)
            out.append(c - i)
        return np.array((out[::-1] if rev else out) + [c])
    import jax
    c, ys = jax.lax.scan(lambda c, x: (2 * c + x, 2 * c + x - i), xp.asarray(i, dtype=int), a.astype(int), reverse=rev)
    return xp.concatenate([ys, c[None]])


def _fori(xp, a, i):
    import numpy as np
    if xp is np:
        s = 0
        for k in range(4):
            s = s * 3 + int(a[k]) * (k + i)
        return s
    import jax
    return jax.lax.fori_loop(0, 4, lambda k, s: s * 3 + a[k].astype(int) * (k + i), xp.asarray(0, dtype=int))


def _while(xp, a, i):
    import numpy as np
    if xp is np:
        k, s = 0, 1
        while k < i + 2:
            s, k = 2 * s + int(a[k]), k + 1
        return s
    import jax
    return jax.lax.while_loop(lambda c: c[0] < i + 2, lambda c: (c[0] + 1, 2 * c[1] + a[c[0]].astype(int)), (xp.asarray(0, dtype=int), xp.asarray(1, dtype=int)))[1]


def _cond(xp, a, i):
    import numpy as np
    if xp is np:
        return int(a[1]) + 5 if a[0] else int(a[2]) - i
    import jax
    return jax.lax.cond(a[0], lambda: a[1].astype(int) + 5, lambda: a[2].astype(int) - i)


@case("records")
def c_records(op, bits, i, modes):
    """arrays of measured bits: simulation, classical lowering, extraction to a stabilizer circuit, extraction of the post-processing"""
    import jax.numpy as jnp
    import numpy as np
    from qrisp import QuantumVariable, measure, x
    from qrisp.jasp import boolean_simulation, extract_stim, jaspify, make_jaspr
    f = RECORDS[op]
    want = np.asarray(f(np, [np.bool_(b) for b in bits], i))

    def main(i):
        qv = QuantumVariable(len(bits))
        for k, b in enumerate(bits):
            if b:
                x(qv[k])
        return f(jnp, [measure(qv[k]) for k in range(len(bits))], i)
    for mode in modes:
        if mode == "simulate":
            got = jaspify(main)(i)
        elif mode == "lower":
            got = boolean_simulation(main)(i)
        elif mode == "post":
            got = make_jaspr(main)(1).extract_post_processing(i)("".join(str(int(b)) for b in bits))
        else:
            hd, c = extract_stim(main)(i)
            hd = np.asarray(hd)
            check(hd.dtype.kind in "iu", lambda: f"{op}: measurement handles are {hd!r}")
            smp = c.compile_sampler().sample(1)[0]
            check(smp.size == len(bits), lambda: f"{op}: stabilizer circuit has {smp.size} measurements")
            got = smp[hd]
        got = np.asarray(got)
        if mode == "stim" and want.shape == () and got.shape == (1,):
            got = got[0]
        check(got.shape == want.shape and bool((got == want).all()), lambda: f"{op} of the measured bits {bits} (argument {i}): {mode} gives {got.tolist()}, expected {want.tolist()}")


@case("profiled")
def c_profiled(n, k, reps, args, behavior):
    """decorator forms of the resource counters: one decorated function, several arguments, measured branches"""
    from qrisp import QuantumFloat, cx, h, measure, x
    from qrisp.jasp import count_ops, depth, jrange, num_qubits
    from qrisp import control

    def main(i):
        a = QuantumFloat(n)
        b = QuantumFloat(k)
        for _ in jrange(i):
            h(a[0])
        m = measure(a[n - 1])
        with control(m):
            for _ in range(reps):
                cx(a[0], b[0])
                x(b[0])
        with control(i == 2):
            x(a[1])
        return measure(b)
    beh = behavior
    if behavior == "call":
        import jax
        beh = lambda key: jax.numpy.array(True)
    cnt, dep, qub = count_ops(meas_behavior=beh)(main), depth(meas_behavior=beh, max_qubits=64)(main), num_qubits(meas_behavior=beh)(main)
    for i in args:
        one = behavior in ("1", "call")
        want = {"h": i, "measure": 1 + k, "cx": reps * one, "x": reps * one + (i == 2)}
        got = {q: int(v) for q, v in cnt(i).items() if int(v)}
        check(got == {q: v for q, v in want.items() if v}, lambda: f"operation counts for argument {i} with outcome {behavior}: {got}, expected {want}")
        if behavior == "sim":
            continue        # depth and qubit counts by simulation are not offered
        got = int(dep(i))
        check(got >= (i + 2 * reps if one and reps else i), lambda: f"depth {got} for argument {i} with outcome {behavior}")
        got = {q: int(v) for q, v in qub(i).items()}
        check(got["total_allocated"] == n + k and got["peak_allocations"] == n + k, lambda: f"qubit counts {got} for registers of {n} and {k} qubits")


@task("profiled", weight=2)
def t_profiled(ctx):
    r = ctx.rng
    for k in range(5 if not thorough() else 16):
        ctx.run(c_profiled, n=r.randint(2, 4), k=r.randint(1, 3), reps=r.randint(1, 3), args=r.sample([0, 1, 2, 3, 5], 3), behavior=["0", "1", "sim", "call", "1"][k % 5])
    ctx.gc()


@case("shared")
def c_shared(kinds, values, how):
    """one cached function called with variables that differ in what is fixed at tracing time"""
    import jax.numpy as jnp
    import numpy as np
    import qrisp
    from qrisp import QuantumArray, QuantumBool, QuantumFloat, QuantumModulus, measure
    from qrisp.jasp import jaspify, qache

    def make(kind):
        if kind[0] == "f":
            return QuantumFloat(kind[1], kind[2], signed=bool(kind[3]))
        if kind[0] == "m":
            return QuantumModulus(kind[1])
        return QuantumBool()

    @qache
    def read(q):
        return measure(q)

    @qache
    def build(t, v):
        q = t.construct()
        q[:] = v
        return measure(q)

    def main():
        out = []
        for kind, v in zip(kinds, values):
            if how == "template":
                out.append(build(make(kind).template(), v if kind[0] != "f" else float(v)))
                continue
            if how == "array":
                q = QuantumArray(make(kind), shape=(2,))
                q[:] = np.array([v, v])
            else:
                q = make(kind)
                q[:] = v
                if how == "product" and kind[0] == "m":
                    q = q * 2
            out.append(read(q))
        return tuple(out)
    got = [np.asarray(g).astype(float).tolist() for g in jaspify(main)()]
    want = []
    for kind, v in zip(kinds, values):
        w = float(2 * v % kind[1]) if how == "product" and kind[0] == "m" else float(v)
        want.append([w, w] if how == "array" else w)
    check(got == want, lambda: f"variables {kinds} holding {values} read through one cached function ({how}): {got}, expected {want}")


@task("shared", weight=2)
def t_shared(ctx):
    r = ctx.rng
    ctx.bound("cached functions on 3 variables of one type that differ in sign, exponent, size or modulus")
    for k in range(8 if not thorough() else 40):
        if ctx.full():
            return
        how = ["variable", "array", "template", "product"][k % 4]
        kinds, values = [], []
        if how == "product" or k % 8 < 2:
            for N in r.sample([3, 5, 7] if how != "variable" else [5, 7, 6], 3 if how != "array" else 2):
                kinds.append(["m", N])
                values.append(r.randrange(1, N))
        else:
            for sg in r.sample([0, 1, 0], 3):
                n, e = r.randint(1, 3), r.randint(-2, 1)
                kinds.append(["f", n, e, sg])
                values.append(r.randrange(-(2 ** n) if sg else 0, 2 ** n) * 2.0 ** e)
        ctx.run(c_shared, kinds=kinds, values=values, how=how)
    ctx.gc()


@case("parity")
def c_parity(bits, sets, array):
    """parities of measured bits: value with respect to the expectation, detectors and observables of the extracted stabilizer circuit"""
    import jax.numpy as jnp
    import numpy as np
    from qrisp import QuantumVariable, measure, x
    from qrisp.jasp import boolean_simulation, extract_stim, jaspify, make_jaspr, parity
    n = len(bits)

    def main():
        qv = QuantumVariable(n)
        for k, b in enumerate(bits):
            if b:
                x(qv[k])
        m = [measure(qv[k]) for k in range(n)]
        out = []
        for sel, exp, obs in sets:
            if array:
                # element-wise: entry j combines the bits shifted by j
                cols = [jnp.stack([m[(k + j) % n] for j in range(2)]) for k in sel]
                out.append(parity(*cols, expectation=exp, observable=obs))
            else:
                out.append(parity(*[m[k] for k in sel], expectation=exp, observable=obs))
        return tuple(out)

    def raw(sel, j=0):
        return sum(bits[(k + j) % n] for k in sel) % 2
    want = [[raw(s, j) ^ e for j in range(2)] if array else raw(s) ^ e for s, e, o in sets]
    deviates = any(np.any(w) for w, (s, e, o) in zip(want, sets) if not o)
    if deviates:
        try:
            got = jaspify(main)()
        except Exception as e:
            check("arity" in str(e), lambda: f"unexpected exception {e!r}")
        else:
            raise Fail(f"a parity deviating from its expectation went unnoticed in simulation: {got}")
    else:
        got = jaspify(main)()
        for g, w in zip(got if isinstance(got, tuple) else (got,), want):
            check(np.asarray(g).astype(int).tolist() == w, lambda: f"simulation: parity gives {np.asarray(g)}, expected {w}")
    got = make_jaspr(main)().extract_post_processing()("".join(map(str, bits)))
    for g, w in zip(got if isinstance(got, tuple) else (got,), want):
        check(np.asarray(g).astype(int).tolist() == w, lambda: f"post-processing: parity gives {np.asarray(g)}, expected {w}")
    res = extract_stim(main)()
    hd, c = res[:-1], res[-1]
    conv = c.compile_m2d_converter(skip_reference_sample=True)
    det, ob = conv.convert(measurements=c.compile_sampler().sample(1), separate_observables=True)
    check(det.shape[1] == sum((2 if array else 1) for s in sets if not s[2]), lambda: f"{det.shape[1]} detectors")
    check(ob.shape[1] == sum((2 if array else 1) for s in sets if s[2]), lambda: f"{ob.shape[1]} observables")
    for h, (sel, e, o) in zip(hd, sets):
        got = np.asarray((ob if o else det)[0][np.asarray(h)]).astype(int).tolist()
        w = [raw(sel, j) for j in range(2)] if array else raw(sel)
        if not array and isinstance(got, list) and len(got) == 1:
            got = got[0]
        check(got == w, lambda: f"stabilizer circuit: {'observable' if o else 'detector'} {h} over bits {sel} is {got}, expected {w}")


@task("parities", weight=2)
def t_parities(ctx):
    r = ctx.rng
    ctx.bound("traced parities: 5 measured bits, up to 4 detectors/observables, scalar and element-wise, both expectations")
    for k in range(10 if not thorough() else 40):
        if ctx.full():
            return
        bits = [r.randrange(2) for _ in range(5)]
        arr = k % 3 == 2
        sets = []
        for _ in range(r.randint(1, 4)):
            sel = sorted(r.sample(range(5), r.randint(1, 4)))
            obs = r.random() < 0.5
            e = r.randrange(2) if k % 4 == 3 else sum(bits[i] for i in sel) % 2
            sets.append([sel, e, obs])
        ctx.run(c_parity, bits=bits, sets=sets, array=arr)
    ctx.gc()


@task("records", weight=4)
def t_records(ctx):
    r = ctx.rng
    ctx.bound("arrays of measured bits: 6 bits, 41 array expressions with a classical argument, evaluated by simulation, classical lowering, extracted post-processing and stabilizer-circuit extraction")
    for n, op in enumerate(RECORDS):
        if ctx.full():
            return
        for k in range(2 if not thorough() else 6):
            modes = ["post", "lower" if (n + k) % 2 else "simulate"] + ([] if op in COMPUTED else ["stim"])
            ctx.run(c_records, op=op, bits=[r.randrange(2) for _ in range(6)], i=[2, r.randrange(2)][k % 2], modes=modes)
        if n % 10 == 9:
            ctx.gc()

