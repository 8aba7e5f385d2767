"""C23: state preparation, Fourier transform, quantum-index switch, reflection, amplitude amplification, phase estimation.

Every contract fixes the matrix the primitive has to implement (written down independently from the documentation); the circuit
produced by the package - directly or by tracing - is evaluated on a maximally entangled input, so one evaluation decides the
identity for all input states. Inverse and controlled use are compared with the adjoint and the controlled matrix including phases."""
import cmath
import itertools
import math

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb.gates import G, adj, ctl, emb, g1, gates_matrix, little, rev, rgates, run_gates, single
from vb.lin import branches
from vb.q import qubits

ID = "C23"
LEVEL = "exploration"
RULE = "one evaluation = the full matrix of one primitive with one set of options (plain, inverted, controlled; direct or traced) compared with its specification; distinct = distinct parameters"
TRUSTED = ["vb.sim evaluator", "numpy linear algebra"]
TOL = 3e-5

def close(K, V, what, phase=False):
    if phase:
        o = np.vdot(V, K)
        K = K * (abs(o) / o if abs(o) > 1e-9 else 1)
    check(K.shape == V.shape, lambda: f"{what}: shape {K.shape} instead of {V.shape}")
    d = np.abs(K - V)
    if d.max() > TOL:
        i, j = np.unravel_index(d.argmax(), d.shape)
        raise Fail(f"{what}: matrix entry ({i},{j}) is {K[i, j]:.5f}, expected {V[i, j]:.5f}")


MODES = ["plain", "invert", "control", "control0", "cinvert", "twice"]


def wrapped(mode, body, mkctrl):
    """apply body in the given mode; returns the list of control variables"""
    import qrisp
    if mode == "plain":
        body()
        return []
    if mode == "invert":
        with qrisp.invert():
            body()
        return []
    if mode == "twice":
        c = mkctrl(2)
        with qrisp.control(c[0]):
            with qrisp.control(c[1]):
                body()
        return [c]
    c = mkctrl(1)
    if mode == "cinvert":
        with qrisp.control(c[0]):
            with qrisp.invert():
                body()
    else:
        with qrisp.control(c[0], ctrl_state="0" if mode == "control0" else "1"):
            body()
    return [c]


def expected(V, mode):
    if mode == "plain":
        return V
    if mode == "invert":
        return adj(V)
    if mode == "twice":
        return ctl(V, 2)
    return ctl(adj(V) if mode == "cinvert" else V, 1, 0 if mode == "control0" else 1)


def matrix(make, apply, mode, traced, what):
    """matrix implemented on (controls, variables)"""
    import qrisp
    if not traced:
        vs = make()
        cs = wrapped(mode, lambda: apply(*vs), lambda k: qrisp.QuantumVariable(k))
        regs = cs + list(vs)
        qrisp.merge([v.qs for v in flat(regs)])
        qc = flat(regs)[0].qs.copy()
        reg = qubits([q for v in flat(regs) for q in v.reg])
    else:
        from qrisp.jasp import make_jaspr
        from vb.prog import extract

        def main():
            vs = make()
            cs = wrapped(mode, lambda: apply(*vs), lambda k: qrisp.QuantumVariable(k))
            return tuple(flat(cs + list(vs)))
        regs, rest, qc = extract(make_jaspr(main)(), ())
        reg = [q for r in regs for q in r]
    K = branches(qc, reg, what=what)
    check(len(K) >= 1, "no branch")
    return K


def flat(vs):
    out = []
    for v in vs:
        if type(v).__name__ == "QuantumArray":
            out += list(v.flatten())
        else:
            out.append(v)
    return out


def realises(make, apply, V, mode, traced, what, phase=False):
    """V: matrix, or function receiving the implemented plain matrix and checking it (state preparations)"""
    if callable(V):
        K = single(matrix(make, apply, "plain", traced, what), what)
        V(K)
        close(adj(K) @ K, np.eye(K.shape[1]), what + ": not unitary")
        if mode == "plain":
            return
        V = K
    K = single(matrix(make, apply, mode, traced, what), what)
    close(K, expected(V, mode), what, phase or mode in ("plain", "invert"))


def vector(kind, n, seed):
    r = np.random.RandomState(seed)
    N = 1 << n
    if kind == "complex":
        v = r.normal(size=N) + 1j * r.normal(size=N)
    elif kind == "real":
        v = r.normal(size=N)
    elif kind == "sparse":
        v = (r.normal(size=N) + 1j * r.normal(size=N)) * (r.uniform(size=N) < .4)
        v[r.randint(N)] += 1j
    elif kind == "basis":
        v = np.zeros(N, dtype=complex)
        v[r.randint(N)] = cmath.exp(1j * r.uniform(0, 6))
    elif kind == "halves":
        v = r.normal(size=N) + 1j * r.normal(size=N)
        v[(r.randint(2) * N // 2):][:max(N // 2, 1)] = 0
        v[-1] += .5 if not abs(v).sum() else 0
    elif kind == "uniform":
        v = np.ones(N) * cmath.exp(1j * r.uniform(0, 6))
    elif kind == "negative":
        v = -np.abs(r.normal(size=N)) - .1
    elif kind == "scaled":
        v = (r.normal(size=N) + 1j * r.normal(size=N)) * 10 ** r.uniform(-2, 2)
    elif kind == "imag":
        v = 1j * r.normal(size=N)
    elif kind == "product":
        v = np.ones(1, dtype=complex)
        for _ in range(n):
            v = np.kron(v, r.normal(size=2) + 1j * r.normal(size=2) * r.randint(2))
    elif kind == "signs":
        v = np.sign(r.normal(size=N)) + 0j
    return v


KINDS = ["complex", "real", "sparse", "basis", "halves", "uniform", "negative", "scaled", "imag", "product", "signs"]


@case("prepare")
def c_prepare(n, kind, seed, method, reverse, mode, traced):
    import qrisp
    v = vector(kind, n, seed)
    want = v / np.linalg.norm(v)
    want = want if reverse else rev(n) @ want
    what = f"prepare({kind}, method={method}, reversed={reverse}, {mode})"

    def V(K):
        close(K[:, :1], want.reshape(-1, 1), what)
    realises(lambda: (qrisp.QuantumVariable(n),), lambda q: qrisp.prepare(q, v, reversed=reverse, method=method), V, mode, traced, what)


@case("init_state")
def c_init(kind, n, exp, signed, seed, asdict, method):
    """initialisation of a number by a dictionary value -> amplitude or by an amplitude vector"""
    import qrisp
    r = np.random.RandomState(seed)
    qf = qrisp.QuantumFloat(n, exp, signed=signed)
    N = qf.size
    v = vector(kind, N, seed)
    vals = [(x - (1 << N) if signed and x >> (N - 1) else x) * 2.0 ** exp for x in range(1 << N)]
    if asdict:
        d = {vals[i]: complex(v[i]) for i in range(1 << N) if abs(v[i]) > 0}
        if method:
            qf.init_state(d, method=method)
        elif asdict == 2:
            qf[:] = d
        else:
            qf.init_state(d)
    else:
        qf.init_state(v, **({"method": method} if method else {}))
    K = single(branches(qf.qs.copy(), [], list(qf.reg), what="init_state"), "init_state")
    want = rev(N) @ (v / np.linalg.norm(v))
    close(K, want.reshape(-1, 1), "init_state", True)


@task("prepare", weight=3)
def t_prepare(ctx):
    r = ctx.rng
    for n in (1, 2, 3, 4):
        for kind in KINDS:
            for method in ("auto", "qiskit", "qswitch"):
                if n == 4 and r.random() < .6 and not thorough():
                    continue
                ctx.run(c_prepare, n=n, kind=kind, seed=r.randrange(1 << 20), method=method, reverse=r.random() < .5, mode=r.choice(["plain", "invert", "control", "cinvert", "control0"]), traced=False)
    for _ in range(30 if not thorough() else 200):
        n = r.randint(1, 3)
        ctx.run(c_init, kind=r.choice(KINDS), n=n, exp=r.randint(-2, 1), signed=r.random() < .5, seed=r.randrange(1 << 20), asdict=r.randrange(3), method=r.choice([None, None, "qiskit", "qswitch"]))


def preparet(ctx, count):
    r = ctx.rng
    for i in range(count):
        ctx.run(c_prepare, n=r.randint(1, 3), kind=r.choice(KINDS), seed=r.randrange(1 << 20), method=r.choice(["auto", "qiskit", "qswitch", "qswitch"]), reverse=r.random() < .5, mode=r.choice(["plain", "invert", "control"]), traced=True)
        if i % 10 == 9:
            ctx.gc()


@task("prepare_traced_a", weight=4)
def t_preparet_a(ctx):
    preparet(ctx, 10 if not thorough() else 75)


@task("prepare_traced_b", weight=4)
def t_preparet_b(ctx):
    preparet(ctx, 10 if not thorough() else 75)


@case("w_state")
def c_w(n, seed, kind, mode, traced, aslist):
    import qrisp
    r = np.random.RandomState(seed)
    a = r.normal(size=n) + 1j * r.normal(size=n)
    if kind == "real":
        a = a.real
    elif kind == "zeros":
        a = a * (r.uniform(size=n) < .5)
        a[r.randint(n)] += 1
    elif kind == "one":
        a = np.zeros(n)
        a[r.randint(n)] = -1
    elif kind == "equal":
        a = np.ones(n)
    want = np.zeros(1 << n, dtype=complex)
    for i in range(n):
        want[1 << (n - 1 - i)] = a[i] / np.linalg.norm(a)

    def V(K):
        close(K[:, :1], want.reshape(-1, 1), "W-type state", True)
    realises(lambda: (qrisp.QuantumVariable(n),), lambda q: qrisp.unbalanced_w_state(list(q) if aslist else q, a), V, mode, traced, f"unbalanced_w_state({mode})")


@case("dicke")
def c_dicke(n, k, mode, traced):
    import qrisp
    want = np.zeros(1 << n, dtype=complex)
    sup = [x for x in range(1 << n) if bin(x).count("1") == k]
    want[sup] = 1 / math.sqrt(len(sup))

    def V(K):
        close(K[:, (1 << k) - 1:1 << k], want.reshape(-1, 1), f"Dicke state n={n} k={k}", True)
    realises(lambda: (qrisp.QuantumVariable(n),), lambda q: need("qrisp", "dicke_state")(q, k), V, mode, traced, f"dicke_state({mode})")


@task("wdicke", weight=2)
def t_wdicke(ctx):
    r = ctx.rng
    for n in range(1, 6):
        for kind in ("complex", "real", "zeros", "one", "equal"):
            ctx.run(c_w, n=n, seed=r.randrange(1 << 20), kind=kind, mode=r.choice(["plain", "invert", "control"]), traced=False, aslist=r.random() < .3)
    for n in range(1, 6):
        for k in range(1, n + 1):
            ctx.run(c_dicke, n=n, k=k, mode=r.choice(["plain", "invert", "control"]) if n < 5 else "plain", traced=False)
    for _ in range(6 if not thorough() else 30):
        n = r.randint(2, 4)
        ctx.run(c_dicke, n=n, k=r.randint(1, n), mode=r.choice(["plain", "invert"]), traced=True)
        ctx.run(c_w, n=n, seed=r.randrange(1 << 20), kind=r.choice(["complex", "zeros"]), mode=r.choice(["plain", "invert", "control"]), traced=True, aslist=False)


# ---------------------------------------------------------------- Fourier transform

def adder(name):
    import qrisp
    return {None: None, "fourier": qrisp.fourier_adder, "cuccaro": qrisp.cuccaro_adder, "gidney": qrisp.gidney_adder, "qcla": getattr(qrisp, "qcla", None)}[name]


@case("qft")
def c_qft(n, inv, swap, endian, mult, gms, add, mode, traced, aslist):
    import qrisp
    N = 1 << n
    F = np.array([[cmath.exp(2j * math.pi * mult * x * y / N) for x in range(N)] for y in range(N)]) / math.sqrt(N)
    if not swap:
        F = rev(n) @ F
    M = little(F, n) if endian else F
    if inv:
        M = adj(M)
    what = f"QFT(n={n}, inv={inv}, exec_swap={swap}, qiskit_endian={endian}, inplace_mult={mult}, use_gms={gms}, inpl_adder={add}, {mode})"
    realises(lambda: (qrisp.QuantumFloat(n),), lambda q: qrisp.QFT(list(q) if aslist else q, inv=inv, exec_swap=swap, qiskit_endian=endian, inplace_mult=mult, use_gms=gms, inpl_adder=adder(add)), M, mode, traced, what)


@task("qft", weight=3)
def t_qft(ctx):
    r = ctx.rng
    for n in (1, 2, 3, 4):
        for inv, swap, endian, gms in itertools.product((False, True), repeat=4):
            ctx.run(c_qft, n=n, inv=inv, swap=swap, endian=endian, mult=r.choice([1, 1, 3, 5, -1]), gms=gms, add=None, mode=r.choice(MODES) if n < 4 and not gms else r.choice(["plain", "invert"]), traced=False, aslist=r.random() < .3)
    for n in (1, 2, 3):
        for a in ("fourier", "gidney", "qcla"):
            ctx.run(c_qft, n=n, inv=r.random() < .5, swap=r.random() < .5, endian=r.random() < .5, mult=1, gms=False, add=a, mode="plain", traced=False, aslist=False)
    for _ in range(14 if not thorough() else 80):
        ctx.run(c_qft, n=r.randint(1, 4), inv=r.random() < .5, swap=r.random() < .5, endian=r.random() < .5, mult=r.choice([1, 1, 3, -1]), gms=False, add=None, mode=r.choice(["plain", "invert", "control"]), traced=True, aslist=False)


# ---------------------------------------------------------------- quantum-index switch

@case("switch")
def c_switch(n, sizes, br, fn_mode, amount, method, mode, traced, aslist, old=False):
    """SELECT = sum_i |i><i| x U_i, identity beyond the given branches"""
    import qrisp
    m = sum(sizes)
    N = 1 << n
    offs = [sum(sizes[:i]) for i in range(len(sizes))]
    V = np.eye(N << m, dtype=complex)
    cnt = amount if amount is not None else (N if fn_mode else len(br))
    for i in range(min(cnt, N)):
        a = int(format(i, f"0{n}b")[::-1], 2)
        U = gates_matrix([[g, (x * (i + 1)) if fn_mode else x, q] for g, x, q in br[0 if fn_mode else i]], m)
        V[a << m:(a + 1) << m, a << m:(a + 1) << m] = U

    def act(gs, opers, scale=1):
        qs = [q for o in opers for q in o] if not traced else [o[i] for o, s in zip(opers, sizes) for i in range(s)]
        run_gates([[g, x * scale, q] for g, x, q in gs], qs)
    if fn_mode:
        def branches_(i, *opers):
            act(br[0], opers, i + 1)
    else:
        branches_ = [(lambda gs: lambda *opers: act(gs, opers))(gs) for gs in br]
    before = len(branches_) if not fn_mode else 0

    def apply(idx, *opers):
        kw = {"method": method}
        if amount is not None:
            kw["case_amount" if old else "branch_amount"] = amount
        i = list(idx) if aslist else idx
        if old:
            need("qrisp", "qswitch")(opers[0], i, branches_, **kw)
        else:
            qrisp.q_switch(i, branches_, *opers, **kw)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        realises(lambda: [qrisp.QuantumFloat(n)] + [qrisp.QuantumVariable(s) for s in sizes], apply, V, mode, traced, f"q_switch(method={method}, branch_amount={amount}, {mode})")
    if not fn_mode:
        check(len(branches_) == before, lambda: f"the caller's list of branches has grown from {before} to {len(branches_)} entries")


def rswitch(r, traced):
    n = r.randint(1, 3)
    sizes = r.choice([[1], [2], [1], [1, 1]])
    m = sum(sizes)
    fn_mode = r.random() < .45
    method = r.choice(["auto", "tree", "sequential", "tree"] + (["parallel"] if not traced and len(sizes) == 1 and n < 3 else []))
    if fn_mode:
        br = [[g for g in rgates(r, m, 4) if g[0] in ("rx", "ry", "rz", "p", "cx", "h")] or [["ry", .7, [0]]]]
        amount = r.choice([None, None, r.randint(1, 1 << n)])
    else:
        br = [rgates(r, m, r.randint(1, 2)) for _ in range(r.randint(1, 1 << n))]
        amount = None
    old = len(sizes) == 1 and r.random() < .2
    return dict(n=n, sizes=sizes, br=br, fn_mode=fn_mode, amount=amount, method=method, mode=r.choice(["plain", "plain", "invert", "control", "cinvert", "control0"]), traced=traced, aslist=method != "parallel" and not traced and r.random() < .25, old=old)


@task("switch", weight=4)
def t_switch(ctx):
    for _ in range(90 if not thorough() else 500):
        ctx.run(c_switch, **rswitch(ctx.rng, False))


@task("switch_traced", weight=4)
def t_switcht(ctx):
    for i in range(28 if not thorough() else 200):
        ctx.run(c_switch, **rswitch(ctx.rng, True))
        if i % 8 == 7:
            ctx.gc()


# ---------------------------------------------------------------- reflection, amplitude amplification

def proj_reflect(U, idx, m, phase):
    """U((1-e^{i phase})|0><0|_idx x I - I)U^dagger"""
    P = np.diag([1.0 if all(not x >> (m - 1 - i) & 1 for i in idx) else 0.0 for x in range(1 << m)])
    return U @ ((1 - cmath.exp(1j * phase)) * P - np.eye(1 << m)) @ adj(U)


def variables(shape):
    import qrisp
    out = []
    for s in shape:
        out.append(qrisp.QuantumArray(qrisp.QuantumFloat(s[0]), shape=(s[1],)) if isinstance(s, list) else qrisp.QuantumFloat(s))
    return out


def sizes_of(shape):
    return [x for s in shape for x in ([s[0]] * s[1] if isinstance(s, list) else [s])]


def bits_of(vs, shape):
    fl = flat(vs)
    return [v[i] for v, s in zip(fl, sizes_of(shape)) for i in range(s)]


@case("reflection")
def c_reflection(shape, gs, phase, idx, mode, traced, plainarg):
    import qrisp
    ss = sizes_of(shape)
    m = sum(ss)
    U = gates_matrix(gs, m) if gs is not None else np.eye(1 << m)
    qi = [i for j in (idx if idx is not None else range(len(ss))) for i in range(sum(ss[:j]), sum(ss[:j + 1]))]
    V = proj_reflect(U, qi, m, phase)
    sf = None if gs is None else (lambda *vs: run_gates(gs, bits_of(vs, shape)))

    def apply(*vs):
        qrisp.reflection(vs[0] if plainarg and len(vs) == 1 else list(vs), state_function=sf, phase=phase, reflection_indices=idx)
    realises(lambda: variables(shape), apply, V, mode, traced, f"reflection(phase={phase}, indices={idx}, {mode})")


@case("amplify")
def c_amplify(shape, gs, tags, it, idx, mode, traced, exact_phase=None):
    """k rounds of oracle followed by the reflection about the prepared state"""
    import qrisp
    ss = sizes_of(shape)
    m = sum(ss)
    U = gates_matrix(gs, m)
    qi = [i for j in (idx if idx is not None else range(len(ss))) for i in range(sum(ss[:j]), sum(ss[:j + 1]))]
    R = proj_reflect(U, qi, m, math.pi)
    O = np.eye(1 << m, dtype=complex)
    tag = {i: t for i, t in tags}
    for x in range(1 << m):
        w = format(x, f"0{m}b")
        if all(int(w[sum(ss[:i]):sum(ss[:i + 1])][::-1], 2) == t for i, t in tag.items()):
            O[x, x] = -1
    V = np.linalg.matrix_power(R @ O, it)

    def oracle(*vs):
        fl = flat(vs)
        qrisp.tag_state({fl[i]: t for i, t in tag.items()})
    realises(lambda: variables(shape), lambda *vs: qrisp.amplitude_amplification(list(vs), lambda *a: run_gates(gs, bits_of(a, shape)), oracle, iter=it, reflection_indices=idx), V, mode, traced, f"amplitude_amplification(iter={it}, indices={idx}, {mode})")


@case("tag")
def c_tag(sizes, signed, vals, phase, mode, traced):
    """phase on exactly one tuple of values"""
    import qrisp
    n = [s + int(g) for s, g in zip(sizes, signed)]
    m = sum(n)
    V = np.eye(1 << m, dtype=complex)
    pos = "".join(format(v % (1 << k), f"0{k}b")[::-1] for v, k in zip(vals, n))
    V[int(pos, 2), int(pos, 2)] = cmath.exp(1j * phase)
    realises(lambda: [qrisp.QuantumFloat(s, signed=bool(g)) for s, g in zip(sizes, signed)], lambda *vs: qrisp.tag_state({v: x for v, x in zip(vs, vals)}, phase=phase), V, mode, traced, f"tag_state(phase={phase}, {mode})")


def rshape(r, traced):
    return r.choice([[2], [1, 1], [1], [3], [2, 1]] + ([[[1, 2]], [1, [1, 2]]] if not traced else []))


@task("reflect", weight=4)
def t_reflect(ctx):
    r = ctx.rng
    for i in range(70 if not thorough() else 400):
        traced = i % 4 == 3
        sh = rshape(r, traced)
        ss = sizes_of(sh)
        m = sum(ss)
        idx = sorted(r.sample(range(len(ss)), r.randint(1, len(ss)))) if r.random() < .4 else None
        ctx.run(c_reflection, shape=sh, gs=rgates(r, m, 4) if r.random() < .8 else None, phase=r.choice([math.pi, math.pi, round(r.uniform(-3, 3), 3)]), idx=idx, mode=r.choice(["plain", "invert", "control", "cinvert"]), traced=traced, plainarg=r.random() < .5)
        if i % 20 == 19:
            ctx.gc()


@task("amplify", weight=4)
def t_amplify(ctx):
    r = ctx.rng
    for i in range(50 if not thorough() else 300):
        traced = i % 4 == 3
        sh = rshape(r, traced)
        ss = sizes_of(sh)
        m = sum(ss)
        idx = sorted(r.sample(range(len(ss)), r.randint(1, len(ss)))) if r.random() < .3 else None
        ks = r.sample(range(len(ss)), r.randint(1, len(ss)))
        ctx.run(c_amplify, shape=sh, gs=rgates(r, m, 4), tags=[[k, r.randrange(1 << ss[k])] for k in ks], it=r.choice([0, 1, 2, 3]) if not traced else r.choice([1, 2]), idx=idx, mode=r.choice(["plain", "invert", "control"]), traced=traced)
        if i % 20 == 19:
            ctx.gc()
    for i in range(40 if not thorough() else 200):
        k = r.randint(1, 3)
        sizes, signed = [r.randint(1, 2) for _ in range(k)], [int(r.random() < .3) for _ in range(k)]
        vals = [r.randrange(-(1 << s) if g else 0, 1 << s) for s, g in zip(sizes, signed)]
        ctx.run(c_tag, sizes=sizes, signed=signed, vals=vals, phase=r.choice([math.pi, round(r.uniform(-3, 3), 3)]), mode=r.choice(["plain", "invert", "control"]), traced=i % 4 == 3)


@case("grover")
def c_grover(sizes, winners, exact, traced):
    """probability of the marked states after the search"""
    import qrisp
    m = sum(sizes)
    N, M = 1 << m, len(winners)

    def oracle(vs, phase=math.pi):
        vs = vs if isinstance(vs, (list, tuple)) else [vs]
        for w in winners:
            qrisp.grover.tag_state({v: x for v, x in zip(vs, w)}, phase=phase)

    def run():
        vs = [qrisp.QuantumFloat(s) for s in sizes]
        qrisp.grover.grovers_alg(vs if len(vs) > 1 else vs[0], oracle, winner_state_amount=M, exact=exact)
        return tuple(vs)
    if traced:
        from qrisp.jasp import make_jaspr
        from vb.prog import extract
        regs, _, qc = extract(make_jaspr(run)(), ())
        reg = [q for x in regs for q in x]
    else:
        vs = run()
        qc, reg = vs[0].qs.copy(), [q for v in vs for q in v.reg]
    K = single(branches(qc, [], reg, what="grover"), "grover")[:, 0]
    p = 0
    for w in winners:
        p += abs(K[int("".join(format(x, f"0{s}b")[::-1] for x, s in zip(w, sizes)), 2)]) ** 2
    th = math.asin(math.sqrt(M / N))
    it = round(math.pi / 4 * math.sqrt(N / M))
    want = 1 if exact else math.sin((2 * it + 1) * th) ** 2
    check(abs(p - want) < 1e-4, lambda: f"marked states have probability {p:.5f}, expected {want:.5f}")


@task("grover", weight=2)
def t_grover(ctx):
    r = ctx.rng
    for i in range(16 if not thorough() else 80):
        sizes = r.choice([[2], [3], [1, 2], [4], [2, 2]])
        m = sum(sizes)
        ws = r.sample(list(itertools.product(*[range(1 << s) for s in sizes])), r.randint(1, max(1, (1 << m) // 4)))
        ctx.run(c_grover, sizes=sizes, winners=[list(w) for w in ws], exact=r.random() < .5, traced=i % 4 == 3)


# ---------------------------------------------------------------- phase estimation

@case("qpe")
def c_qpe(m, gs, prec, how, iter_spec, method, mode, traced):
    """|0>|u> -> inverse Fourier transform of sum_j |j> U^j|u>"""
    import qrisp
    U = gates_matrix(gs, m)
    N, D = 1 << prec, 1 << m
    W = np.zeros((N * D, D), dtype=complex)
    pw = [np.linalg.matrix_power(U, j) for j in range(N)]
    for k in range(N):
        a = int(format(k, f"0{prec}b")[::-1], 2)
        W[a * D:(a + 1) * D] = sum(cmath.exp(-2j * math.pi * j * k / N) * pw[j] for j in range(N)) / N

    def UF(args, iter=None):
        q = [args[i] for i in range(m)]
        if iter is None:
            run_gates(gs, q)
        elif traced:
            for _ in qrisp.jrange(iter):
                run_gates(gs, q)
        else:
            for _ in range(iter):
                run_gates(gs, q)

    def prog():
        qv = qrisp.QuantumVariable(m)
        out = []

        def body():
            kw = dict(iter_spec=iter_spec)
            if method:
                kw["ctrl_method"] = method
            if how == "target":
                t = qrisp.QuantumFloat(prec, -prec)
                out.append(t)
                qrisp.QPE(qv, UF, target=t, **kw)
            else:
                out.append(qrisp.QPE(qv, UF, precision=prec, **kw))
        if mode == "plain":
            body()
            c = []
        else:
            c = [qrisp.QuantumVariable(1)]
            t = qrisp.QuantumFloat(prec, -prec)
            out.append(t)
            with qrisp.control(c[0][0]):
                qrisp.QPE(qv, UF, target=t, iter_spec=iter_spec)
        return tuple(c + [out[0], qv])
    if traced:
        from qrisp.jasp import make_jaspr
        from vb.prog import extract
        regs, _, qc = extract(make_jaspr(prog)(), ())
    else:
        vs = prog()
        check(vs[-2].exponent == -prec and not vs[-2].signed, "result is not a fraction with the requested precision")
        qrisp.merge([v.qs for v in vs])
        qc, regs = vs[0].qs.copy(), [qubits(list(v.reg)) for v in vs]
    outs = [q for x in regs for q in x]
    ins = regs[-1] if mode == "plain" else list(regs[0]) + list(regs[-1])
    K = single(branches(qc, ins, outs, what="QPE"), "QPE")
    if mode != "plain":
        full = np.zeros((2 * N * D, 2 * D), dtype=complex)
        full[:D, :D] = np.eye(D)
        full[N * D:, D:] = W
        W = full
    close(K, W, f"QPE(precision={prec}, iter_spec={iter_spec}, {how}, {mode})", True)


@case("iqpe")
def c_iqpe(num, prec, iter_spec, flip):
    """exact binary fractions are returned with certainty; the estimate is twice the eigenphase (known finding, see iqpe_doc)"""
    got, want = iqpe(num, prec, iter_spec, flip), num / (1 << prec)
    check(min(abs(got - want), abs(got - 2 * want % 1)) < 1e-9, lambda: f"estimated phase {got}, exact phase {want}")


@case("iqpe_doc")
def c_iqpe_doc(num, prec):
    """the documented meaning of the estimate: the eigenphase as a fraction of a full turn"""
    got, want = iqpe(num, prec, False, False), num / (1 << prec)
    check(abs(got - want) < 1e-9, lambda: f"estimated phase {got}, exact phase {want}")


def iqpe(num, prec, iter_spec, flip):
    import qrisp
    from qrisp.jasp import jaspify

    def UF(args, iter=1):
        a = 2 * math.pi * num / (1 << prec)
        qrisp.p(a * iter, args[0])
        if flip:
            qrisp.rz(1.1 * iter, args[1])
            qrisp.gphase(.55 * iter, args[1])

    def f():
        qv = qrisp.QuantumFloat(2)
        qrisp.x(qv[0])
        return qrisp.IQPE(qv, UF, precision=prec, iter_spec=iter_spec)
    return float(np.asarray(jaspify(f)()))


@case("qae")
def c_qae(gs, m, good, prec):
    """amplitude estimation = phase estimation of the amplification operator on the prepared state"""
    import qrisp
    U = gates_matrix(gs, m)
    O = np.eye(1 << m, dtype=complex)
    for x in range(1 << m):
        if not x & 1 == 0:
            O[x, x] = -1
    Q = proj_reflect(U, list(range(m)), m, math.pi) @ O
    psi = U[:, 0]
    N, D = 1 << prec, 1 << m
    W = np.zeros(N * D, dtype=complex)
    pw = [np.linalg.matrix_power(Q, j) @ psi for j in range(N)]
    for k in range(N):
        a = int(format(k, f"0{prec}b")[::-1], 2)
        W[a * D:(a + 1) * D] = sum(cmath.exp(-2j * math.pi * j * k / N) * pw[j] for j in range(N)) / N
    qv = qrisp.QuantumFloat(m)
    res = qrisp.QAE([qv], lambda q: run_gates(gs, [q[i] for i in range(m)]), lambda q: qrisp.z(q[m - 1]), precision=prec)
    qrisp.merge([qv.qs, res.qs])
    K = single(branches(qv.qs.copy(), [], list(res.reg) + list(qv.reg), what="QAE"), "QAE")
    close(K, W.reshape(-1, 1), f"QAE(precision={prec})", True)


@task("qpe", weight=3)
def t_qpe(ctx):
    r = ctx.rng
    for i in range(28 if not thorough() else 150):
        m = r.randint(1, 2)
        traced = i % 4 == 3
        ctx.run(c_qpe, m=m, gs=rgates(r, m, r.randint(1, 3)), prec=r.randint(1, 3), how=r.choice(["precision", "target"]), iter_spec=r.random() < .5, method=r.choice([None, None, "gray"]) if not traced else None, mode=r.choice(["plain", "plain", "control"]), traced=traced)
    for i in range(10 if not thorough() else 60):
        prec = r.randint(1, 4)
        ctx.run(c_iqpe, num=r.randrange(1 << prec), prec=prec, iter_spec=r.random() < .5, flip=r.random() < .5)
    ctx.run(c_iqpe_doc, num=3, prec=4)
    for i in range(6 if not thorough() else 40):
        m = r.randint(1, 2)
        ctx.run(c_qae, gs=rgates(r, m, 3), m=m, good=0, prec=r.randint(1, 3))
