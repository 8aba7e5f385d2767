"""C24: block encodings and linear combinations of unitaries.

Contract of every block encoding B with reported normalisation a, ancillas and unitary U: a * (<0| x 1) U (|0> x 1) equals the matrix
obtained by evaluating the same expression on matrices. Expressions are random trees over the public constructors and combinators;
the circuit of the unitary (direct or traced) is evaluated on a maximally entangled operand, so one evaluation decides the equality
for all operand states. Reported Hermiticity of the unitary is checked on the full space."""
import contextlib
import math
import signal

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import ops
from vb.lin import branches
from vb.q import qubits
from vb.gates import gates_matrix, little, rgates, run_gates, single

ID = "C24"
LEVEL = "exploration"
RULE = "one evaluation = the full encoded block of one block encoding expression (or one post-selected distribution) compared with the matrix expression; distinct = distinct expressions and parameters"
TRUSTED = ["vb.sim evaluator", "numpy linear algebra"]
TOL = 2e-5


# ---------------------------------------------------------------- matrices of expression trees (index = integer value of the operands, first operand most significant)

def dag(M):
    return M.conj().T


def herm(M):
    return np.allclose(M, dag(M), atol=1e-9)


def arr(x):
    return np.array([[complex(*v) for v in row] for row in x])


def mat(t, n):
    """matrix of the tree on operands of the given sizes (list)"""
    k, N = t[0], 1 << sum(n)
    if k == "op" or k == "foqcs":
        return little(ops.op_matrix(t[1], sum(n)), sum(n))
    if k == "array":
        A = arr(t[1])
        return (A + dag(A)) / 2
    if k == "lcu":
        M = np.zeros((N, N), dtype=complex)
        for c, gs in zip(t[1], t[2]):
            M += ops.cplx(c) * little(gates_matrix(gs, n[0]), n[0])
        return M
    if k == "eye":
        return np.eye(N, k=t[1]).astype(complex)
    if k == "proj":
        M = np.zeros((N, N), dtype=complex)
        M[flatidx(t[1], n), flatidx(t[1] if t[2] is None or t[3] else t[2], n)] = 1
        return np.eye(N) - M if t[3] else M
    if k == "projf":
        a, b = (little(gates_matrix(g, n[0]), n[0])[:, :1] for g in (t[1], t[2]))
        return a @ dag(b)
    if k == "add":
        return mat(t[1], n) + mat(t[2], n)
    if k == "sub":
        return mat(t[1], n) - mat(t[2], n)
    if k == "neg":
        return -mat(t[1], n)
    if k in ("mul", "rmul"):
        return t[2] * mat(t[1], n)
    if k == "matmul":
        return mat(t[1], n) @ mat(t[2], n)
    if k == "dagger":
        return dag(mat(t[1], n))
    if k == "walk":
        M = mat(t[1], n)
        return (M + dag(M)) / 2
    if k == "kron":
        j = nops(t[1])
        return np.kron(mat(t[1], n[:j]), mat(t[2], n[j:]))
    raise Undecided(k)


def flatidx(v, n):
    v = v if isinstance(v, list) else [v]
    x = 0
    for a, s in zip(v, n):
        x = (x << s) + a
    return x


def nops(t):
    if t[0] == "kron":
        return nops(t[1]) + nops(t[2])
    if t[0] == "proj":
        return len(t[1]) if isinstance(t[1], list) else 1
    if t[0] in ("add", "sub", "neg", "mul", "rmul", "matmul", "dagger", "walk"):
        return nops(t[1])
    return 1


def build(t):
    """the same expression through the public interface"""
    import qrisp
    from qrisp.block_encodings import BlockEncoding as BE
    k = t[0]
    if k == "op":
        return BE.from_operator(ops.build(t[1]))
    if k == "foqcs":
        return BE.from_foqcs_lcu_operator(ops.build(t[1]))
    if k == "array":
        A = arr(t[1])
        if abs(A.imag).max() == 0:
            A = A.real
        if t[2]:
            from scipy.sparse import csr_array
            A = csr_array(A)
        return BE.from_array(A)
    if k == "lcu":
        us = [(lambda qv, gs=gs: run_gates(gs, qv)) for gs in t[2]]
        return BE.from_lcu(np.array([ops.num(c) for c in t[1]]), us)
    if k == "eye":
        return BE.from_eye(t[1])
    if k == "proj":
        f = lambda v: tuple(v) if isinstance(v, list) else v
        return BE.from_projector(f(t[1]), f(t[2]), kernel=t[3])
    if k == "projf":
        return BE.from_projector(lambda q: run_gates(t[1], q), lambda q: run_gates(t[2], q))
    if k == "add":
        return build(t[1]) + build(t[2])
    if k == "sub":
        return build(t[1]) - build(t[2])
    if k == "neg":
        return -build(t[1])
    if k == "mul":
        return build(t[1]) * t[2]
    if k == "rmul":
        return t[2] * build(t[1])
    if k == "matmul":
        return build(t[1]) @ build(t[2])
    if k == "dagger":
        return build(t[1]).dagger()
    if k == "walk":
        return build(t[1]).qubitization()
    if k == "kron":
        return build(t[1]).kron(build(t[2]))
    raise Undecided(k)


# ---------------------------------------------------------------- evaluation of the real unitary

def circuit(be, n, traced):
    """(ancilla qubits, operand qubits most significant first, circuit); be: block encoding or function creating it while tracing"""
    import qrisp

    def main():
        b = be() if callable(be) else be
        xs = [qrisp.QuantumFloat(s) for s in n]
        an = b.apply(*xs)
        return tuple(xs) + tuple(an)
    if traced:
        from qrisp.jasp import make_jaspr
        from vb.prog import extract
        regs, rest, qc = extract(make_jaspr(main)(), ())
        xs, an = regs[:len(n)], regs[len(n):]
    else:
        vs = main()
        qrisp.merge([v.qs for v in vs])
        qc = vs[0].qs.copy()
        xs, an = [qubits(list(v.reg)) for v in vs[:len(n)]], [qubits(list(v.reg)) for v in vs[len(n):]]
    return [q for a in an for q in a], [q for x in xs for q in list(x)[::-1]], qc


def block(be, n, traced, what):
    an, xs, qc = circuit(be, n, traced)
    K = single(branches(qc, xs, list(an) + list(xs), what=what), what)
    return K[:1 << sum(n)]


def agree(B, M, what, tol=TOL):
    d = np.abs(B - M)
    if not np.isfinite(d).all() or d.max() > tol * max(1, np.abs(M).max()):
        i, j = np.unravel_index(np.nan_to_num(d, nan=1e9).argmax(), d.shape)
        raise Fail(f"{what}: encoded entry ({i},{j}) is {B[i, j]:.5f}, expected {M[i, j]:.5f}")


@case("encode")
def c_encode(t, n, traced):
    be = build(t)
    check(be.num_ops == len(n), lambda: f"number of operands reported as {be.num_ops}")
    B = block(be, n, traced, str(t))
    M = mat(t, n)
    al = complex(be.alpha)
    check(abs(al.imag) < 1e-9 and abs(al.real) > np.linalg.norm(M, 2) - 1e-6, lambda: f"normalisation {al} below the norm {np.linalg.norm(M, 2)}")
    agree(al * B, M, f"{t} on {n} qubits")


@case("hermitian")
def c_hermitian(t, n, traced):
    """an encoding that reports a Hermitian unitary has one"""
    be = build(t)
    if not be.is_hermitian:
        return
    an, xs, qc = circuit(be, n, traced)
    reg = list(an) + list(xs)
    if len(reg) > 7:
        return
    K = single(branches(qc, reg, what=str(t)), str(t))
    d = np.abs(K - dag(K)).max()
    check(d < TOL, lambda: f"unitary of {t} is reported Hermitian but differs from its adjoint by {d:.4f}")


@case("cheb")
def c_cheb(t, n, k, rescale, traced):
    be = build(t)
    M = mat(t, n)
    if not herm(M):
        raise Undecided("operator is not Hermitian")
    al = float(be.alpha)
    c = be.chebyshev(k, rescale=rescale)
    B = block(c, n, traced, "chebyshev")
    T = np.polynomial.Chebyshev([0] * k + [1])
    if rescale:
        agree(complex(c.alpha) * B, fun(T, M), f"chebyshev({k}) of {t}", 1e-3)
    else:
        agree(B, fun(T, M / al), f"chebyshev({k}, rescale=False) of {t}")
        check(abs(float(c.alpha) - (al if k == 1 else 1)) < 1e-9, lambda: f"chebyshev({k}, rescale=False) reports normalisation {c.alpha}")


def fun(f, M):
    w, V = np.linalg.eigh(M)
    return V @ np.diag(f(w)) @ dag(V)


def svt(f, M, side="UV"):
    U, s, Vh = np.linalg.svd(M)
    D = np.diag(f(s))
    return {"UV": U @ D @ Vh, "VV": dag(Vh) @ D @ Vh, "VU": dag(Vh) @ D @ dag(U)}[side]


def poly(p, kind):
    p = [ops.cplx(c) for c in p]
    return np.polynomial.Polynomial(p) if kind == "Polynomial" else np.polynomial.Chebyshev(p)


def coeffs(p):
    q = np.array([ops.cplx(c) for c in p])
    return q.real if np.abs(q.imag).max() == 0 else q


def parity_part(f, par):
    s = 1 if par == "even" else -1
    return lambda x: (f(x) + s * f(-x)) / 2


@case("poly")
def c_poly(t, n, p, kind, how, rescale, traced):
    """polynomial of a Hermitian operator (eigenvalue transformation)"""
    from qrisp.gqsp import GQET, QET
    M = mat(t, n)
    if not herm(M):
        raise Undecided("operator is not Hermitian")
    be = build(t)
    q = coeffs(p)
    if how == "method":
        r = be.poly(list(q) if len(q) % 2 else q, kind=kind)
    else:
        r = (GQET if how == "GQET" else QET)(be, q, kind=kind, rescale=rescale)
    f = poly(p, kind)
    W = fun(f, M if rescale or how == "method" else M / float(be.alpha))
    agree(complex(r.alpha) * block(r, n, traced, how), W, f"{how} {kind} {p} of {t}", 2e-3)


@case("svt")
def c_svt(t, n, p, kind, how, parity, rescale, traced):
    """singular value transformation by the odd or even part of a polynomial"""
    from qrisp.gqsp import GQSVT, QSVT
    M = mat(t, n)
    be = build(t)
    q = coeffs(p)
    if how == "method":
        r = be.svt(q, kind=kind, parity=parity)
    else:
        r = (GQSVT if how == "GQSVT" else QSVT)(be, q, kind=kind, parity=parity, rescale=rescale)
    if not (rescale or how == "method"):
        M = M / float(be.alpha)
    f = parity_part(poly(p, kind), parity)
    W = svt(f, M, "VV" if parity == "even" else "VU" if how == "GQSVT" else "UV")
    agree(complex(r.alpha) * block(r, n, traced, how), W, f"{how} {kind} {p} parity={parity} of {t}", 2e-3)


@case("inv")
def c_inv(t, n, method, eps, traced):
    M = mat(t, n)
    be = build(t)
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] < 1e-3:
        raise Undecided("singular")
    if method == "QET" and not herm(M):
        raise Undecided("operator is not Hermitian")
    kappa = abs(float(be.alpha)) / s[-1] * 1.01
    if kappa > 12:
        raise Undecided("badly conditioned")
    r = be.inv(eps, kappa, method=method)
    W = np.linalg.inv(M)
    B = complex(r.alpha) * block(r, n, traced, "inv")
    e = np.linalg.norm(B - W, 2)
    check(e < 1.5 * eps * max(1, 1 / abs(float(be.alpha))) + 2e-3, lambda: f"inverse of {t} by {method}: error {e:.4f}, requested {eps}")


@case("pinv")
def c_pinv(t, n, theta, eps, traced):
    M = mat(t, n)
    be = build(t)
    al = abs(float(be.alpha))
    s = np.linalg.svd(M, compute_uv=False) / al
    if any(theta * .3 < x < theta * 1.02 for x in s):
        raise Undecided("a singular value lies in the transition region")
    r = be.pseudo_inv(eps, theta)
    W = svt(lambda x: np.array([1 / v if v >= theta * al else 0 for v in x]), M, "VU")
    e = np.linalg.norm(complex(r.alpha) * block(r, n, traced, "pseudo_inv") - W, 2)
    check(e < 6 * eps / min(1, al) / theta, lambda: f"pseudo inverse of {t} with threshold {theta}: error {e:.4f}, requested {eps}")


@case("sim")
def c_sim(t, n, time, order, traced):
    """truncated Jacobi-Anger expansion of the evolution"""
    from scipy.special import jv
    M = mat(t, n)
    if not herm(M):
        raise Undecided("operator is not Hermitian")
    be = build(t)
    al = float(be.alpha)
    r = be.sim(t=time, N=order)

    def f(w):
        th = np.arccos(np.clip(w / al, -1, 1))
        return jv(0, time * al) + 2 * sum((-1j) ** j * jv(j, time * al) * np.cos(j * th) for j in range(1, order + 1))
    agree(complex(r.alpha) * block(r, n, traced, "sim"), fun(f, M), f"sim(t={time}, N={order}) of {t}", 2e-3)


@contextlib.contextmanager
def limit(seconds):
    """a repetition that never succeeds has no answer here (the encoded block itself is decided elsewhere)"""
    def stop(*_):
        raise Undecided("no success within the time limit")
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@case("rus")
def c_rus(t, n, gs, traced_be):
    """repeat until success returns the normalised image of the prepared state"""
    import qrisp
    from qrisp.jasp import terminal_sampling
    M = mat(t, n)
    psi = little(gates_matrix(gs, n[0]), n[0])[:, 0]
    v = M @ psi
    w = np.abs(v) ** 2
    if w.sum() / float(build(t).alpha) ** 2 < .05:
        raise Undecided("success probability too small")

    def prep():
        q = qrisp.QuantumFloat(n[0])
        run_gates(gs, q)
        return q
    be = None if traced_be else build(t)

    @terminal_sampling
    def main():
        return (be or build(t)).apply_rus(prep)()
    with limit(60):
        res = main()
    got = np.zeros(len(w))
    for x, pr in res.items():
        got[int(x)] += pr
    d = np.abs(got - w / w.sum()).max()
    check(d < 1e-4, lambda: f"post-selected distribution {got} differs from {w / w.sum()}")


@case("expectation")
def c_expect(t, n, gs):
    """Hadamard test estimate without sampling noise: real part of the expectation value"""
    import qrisp
    M = mat(t, n)
    psi = little(gates_matrix(gs, n[0]), n[0])[:, 0]
    want = np.vdot(psi, M @ psi).real

    def prep():
        q = qrisp.QuantumFloat(n[0])
        run_gates(gs, q)
        return q
    got = float(build(t).expectation_value(prep, shots=None)())
    check(abs(got - want) < 1e-4 * max(1, abs(float(build(t).alpha))), lambda: f"expectation value {got}, expected {want}")


@case("lcu")
def c_lcu(ws, us, n, gs, fn_mode, oaa, post):
    """linear combination of unitaries with the given preparation weights"""
    import qrisp
    from qrisp.jasp import make_jaspr, terminal_sampling
    m = len(us)
    L = max(1, (m - 1).bit_length())
    a = np.zeros(1 << L)
    a[:m] = ws
    a = np.sqrt(a / a.sum())
    A = sum(a[i] ** 2 * little(gates_matrix(us[i], n), n) for i in range(m))

    def operand_prep():
        q = qrisp.QuantumFloat(n)
        run_gates(gs, q)
        return q

    def state_prep(c):
        qrisp.prepare(c, a)
    if fn_mode:
        def sel(i, q):
            for j in range(m):
                with qrisp.control(i == j):
                    run_gates(us[j], q)
        args = (operand_prep, state_prep, sel, m)
    else:
        args = (operand_prep, state_prep, [lambda q, g=g: run_gates(g, q) for g in us])
    psi = little(gates_matrix(gs, n), n)[:, 0]
    v = A @ psi
    if np.linalg.norm(v) ** 2 < .03:
        raise Undecided("success probability too small")
    if post:
        @terminal_sampling
        def main():
            return qrisp.LCU(*args)
        with limit(60):
            res = main()
        w = np.abs(v) ** 2
        got = np.zeros(1 << n)
        for x, pr in res.items():
            got[int(x)] += pr
        check(np.abs(got - w / w.sum()).max() < 1e-4, lambda: f"distribution {got}, expected {w / w.sum()}")
        return
    inner = need("qrisp.alg_primitives.lcu", "inner_LCU")
    from vb.prog import extract
    regs, rest, qc = extract(make_jaspr(lambda: inner(*args, **({"oaa_iter": oaa} if oaa else {})))(), ())
    K = single(branches(qc, [], list(regs[0]) + list(regs[1])[::-1], what="LCU"), "LCU")[:1 << n, 0]
    if oaa:
        p0 = np.linalg.norm(v) ** 2
        if np.abs(A @ dag(A) - A.trace() * dag(A).trace() / A.shape[0] ** 2 * np.eye(len(A))).max() > 1e-9:
            raise Undecided("not proportional to a unitary")
        th = math.asin(math.sqrt(p0))
        v = v / np.linalg.norm(v) * math.sin((2 * oaa + 1) * th)
    o = np.vdot(v, K)
    agree((K * abs(o) / o if abs(o) > 1e-9 else K).reshape(-1, 1), v.reshape(-1, 1), "LCU", 1e-4)


# ---------------------------------------------------------------- generators

def c2(z):
    return [round(float(z.real), 3), round(float(z.imag), 3)]


def rop(r, n, hermitian=False, real=True):
    ts = ops.random_terms(r, n, r.randint(1, 3), factors=("X", "Y", "Z") if hermitian or r.random() < .6 else ("X", "Y", "Z", "P0", "P1"), real=True, ident=.15)
    return ["op", ts]


def rarray(r, n, hermitian):
    N = 1 << n
    A = np.array([[complex(round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2)) for _ in range(N)] for _ in range(N)])
    if hermitian:
        A = (A + dag(A)) / 2
    if r.random() < .3:
        A = A.real.astype(complex)
    if abs(A).max() < .05:
        A = A + np.eye(N)
    return ["array", [[[float(v.real), float(v.imag)] for v in row] for row in A], r.random() < .3]


def rlcu(r, n, hermitian):
    m = r.randint(1, 4)
    if hermitian:
        us = [[[r.choice("xyz"), 0, [q]] for q in range(n) if r.random() < .7] for _ in range(m)]
        cs = [round(r.uniform(-1, 1), 2) or .5 for _ in range(m)]
    else:
        us = [rgates(r, n, r.randint(0, 3)) for _ in range(m)]
        cs = [r.choice([round(r.uniform(.1, 1), 2), round(r.uniform(.1, 1), 2), round(r.uniform(-1, -.1), 2), [round(r.uniform(-1, 1), 2), round(r.uniform(.1, 1), 2)]]) for _ in range(m)]
        if m == 1:
            cs = [r.choice([1.0, .5, -.7])]
    return ["lcu", cs, us]


def leaf(r, n, hermitian=False):
    k = r.choice(["op", "op", "array", "lcu", "lcu", "eye", "proj", "proj", "projf"] if not hermitian else ["op", "op", "array", "lcu", "proj"])
    N = 1 << n
    if k == "op":
        return rop(r, n, hermitian)
    if k == "array":
        return rarray(r, n, hermitian)
    if k == "lcu":
        return rlcu(r, n, hermitian)
    if k == "eye":
        return ["eye", r.randint(-N + 1, N - 1)]
    if k == "projf":
        return ["projf", rgates(r, n, 2), rgates(r, n, 2)]
    if hermitian:
        return ["proj", r.randrange(N), None, r.random() < .5]
    return ["proj", r.randrange(N), r.choice([None, r.randrange(N)]), r.random() < .3]


def tree(r, n, depth, hermitian=False):
    if depth == 0:
        return leaf(r, n, hermitian)
    k = r.choice(["add", "sub", "neg", "mul", "rmul", "dagger"] + ([] if hermitian else ["matmul", "matmul"]))
    a = tree(r, n, depth - 1, hermitian)
    if k in ("add", "sub", "matmul"):
        return [k, a, tree(r, n, r.randint(0, depth - 1), hermitian)]
    if k in ("mul", "rmul"):
        return [k, a, r.choice([2.0, -1.5, .3, -1.0, 3, -2])]
    return [k, a]


@task("leaf", weight=2)
def t_leaf(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 400):
        n = r.randint(1, 3 if i % 4 == 0 else 2)
        ctx.run(c_encode, t=leaf(r, n), n=[n], traced=i % 3 == 2)
    for i in range(12 if not thorough() else 60):
        n = [r.randint(1, 2) for _ in range(2)]
        v = [[r.randrange(1 << s) for s in n] for _ in range(2)]
        ctx.run(c_encode, t=["proj", v[0], r.choice([None, v[1]]), r.random() < .3], n=n, traced=i % 3 == 2)


def arith(ctx, count, traced):
    r = ctx.rng
    for i in range(count):
        n = r.randint(1, 2)
        d = r.choice([1, 1, 2])
        t = tree(r, n, d)
        ns = [n]
        if r.random() < .2:
            m = r.randint(1, 2)
            t, ns = ["kron", t, leaf(r, m)], [n, m]
        ctx.run(c_encode, t=t, n=ns, traced=traced)
        if traced and i % 8 == 7:
            ctx.gc()


@task("arith", weight=3)
def t_arith(ctx):
    arith(ctx, 60 if not thorough() else 400, False)


@task("arith_traced", weight=4)
def t_aritht(ctx):
    arith(ctx, 20 if not thorough() else 150, True)


@task("hermitian", weight=3)
def t_herm(ctx):
    r = ctx.rng
    for i in range(40 if not thorough() else 250):
        n = r.randint(1, 2)
        t = tree(r, n, r.choice([0, 0, 1, 1]), r.random() < .7)
        ctx.run(c_hermitian, t=t, n=[n], traced=i % 5 == 4)
    for i in range(16 if not thorough() else 100):
        n = r.randint(1, 2)
        t = ["walk", tree(r, n, r.choice([0, 0, 1]), True)]
        if r.random() < .3:
            t = ["walk", t]
        ctx.run(c_encode, t=t, n=[n], traced=i % 5 == 4)
        ctx.run(c_hermitian, t=t, n=[n], traced=i % 5 == 4)
    for i in range(30 if not thorough() else 150):
        n = [1, r.choice([1, 1, 2])]
        t = ["kron"] + [tree(r, m, 1 if r.random() < .3 else 0, r.random() < .7) for m in n]
        ctx.run(c_hermitian, t=t, n=n, traced=i % 5 == 4)


@task("foqcs", weight=3)
def t_foqcs(ctx):
    r = ctx.rng
    for i in range(10 if not thorough() else 80):
        n = r.randint(2, 3)
        terms = []
        if i % 2:
            for p in "XYZ":
                g, J = (round(r.uniform(-1, 1), 2) if r.random() < .7 else 0 for _ in range(2))
                terms += [[g, {str(q): p}] for q in range(n) if g]
                terms += [[J, {str(q): p, str(q + 1): p}] for q in range(n - 1) if J]
        else:
            for p in "XYZ":
                for q in range(n):
                    if r.random() < .5:
                        terms.append([round(r.uniform(-1, 1), 2), {str(q): p}])
                    for q2 in range(q + 1, n):
                        if r.random() < .4:
                            terms.append([round(r.uniform(-1, 1), 2), {str(q): p, str(q2): p}])
        terms = [x for x in terms if x[0]]
        if not any(str(n - 1) in fd for _, fd in terms):
            terms.append([.5, {str(n - 1): "Z"}])
        ctx.run(c_encode, t=["foqcs", terms], n=[n], traced=i % 5 == 4)


def rpoly(r, deg, par, real):
    p = []
    for j in range(deg + 1):
        c = round(r.uniform(-1, 1), 2) or .5
        if par is not None and j % 2 != par:
            c = 0.0
        elif not real and r.random() < .5:
            c = [c, round(r.uniform(-1, 1), 2)]
        p.append(c)
    return p


@task("cheb", weight=3)
def t_cheb(ctx):
    r = ctx.rng
    for i in range(24 if not thorough() else 150):
        n = r.randint(1, 2)
        ctx.run(c_cheb, t=tree(r, n, r.choice([0, 0, 1]), True), n=[n], k=r.randint(0, 4), rescale=i % 3 == 0, traced=i % 6 == 5)


@task("poly", weight=4)
def t_poly(ctx):
    r = ctx.rng
    for i in range(24 if not thorough() else 150):
        n = r.randint(1, 2)
        how = r.choice(["method", "GQET", "QET"])
        deg = r.randint(1, 4)
        p = rpoly(r, deg, deg % 2 if how == "QET" else None, how == "QET")
        ctx.run(c_poly, t=tree(r, n, r.choice([0, 0, 1]), True), n=[n], p=p, kind=r.choice(["Polynomial", "Chebyshev"]), how=how, rescale=r.random() < .7, traced=i % 6 == 5)
    for i in range(6 if not thorough() else 40):
        p = rpoly(r, 2, None, False)
        t = ["kron"] + [tree(r, 1, r.choice([0, 0, 1]), True) for _ in range(2)]
        ctx.run(c_poly, t=t, n=[1, 1], p=p, kind="Polynomial", how=r.choice(["method", "GQET"]), rescale=True, traced=False)


@task("svt", weight=4)
def t_svt(ctx):
    r = ctx.rng
    for i in range(24 if not thorough() else 150):
        n = r.randint(1, 2)
        how = r.choice(["method", "GQSVT", "QSVT"])
        deg = r.randint(1, 4)
        par = r.choice(["odd", "even"])
        p = rpoly(r, deg, None if r.random() < .5 else deg % 2, True)
        if deg % 2:
            par = r.choice(["odd", "odd", par])
        if par == "even" and all(c == 0 for c in p[::2]) or par == "odd" and all(c == 0 for c in p[1::2]):
            continue
        ctx.run(c_svt, t=tree(r, n, r.choice([0, 0, 1]), False), n=[n], p=p, kind=r.choice(["Polynomial", "Chebyshev"]), how=how, parity=par, rescale=r.random() < .7, traced=i % 6 == 5)


def well(r, n, hermitian):
    """well conditioned operator"""
    N = 1 << n
    A = np.array([[complex(round(r.uniform(-.3, .3), 2), round(r.uniform(-.3, .3), 2)) for _ in range(N)] for _ in range(N)])
    A = (A + dag(A)) / 2 + np.diag([r.choice([1, -1]) for _ in range(N)])
    if not hermitian:
        return ["lcu", [.7, c2(complex(r.uniform(-.2, .2), r.uniform(-.2, .2)))], [rgates(r, n, 3), rgates(r, n, 2)]]
    return ["array", [[[float(v.real), float(v.imag)] for v in row] for row in A], False]


@task("inv", weight=4)
def t_inv(ctx):
    r = ctx.rng
    for i in range(9 if not thorough() else 60):
        n = r.randint(1, 2) if i % 3 == 0 else 1
        method = ["QSVT", "QET", "GQSVT"][i % 3]
        ctx.run(c_inv, t=well(r, n, method == "QET"), n=[n], method=method, eps=r.choice([.1, .05]), traced=False)
    for i in range(4 if not thorough() else 20):
        ctx.run(c_inv, t=r.choice([["op", [[r.choice([2.0, -1.5]), {"0": r.choice("XYZ")}]]], ["lcu", [r.choice([1.0, .5, -.7])], [rgates(r, 1, 3)]]]), n=[1], method="QSVT", eps=.1, traced=i % 2 == 1)


@task("pinv", weight=4)
def t_pinv(ctx):
    r = ctx.rng
    for i in range(5 if not thorough() else 30):
        ctx.run(c_pinv, t=well(r, 1, i % 2 == 0) if i % 2 == 0 else ["projf", rgates(r, 1, 3), rgates(r, 1, 3)], n=[1], theta=r.choice([.3, .4]), eps=.05, traced=False)


@task("sim", weight=3)
def t_sim(ctx):
    r = ctx.rng
    for i in range(14 if not thorough() else 80):
        n = r.randint(1, 2)
        ctx.run(c_sim, t=tree(r, n, r.choice([0, 0, 1]), True), n=[n], time=round(r.uniform(-1, 1), 2), order=r.randint(1, 4), traced=i % 6 == 5)


@task("rus", weight=4)
def t_rus(ctx):
    r = ctx.rng
    for i in range(10 if not thorough() else 60):
        n = r.randint(1, 2)
        ctx.run(c_rus, t=tree(r, n, r.choice([0, 1])), n=[n], gs=rgates(r, n, 3), traced_be=i % 2 == 1)
    for i in range(10 if not thorough() else 60):
        n = r.randint(1, 2)
        ctx.run(c_expect, t=tree(r, n, r.choice([0, 1])), n=[n], gs=rgates(r, n, 3))


@task("lcu", weight=4)
def t_lcu(ctx):
    r = ctx.rng
    for i in range(16 if not thorough() else 100):
        n, m = r.randint(1, 2), r.randint(2, 4)
        us = [rgates(r, n, 2) for _ in range(m)]
        oaa = 0
        if i % 4 == 3:
            oaa = r.randint(1, 2)
            # 1 and a rotation generator: proportional to a unitary
            us, m = [[], [["gphase", math.pi / 2, [0]], [r.choice("xyz"), 0, [0]]]], 2
        ctx.run(c_lcu, ws=[round(r.uniform(.1, 1), 2) for _ in range(m)], us=us, n=n, gs=rgates(r, n, 3), fn_mode=r.random() < .4, oaa=oaa, post=i % 4 == 0)
