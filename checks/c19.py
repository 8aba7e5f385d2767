"""C19: Hamiltonian simulation and observable measurement.

Contract of a simulation with N steps of a product formula over pieces h_j (Pauli strings): the implemented unitary differs from
exp(-i t H) by at most N t'^2/2 sum_{i<j} |[h_i, h_j]| (first order, t' = t/N) resp. N t'^3/12 sum |[h_i,[h_j,h_k]]| (second order);
for mutually commuting sums the bound is zero, i.e. the evolution is exact. Controlled evolutions are compared including the phase."""
import itertools
import math
import random

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import ops as O
from vb.lin import branches, spread
from vb.q import qubits

ID = "C19"
LEVEL = "exploration"
RULE = "one evaluation = one evolution / diagonalisation / expectation value of a generated operator compared with dense matrices; distinct = distinct parameters"
TRUSTED = ["vb.sim evaluator", "vb.ops matrix semantics", "numpy/scipy linear algebra", "vc.trig normal form", "published product formula error bounds"]
ASSUMPTIONS = ["Trotter error bounds (first order: sum of commutators; second order: sum of nested commutators) are the standard published ones"]
MIN_OBLIGATIONS = 20
PAULIS = {}


def paulis(n):
    if n not in PAULIS:
        PAULIS[n] = [(w, O.term_matrix(dict(enumerate(w)), n)) for w in itertools.product("IXYZ", repeat=n)]
    return PAULIS[n]


def herm(M):
    return (M + M.conj().T) / 2


def pieces(mats, n):
    """Pauli strings of every summand separately: {word: sum of |coefficients|} - the finest decomposition any product formula may use"""
    out = {}
    for M in mats:
        for w, P in paulis(n):
            c = np.vdot(P, M).real / (1 << n)
            if abs(c) > 1e-9:
                out[w] = out.get(w, 0) + abs(c)
    return out


def anti(a, b):
    return sum(1 for x, y in zip(a, b) if x != "I" and y != "I" and x != y) % 2


def bound(pc, dt, order):
    ws = list(pc)
    if order == 1:
        return dt * dt / 2 * sum(2 * pc[a] * pc[b] for a, b in itertools.combinations(ws, 2) if anti(a, b))
    s = 0
    for a in ws:
        for b, c in itertools.permutations(ws, 2):
            if anti(b, c):
                p = [x if y == "I" else y if x == "I" else "I" if x == y else "?" for x, y in zip(b, c)]
                # [b,c] ~ product string; a anticommutes with it iff it anticommutes with exactly one of them
                if (anti(a, b) + anti(a, c)) % 2:
                    s += 4 * pc[a] * pc[b] * pc[c]
    return abs(dt) ** 3 / 12 * s


def expm(M):
    from scipy.linalg import expm as e
    return e(M)


def evolve(U, n, t, kw, mode, what):
    """circuit of the evolution on fresh variables -> (list of branch matrices, number of control qubits)"""
    from qrisp import QuantumBool, QuantumVariable, control, invert, merge
    qv = QuantumVariable(n)
    k = {"plain": 0, "invert": 0, "twice": 0}.get(mode, 1 if mode in ("control", "control0", "cinvert") else 2)
    cs = [QuantumBool() for _ in range(k)]
    merge([qv] + cs)
    run = lambda: U(qv, t=t, **kw)
    if mode == "plain":
        run()
    elif mode == "twice":
        run()
        run()
    elif mode == "invert":
        with invert():
            run()
    elif mode == "control":
        with control(cs[0]):
            run()
    elif mode == "control0":
        with control(cs[0], ctrl_state=0):
            run()
    elif mode == "control2":
        with control(cs):
            run()
    elif mode == "nested":
        with control(cs[0]):
            with control(cs[1]):
                run()
    elif mode == "cinvert":
        with control(cs[0]):
            with invert():
                run()
    qc = qv.qs.copy() if hasattr(qv.qs, "copy") else qv.qs
    return branches(qc, qubits(cs + [qv]), what=what)


def target(V, mode):
    d = len(V)
    if mode == "plain":
        return V
    if mode == "twice":
        return V @ V
    if mode == "invert":
        return V.conj().T
    if mode == "cinvert":
        V = V.conj().T
    k = 1 if mode in ("control", "control0", "cinvert") else 2
    W = np.eye(d << k, dtype=complex)
    o = 0 if mode == "control0" else (d << k) - d
    W[o:o + d, o:o + d] = V
    return W


def compare(Ks, V, eps, what):
    for K in Ks:
        e = spread(K, V)
        check(e < eps, lambda: f"{what}: implemented unitary deviates by {e:.3g} (allowed {eps:.3g})")


def free(mats, n):
    """matrix and decomposition of a sum"""
    H = sum(mats) if mats else np.zeros((1 << n, 1 << n), dtype=complex)
    return H, pieces(mats, n)


@case("trotter")
def c_trot(terms, n, t, kw, order=1, method="commuting_qw", forward=True, mode="plain", sym=False):
    import sympy
    H = O.build(terms)
    M, pc = free([herm(O.op_matrix([x], n)) for x in terms], n)
    what = f"evolution of {H} for t={t} ({kw}, order {order}, {method}, forward={forward}, {mode})"
    snap = dict(H.terms_dict)
    U = H.trotterization(order=order, method=method, forward_evolution=forward)
    check(snap == H.terms_dict, f"{what}: operator changed")
    steps, it = kw.get("steps", 1), kw.get("iter", 1)
    eps = it * steps * bound(pc, t / steps, order) * (2 if mode == "twice" else 1) * 1.0001 + 2e-5
    V = expm(-1j * t * it * (1 if forward else -1) * M)
    if eps > 1.2:
        raise Undecided("bound not meaningful")
    if sym:
        s = sympy.Symbol("t")
        from qrisp import QuantumVariable
        qv = QuantumVariable(n)
        U(qv, t=s, **kw)
        Ks = branches(qv.qs.copy().bind_parameters({s: t}), qubits(qv), what=what)
    else:
        Ks = evolve(U, n, t, kw, mode, what)
    compare(Ks, target(V, mode), eps, what)


@case("trotter_traced")
def c_trj(terms, n, t, kw, order=1, method="commuting_qw", forward=True, ctl=False, dyn=False):
    from qrisp import QuantumBool, QuantumVariable, control
    from vb.prog import extract
    from qrisp.jasp import make_jaspr
    H = O.build(terms)
    M, pc = free([herm(O.op_matrix([x], n)) for x in terms], n)
    what = f"traced evolution of {H} for t={t} ({kw}, order {order}, {method}, forward={forward}{', controlled' if ctl else ''})"
    U = H.trotterization(order=order, method=method, forward_evolution=forward)

    def main(tt, st, it):
        qv = QuantumVariable(n)
        c = QuantumBool()
        k = dict(steps=st, iter=it) if dyn else kw
        if ctl:
            with control(c[0]):
                U(qv, t=tt, **k)
        else:
            U(qv, t=tt, **k)
        return c, qv
    regs, rest, qc = extract(make_jaspr(main)(1., 1, 1), (float(t), kw.get("steps", 1), kw.get("iter", 1)))
    steps, it = kw.get("steps", 1), kw.get("iter", 1)
    eps = it * steps * bound(pc, t / steps, order) * 1.0001 + 2e-5
    V = expm(-1j * t * it * (1 if forward else -1) * M)
    W = target(V, "control") if ctl else np.kron(np.eye(2), V)
    compare(branches(qc, regs[0] + regs[1], what=what), W, eps, what)


@case("simulate")
def c_sim(word, n, t, mode="plain"):
    """evolution of one hermitised term"""
    T = next(iter(O.build([[1, word]]).terms_dict))
    M = O.op_matrix([[1, word]], n)
    what = f"evolution of the single term {word} for {t} ({mode})"
    Ks = evolve(lambda qv, t: T.simulate(t, qv), n, t, {}, mode, what)
    compare(Ks, target(expm(-1j * t * herm(M)), mode), 2e-5, what)


@case("basis")
def c_basis(terms, n, method):
    """the returned diagonal operator is the operator in the new basis"""
    from qrisp import QuantumVariable
    H = O.build(terms).hermitize().eliminate_ladder_conjugates()
    M = herm(O.op_matrix(terms, n))
    what = f"change of basis of {H} ({method})"
    qv = QuantumVariable(n)
    D = H.change_of_basis(qv, method=method)
    for T in D.terms_dict:
        check(set(T.factor_dict.values()) <= {"Z", "P0", "P1"}, lambda: f"{what}: result {D} is not diagonal")
    for V in branches(qv.qs.copy(), qubits(qv), what=what):
        V = V * (math.sqrt(len(V)) / np.linalg.norm(V))
        d = np.max(np.abs(V @ M @ V.conj().T - O.read(D, n)))
        check(d < 1e-6, lambda: f"{what}: operator in the new basis deviates from the returned diagonal operator {D} by {d:.3g}")


def prep(seed, n, sym=False):
    """state preparation on the first n qubits of a variable + its state vector (first qubit most significant)"""
    from vb import circ
    from vb.sim import Sparse
    r = random.Random(seed)
    gates = []
    for q in range(n):
        gates.append(("u3", q, r.uniform(0, 3), r.uniform(-3, 3), r.uniform(-3, 3)))
    for _ in range(n if n > 1 else 0):
        a, b = r.sample(range(n), 2)
        gates.append(("cx", a, b))
        gates.append(("ry", b, r.uniform(-3, 3)))

    def f(qv, shift=0):
        from qrisp import cx, ry, u3
        for g in gates:
            if g[0] == "u3":
                u3(g[2], g[3], g[4], qv[g[1]])
            elif g[0] == "cx":
                cx(qv[g[1]], qv[g[2]])
            else:
                ry(g[2] + shift, qv[g[1]])
    def vec(shift=0):
        v = np.zeros(1 << n, dtype=complex)
        v[0] = 1
        from vb.sim import u3
        for g in gates:
            if g[0] == "cx":
                w = v.copy()
                for k in range(1 << n):
                    if k >> (n - 1 - g[1]) & 1:
                        w[k ^ 1 << (n - 1 - g[2])] = v[k]
                v = w
            else:
                m = np.array(u3(*g[2:]) if g[0] == "u3" else u3(g[2] + shift, 0, 0))
                A = np.kron(np.kron(np.eye(1 << g[1]), m), np.eye(1 << (n - 1 - g[1])))
                v = A @ v
        return v
    return f, vec


class Exact:
    """duck-typed backend: exact outcome probabilities (own evaluator), keys as strings of the measured bits"""

    def run(self, qc, shots=None, token=""):
        from vb.sim import distribution
        check(shots is None or shots == int(shots) and shots >= 0, "non-integer number of shots requested")
        d = distribution(qc)
        m = len(qc.clbits)
        out = {}
        for k, v in d.items():
            s = "".join(map(str, reversed(k)))
            out[s] = out.get(s, 0) + v
        return out


@case("measure")
def c_meas(terms, n, seed_, method="commuting_qw", variant="plain", extra=0):
    import sympy
    from qrisp import QuantumVariable
    H = O.build(terms)
    M = herm(O.op_matrix(terms, n))
    f, vec = prep(seed_, n)
    what = f"expectation value of {H} ({method}, {variant}, state {seed_})"
    kw = dict(diagonalisation_method=method, backend=Exact())
    v = vec(.37 if variant in ("symbol", "args", "precompiled") else 0)
    th = sympy.Symbol("th")

    def main(*args):
        qv = QuantumVariable(n + extra)
        f(qv, th if variant in ("symbol", "precompiled") else args[0] if args else 0)
        return qv
    if variant == "symbol":
        r = H.expectation_value(main, subs_dic={th: .37}, **kw)()
    elif variant == "args":
        r = H.expectation_value(main, **kw)(.37)
    elif variant == "nocompile":
        r = H.expectation_value(main, compile=False, **kw)()
    elif variant == "precompiled":
        qv = main()
        qc = qv.qs.compile()
        r = H.expectation_value(main, subs_dic={th: .37}, precompiled_qc=qc, **kw)()
    elif variant == "precise":
        r = H.expectation_value(main, precision=.003, **kw)()
    elif variant == "repeat":
        E = H.expectation_value(main, **kw)
        E()
        r = E()
    else:
        r = H.expectation_value(main, **kw)()
    w = (v.conj() @ M @ v).real
    check(abs(complex(r) - w) < 1e-4 * (1 + abs(w)), lambda: f"{what}: {r} instead of {w}")


@case("measure_traced")
def c_measj(terms, n, seed_, method="commuting_qw", precision=.03):
    from qrisp import QuantumVariable
    from qrisp.jasp import jaspify
    H = O.build(terms)
    M = herm(O.op_matrix(terms, n))
    f, vec = prep(seed_, n)
    v = vec()
    what = f"traced expectation value of {H} ({method}, state {seed_})"

    def main():
        qv = QuantumVariable(n)
        f(qv)
        return qv

    @jaspify(terminal_sampling=True)
    def run():
        return H.expectation_value(main, precision=precision, diagonalisation_method=method)()
    r = complex(run())
    w = (v.conj() @ M @ v).real
    tol = 6 * precision * math.sqrt(1.5 * max(1, len(terms)) * 2) + 1e-3
    check(abs(r - w) < tol, lambda: f"{what}: {r} instead of {w} (allowed statistical deviation {tol:.3g})")


@case("unitaries")
def c_unis(terms, n):
    """linear combination of unitaries form"""
    from qrisp import QuantumBool, QuantumVariable, control, merge
    H = O.build(terms)
    M = herm(O.op_matrix(terms, n))
    us, cs = H.unitaries()
    check(len(us) == len(cs) and all(c >= 0 for c in cs), f"unitaries of {H}: coefficients {cs}")
    S = np.zeros_like(M)
    for u, c in zip(us, cs):
        qv, b = QuantumVariable(n), QuantumBool()
        merge(qv, b)
        with control(b):
            u(qv)
        for K in branches(qv.qs.copy(), qubits([b, qv])):
            K = K / K[0, 0]
            S = S + c * K[1 << n:, 1 << n:]
    d = np.max(np.abs(S - M))
    check(d < 1e-6, lambda: f"unitaries of {H}: linear combination deviates by {d:.3g}")


@case("qdrift")
def c_qd(terms, n, t, samples, seed_=7, forward=True, it=1):
    """mutually commuting terms: the sampled product must be a product of `samples` elementary evolutions of the documented length"""
    from qrisp import QuantumVariable
    from qrisp.jasp import make_jaspr
    from vb.prog import extract
    H = O.build(terms)
    what = f"randomised evolution of {H} (t={t}, {samples} samples, iter {it}, forward={forward})"
    U = H.qdrift(forward_evolution=forward)

    def main(tt):
        qv = QuantumVariable(n)
        U(qv, t=tt, samples=samples, seed=seed_, iter=it)
        return qv
    if len(terms) > 2:
        raise Undecided("circuit extraction does not support more than two branches")
    regs, rest, qc = extract(make_jaspr(main)(1.), (float(t),))
    K, = branches(qc, regs[0], what=what)
    lam = sum(abs(c) for c, _ in terms)
    tau = lam * t / samples * (1 if forward else -1)
    ms = [O.op_matrix([[1 if c > 0 else -1, w]], n) for c, w in terms]
    best = 9
    for cnt in itertools.product(range(samples * it + 1), repeat=len(ms) - 1):
        if sum(cnt) > samples * it:
            continue
        cnt = cnt + (samples * it - sum(cnt),)
        V = expm(-1j * tau * sum(k * m for k, m in zip(cnt, ms)))
        e = spread(K, V)
        if e < best:
            best, arg = e, cnt
    check(best < 1e-4, lambda: f"{what}: not a product of {samples * it} elementary evolutions of the documented length (closest deviates by {best:.3g})")
    if samples * it >= 30:
        for k, (c, _) in zip(arg, terms):
            p = abs(c) / lam
            N = samples * it
            check(abs(k - N * p) < 6 * math.sqrt(N * p * (1 - p)) + 1, lambda: f"{what}: term frequencies {arg}")


# ------------------------------------------------------------------ fermions
def ferm(terms, n):
    """terms: [coeff, [[index, dagger], ...]] product left to right; (operator object, list of hermitised matrices)"""
    from qrisp.operators import FermionicOperator, a, c
    As = O.fermi(n)
    H, mats = FermionicOperator({}), []
    for co, lad in terms:
        t, m = 1, np.eye(1 << n, dtype=complex)
        for i, d in lad:
            t = t * (c(i) if d else a(i))
            m = m @ (As[i].conj().T if d else As[i])
        z = O.num(co)
        H = H + z * t
        mats.append(herm(z * m))
    return H, mats


@case("fermionic")
def c_ferm(terms, n, t, kw, forward=True, mode="plain"):
    H, mats = ferm(terms, n)
    M, pc = free(mats, n)
    what = f"evolution of {H} for t={t} ({kw}, forward={forward}, {mode})"
    U = H.trotterization(forward_evolution=forward)
    steps, it = kw.get("steps", 1), kw.get("iter", 1)
    eps = it * steps * bound(pc, t / steps, 1) * (2 if mode == "twice" else 1) * 1.0001 + 2e-5
    if eps > 1.2:
        raise Undecided("bound not meaningful")
    V = expm(-1j * t * it * (1 if forward else -1) * M)
    compare(evolve(U, n, t, kw, mode, what), target(V, mode), eps, what)


@case("fermionic_traced")
def c_fermj(terms, n, t, kw, forward=True):
    from qrisp import QuantumVariable
    from qrisp.jasp import make_jaspr
    from vb.prog import extract
    H, mats = ferm(terms, n)
    M, pc = free(mats, n)
    what = f"traced evolution of {H} for t={t} ({kw}, forward={forward})"
    U = H.trotterization(forward_evolution=forward)

    def main(tt):
        qv = QuantumVariable(n)
        U(qv, t=tt, **kw)
        return qv
    regs, rest, qc = extract(make_jaspr(main)(1.), (float(t),))
    steps, it = kw.get("steps", 1), kw.get("iter", 1)
    eps = it * steps * bound(pc, t / steps, 1) * 1.0001 + 2e-5
    compare(branches(qc, regs[0], what=what), expm(-1j * t * it * (1 if forward else -1) * M), eps, what)


@case("fermionic_measure")
def c_fermm(terms, n, seed_, method="commuting_qw"):
    from qrisp import QuantumVariable
    H, mats = ferm(terms, n)
    f, vec = prep(seed_, n)
    v = vec()

    def main():
        qv = QuantumVariable(n)
        f(qv)
        return qv
    r = H.expectation_value(main, diagonalisation_method=method, backend=Exact())()
    w = (v.conj() @ sum(mats) @ v).real
    check(abs(complex(r) - w) < 1e-4 * (1 + abs(w)), lambda: f"expectation value of {H} ({method}, state {seed_}): {r} instead of {w}")


# ------------------------------------------------------------------ proofs: exact evolution for every time
def prove(ctx, terms, n, method, forward, kw, ctl):
    import sympy
    from vc import trig
    from fractions import Fraction

    def f():
        from qrisp import QuantumBool, QuantumVariable, control, merge
        t = sympy.Symbol("t")
        U = O.build(terms).trotterization(method=method, forward_evolution=forward)
        qv, cb = QuantumVariable(n), QuantumBool()
        merge(qv, cb)
        if ctl:
            with control(cb[0]):
                U(qv, t=t, **kw)
        else:
            U(qv, t=t, **kw)
        qc = qv.qs.copy()
        order = [qc.qubits.index(q) for q in qubits([cb, qv])]
        if sorted(order) != list(range(len(qc.qubits))):
            raise trig.NotExact("workspace qubits")
        order = order[::1]
        N = n + 1
        # columns in the order (control, variable)
        def rd(x):
            return sum((x >> p & 1) << (N - 1 - i) for i, p in enumerate(order))

        def wr(x):
            return sum((x >> (N - 1 - i) & 1) << p for i, p in enumerate(order))
        A = [{rd(k): v for k, v in trig.Exact().run(qc, wr(c)).items()} for c in range(1 << N)]
        B = trig.eye(1 << n)
        sg = kw.get("iter", 1) * (1 if forward else -1)
        pc = {}
        for x in terms:
            m = herm(O.op_matrix([x], n))
            for w, P in paulis(n):
                c = np.vdot(P, m).real / (1 << n)
                if abs(c) > 1e-12:
                    pc[w] = pc.get(w, 0) + trig.dyadic(c, "coefficient")
        for w, c in pc.items():
            l = trig.Lin(Fraction(0), {"t": c * sg})
            P = O.term_matrix(dict(enumerate(w)), n)
            E = []
            for col in range(1 << n):
                d = {col: trig.cos(l)}
                for row in range(1 << n):
                    if abs(P[row, col]) > .5:
                        ph = {1: 0, 1j: Fraction(1, 2), -1: 1, -1j: Fraction(3, 2)}[complex(round(P[row, col].real), round(P[row, col].imag))]
                        x = trig.isin(l) * trig.TP.expi(trig.Lin(Fraction(ph)))
                        d[row] = d[row] - x if row in d else -x
                E.append({k: v for k, v in d.items() if v})
            B = trig.mul(E, B)
        B = trig.controlled(B, [1]) if ctl else [{(h << n) + r: v for r, v in col.items()} for h in (0, 1) for col in B]
        if not ctl:
            # up to a global phase: compare U^dagger V with a multiple of the identity
            G = trig.mul(trig.adjoint(B), A)
            p = G[0].get(0, trig.ZERO)
            bad = trig.equal(G, [{i: p} for i in range(len(G))])
        else:
            bad = trig.equal(A, B)
        if bad is None:
            return None
        return bad, dict(terms=terms, n=n, t=0.73, kw=kw, method=method, forward=forward, mode="control" if ctl else "plain")
    ctx.prove(f"for all t: exp(-itH) exact for H = {terms} ({method}, forward={forward}, {kw}{', controlled incl. global phase' if ctl else ''})", f, c_trot)


def commuting_set(r, n, k, coeffs=(.5, -.25, 1, -1.5, .75, 2)):
    """mutually commuting Pauli strings"""
    out = []
    for _ in range(200):
        w = "".join(r.choice("IXYZ") for _ in range(n))
        if w not in out and not any(anti(w, o) for o in out):
            out.append(w)
        if len(out) == k:
            break
    return [[r.choice(coeffs), {str(i): f for i, f in enumerate(w) if f != "I"}] for w in out]


def qw_set(r, n, k, ladder=False):
    """qubit-wise commuting terms: one basis per qubit, optional common ladder block"""
    basis = [r.choice(["X", "Y", "Z", "P"]) for _ in range(n)]
    lad = r.sample(range(n), r.randint(1, min(n, 3))) if ladder else []
    pat = {q: r.choice("AC") for q in lad}
    out, seen = [], set()
    for _ in range(60):
        fd = {}
        for q in range(n):
            if q in lad:
                continue
            if r.random() < .6:
                fd[str(q)] = r.choice(["Z", "P0", "P1"]) if basis[q] in "ZP" else basis[q]
        if lad and r.random() < .7:
            fd.update({str(q): f for q, f in pat.items()})
        key = tuple(sorted(fd.items()))
        if key in seen:
            continue
        seen.add(key)
        out.append([round(r.uniform(-2, 2), 2) or 1, fd])
        if len(out) == k:
            break
    return out


@task("all_times", timeout=500, weight=2)
def t_proof(ctx):
    for fn in ("QubitOperator.trotterization", "QubitOperator.change_of_basis", "QubitTerm.simulate", "commutativity_tools.construct_change_of_basis", "QubitOperator.group_up", "hamiltonian_tools.group_up_iterable"):
        ctx.function(fn)
    r = ctx.rng
    for w in itertools.product("IXYZ", repeat=2):
        fd = {str(i): f for i, f in enumerate(w) if f != "I"}
        for ctl in (False, True):
            prove(ctx, [[.5, fd]], 2, "commuting_qw", True, {}, ctl)
    for i in range(40 if not thorough() else 300):
        n = r.randint(1, 3)
        ts = commuting_set(r, n, r.randint(1, 4))
        prove(ctx, ts, n, r.choice(["commuting_qw", "commuting"]), r.random() < .7, r.choice([{}, {}, dict(steps=2), dict(iter=2)]), i % 2 == 0)
        if ctx.full():
            return


@task("terms", timeout=500)
def t_terms(ctx):
    r = ctx.rng
    ctx.bound("single terms: all factor combinations on <= 2 qubits, sampled on 3..6 qubits; all control modes")
    F = ["I", "X", "Y", "Z", "A", "C", "P0", "P1"]
    modes = ["plain", "control", "control0", "control2", "invert", "nested", "cinvert"]
    ws = [w for n in (1, 2) for w in itertools.product(F, repeat=n)]
    for i, w in enumerate(ws):
        fd = {str(i): f for i, f in enumerate(w) if f != "I"}
        for m in ("plain", "control", modes[i % len(modes)]):
            ctx.run(c_sim, word=fd, n=len(w), t=.83, mode=m)
        if ctx.full():
            return
    for i in range(110 if not thorough() else 1000):
        n = r.randint(3, 5 if i % 4 else 6)
        fs = r.choice([F, ["P0", "P1", "Z"], ["A", "C", "I"], ["P0", "P1", "I"], ["Z", "X", "Y", "I"], ["A", "C", "P0", "P1", "Z"]])
        fd = {str(q): f for q in range(n) if (f := r.choice(fs)) != "I"}
        ctx.run(c_sim, word=fd, n=n, t=round(r.uniform(-3, 3), 2), mode=r.choice(modes if n < 5 else modes[:3]))
        if ctx.full():
            return


@task("evolution", timeout=600, weight=2)
def t_evo(ctx):
    r = ctx.rng
    ctx.bound("random operators with 1..6 terms (all factor kinds, complex coefficients) on <= 4 qubits, orders 1 and 2, both groupings")
    modes = ["plain"] * 3 + ["control", "control0", "control2", "invert", "twice", "nested", "cinvert"]
    for i in range(260 if not thorough() else 2500):
        n = r.randint(1, 4)
        k = i % 4
        if k == 0:
            ts = commuting_set(r, n, r.randint(1, 5), (.37, -.81, 1.3, -.2, .9))
        elif k == 1:
            ts = qw_set(r, n, r.randint(1, 5), r.random() < .5)
        else:
            ts = O.random_terms(r, n, r.randint(1, 5), factors=r.choice([("X", "Y", "Z"), ("X", "Y", "Z", "A", "C", "P0", "P1"), ("A", "C", "Z"), ("Z", "P0", "P1")]), real=r.random() < .6)
        kw = r.choice([{}, {}, dict(steps=2), dict(steps=3), dict(iter=2), dict(steps=2, iter=3)])
        ctx.run(c_trot, terms=ts, n=n, t=r.choice([.004, -.006, .02]) if k > 1 else round(r.uniform(-2, 2), 2), kw=kw, order=r.choice([1, 1, 2]), method=r.choice(["commuting_qw", "commuting"]),
                forward=r.random() < .7, mode=r.choice(modes), sym=False)
        if i % 6 == 0:
            ctx.run(c_trot, terms=ts, n=n, t=.011, kw=kw, order=r.choice([1, 2]), method=r.choice(["commuting_qw", "commuting"]), sym=True)
        if ctx.full():
            return


@task("basis", timeout=400)
def t_basis(ctx):
    r = ctx.rng
    ctx.bound("commuting / qubit-wise commuting sets of 1..7 terms on <= 5 qubits")
    for i in range(260 if not thorough() else 2500):
        n = r.randint(1, 5)
        if i % 2:
            ctx.run(c_basis, terms=commuting_set(r, n, r.randint(1, 7)), n=n, method="commuting")
        else:
            ctx.run(c_basis, terms=qw_set(r, n, r.randint(1, 6), r.random() < .5), n=n, method="commuting_qw")
        if ctx.full():
            return


@task("observable", timeout=600, weight=2)
def t_obs(ctx):
    r = ctx.rng
    ctx.bound("random operators with 0..6 terms on <= 4 qubits, random entangled states, exact outcome distribution")
    for i in range(220 if not thorough() else 2000):
        n = r.randint(1, 4)
        k = i % 3
        if k == 0:
            ts = commuting_set(r, n, r.randint(1, 6), (.37, -.81, 1.3, -.2, .9))
        elif k == 1:
            ts = qw_set(r, n, r.randint(1, 5), r.random() < .6)
        else:
            ts = O.random_terms(r, n, r.randint(1, 6), factors=r.choice([("X", "Y", "Z"), ("X", "Y", "Z", "A", "C", "P0", "P1"), ("A", "C", "Z"), ("Z", "P0", "P1")]), real=r.random() < .6)
        ctx.run(c_meas, terms=ts, n=n, seed_=i, method=r.choice(["commuting_qw", "commuting"]), variant=r.choice(["plain", "plain", "symbol", "args", "nocompile", "precompiled", "precise", "repeat"]), extra=r.choice([0, 0, 1]))
        if i % 4 == 0:
            ctx.run(c_unis, terms=ts, n=n)
        if ctx.full():
            return


def rand_ferm(r, n, k):
    out = []
    for _ in range(k):
        kind = r.randrange(6)
        if kind == 5:
            out.append([round(r.uniform(-2, 2), 2) or 1., [] if k > 1 else [[0, 1], [0, 0]]])
            continue
        p = r.sample(range(n), min(n, 4))
        c = r.choice([round(r.uniform(-2, 2), 2) or 1., [round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2)]]) if kind else round(r.uniform(-2, 2), 2) or 1.
        if kind == 0 or n == 1:
            out.append([c, [[p[0], 1], [p[0], 0]]])
        elif kind == 1 or n < 3:
            out.append([c, [[p[0], 1], [p[1], 0]]])
        elif kind == 2:
            out.append([c, [[p[0], 1], [p[1], 0], [p[2], 1], [p[2], 0]]])
        elif kind == 3 and n >= 4:
            out.append([c, [[p[0], 1], [p[1], 1], [p[2], 0], [p[3], 0]]])
        else:
            out.append([c, [[x, r.randint(0, 1)] for x in p[:r.randint(1, len(p))]]])
    return out


@task("fermionic", timeout=600, weight=2)
def t_ferm(ctx):
    r = ctx.rng
    ctx.bound("random fermionic operators with 1..4 terms (number, hopping, interaction, general products) on <= 5 modes")
    modes = ["plain"] * 4 + ["control", "invert", "twice", "control0"]
    for i in range(160 if not thorough() else 1500):
        n = r.randint(1, 5)
        ts = rand_ferm(r, n, r.randint(1, 4) if i % 3 else 1)
        kw = r.choice([{}, {}, dict(steps=2), dict(iter=2), dict(steps=2, iter=2)])
        ctx.run(c_ferm, terms=ts, n=n, t=round(r.uniform(-2, 2), 2) if i % 3 == 0 else r.choice([.005, -.004, .02]), kw=kw, forward=r.random() < .7, mode=r.choice(modes))
        if i % 3 == 0:
            ctx.run(c_fermm, terms=ts, n=n, seed_=i, method=r.choice(["commuting_qw", "commuting"]))
        if ctx.full():
            return


@task("traced", timeout=700, weight=3)
def t_traced(ctx):
    r = ctx.rng
    ctx.bound("traced evolutions (<= 3 qubits), traced expectation values within 6 sigma, randomised evolution of commuting sums")
    for i in range(30 if not thorough() else 200):
        n = r.randint(1, 3)
        ts = [lambda: commuting_set(r, n, r.randint(1, 4), (.37, -.81, 1.3)), lambda: qw_set(r, n, r.randint(1, 3), r.random() < .5),
              lambda: O.random_terms(r, n, r.randint(1, 4), real=True)][i % 3]()
        kw = r.choice([{}, dict(steps=2), dict(iter=2), dict(steps=3)])
        ctx.run(c_trj, terms=ts, n=n, t=.004 if i % 3 == 2 else round(r.uniform(-2, 2), 2), kw=kw, order=r.choice([1, 2]), method=r.choice(["commuting_qw", "commuting"]), forward=r.random() < .7, ctl=r.random() < .4, dyn=i % 5 < 2)
        if i % 3 == 0:
            ctx.run(c_fermj, terms=rand_ferm(r, n, r.randint(1, 2)), n=n, t=.01, kw=kw, forward=r.random() < .7)
        if i % 6 == 1:
            ctx.gc()
        if ctx.full():
            return


@task("traced_observable", timeout=600, weight=2)
def t_tro(ctx):
    r = ctx.rng
    for i in range(10 if not thorough() else 80):
        n = r.randint(1, 3)
        ts = [lambda: qw_set(r, n, r.randint(1, 3), True), lambda: O.random_terms(r, n, r.randint(1, 3), real=r.random() < .5), lambda: commuting_set(r, n, 3)][i % 3]()
        ctx.run(c_measj, terms=ts, n=n, seed_=i, method=r.choice(["commuting_qw", "commuting"]))
        ctx.gc()
        if ctx.full():
            return


@task("randomised", timeout=600, weight=2)
def t_rand(ctx):
    r = ctx.rng
    for i in range(8 if not thorough() else 50):
        n = r.randint(1, 3)
        ts = [[c, w] for c, w in commuting_set(r, n, r.randint(1, 2), (.37, -.81, 1.3)) if w] or [[.5, {"0": "Z"}]]
        ctx.run(c_qd, terms=ts, n=n, t=.7, samples=r.choice([1, 5, 12]), seed_=i, forward=r.random() < .7, it=r.choice([1, 2]))
        ctx.gc()
        if ctx.full():
            return
