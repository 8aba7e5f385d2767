"""C11: fermionic algebra. Expressions over creation/annihilation operators vs Fock-space matrices (built here, not by the code)."""
import itertools

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import ops as O

ID = "C11"
LEVEL = "exploration"
RULE = "one evaluation = one fermionic expression, translated by the code and compared with Fock-space matrices; distinct = distinct expression"
TRUSTED = ["vb.ops Fock matrices", "numpy"]


def word_matrix(word, n):
    F = O.fermi(n)
    m = np.eye(1 << n, dtype=complex)
    for i, cr in word:            # written left to right
        m = m @ (F[i].conj().T if cr else F[i])
    return m


def poly_matrix(p, n):
    return sum((O.cplx(c) * word_matrix(w, n) for c, w in p), np.zeros((1 << n, 1 << n), dtype=complex))


def build(p):
    from qrisp.operators.fermionic import FermionicOperator, a, c
    H = FermionicOperator({})
    for k, w in p:
        t = 1
        for i, cr in w:
            t = t * (c(i) if cr else a(i))
        H = H + O.num(k) * t
    return H


def read(H, n):
    """the code's own translation to qubit operators, evaluated by vb.ops"""
    return O.read(H.to_qubit_operator(), n)


def same(A, B, msg):
    d = np.max(np.abs(A - B))
    check(d < 1e-6, lambda: f"{msg}: deviates from the Fock-space matrix by {d:.3g}")


@case("expr")
def c_expr(p, n):
    H = build(p)
    same(read(H, n), poly_matrix(p, n), f"translation of {p}")
    M = poly_matrix(p, n)
    same(read(H.reduce(), n), M, f"reduction of {p}")
    same(read(H.dagger(), n), M.conj().T, f"adjoint of {p}")
    same(read(H.hermitize(), n), (M + M.conj().T) / 2, f"hermitised {p}")
    same(read(H.hermitize().reduce(assume_hermitian=True).hermitize(), n), (M + M.conj().T) / 2, f"hermitian reduction of {p}")
    same(read(-H, n), -M, f"negation of {p}")
    T = np.array(H.to_sparse_matrix().todense())
    k = int(np.log2(len(T)))
    same(np.kron(T, np.eye(1 << (n - k))), M, f"sparse matrix of {p}")


@case("term")
def c_term(w, n):
    """sorting a single product: ordered product times the sign"""
    from qrisp.operators.fermionic import FermionicTerm
    t = FermionicTerm([(i, bool(c)) for i, c in w][::-1])     # stored right to left
    M = word_matrix(w, n)
    same(O.read(t.to_qubit_term(), n), M, f"translation of {w}")
    s, sign = t.sort()
    same(sign * O.read(s.to_qubit_term(), n), M, f"ordering of {w}")
    if sign:
        idx = [i for i, _ in s.ladder_list]
        check(idx == sorted(idx, reverse=True), f"ordering of {w} is not ordered: {s.ladder_list}")
    same(O.read(t.dagger().to_qubit_term(), n), M.conj().T, f"adjoint of {w}")
    u = [i for i in range(n) if sum(1 for j, _ in w if j == i) % 2]
    check(sorted(t.get_unipolars()) == u, f"modes of odd multiplicity of {w}: {t.get_unipolars()} instead of {u}")


@case("bin")
def c_bin(op, p, q, n, inplace=False):
    H, G = build(p), build(q)
    A, B = poly_matrix(p, n), poly_matrix(q, n)
    if inplace:
        if op == "+":
            H += G
        elif op == "-":
            H -= G
        else:
            H *= G
        R = H
        check(R is not None, f"in-place {op} returns nothing")
    else:
        R = {"+": lambda: H + G, "-": lambda: H - G, "*": lambda: H * G}[op]()
        same(read(H, n), A, f"left operand after {op}")
    same(read(R, n), {"+": A + B, "-": A - B, "*": A @ B}[op], f"{p} {op} {q}{' in place' if inplace else ''}")
    same(read(G, n), B, f"right operand after {op}")


@case("scalar")
def c_scal(op, p, s, n):
    H, M, z = build(p), poly_matrix(p, n), O.num(s)
    I = np.eye(1 << n)
    R = {"+": lambda: H + z, "-": lambda: H - z, "*": lambda: H * z, "r+": lambda: z + H, "r-": lambda: z - H, "r*": lambda: z * H}[op]()
    same(read(R, n), {"+": M + z * I, "-": M - z * I, "*": z * M, "r+": z * I + M, "r-": z * I - M, "r*": z * M}[op], f"{op} {s} of {p}")
    if op in "+-*":
        K = build(p)
        if op == "+":
            K += z
        elif op == "-":
            K -= z
        else:
            K *= z
        same(read(K, n), {"+": M + z * I, "-": M - z * I, "*": z * M}[op], f"in-place {op} {s} of {p}")
        same(read(H, n), M, f"operand after {op} {s}")


@case("car")
def c_car(i, j):
    """canonical anticommutation relations through the operator arithmetic of the code"""
    from qrisp.operators.fermionic import a, c
    n = max(i, j) + 1
    I, Z = np.eye(1 << n), np.zeros((1 << n, 1 << n))
    same(read(a(i) * c(j) + c(j) * a(i), n), I if i == j else Z, f"{{a{i}, c{j}}}")
    same(read(a(i) * a(j) + a(j) * a(i), n), Z, f"{{a{i}, a{j}}}")
    same(read(c(i) * c(j) + c(j) * c(i), n), Z, f"{{c{i}, c{j}}}")
    from qrisp.operators.fermionic.transformations import jordan_wigner
    same(O.read(jordan_wigner((i, False)), n), word_matrix([(i, 0)], n), f"qubit form of a{i}")
    same(O.read(jordan_wigner((i, True)), n), word_matrix([(i, 1)], n), f"qubit form of c{i}")


@case("equality")
def c_eq(w, perm, n, k):
    """a product and its reordered version (with the sign of the reordering) are the same operator"""
    v = [w[i] for i in perm]
    A, B = word_matrix(w, n), word_matrix(v, n)
    if np.max(np.abs(A)) < 1e-9:
        return
    r = [s for s in (1, -1) if np.allclose(A, s * B)]
    if not r:
        return
    check(build([[k, w]]) == build([[k * r[0], v]]), f"{w} and its reordering {v} (sign {r[0]}) compare unequal")
    check(not (build([[k, w]]) == build([[-k * r[0], v]])) or np.allclose(A, A.conj().T * -1) , f"{w} and minus its reordering {v} compare equal")


@case("swap")
def c_swap(w, perm, n):
    from qrisp.operators.fermionic import FermionicTerm
    t = FermionicTerm([(i, bool(c)) for i, c in w][::-1]).fermionic_swap(list(perm))
    M = word_matrix([(list(perm).index(i), c) for i, c in w], n)
    same(O.read(t.to_qubit_term(), n), M, f"relabelling of {w} by {perm}")


@task("words", timeout=400, weight=2)
def t_words(ctx):
    ctx.bound("single products: every word up to length 4 over 2 modes and up to length 3 over 3 modes (complete), random up to length 7 over 5 modes")
    for i in range(5):
        for j in range(5):
            ctx.run(c_car, i=i, j=j)
    for n, L in ((2, 4), (3, 3)):
        L4 = [(i, c) for i in range(n) for c in (0, 1)]
        for l in range(0, L + 1):
            for w in itertools.product(L4, repeat=l):
                if ctx.full():
                    return
                ctx.run(c_term, w=[list(x) for x in w], n=n)
    r = ctx.rng
    for _ in range(400):
        n = r.randint(1, 5)
        ctx.run(c_term, w=[[r.randrange(n), r.randint(0, 1)] for _ in range(r.randint(1, 7))], n=n)
        w = [[r.randrange(n), r.randint(0, 1)] for _ in range(r.randint(1, 4))]
        perm = list(range(len(w)))
        r.shuffle(perm)
        ctx.run(c_eq, w=w, perm=perm, n=n, k=1)
        pm = list(range(n))
        r.shuffle(pm)
        ctx.run(c_swap, w=w, perm=pm, n=n)


def rpoly(r, n, k, L):
    return [[r.choice([1, -1, 2.5, [0, 1], [0.5, -1.5]]), [[r.randrange(n), r.randint(0, 1)] for _ in range(r.randint(0, L))]] for _ in range(k)]


@task("algebra", timeout=400, weight=2)
def t_alg(ctx):
    ctx.bound("sums, products, adjoints, reductions: random polynomials with 0..5 terms of length 0..5 over 1..4 modes")
    r = ctx.rng
    for i in range(220 if not thorough() else 2000):
        if ctx.full():
            return
        n = r.randint(1, 4)
        p, q = rpoly(r, n, r.randint(1, 5), r.randint(1, 5)), rpoly(r, n, r.randint(0, 3), 3)
        ctx.run(c_expr, p=p, n=n)
        # the same words permuted / daggered to provoke merging of terms
        ctx.run(c_expr, p=p + [[k, w[::-1]] for k, w in p] + [[k, [[i_, 1 - c] for i_, c in w[::-1]]] for k, w in q], n=n)
        for op in "+-*":
            ctx.run(c_bin, op=op, p=p, q=q, n=n)
            ctx.run(c_bin, op=op, p=p, q=q, n=n, inplace=True)
        for op in ("+", "-", "*", "r+", "r-", "r*"):
            ctx.run(c_scal, op=op, p=p, s=r.choice([0, 2, -1.5, [0, 1]]), n=n)
