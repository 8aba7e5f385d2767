"""C10: qubit operator algebra against matrices."""
import itertools

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import ops as O

ID = "C10"
LEVEL = "exploration"
RULE = "one evaluation = operation on randomly generated operators (all factor kinds) compared with dense matrices; distinct = distinct operand lists"
TRUSTED = ["vb.ops matrix semantics", "numpy", "vc engine (symbolic execution, loop cutting)", "z3 / cvc5"]
MIN_OBLIGATIONS = 50
TECHNIQUE = ("contract-based deductive verification (term product, adjoint and the three commutation tests for terms on any number of qubits, loop invariants "
             "over symbolic dictionaries, the real factor table against 2x2 matrices; obligations discharged by z3/cvc5); bounded contract evaluation of operator "
             "algebra, conversions and grouping against dense matrices")
THEOREMS = ["QubitTerm.__mul__: factor on every qubit and coefficient as specified, for terms of any size", "QubitTerm.adjoint", "QubitTerm.commute_qw / commute_pauli / commute: verdicts "
            "exact for terms of any size (commute: except where delegated to the commutator)"]


def same(A, B, msg, tol=1e-6):
    check(A.shape == B.shape, lambda: f"{msg}: shape {A.shape} instead of {B.shape}")
    d = np.max(np.abs(A - B)) if A.size else 0
    check(d < tol, lambda: f"{msg}: deviates from the matrix by {d:.3g}")


@case("binary")
def c_bin(op, a, b, n, inplace=False):
    H, G = O.build(a), O.build(b)
    Ma, Mb = O.op_matrix(a, n), O.op_matrix(b, n)
    same(O.read(H, n), Ma, "construction")
    snap = (dict(H.terms_dict), dict(G.terms_dict))
    if op == "commutator":
        R, M = H.commutator(G), Ma @ Mb - Mb @ Ma
    elif inplace:
        if op == "+":
            H += G
        elif op == "-":
            H -= G
        else:
            H *= G
        R, M = H, {"+": Ma + Mb, "-": Ma - Mb, "*": Ma @ Mb}[op]
        check(R is not None, f"in-place {op} returns nothing")
    else:
        R = {"+": lambda: H + G, "-": lambda: H - G, "*": lambda: H * G}[op]()
        M = {"+": Ma + Mb, "-": Ma - Mb, "*": Ma @ Mb}[op]
        check(snap[0] == H.terms_dict, f"operand changed by {op}")
    check(snap[1] == G.terms_dict, f"right operand changed by {op}")
    same(O.read(R, n), M, f"{a} {op} {b}{' in place' if inplace else ''}")


@case("scalar")
def c_scal(op, a, s, n, inplace=False):
    H, M, z = O.build(a), O.op_matrix(a, n), O.num(s)
    I = np.eye(1 << n)
    if inplace:
        if op == "+":
            H += z
        elif op == "-":
            H -= z
        elif op == "*":
            H *= z
        R = H
        W = {"+": M + z * I, "-": M - z * I, "*": z * M}[op]
    else:
        R = {"+": lambda: H + z, "-": lambda: H - z, "*": lambda: H * z, "r+": lambda: z + H, "r-": lambda: z - H, "r*": lambda: z * H, "neg": lambda: -1 * H}[op]()
        W = {"+": M + z * I, "-": M - z * I, "*": z * M, "r+": M + z * I, "r-": z * I - M, "r*": z * M, "neg": -M}[op]
    same(O.read(R, n), W, f"{op} of {a} with scalar {z}")


@case("unary")
def c_un(op, a, n, k=2):
    H, M = O.build(a), O.op_matrix(a, n)
    if op == "pow":
        R, W = H ** k, np.linalg.matrix_power(M, k)
    elif op == "adjoint":
        R, W = H.adjoint(), M.conj().T
    elif op == "hermitize":
        R, W = H.hermitize(), (M + M.conj().T) / 2
    elif op == "to_pauli":
        R, W = H.to_pauli(), M
        check(not isinstance(R, (int, float, complex)), "conversion to Pauli form returns a bare number")
        for t in R.terms_dict:
            check(set(t.factor_dict.values()) <= {"X", "Y", "Z"}, f"non-Pauli factor in Pauli form: {t}")
    elif op == "eliminate":
        H = H.hermitize()
        M = (M + M.conj().T) / 2
        R = H.eliminate_ladder_conjugates()
        R, W = R.hermitize(), M     # documented: keeps one of each pair of conjugate terms, hermitised on use
    elif op == "threshold":
        R = H.apply_threshold(0.5)
        W = O.op_matrix([[(complex(c).real, complex(c).imag), {q: f for q, f in t.factor_dict.items()}] for t, c in O.build(a).terms_dict.items() if abs(c) > 0.5], n)
    elif op == "to_array":
        same(np.array(H.to_array(n)), M, f"dense matrix of {a}")
        same(np.array(H.to_sparse_matrix(n).todense()), M, f"sparse matrix of {a}")
        k = H.find_minimal_qubit_amount()
        check(k <= n, "minimal qubit number too large")
        if k:
            T = np.array(H.to_array())
            same(np.kron(T, np.eye(1 << (n - k))), M, f"dense matrix of {a} with minimal size")
        check(k == max([max([int(q) for q in t.factor_dict], default=-1) + 1 for t in H.terms_dict], default=0), "minimal qubit number")
        return
    same(O.read(R, n), W, f"{op}{k if op == 'pow' else ''} of {a}")


@case("from_matrix")
def c_from(rows, which, rev=False):
    from scipy.sparse import csr_matrix
    from qrisp.operators import QubitOperator
    M = np.array([[O.cplx(x) for x in row] for row in rows])
    n = int(np.log2(len(M)))
    if which == "numpy":
        H = QubitOperator.from_numpy_array(M)
    else:
        H = QubitOperator.from_matrix(M if which == "dense" else csr_matrix(M), **({"reverse_endianness": True} if rev else {}))
    W = M
    if rev:
        p = [int(format(i, f"0{n}b")[::-1], 2) for i in range(1 << n)]
        W = M[np.ix_(p, p)]
    same(O.read(H, n), W, f"operator from {which} matrix")


@case("commute")
def c_comm(ta, tb, n):
    from qrisp.operators.qubit.qubit_term import QubitTerm
    a, b = ({int(k): v for k, v in t.items()} for t in (ta, tb))
    A, B = O.term_matrix(a, n), O.term_matrix(b, n)
    truth = np.allclose(A @ B, B @ A)
    x, y = QubitTerm(a), QubitTerm(b)
    check(bool(x.commute(y)) == truth, f"commutation test of {a} and {b} says {x.commute(y)}, matrices say {truth}")
    qw = all(np.allclose(O.M1[a.get(i, 'I')] @ O.M1[b.get(i, 'I')], O.M1[b.get(i, 'I')] @ O.M1[a.get(i, 'I')]) for i in range(n))
    check(bool(x.commute_qw(y)) == qw, f"qubit-wise commutation test of {a} and {b} says {x.commute_qw(y)}, matrices say {qw}")
    if set(a.values()) | set(b.values()) <= {"X", "Y", "Z"}:
        check(bool(x.commute_pauli(y)) == truth, f"Pauli commutation test of {a} and {b} says {x.commute_pauli(y)}, matrices say {truth}")
    elif x.commute_pauli(y):
        check(truth, f"Pauli commutation test claims {a} and {b} commute")
    t, c = x * y
    same(complex(c) * O.term_matrix(t.factor_dict, n), A @ B, f"product of terms {a} {b}")
    same(O.term_matrix(x.adjoint().factor_dict, n), A.conj().T, f"adjoint of term {a}")
    same(O.read(x.commutator(y), n), A @ B - B @ A, f"commutator of terms {a} {b}")


@case("groups")
def c_groups(a, n, kind):
    H = O.build(a)
    if kind == "commuting":
        gs = H.commuting_groups()
    elif kind == "qw":
        gs = H.commuting_qw_groups()
    elif kind == "qw_greedy":
        gs = H.commuting_qw_groups(use_graph_coloring=False)
    else:
        gs = H.group_up(lambda x, y: x.commute(y))
    tot = sum((O.read(g, n) for g in gs), np.zeros((1 << n, 1 << n), dtype=complex))
    same(tot, O.read(H, n), f"sum of the {kind} groups of {a}")
    for g in gs:
        ts = [t.factor_dict for t in g.terms_dict]
        for x, y in itertools.combinations(ts, 2):
            A, B = O.term_matrix(x, n), O.term_matrix(y, n)
            check(np.allclose(A @ B, B @ A), f"{kind} grouping of {a} puts non-commuting terms {x} and {y} together")
            if kind.startswith("qw"):
                for i in range(n):
                    P, Q = O.M1[x.get(i, "I")], O.M1[y.get(i, "I")]
                    check(np.allclose(P @ Q, Q @ P), f"qubit-wise grouping of {a} puts {x} and {y} together")


@case("energy")
def c_energy(a, n):
    H = O.build(a)
    M = O.op_matrix(a, n)
    W = np.linalg.eigvalsh((M + M.conj().T) / 2)[0]
    E = float(np.real(H.ground_state_energy()))
    check(abs(E - W) < 1e-5 * max(1, abs(W)), f"ground state energy of {a}: {E} instead of {W}")


@case("subs")
def c_subs(a, n, subs):
    """substituting a number for a factor"""
    H = O.build(a)
    d = {int(k): v for k, v in subs.items()}
    R = H.subs(d)
    W = np.zeros((1 << n, 1 << n), dtype=complex)
    for t, c in O.build(a).terms_dict.items():
        fd = dict(t.factor_dict)
        for k, v in d.items():
            if k in fd:
                del fd[k]
                c = c * v
        W += complex(c) * O.term_matrix(fd, n)
    same(O.read(R, n), W, f"substitution {subs} in {a}")


@task("table", timeout=300)
def t_table(ctx):
    """complete: every pair of single-qubit factors, and all pairs on two qubits"""
    ctx.bound("term products, commutation tests, adjoints: all pairs of terms on 1 and 2 qubits (complete), random on 3..5 qubits")
    F = list(O.M1)
    for f, g in itertools.product(F, repeat=2):
        ctx.run(c_comm, ta={} if f == "I" else {"0": f}, tb={} if g == "I" else {"0": g}, n=1)
    for f, g, h, k in itertools.product(F, repeat=4):
        if ctx.full():
            return
        ctx.run(c_comm, ta={q: x for q, x in zip("01", (f, g)) if x != "I"}, tb={q: x for q, x in zip("01", (h, k)) if x != "I"}, n=2)
    r = ctx.rng
    for i in range(600):
        n = r.randint(3, 5)
        fs = F if i % 2 else ["I", "X", "Y", "Z"]
        ctx.run(c_comm, ta={str(q): x for q in range(n) for x in [r.choice(fs)] if x != "I"}, tb={str(q): x for q in range(n) for x in [r.choice(fs)] if x != "I"}, n=n)


@task("algebra", timeout=300, weight=2)
def t_alg(ctx):
    ctx.bound("sums, products, commutators, scalars, powers, conversions: random operators with 0..6 terms on 1..4 qubits")
    r = ctx.rng
    for i in range(350 if not thorough() else 3000):
        if ctx.full():
            return
        n = r.randint(1, 4)
        a, b = O.random_terms(r, n, r.randint(0, 5)), O.random_terms(r, n, r.randint(0, 5))
        if i % 7 == 0 and a:
            b = a[:2] + b         # cancellations
        if i % 11 == 0:
            b = [[-1 * x if not isinstance(x, list) else [-x[0], -x[1]], d] for x, d in a]
        for op in ("+", "-", "*", "commutator"):
            ctx.run(c_bin, op=op, a=a, b=b, n=n)
            if op != "commutator":
                ctx.run(c_bin, op=op, a=a, b=b, n=n, inplace=True)
        s = r.choice([0, 1, -2.5, [0, 1], [1.5, -.5], 3])
        for op in ("+", "-", "*", "r+", "r-", "r*", "neg"):
            ctx.run(c_scal, op=op, a=a, s=s, n=n)
        for op in ("+", "-", "*"):
            ctx.run(c_scal, op=op, a=a, s=s, n=n, inplace=True)
        for op in ("adjoint", "hermitize", "to_pauli", "eliminate", "threshold", "to_array"):
            ctx.run(c_un, op=op, a=a, n=n)
        if a:
            ctx.run(c_un, op="pow", a=a[:3], n=n, k=r.randint(1, 4))
        ctx.run(c_subs, a=a, n=n, subs={str(r.randrange(n)): 2.0, str(r.randrange(n)): -1})


@task("groups", timeout=300)
def t_groups(ctx):
    r = ctx.rng
    for i in range(150):
        if ctx.full():
            return
        n = r.randint(1, 5)
        fs = [("X", "Y", "Z"), ("X", "Y", "Z", "A", "C", "P0", "P1"), ("Z", "P0", "P1", "A")][i % 3]
        a = O.random_terms(r, n, r.randint(1, 9), fs)
        for kind in ("commuting", "qw", "qw_greedy", "group_up"):
            ctx.run(c_groups, a=a, n=n, kind=kind)
        if n < 5:
            ctx.run(c_energy, a=a, n=n)


@task("matrices", timeout=300)
def t_mat(ctx):
    ctx.bound("matrix to operator conversion: 1..3 qubits, dense, sparse, zero, non-hermitian")
    r = ctx.rng
    for i in range(40):
        n = r.randint(1, 3)
        k = 1 << n
        rows = [[r.choice([0, 0, round(r.uniform(-2, 2), 2), [round(r.uniform(-2, 2), 2), round(r.uniform(-2, 2), 2)]]) for _ in range(k)] for _ in range(k)]
        for which in ("numpy", "dense", "csr"):
            ctx.run(c_from, rows=rows, which=which)
        ctx.run(c_from, rows=rows, which="dense", rev=True)
    for n in (1, 2):
        ctx.run(c_from, rows=[[0] * (1 << n)] * (1 << n), which="dense")
        ctx.run(c_from, rows=[[0] * (1 << n)] * (1 << n), which="numpy")
    for a in ([[3, {}]], [[-2, {"0": "Z"}]], [[1, {}], [-2, {"0": "X"}]]):
        ctx.run(c_energy, a=a, n=1)


def _proof(ctx, names):
    from vc.contracts import pauli
    for n in names:
        pauli.run_one(ctx, n)
    for a in pauli.ASSUMES:
        ctx.assume(a)


@task("proof.product", timeout=300)
def t_pprod(ctx):
    """terms on any number of qubits"""
    _proof(ctx, ["QubitTerm.__mul__", "QubitTerm.adjoint", "QubitTerm.commute_qw"])


@task("proof.commute", timeout=300)
def t_pcomm(ctx):
    _proof(ctx, ["QubitTerm.commute"])


@task("proof.pauli", timeout=300)
def t_ppauli(ctx):
    _proof(ctx, ["QubitTerm.commute_pauli"])
