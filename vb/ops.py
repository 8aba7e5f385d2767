"""Independent matrix semantics of qubit / fermionic operator expressions."""
import itertools

import numpy as np

M1 = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]),
      "A": np.array([[0, 1], [0, 0]]), "C": np.array([[0, 0], [1, 0]]), "P0": np.diag([1, 0]), "P1": np.diag([0, 1])}
M1 = {k: v.astype(complex) for k, v in M1.items()}


def term_matrix(fd, n):
    m = np.eye(1, dtype=complex)
    for i in range(n):
        m = np.kron(m, M1[fd.get(i, "I")])
    return m


def op_matrix(terms, n):
    """terms: list of [coeff, {qubit: factor}]"""
    m = np.zeros((1 << n, 1 << n), dtype=complex)
    for c, fd in terms:
        m += cplx(c) * term_matrix({int(k): v for k, v in fd.items()}, n)
    return m


def cplx(c):
    return complex(c[0], c[1]) if isinstance(c, (list, tuple)) else complex(c)


def build(terms):
    """through the public operator arithmetic"""
    from qrisp.operators import A, C, P0, P1, QubitOperator, X, Y, Z
    F = dict(X=X, Y=Y, Z=Z, A=A, C=C, P0=P0, P1=P1)
    H = QubitOperator({})
    for c, fd in terms:
        t = 1
        for q, f in fd.items():
            t = t * F[f](int(q))
        H = H + num(c) * t
    return H


def num(c):
    z = cplx(c)
    return z.real if z.imag == 0 else z


def read(H, n):
    """matrix of a real operator object from its stored terms (independent of to_array)"""
    if isinstance(H, (int, float, complex, np.number)):
        return complex(H) * np.eye(1 << n)
    m = np.zeros((1 << n, 1 << n), dtype=complex)
    for t, c in H.terms_dict.items():
        m += complex(c) * term_matrix(t.factor_dict, n)
    return m


def random_terms(r, n, k, factors=("X", "Y", "Z", "A", "C", "P0", "P1"), real=False, ident=.1, distinct=False):
    out = []
    for _ in range(k):
        fd = {} if r.random() < ident else {str(q): r.choice(factors) for q in range(n) if r.random() < .6}
        c = round(r.uniform(-2, 2), 2) or 1.0
        out.append([c if real else r.choice([c, [c, round(r.uniform(-2, 2), 2)], [0, c], 1]), fd])
    return out


# ------------------------------------------------------------------ fermions (Jordan-Wigner matrices, own convention-free algebra)
def fermi(n):
    """annihilators on the 2^n dimensional Fock space"""
    out = []
    for j in range(n):
        m = np.eye(1)
        for i in range(n):
            m = np.kron(m, np.diag([1, -1]) if i < j else np.array([[0, 1], [0, 0]]) if i == j else np.eye(2))
        out.append(m.astype(complex))
    return out
