"""Small gate lists: matrices (written down independently) and application through the public interface."""
import cmath
import math

import numpy as np

from vlib.api import Fail

G = {
    "h": np.array([[1, 1], [1, -1]]) / math.sqrt(2),
    "x": np.array([[0, 1], [1, 0]]),
    "y": np.array([[0, -1j], [1j, 0]]),
    "z": np.diag([1, -1]),
    "s": np.diag([1, 1j]),
    "t": np.diag([1, cmath.exp(.25j * math.pi)]),
}


def g1(name, a):
    if name in G:
        return np.array(G[name], dtype=complex)
    c, s = math.cos(a / 2), math.sin(a / 2)
    return {"rx": np.array([[c, -1j * s], [-1j * s, c]]), "ry": np.array([[c, -s], [s, c]], dtype=complex),
            "rz": np.diag([cmath.exp(-.5j * a), cmath.exp(.5j * a)]), "p": np.diag([1, cmath.exp(1j * a)]),
            "gphase": np.eye(2) * cmath.exp(1j * a)}[name]


def emb(U, qs, n):
    """U on the qubits qs of n (first qubit most significant)"""
    k = len(qs)
    T = np.asarray(U, dtype=complex).reshape([2] * (2 * k))
    M = np.eye(1 << n, dtype=complex).reshape([2] * (2 * n))
    M = np.tensordot(T, M, axes=(range(k, 2 * k), list(qs)))
    M = np.moveaxis(M, range(k), qs)
    return M.reshape(1 << n, 1 << n)


def gates_matrix(gs, n):
    """gs: [name, angle, qubits]"""
    M = np.eye(1 << n, dtype=complex)
    for nm, a, q in gs:
        if nm == "cx":
            U = emb(np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), q, n)
        elif nm == "cz":
            U = emb(np.diag([1, 1, 1, -1]), q, n)
        else:
            U = emb(g1(nm, a), q, n)
        M = U @ M
    return M


def run_gates(gs, qs):
    import qrisp
    for nm, a, q in gs:
        if nm in ("cx", "cz"):
            getattr(qrisp, nm)(qs[q[0]], qs[q[1]])
        elif nm in G:
            getattr(qrisp, nm)(qs[q[0]])
        else:
            getattr(qrisp, nm)(a, qs[q[0]])


def rgates(r, n, m):
    out = []
    for _ in range(m):
        nm = r.choice(["h", "x", "y", "z", "s", "t", "rx", "ry", "rz", "p"] + (["cx", "cz", "cx"] if n > 1 else []))
        out.append([nm, round(r.uniform(-3, 3), 3), r.sample(range(n), 2 if nm in ("cx", "cz") else 1)])
    return out


def adj(M):
    return np.asarray(M).conj().T


def ctl(V, k=1, state=None):
    """controlled isometry (control qubits most significant): identity embedding needs square V"""
    state = (1 << k) - 1 if state is None else state
    N = V.shape[0]
    M = np.eye(N << k, dtype=complex)
    M[state * N:(state + 1) * N, state * N:(state + 1) * N] = V
    return M


def single(Ks, what):
    """all measurement branches implement the same map: combine"""
    w = [np.linalg.norm(K) for K in Ks]
    i = int(np.argmax(w))
    K = Ks[i]
    tot = math.sqrt(sum(x * x for x in w))
    for j, L in enumerate(Ks):
        if w[j] < 1e-6:
            continue
        o = np.vdot(K, L)
        if abs(abs(o) - w[i] * w[j]) > 1e-5 * w[i] * w[j]:
            raise Fail(f"{what}: measurement branches implement different maps")
    return K * (tot / w[i])


def rev(n):
    P = np.zeros((1 << n, 1 << n))
    for x in range(1 << n):
        P[int(format(x, f"0{n}b")[::-1], 2) if n else 0, x] = 1
    return P


def little(V, n):
    """matrix given w.r.t. integer values (qubit 0 least significant) -> first qubit most significant"""
    return rev(n) @ V @ rev(n)


# ---------------------------------------------------------------- state preparation
