"""Linear maps implemented by circuits with workspace and mid-circuit measurements: the circuit is evaluated on a maximally
entangled state of the given qubits and untouched reference qubits; every measurement branch gives one Kraus operator."""
import cmath

import numpy as np

from vb.q import qubits
from vb.sim import DirtyDealloc, SimError, Sparse
from vlib.api import Fail, Undecided


def branches(qc, reg, outs=None, check_dealloc=True, limit=1 << 17, what="", expand="auto", free=()):
    """list of matrices K_b (index: first qubit of reg most significant), one per measurement branch (merged when proportional);
    all other qubits start at zero and must end at zero"""
    pos = {q: i for i, q in enumerate(qc.qubits)}
    reg = [pos[q] for q in qubits(list(reg))]
    out = reg if outs is None else [pos[q] for q in qubits(list(outs))]
    N, n, m = len(qc.qubits), len(reg), len(out)
    s = Sparse(expand, limit=limit)
    s.check_dealloc, s.merge, s.extra = check_dealloc, True, n
    init = {}
    for x in range(1 << n):
        b = x << N
        for i, p in enumerate(reg):
            if x >> (n - 1 - i) & 1:
                b |= 1 << p
        init[b] = 1.0 + 0j
    try:
        br = s.run(qc, init)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    mask = (1 << N) - 1
    for p in out:
        mask &= ~(1 << p)
    for q in qubits(list(free)):
        mask &= ~(1 << pos[q])
    res = []
    for b in br:
        K = np.zeros((1 << m, 1 << n), dtype=complex)
        for k, v in b.st.items():
            if k & mask:
                if abs(v) > 1e-5:
                    raise Fail(f"{what}: a workspace qubit is left in a non-zero state (amplitude {abs(v):.3g})")
                continue
            y = 0
            for p in out:
                y = 2 * y + (k >> p & 1)
            K[y, k >> N] += v
        res.append(K)
    return res


def deviation(K, V):
    """distance of K from the multiples of V relative to the weight of K"""
    nK = np.linalg.norm(K)
    if nK < 1e-7:
        return 0.0
    c = np.vdot(V, K) / np.vdot(V, V).real
    return np.linalg.norm(K - c * V, 2) / max(abs(c), nK / np.linalg.norm(V))


def spread(K, V):
    """operator distance min over phases of |K/weight - V| for a branch"""
    nK = np.linalg.norm(K)
    if nK < 1e-7:
        return 0.0
    K = K * (np.linalg.norm(V) / nK)
    o = np.vdot(V, K)
    ph = o / abs(o) if abs(o) > 1e-12 else 1
    return np.linalg.norm(K - ph * V, 2)
