"""final states of session circuits on the data registers of the random programs"""
from vlib.api import Fail, Undecided
from vb.sim import DirtyDealloc, SimError, Sparse, extract as bits

SIZES = (3, 2, 2)
N = sum(SIZES)


def final(qc, data, what, start=0, clbits=()):
    """state of the data qubits per measurement branch, with the named classical bits; everything else must be zero"""
    import numpy as np
    names = {q.identifier: i for i, q in enumerate(qc.qubits)}
    pos = [names[q] for q in data]
    s = Sparse(limit=1 << 18)
    s.check_dealloc, s.merge = True, True
    cn = [c.identifier for c in qc.clbits]
    keep = [cn.index(c) for c in clbits]
    s.keep_cl = set(keep)
    try:
        br = s.run(qc, start)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    out = []
    for b in br:
        v = np.zeros(1 << len(pos), dtype=complex)
        for k, a in b.st.items():
            x = bits(k, pos)
            if k != sum((x >> i & 1) << p for i, p in enumerate(pos)) and abs(a) > 1e-4:
                raise Fail(f"{what}: a qubit that belongs to no variable is left in |1>")
            v[x] += a
        out.append((v, tuple(b.cl.get(c, 0) for c in keep)))
    return out


def off(i):
    return sum(SIZES[:i])
