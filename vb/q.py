"""Contract evaluation for register-level operations: run the real code, take the circuit it appended and evaluate it
with the independent evaluator on a superposition of ALL listed inputs with distinct amplitudes. This decides value
action, frame (every other qubit zero), workspace release and relative phases at once."""
import cmath
import itertools
import math
import random

from vlib.api import Fail, Undecided, check
from vb.sim import DirtyDealloc, SimError, Sparse, deposit, extract


def fresh_names():
    """reset global bookkeeping the package keeps between programs"""
    from qrisp.core import quantum_session
    return quantum_session


def qubits(x):
    """list of Qubit of a variable / list / qubit"""
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += qubits(y)
        return r
    if hasattr(x, "flatten") and hasattr(x, "qtype"):
        r = []
        for y in x.flatten():
            r += qubits(y)
        return r
    if hasattr(x, "reg"):
        return list(x.reg)
    return [x]


def amplitude(i):
    r = random.Random(i)
    return (0.6 + 0.8 * r.random()) * cmath.exp(2j * cmath.pi * r.random())


class Prepared:
    """product superposition with generic amplitudes, prepared by gates of the program itself (needed whenever the
    circuit is rewritten by the compiler, which may use a register's qubit as workspace before its allocation)"""

    def __init__(self, regs, seed=5):
        from qrisp import p, ry
        r = random.Random(seed)
        self.amp = {}
        for reg in regs:
            for q in qubits(reg):
                th, ph = r.uniform(.9, 2.2), r.uniform(0, 6.28)
                ry(th, q)
                p(ph, q)
                self.amp[q.identifier] = (math.cos(th / 2), math.sin(th / 2) * cmath.exp(1j * ph))

    def amplitude(self, t, regs):
        a = 1
        for v, reg in zip(t, regs):
            for i, q in enumerate(reg):
                if q.identifier in self.amp:
                    a *= self.amp[q.identifier][v >> i & 1]
                elif v >> i & 1:
                    return 0
        return a

    def inputs(self, regs):
        return [t for t in itertools.product(*[range(1 << len(r)) for r in regs]) if self.amplitude(t, regs)]


def map_state(qc, regs, inputs, f, check_dealloc=True, phase=None, tol=1e-3, expand="auto", outs=None, limit=1 << 17, what="", start=0, free=(), prepared=None):
    """regs: list of qubit lists (input registers). inputs: iterable of tuples of ints. f(tuple) -> tuple of ints: contents of
    `outs` (default: regs) afterwards. Every other qubit must be zero at the end (start: all others zero).
    phase: None -> relative phases must be trivial; function(tuple) -> expected extra phase factor; "any" -> phases are not compared."""
    pos = {q: i for i, q in enumerate(qc.qubits)}
    rp = [[pos[q] for q in qubits(r)] for r in regs]
    op_ = rp if outs is None else [[pos[q] for q in qubits(r)] for r in outs]
    freemask = 0
    for q in qubits(list(free)):
        freemask |= 1 << pos[q]
    init, expc = {}, {}
    src = {}
    if prepared:
        qr = [qubits(r) for r in regs]
        inputs = prepared.inputs(qr)
    for i, t in enumerate(inputs):
        b = 0
        for v, p in zip(t, rp):
            if v >= 1 << len(p):
                raise Undecided("input out of range")
            b = deposit(v, p, b)
        o = f(t)
        e = 0
        for v, p in zip(o, op_):
            check(0 <= v < (1 << len(p)), lambda: f"{what}: expected value {v} does not fit in the {len(p)}-qubit result (input {t})")
            e = deposit(v, p, e)
        a = prepared.amplitude(t, qr) if prepared else amplitude(i)
        init[b] = a
        if e in expc:
            raise Undecided("specification is not injective")
        expc[e] = a * (phase(t) if callable(phase) else 1)
        src[e] = t
    s = Sparse(expand, limit=limit)
    s.check_dealloc = check_dealloc
    s.merge = True
    try:
        br = s.run(qc, 0 if prepared else init)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    n0 = sum(abs(v) ** 2 for v in init.values())
    for b in br:
        st = b.st
        if freemask:
            st2 = {}
            for k, v in st.items():
                if k & ~freemask in st2 and abs(v) > 1e-6:
                    raise Fail(f"{what}: free qubits entangled")
                st2[k & ~freemask] = v
            st = st2
        nb = sum(abs(v) ** 2 for v in st.values())
        if nb < 1e-9 * n0:
            continue
        if phase == "any":
            st = {k: abs(v) / abs(expc[k]) * expc[k] if abs(expc.get(k, 0)) > 0 else v for k, v in st.items()}
        # proportionality constant from the largest expected component
        ov = sum(expc[k].conjugate() * v for k, v in st.items() if k in expc)
        sc = ov / n0 if abs(ov) > 1e-9 else 0
        scale = (nb / n0) ** .5
        for k, v in st.items():
            e = expc.get(k, 0) * sc
            if abs(v - e) > tol * scale * 2:
                describe(what, qc, k, v, e, rp, op_, init, s, expc, src, f, prepared)
        for k, e in expc.items():
            if abs(st.get(k, 0) - e * sc) > tol * scale * 2:
                describe(what, qc, k, st.get(k, 0), e * sc, rp, op_, init, s, expc, src, f, prepared)


def describe(what, qc, k, v, e, rp, op_, init, s, expc, src, f, prepared=None):
    """find a single input showing the deviation"""
    s.check_dealloc = False
    if prepared:
        raise Fail(f"{what}: after preparing a generic superposition the component {[extract(k, p) for p in op_]} (rest {k:b}) has amplitude {v:.4f} instead of {e:.4f}")
    for b0 in init:
        t = tuple(extract(b0, p) for p in rp)
        want = f(t)
        out = s.run(qc, b0)[0].st
        big = max(out, key=lambda x: abs(out[x]))
        got = tuple(extract(big, p) for p in op_)
        rest = big
        for p in op_:
            rest = deposit(0, p, rest)
        if got != tuple(want) or rest or abs(abs(out[big]) - max(abs(x) for x in out.values())) > 1e-6 or len([x for x in out.values() if abs(x) > 1e-3]) > 1:
            raise Fail(f"{what}: input {t} gives {got}{' with dirty workspace' if rest else ''} (amplitude {out[big]:.3f}), expected {tuple(want)}")
    raise Fail(f"{what}: relative phase introduced (component {[extract(k, p) for p in op_]}: {v:.4f} instead of {e:.4f})")


def grid(sizes, r, cap):
    """all input tuples if at most cap, else a random sample (incl. corners)"""
    tot = 1
    for s in sizes:
        tot <<= s
    if tot <= cap:
        return list(itertools.product(*[range(1 << s) for s in sizes]))
    out = set()
    corners = [[0, 1, (1 << s) - 1, (1 << s) >> 1] for s in sizes]
    corners = [[c % (1 << s) for c in cs] for cs, s in zip(corners, sizes)]
    for t in itertools.islice(itertools.product(*corners), cap // 2):
        out.add(t)
    while len(out) < cap:
        out.add(tuple(r.randrange(1 << s) for s in sizes))
    return sorted(out)


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def relation(qc, regs, inputs, outs, rel, check_dealloc=True, phase_ok=False, tol=1e-3, what="", limit=1 << 17):
    """like map_state for results that are only specified up to a relation: regs must keep their contents, every input must give
    exactly one content of `outs`, without relative phase (unless phase_ok), everything else zero; rel(t, o) -> None or a message"""
    pos = {q: i for i, q in enumerate(qc.qubits)}
    rp = [[pos[q] for q in qubits(r)] for r in regs]
    op_ = [[pos[q] for q in qubits(r)] for r in outs]
    init, amp = {}, {}
    for i, t in enumerate(inputs):
        b = 0
        for v, p in zip(t, rp):
            b = deposit(v, p, b)
        init[b] = amp[tuple(t)] = amplitude(i)
    s = Sparse(limit=limit)
    s.check_dealloc, s.merge = check_dealloc, True
    try:
        br = s.run(qc, init)
    except DirtyDealloc as ex:
        raise Fail(f"{what}: {ex}")
    except SimError as ex:
        raise Undecided(str(ex))
    for b in br:
        seen, ph = {}, None
        nb = (sum(abs(v) ** 2 for v in b.st.values()) / sum(abs(v) ** 2 for v in init.values())) ** .5
        for k, v in b.st.items():
            if abs(v) < tol * nb:
                continue
            t = tuple(extract(k, p) for p in rp)
            o = tuple(extract(k, p) for p in op_)
            rest = k
            for p in rp + op_:
                rest = deposit(0, p, rest)
            check(t in amp, lambda: f"{what}: operands changed to {t} (result {o})")
            check(not rest, lambda: f"{what}: workspace left non-zero for input {t} (result {o})")
            check(t not in seen, lambda: f"{what}: input {t} gives both {seen[t]} and {o}")
            seen[t] = o
            m = rel(t, o)
            check(not m, lambda: f"{what}: {m}")
            x = v / amp[t] / nb
            check(abs(abs(x) - 1) < 20 * tol, lambda: f"{what}: amplitude of input {t} changed by the factor {x}")
            if not phase_ok:
                ph = x if ph is None else ph
                check(abs(x - ph) < 20 * tol, lambda: f"{what}: relative phase for input {t}: {x} instead of {ph}")
