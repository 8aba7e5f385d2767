"""C06: multi-controlled gates. Every synthesis method evaluated as a full unitary (all inputs, phases, workspace)."""
import cmath
import itertools
import math
import random

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb.q import Prepared, grid, map_state, qubits

ID = "C06"
LEVEL = "exploration"
RULE = "one evaluation = method x control count x control pattern (x compile stage) on the superposition of all basis inputs; distinct = distinct configuration"
TRUSTED = ["vb.sim evaluator", "CPython"]
METHODS = {"auto": 9, "gray": 6, "balauca": 9, "yong": 7, "maslov": 4, "hybrid": 9, "balauca_dirty": 9, "khattar": 9, "amy": 2, "jones": 2, "gidney": 2, "gray_pt": 6}
ONLY2 = ("amy", "jones", "gidney")


def kwargs(method, k):
    return dict(num_ancilla=k) if method in ("hybrid", "balauca_dirty") else {}


def pattern(cs, n):
    if isinstance(cs, int):
        v = cs % (1 << n)
        return [(v >> i) & 1 for i in range(n)]
    return [int(c) for c in cs]


def fire(t, pat):
    return all(((t >> i) & 1) == p for i, p in enumerate(pat))


@case("mcx")
def c_mcx(method, n, cs, k=1, stage="raw", expand="auto"):
    """cs: string or int control pattern; stage raw | compiled | mcm"""
    import qrisp
    c = qrisp.QuantumVariable(n)
    t = qrisp.QuantumBool()
    prep = Prepared([c] if method in ("gidney", "gray_pt") else [c, t]) if stage != "raw" else None
    qrisp.mcx(c, t, method=method, ctrl_state=cs, **kwargs(method, k))
    finish(prep, c.qs, c, t, method, n, pattern(cs, n), stage, expand, f"mcx(method={method!r}, {n} controls, ctrl_state={cs!r}, ancilla={k}, {stage})")


def finish(prep, qs, c, t, method, n, pat, stage, expand, what):
    regs = [qubits(c), qubits(t)]
    if stage == "raw":
        qc = qs
    else:
        qc = qs.compile(compile_mcm=stage == "mcm", **({"workspace": 0} if stage == "ws0" else {}))
        byid = {q.identifier: q for q in qc.qubits}
        regs = [[byid[q.identifier] for q in r] for r in regs]
    clean = method in ("gidney",)
    f = lambda v: (v[0], v[1] ^ fire(v[0], pat))
    ins = grid([n, 1], random.Random(n), 1024)
    if clean:
        ins = [v for v in ins if v[1] == 0]
    if method == "gray_pt" and stage == "raw":
        # documented: phase tolerant. Only the permutation of the basis is specified.
        for v in ins:
            out = run_basis(qc, regs, v, expand)
            big = max(out, key=lambda z: abs(out[z]))
            check(abs(abs(out[big]) - 1) < 1e-3, f"{what}: input {v} is not mapped to a basis state")
            from vb.sim import deposit, extract
            pos = {q: i for i, q in enumerate(qc.qubits)}
            got = tuple(extract(big, [pos[q] for q in r]) for r in regs)
            check(got == tuple(f(v)), f"{what}: input {v} mapped to {got}, expected {tuple(f(v))}")
        return
    map_state(qc, regs, ins, f, what=what, expand=expand, check_dealloc=True, prepared=prep)


def run_basis(qc, regs, v, expand):
    from vb.sim import Sparse, deposit
    pos = {q: i for i, q in enumerate(qc.qubits)}
    b = 0
    for x, r in zip(v, regs):
        b = deposit(x, [pos[q] for q in r], b)
    return Sparse(expand).run(qc, b)[0].st


@case("pt_pair")
def c_pt(n, cs, stage="raw", method="gray_pt"):
    """compute followed by uncompute is the identity on every state"""
    import qrisp
    c = qrisp.QuantumVariable(n)
    t = qrisp.QuantumBool()
    o = qrisp.QuantumBool()
    prep = Prepared([c, o]) if stage != "raw" else None
    qrisp.mcx(c, t, method=method, ctrl_state=cs)
    qrisp.cx(t[0], o[0])
    qrisp.mcx(c, t, method=method + "_inv", ctrl_state=cs)
    pat = pattern(cs, n)
    qc = c.qs
    regs = [qubits(c), qubits(t), qubits(o)]
    if stage != "raw":
        qc = c.qs.compile(compile_mcm=True)
        byid = {q.identifier: q for q in qc.qubits}
        regs = [[byid[q.identifier] for q in r] for r in regs]
    ins = [v for v in grid([n, 1, 1], random.Random(n), 512) if v[1] == 0]
    map_state(qc, regs, ins, lambda v: (v[0], v[1], v[2] ^ fire(v[0], pat)), what=f"{method} compute/copy/uncompute, {n} controls, pattern {cs}, {stage}", prepared=prep)


@case("mcz")
def c_mcz(method, n, cs, k=1, stage="raw"):
    import qrisp
    q = qrisp.QuantumVariable(n)
    prep = Prepared([q]) if stage != "raw" else None
    qrisp.mcz(q, method=method, ctrl_state=cs, num_ancilla=k)
    pat = pattern(cs, n)
    qc, regs = staged(q.qs, [qubits(q)], stage)
    map_state(qc, regs, grid([n], random.Random(n), 1024), lambda v: v, phase=lambda v: -1 if fire(v[0], pat) else 1, what=f"mcz(method={method!r}, {n} qubits, ctrl_state={cs!r})", prepared=prep)


def staged(qs, regs, stage):
    if stage == "raw":
        return qs, regs
    qc = qs.compile(compile_mcm=stage == "mcm")
    byid = {q.identifier: q for q in qc.qubits}
    return qc, [[byid[q.identifier] for q in r] for r in regs]


@case("mcp")
def c_mcp(method, n, cs, phi, stage="raw"):
    import qrisp
    q = qrisp.QuantumVariable(n)
    prep = Prepared([q]) if stage != "raw" else None
    qrisp.mcp(phi, q, method=method, ctrl_state=cs)
    pat = pattern(cs, n)
    qc, regs = staged(q.qs, [qubits(q)], stage)
    map_state(qc, regs, grid([n], random.Random(n), 1024), lambda v: v, phase=lambda v: cmath.exp(1j * phi) if fire(v[0], pat) else 1,
              what=f"mcp({phi}, method={method!r}, {n} qubits, ctrl_state={cs!r})", prepared=prep)


@case("gate")
def c_gate(base, n, cs, method, phi=0.7):
    """gate objects: X, Y, Z, P, H, RX... controlled n times; unitary given by its decomposition"""
    import numpy as np
    import qrisp
    from vb.sim import close, close_phase, op_unitary
    g = {"x": qrisp.XGate(), "z": qrisp.ZGate(), "y": qrisp.YGate(), "h": qrisp.HGate(), "p": qrisp.PGate(phi), "rz": qrisp.RZGate(phi),
         "rx": qrisp.RXGate(phi), "u3": qrisp.U3Gate(phi, 1.1, -0.4), "s": qrisp.SGate(), "t": qrisp.TGate(), "sx": qrisp.SXGate(),
         "ry": qrisp.RYGate(phi), "sx_dg": qrisp.SXDGGate(), "s_dg": qrisp.SGate().inverse(), "t_dg": qrisp.TGate().inverse(), "gphase": qrisp.GPhaseGate(phi),
         "r": qrisp.RGate(phi, 1.3), "id": qrisp.IDGate()}[base]
    cg = g.control(n, ctrl_state=cs, method=method)
    U = op_unitary(cg, "def")
    B = op_unitary(g)
    exp = np.eye(2 ** (n + 1), dtype=complex)
    pat = pattern(cs, n)
    i = int("".join(map(str, pat)), 2)
    exp[2 * i:2 * i + 2, 2 * i:2 * i + 2] = B
    check(close(U, exp), f"{base} gate with {n} controls, pattern {cs}, method {method}: decomposition has wrong matrix (max deviation {np.max(np.abs(U - exp)):.3g})")


_J = {}


def jprog(kind, method, form, cdyn):
    import qrisp
    from qrisp.jasp import make_jaspr
    key = (kind, method, form, cdyn)
    if key not in _J:
        def main(n, cs, phi):
            q = qrisp.QuantumVariable(n)
            t = qrisp.QuantumBool()
            s = cs if cdyn is True else -1 if cdyn is False else cdyn
            if kind == "mcx":
                a = q if form == "qv" else q[:] if form == "arr" else [q[i] for i in range(form)]
                qrisp.mcx(a, t, method=method, ctrl_state=s)
            elif kind == "mcz":
                qrisp.mcz(q if form == "qv" else [q[i] for i in range(form)], method=method, ctrl_state=s)
            else:
                qrisp.mcp(phi, q if form == "qv" else [q[i] for i in range(form)], method=method, ctrl_state=s)
            return q, t
        _J[key] = make_jaspr(main)(1, 1, 1.0)
    return _J[key]


@case("traced")
def c_traced(kind, method, n, cs, phi=0.0, form="qv", cdyn=True):
    out = jprog(kind, method, form, cdyn).to_qc(n, cs, phi)
    qc = out[-1]
    regs = [r for r in out[:-1] if isinstance(r, list)]
    pat = pattern(cs, n) if cdyn is True else [1] * n if cdyn is False else pattern(cdyn, n)
    what = f"traced {kind}(method={method!r}, {n} qubits, ctrl_state={cs if cdyn is True else cdyn or -1!r}, controls as {form})"
    ins = grid([n, 1], random.Random(n), 512)
    if method == "gidney":
        ins = [v for v in ins if v[1] == 0]
    if kind == "mcx":
        map_state(qc, regs, ins, lambda v: (v[0], v[1] ^ fire(v[0], pat)), what=what)
    else:
        ph = -1 if kind == "mcz" else cmath.exp(1j * phi)
        map_state(qc, regs, ins, lambda v: v, phase=lambda v: ph if fire(v[0], pat) else 1, what=what)


def patterns(n, r, cap):
    allp = ["".join(p) for p in itertools.product("01", repeat=n)]
    if len(allp) <= cap:
        return allp
    return sorted({"1" * n, "0" * n, "1" + "0" * (n - 1), "0" * (n - 1) + "1"} | {"".join(r.choice("01") for _ in range(n)) for _ in range(cap - 4)})


for _m in METHODS:
    def _mk(m):
        @task(f"mcx.{m}", timeout=500, weight=2 if METHODS[m] > 6 else 1)
        def t(ctx):
            ctx.bound(f"mcx method {m}: 1..{METHODS[m]} controls (all patterns up to 4 controls, sampled above; string and integer patterns), ancilla budgets 0..4 where offered; raw, compiled and measurement-compiled circuits")
            r = ctx.rng
            for n in range(2 if m in ONLY2 else 1, METHODS[m] + 1):
                ks = (0, 1, 2, 3, 5) if m in ("hybrid",) else (1, 2, 3, 4) if m == "balauca_dirty" else (1,)
                for k in ks:
                    for cs in patterns(n, r, 16 if n < 5 else 5) + [-1, 0 if n < 2 else 1, (1 << n) - 2]:
                        if ctx.full():
                            return
                        if n > 6 and k > 1 and cs != -1 and r.random() < .6:
                            continue
                        ctx.run(c_mcx, method=m, n=n, cs=cs, k=k)
                    for cs in ("1" * n, "".join(r.choice("01") for _ in range(n))):
                        if m == "gray_pt":
                            continue
                        ctx.run(c_mcx, method=m, n=n, cs=cs, k=k, stage="compiled")
                        ctx.run(c_mcx, method=m, n=n, cs=cs, k=k, stage="mcm")
                        ctx.run(c_mcx, method=m, n=n, cs=cs, k=k, stage="compiled", expand="def") if m in ("auto", "balauca") and n < 7 else None
    _mk(_m)


@task("pairs", timeout=400)
def t_pairs(ctx):
    for n in range(1, 6):
        for cs in patterns(n, ctx.rng, 16):
            ctx.run(c_pt, n=n, cs=cs)
            if n < 4:
                ctx.run(c_pt, n=n, cs=cs, stage="mcm")
            if n == 2:
                ctx.run(c_pt, n=n, cs=cs, method="gidney")
                ctx.run(c_pt, n=n, cs=cs, method="gidney", stage="mcm")


@task("mcz", timeout=400)
def t_mcz(ctx):
    ctx.bound("mcz: 1..7 qubits; mcp: 1..7 qubits, random angles")
    r = ctx.rng
    for m, lo, hi in (("auto", 1, 6), ("gray", 1, 5), ("balauca", 2, 7), ("yong", 3, 6), ("maslov", 3, 5), ("hybrid", 3, 7), ("khattar", 2, 7)):
        for n in range(lo, hi + 1):
            for cs in patterns(n, r, 8) + [-1, 1]:
                if ctx.full():
                    return
                ctx.run(c_mcz, method=m, n=n, cs=cs)
            ctx.run(c_mcz, method=m, n=n, cs=-1, stage="mcm")


@task("mcp", timeout=400)
def t_mcp(ctx):
    r = ctx.rng
    for m in ("auto", "gray", "balauca", "khattar"):
        for n in range(1, 8):
            if n > 5 and m == "gray":
                continue
            for cs in patterns(n, r, 8) + [-1, 1]:
                if ctx.full():
                    return
                if n == 1 and m == "gray":
                    continue
                ctx.run(c_mcp, method=m, n=n, cs=cs, phi=round(r.uniform(-7, 7), 3))
            if n > 1 or m != "gray":
                ctx.run(c_mcp, method=m, n=n, cs=-1, phi=0.8, stage="mcm")


@task("gates", timeout=400)
def t_gates(ctx):
    ctx.bound("gate objects with 1..4 controls, every pattern, methods auto and gray")
    for base in ("x", "y", "z", "h", "p", "rz", "rx", "u3", "s", "t", "sx", "ry", "sx_dg", "s_dg", "t_dg", "gphase", "r", "id"):
        for n in range(1, 5):
            for cs in patterns(n, ctx.rng, 8):
                for m in ("auto", "gray"):
                    if ctx.full():
                        return
                    ctx.run(c_gate, base=base, n=n, cs=cs, method=m)


@task("traced", timeout=700, weight=3)
def t_traced(ctx):
    ctx.bound("traced multi-controlled gates with dynamic register size: 1..7 controls (circuit extraction)")
    r = ctx.rng
    for kind, m, forms in (("mcx", "balauca", ("qv", "arr")), ("mcx", "khattar", ("qv", "arr")), ("mcp", "khattar", ("qv",)), ("mcz", "khattar", ("qv",)), ("mcx", "gray", (1, 2, 3, 4)), ("mcx", "gidney", (2,)),  ("mcx", "auto", ("qv", 2, 3)), ("mcz", "auto", ("qv",)), ("mcz", "balauca", ("qv",)), ("mcp", "balauca", ("qv",)), ("mcp", "auto", ("qv",))):
        for form in forms:
            for n in ([1, 2, 3, 4, 5, 7] if not isinstance(form, int) else [form]):
                if kind == "mcz" and n == 1:
                    continue
                dyn = not isinstance(form, int)
                for cs in sorted({(1 << n) - 1, 0, 1 % (1 << n), r.randrange(1 << n)}) if dyn else [(1 << n) - 1]:
                    if ctx.full():
                        return
                    ctx.run(c_traced, kind=kind, method=m, n=n, cs=cs, phi=0.9, form=form, cdyn=dyn)
    for kind in ("mcx", "mcz", "mcp"):
        for m in ("balauca", "khattar"):
            for cs in ("01", "110", "0010"):
                ctx.run(c_traced, kind=kind, method=m, n=len(cs), cs=0, phi=0.9, form="qv", cdyn=cs)
    for cs in ("00", "01", "10"):
        ctx.run(c_traced, kind="mcx", method="gidney", n=2, cs=0, form=2, cdyn=cs)
    for cs in ("01", "110"):
        ctx.run(c_traced, kind="mcp", method="gray", n=len(cs), cs=0, phi=0.9, form=len(cs), cdyn=cs)
        ctx.run(c_traced, kind="mcp", method="gray", n=len(cs), cs=0, phi=0.9, form=len(cs), cdyn=False)
        ctx.run(c_traced, kind="mcx", method="gray", n=len(cs), cs=0, phi=0.9, form=len(cs), cdyn=cs)
    ctx.gc()
