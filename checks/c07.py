"""C07: matrices of gates, their decompositions, inverses and controls.

Deductive core: the real constructors / inverse / control / bind code is executed with symbolic real parameters; the gate data
and decompositions it returns are evaluated in the exact ring of trigonometric polynomials (vc.trig) and compared with the
matrix-algebra specification. Loop-free, full parameter domain: each discharged obligation holds for ALL real parameters.
Bounded part: random nestings of inverse/control/copy/wrap/circuit with numeric parameters incl. the gates' own get_unitary."""
import itertools

import numpy as np

from vlib.api import Fail, Undecided, case, check, task, thorough
from vb import expr as X
from vb.expr import GATES, Num, Sym

ID = "C07"
LEVEL = "proof"
MIN_OBLIGATIONS = 150
TRUSTED = ["vc.trig normal form (unique representation of trigonometric polynomials)", "vb.expr matrix specifications", "CPython, sympy expression arithmetic on linear angles"]
ASSUMPTIONS = ["machine floats in gate data are read as the dyadic multiples of pi they approximate (1e-9)"]
EXPLANATION = "proof: all real parameters for every listed gate structure; nesting depth and control count are bounded as stated"


def views(g, how):
    from vb.sim import op_unitary
    if how == "own":
        return np.array(g.get_unitary(), dtype=complex)
    return op_unitary(g, how)


@case("nest")
def c_nest(e, env=None, how=("auto", "def", "own")):
    U = X.dense(X.expected(e, Num, env or {}))
    g = X.build(e, env or {})
    check(g.num_qubits == X.width(e), f"{X.show(e)}: {g.num_qubits} qubits instead of {X.width(e)}")
    for h in how:
        if h == "def" and g.definition is None:
            continue
        V = views(g, h)
        d = np.max(np.abs(U - V))
        check(d < 5e-4, f"{X.show(e)} {env or ''}: {dict(auto='gate data', own='own matrix', **{'def': 'decomposition'})[h]} deviates from the matrix-algebra result by {d:.3g}")


def prove(ctx, e, how):
    from vc import trig

    def f():
        want = X.expected(e, Sym)
        g = X.build(e)
        if how == "def" and g.definition is None:
            return None
        got = trig.matrix(g, how)
        d = trig.equal(want, got)
        if d is None:
            return None
        env, _ = trig.witness(want, got, ctx.rng)
        return d, (dict(e=e, env=env) if env is not None else None)
    ctx.prove(f"{how}: {X.show(e)}", f, c_nest)


def base(g, syms="abc"):
    return ["gate", g, list(syms[:GATES[g][1]])]


@task("library", timeout=500, weight=2)
def t_lib(ctx):
    for fn in ("standard_operations.* (gate constructors)", "Operation.inverse", "U3Gate.inverse", "PauliGate.inverse", "ControlledOperation.__init__", "ControlledOperation.inverse", "PTControlledOperation.__init__",
               "controlled_operations.controlled_gate_circ", "gray_synthesis.gray_phase_synth_qb_list", "QuantumCircuit.inverse", "QuantumCircuit.to_gate", "Operation.copy"):
        ctx.function(fn)
    for g in GATES:
        b = base(g)
        for e in (b, ["inv", b], ["inv", ["inv", b]], ["copy", b], ["copy", ["inv", b]], ["wrap", b], ["inv", ["wrap", b]]):
            for how in ("auto", "def"):
                prove(ctx, e, how)
            ctx.run(c_nest, e=e, env=dict(a=0.7, b=-1.9, c=2.6))
            ctx.run(c_nest, e=["bind", e], env=dict(a=0.7, b=-1.9, c=2.6))


def _ctl(names, tag):
    @task(f"control.{tag}", timeout=500, weight=2)
    def t(ctx):
        ctx.bound("structures: every library gate with 1..3 controls, every control pattern, methods auto/gray, inverse of control, control of inverse, control of control")
        for g in names:
            b = base(g)
            for n in (1, 2, 3) if GATES[g][2] == 1 else (1, 2):
                for cs in ("".join(p) for p in itertools.product("01", repeat=n)):
                    e = ["ctrl", b, n, cs, None]
                    for x in (e, ["inv", e], ["ctrl", ["inv", b], n, cs, None]):
                        for how in (("auto", "def") if n < 3 or cs.count("1") % 2 else ("auto",)):
                            prove(ctx, x, how)
                    if n == 1:
                        for c2 in "01":
                            prove(ctx, ["ctrl", e, 1, c2, None], "def")
                            prove(ctx, ["ctrl", ["inv", ["ctrl", ["inv", b], 1, c2, None]], 1, cs, None], "def")
                            prove(ctx, ["ctrl", ["wrap", e], 1, c2, None], "def")
                    prove(ctx, ["ctrl", b, n, cs, "gray"], "def")
                    if ctx.full():
                        return
    return t


_names = list(GATES)
for _i in range(5):
    _ctl(_names[_i::5], str(_i))


@task("numeric", timeout=500)
def t_num(ctx):
    ctx.bound("random nestings of inverse/control/copy/wrap/composite circuits, depth <= 4, <= 6 qubits, numeric parameters; own matrix, gate data and decomposition compared with matrix algebra")
    r = ctx.rng
    for i in range(400 if not thorough() else 3000):
        if ctx.full():
            return
        e = X.random_expr(r, r.randint(1, 4), 5 + (i % 10 == 0), sym=False, methods=(None, None, "gray", "auto"))
        ctx.run(c_nest, e=e)


@task("int_patterns", timeout=300)
def t_int(ctx):
    for g in ("x", "p", "ry", "rxx", "gphase", "h"):
        for n in (1, 2, 3):
            for cs in range(-1, 1 << n):
                e = ["ctrl", ["gate", g, [0.6][:GATES[g][1]]], n, cs, None]
                ctx.run(c_nest, e=e)
                ctx.run(c_nest, e=["inv", e])
    for g in GATES:
        for n in (1, 2):
            for cs in ("0" * n, "1" * n, "01"[:n]):
                b = base(g)
                ctx.run(c_nest, e=["bind", ["ctrl", b, n, cs, None]], env=dict(a=0.7, b=-1.9, c=2.6))
                ctx.run(c_nest, e=["bind", ["inv", ["ctrl", b, n, cs, None]]], env=dict(a=0.7, b=-1.9, c=2.6))
        if ctx.full():
            return


@task("symbolic.nest", timeout=500)
def t_symnest(ctx):
    r = ctx.rng
    for i in range(120 if not thorough() else 600):
        if ctx.full():
            return
        e = X.random_expr(r, r.randint(2, 3), 4, sym=True, methods=(None, "gray"))
        prove(ctx, e, r.choice(("auto", "def")))
        if X.symbols(e) and i % 2:
            ctx.run(c_nest, e=["bind", e], env=dict(a=0.7, b=-1.9, c=2.6))


# gates as they are applied: circuit methods, and application functions on variables (direct and traced) -----------------------------------
PAR = {g: v[1] for g, v in GATES.items()}
SHAPES = {**{g: (v[1], v[2]) for g, v in GATES.items() if g != "u1"}, "s_dg": (0, 1), "t_dg": (0, 1), "crx": (1, 2), "crz": (1, 2), "ccx": (0, 3), "unitary": (3, 1)}


def as_expr(g, p):
    if g in ("s_dg", "t_dg"):
        return ["inv", ["gate", g[0], []]]
    if g in ("crx", "crz"):
        return ["ctrl", ["gate", g[1:], list(p)], 1, "1", None]
    if g == "ccx":
        return ["ctrl", ["gate", "x", []], 2, "11", None]
    if g == "unitary":
        return ["gate", "u3", list(p)]
    return ["gate", g, list(p)]


def positions(args):
    """the qubit tuples a broadcast application stands for"""
    n = max([len(a) for a in args if isinstance(a, list)] or [0])
    return [tuple(args)] if not n else [tuple(a[i] if isinstance(a, list) else a for a in args) for i in range(n)]


def whole(e, pos, n):
    U = np.eye(1 << n, dtype=complex)
    M = X.expected(e, Num, {})
    for q in pos:
        U = X.dense(X.embed(M, list(q), n, Num)) @ U
    return U


@case("circuit_method")
def c_meth(g, params, args, n):
    from qrisp import QuantumCircuit
    from vb.sim import unitary
    qc = QuantumCircuit(n)
    f = getattr(qc, g)
    p = [X.dense(X.expected(as_expr(g, params), Num, {}))] if g == "unitary" else params
    f(*p, *args)
    d = np.max(np.abs(unitary(qc) - whole(as_expr(g, params), positions(args), n)))
    check(d < 5e-4, f"circuit.{g}({params}, qubits {args}) on {n} qubits does not apply the named gate (deviation {d:.3g})")


def _app(g, params, args, qv, extra=None):
    import qrisp
    pick = lambda a: [qv[i] for i in a] if isinstance(a, list) else qv[a]
    p = [X.dense(X.expected(as_expr(g, params), Num, {}))] if g == "unitary" else list(params)
    getattr(qrisp, g)(*p, *[pick(a) for a in args])


@case("function")
def c_func(g, params, args, n, traced=False, var=False):
    import qrisp
    from vb.prog import extract
    from vb.sim import unitary
    if not traced:
        qv = qrisp.QuantumVariable(n)
        if var:
            getattr(qrisp, g)(*params, qv)
        else:
            _app(g, params, args, qv)
        qc, regs = qv.qs.copy(), [list(qv)]
    else:
        from jax import numpy as jnp

        def main(*p):
            qv = qrisp.QuantumVariable(n)
            if var:
                getattr(qrisp, g)(*p, qv)
            else:
                _app(g, p, args, qv)
            return qv
        regs, _, qc = extract(qrisp.make_jaspr(main)(*params), params)
    bare = qc.clearcopy()
    for ins in qc.data:
        if ins.op.name not in ("qb_alloc", "qb_dealloc"):
            bare.append(ins.op, ins.qubits)
    order = [bare.qubits.index(q) for q in regs[0]]
    check(sorted(order) == list(range(n)), lambda: f"{g}: the program has {len(bare.qubits)} qubits instead of {n}")
    want = whole(as_expr(g, params), [tuple(order[i] for i in q) for q in positions([list(range(n))] if var else args)], n)
    d = np.max(np.abs(unitary(bare) - want))
    check(d < 5e-4, f"{'traced ' if traced else ''}{g}({params}, {'whole variable' if var else f'qubits {args}'}) on {n} qubits does not apply the named gate (deviation {d:.3g})")


@task("applied", timeout=400, weight=2)
def t_app(ctx):
    import qrisp
    from qrisp import QuantumCircuit
    ctx.bound("every gate method of circuits and every gate application function, <= 4 qubits, single qubits, permuted qubits and lists of qubits")
    r = ctx.rng
    for g, (k, w) in SHAPES.items():
        for params in ([[]] if not k else [[round(r.uniform(-3, 3), 3) for _ in range(k)] for _ in range(2)] + [[0.0] * k]):
            lay = []
            for _ in range(2):
                n = r.randint(w, 4)
                lay.append((r.sample(range(n), w), n))
            if g != "unitary":
                lay.append(([list(x) for x in ([(0, 1)] if w == 1 else [(0, 1), (3, 2)])], 4) if w < 3 else ([2, 0, 3], 4))
            if w == 2:
                lay.append(([2, [0, 3]], 4))
            for args, n in lay:
                if hasattr(QuantumCircuit, g):
                    ctx.run(c_meth, g=g, params=params, args=args, n=n)
                if hasattr(qrisp, g):
                    ctx.run(c_func, g=g, params=params, args=args, n=n)
                    if not any(isinstance(a, list) for a in args) and g != "unitary":
                        ctx.run(c_func, g=g, params=params, args=args, n=n, traced=True)
            if w == 1 and hasattr(qrisp, g) and g not in ("unitary", "id"):
                ctx.run(c_func, g=g, params=params, args=[], n=3, var=True)
                if g != "gphase":
                    ctx.run(c_func, g=g, params=params, args=[], n=3, var=True, traced=True)
        if ctx.full():
            return
