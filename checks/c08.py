"""C08: circuit rewriting passes."""
import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import circ, sim
from vb import expr as E

ID = "C08"
LEVEL = "exploration"
RULE = ("one evaluation = one generated circuit through one pass (or a random pipeline of passes), compared with the input circuit on the zero state and, where the pass "
        "does not presuppose it, on random entangled inputs: per classical record, the conditional density matrix; distinct = distinct (circuit, pass)")
TRUSTED = ["vb.sim branch evaluator", "numpy"]
TECHNIQUE = "run-time contract: input and output circuit of the real pass induce the same instrument (conditional states per classical record), plus gate-set postconditions"
LEVEL_NOTE = "bounded: generated circuits on up to 4 qubits and 20 instructions"

ZERO_ONLY = {"cancel_zero_controls", "arrange_swaps"}      # documented to presuppose the zero state


def instrument(qc, init, order=None):
    """{classical record: density matrix}; order: positions of the original qubits in this circuit"""
    n = len(qc.qubits)
    out = {}
    cl = list(qc.clbits)
    for b in sim.Sparse().run(qc, dict(init) if isinstance(init, dict) else init):
        v = np.zeros(1 << n, dtype=complex)
        for k, a in b.st.items():
            if order is not None:
                kk = 0
                for i, p in enumerate(order):
                    if (k >> p) & 1:
                        kk |= 1 << i
                rest = k
                for p in order:
                    rest &= ~(1 << p)
                if rest:
                    raise Fail("an added qubit does not stay in the zero state")
                k = kk
            v[k] += a
        key = tuple(b.cl.get(i, 0) for i in range(len(cl)))
        r = np.outer(v, v.conj())
        out[key] = out[key] + r if key in out else r
    return out


def compare(A, B, msg, tol=5e-4):
    for k in set(A) | set(B):
        x, y = A.get(k), B.get(k)
        if x is None:
            x = np.zeros_like(y)
        if y is None:
            y = np.zeros_like(x)
        if x.shape != y.shape:
            n = max(x.shape[0], y.shape[0])
            x = np.pad(x, (0, n - x.shape[0]))
            y = np.pad(y, (0, n - y.shape[0]))
        d = float(np.max(np.abs(x - y)))
        check(d < tol, lambda: f"{msg}: record {k}: conditional states differ by {d:.3g}")


def inputs(n, seed, zero_only):
    yield 0
    if zero_only:
        return
    g = np.random.default_rng(seed)
    for _ in range(1):
        v = g.normal(size=1 << n) + 1j * g.normal(size=1 << n)
        v /= np.linalg.norm(v)
        yield {i: complex(v[i]) for i in range(1 << n)}


def snapshot(qc):
    return (list(qc.qubits), list(qc.clbits), [(i.op, i.op.name, list(i.qubits), list(i.clbits), [str(p) for p in (i.op.params or [])]) for i in qc.data])


def flat_names(qc):
    return [i.op.name for i in qc.data]


def count(qc):
    return sum(1 for i in qc.data if i.op.name not in ("gphase", "barrier"))


def get_pass(name, arg):
    import qrisp
    P = need("qrisp.circuit.pass_management.passes." + (name if name != "transpile" else "decompose"))
    if name == "decompose":
        lvl = np.inf if arg is None or arg.get("level") is None else arg["level"]
        pred = None
        if arg and arg.get("pred"):
            pred = {"two": lambda op: op.num_qubits <= 2, "noctrl": lambda op: not sim.is_controlled(op)}[arg["pred"]]
        return P.decompose(lvl, pred, bool(arg and arg.get("gphase")))
    if name in ("convert_to_cx", "convert_to_cz"):
        return getattr(P, name)(bool(arg and arg.get("strict")))
    if name == "manual_layout":
        return P.manual_layout(arg["map"])
    if name == "transpile":
        return lambda qc: qc.transpile(np.inf if arg is None else arg["level"])
    return getattr(P, name)


def post(name, arg, qc, out, d):
    """gate-set / layout / metric claims of the pass"""
    names = flat_names(out)
    if name == "remove_barriers":
        check("barrier" not in names, "barriers are left")
    if name in ("convert_to_cx", "convert_to_cz"):
        left = {"convert_to_cx": {"cz", "cy", "swap"}, "convert_to_cz": {"cx", "cy", "swap"}}[name] & set(names)
        check(not left, lambda: f"{left} left after {name}")
        if arg and arg.get("strict"):
            t = name[-2:]
            for i in out.data:
                check(i.op.num_qubits != 2 or i.op.name in (t, "barrier"), lambda: f"two-qubit gate {i.op.name} left by strict {name}")
    if name == "convert_to_prx":
        U3 = need("qrisp.circuit", "U3Gate")
        for i in out.data:
            op = getattr(i.op, "base_op", i.op)
            if isinstance(op, U3) and op.name != "gphase":
                check(op.name == "prx", lambda: f"single-qubit gate {op.name} left")
    if name == "resolve_swaps":
        check("swap" not in names, "swap left")
    if name in ("decompose", "transpile") and (arg is None or (arg.get("level") is None and not arg.get("pred"))):
        for i in out.data:
            check(not i.op.definition, lambda: f"composite gate {i.op.name} left")
        if name == "decompose" and arg and arg.get("gphase"):
            check(names.count("gphase") <= 1, "several global phases left")
    if name in ("cancel_zero_controls", "combine_single_qubit_gates", "fuse_adjacents", "arrange_swaps", "commute_swaps", "reverse_parallelize", "gray_synth_toffoli"):
        before = sum(1 for i in qc.data if i.op.name != "barrier")
        check(count(out) <= before, lambda: f"{name} increased the number of gates from {before} to {count(out)} (global phases aside)")


def run_one(name, arg, d, seed, qc=None):
    p = get_pass(name, arg)
    qc = circ.build(d) if qc is None else qc
    snap = snapshot(qc)
    try:
        out = p(qc)
    except ValueError as e:
        if arg and arg.get("strict"):
            ok = {"convert_to_cx": {"cx", "cz", "cy", "swap", "barrier"}, "convert_to_cz": {"cx", "cz", "cy", "swap", "barrier"}}[name]
            check(any(i.op.num_qubits == 2 and i.op.name not in ok for i in qc.data), lambda: f"strict pass rejected a convertible circuit: {e}")
            return None, None
        raise
    check(out is not qc, lambda: f"{name} returned its input object")
    check(snapshot(qc) == snap, lambda: f"{name} changed its input")
    return qc, out


@case("pass")
def c_pass(name, arg, d, seed):
    qc, out = run_one(name, arg, d, seed)
    if out is None:
        return
    msg = f"{name}{'' if not arg else arg} on {circ.show(d)}"
    n = d["n"]
    post(name, arg, qc, out, d)
    check(out.clbits == qc.clbits, lambda: f"{msg}: classical bits changed")
    if name == "resolve_swaps":
        for A, B in ((qc, out),):
            for init in inputs(n, seed, False):
                compare({k: np.array([[np.trace(v)]]) for k, v in instrument(A, init).items()}, {k: np.array([[np.trace(v)]]) for k, v in instrument(B, init).items()}, msg)
        return
    order = None
    if name == "manual_layout":
        mp = arg["map"]
        check(len(out.qubits) == max(mp) + 1, lambda: f"{msg}: {len(out.qubits)} qubits")
        order = list(mp)
        for i, p in enumerate(mp):
            check(out.qubits[p] == qc.qubits[i], lambda: f"{msg}: logical qubit {i} is not at physical position {p}")
    else:
        check(out.qubits == qc.qubits, lambda: f"{msg}: qubits changed")
    try:
        for init in inputs(n, seed, name in ZERO_ONLY or name == "manual_layout"):
            A = instrument(qc, init)
            B = instrument(out, init, order)
            compare(A, B, msg)
            compare(A, instrument_def(out, init, order), msg + " (through the definitions of the emitted gates)")
    except sim.SimError as e:
        raise Undecided(str(e))


def instrument_def(qc, init, order=None):
    """same, but controlled gates through their definitions (what a backend executes)"""
    s = sim.Sparse
    old = s.__init__.__defaults__
    s.__init__.__defaults__ = ("def",) + old[1:]
    try:
        return instrument(qc, init, order)
    finally:
        s.__init__.__defaults__ = old


@case("pipeline")
def c_pipe(names, d, seed):
    from qrisp import PassManager
    pm = PassManager()
    for nm, arg in names:
        pm.add_pass(get_pass(nm, arg))
    check(len(pm) == len(names), "pass manager lost a pass")
    qc = circ.build(d)
    snap = snapshot(qc)
    out = pm.run(qc)
    check(snapshot(qc) == snap, "pass manager changed its input")
    msg = f"{[n for n, _ in names]} on {circ.show(d)}"
    tr = any(n == "resolve_swaps" for n, _ in names)
    zero = any(n in ZERO_ONLY for n, _ in names)
    for init in inputs(d["n"], seed, zero):
        A, B = instrument(qc, init), instrument(out, init)
        if tr:
            A, B = ({k: np.array([[np.trace(v)]]) for k, v in X.items()} for X in (A, B))
        compare(A, B, msg, 1e-3)


@case("symbolic")
def c_sym(name, arg, d, env, seed):
    """pass on a circuit with free parameters, values substituted afterwards"""
    import sympy
    qc = circ.build(d, None)
    ref = circ.build(d, env)
    p = get_pass(name, arg)
    try:
        out = p(qc)
    except TypeError as e:
        if "relational" in str(e) or "truth value" in str(e) or "real" in str(e):
            return          # rejected: the pass needs numbers
        raise
    subs = {sympy.Symbol(s, real=True): v for s, v in env.items()}
    out = out.bind_parameters(subs)
    for init in inputs(d["n"], seed, name in ZERO_ONLY):
        A, B = instrument(ref, init), instrument(out, init)
        if name == "resolve_swaps":
            A, B = ({k: np.array([[np.trace(v)]]) for k, v in X.items()} for X in (A, B))
        compare(A, B, f"{name} on symbolic {circ.show(d)} at {env}")


PASSES = [("arrange_swaps", None), ("cancel_zero_controls", None), ("combine_single_qubit_gates", None), ("commute_swaps", None), ("convert_to_cx", None), ("convert_to_cx", {"strict": True}),
          ("convert_to_cz", None), ("convert_to_cz", {"strict": True}), ("convert_to_prx", None), ("decompose", None), ("decompose", {"gphase": True}), ("decompose", {"level": 1}),
          ("decompose", {"level": 0}), ("decompose", {"pred": "two"}), ("decompose", {"pred": "noctrl", "gphase": True}), ("fuse_adjacents", None), ("gray_synth_toffoli", None), ("remove_barriers", None),
          ("resolve_swaps", None), ("reverse_parallelize", None), ("transpile", None), ("transpile", {"level": 1})]

FUSEY = dict(one=["rz", "p", "rx", "ry", "gphase", "h", "s", "t", "x", "z", "u1", "sx"], two=["cx", "cz", "swap", "rzz", "cp", "cy", "rxx", "xxyy"])


def neighbours(r, n, c, length):
    """circuits rich in adjacent pairs: repeated/inverse gates on the same qubits"""
    d = circ.random(r, n, c, length, big=.2, measure=.05, reset=.03, cond=.06, barrier=.04, **FUSEY)
    ops = []
    for o in d["ops"]:
        ops.append(o)
        if o[0] == "g" and r.random() < .5:
            x = r.random()
            qs = list(o[2])
            if len(qs) == 2 and r.random() < .4:
                qs = qs[::-1]
            if x < .35:
                ops.append(["g", ["inv", o[1]], qs])
            elif x < .5:
                ops.append(["g", o[1], qs])
            elif x < .75 and o[1][0] == "gate" and o[1][2]:
                ops.append(["g", ["gate", o[1][1], [circ.angle(r) for _ in o[1][2]]], qs])
            else:
                ops.append(["g", circ.gate(r, E.width(o[1]), FUSEY["one"], FUSEY["two"]) if E.width(o[1]) <= 2 else o[1], qs])
    d["ops"] = ops
    return d


def ccx(r):
    return ["ctrl", ["gate", "x", []], 2, r.choice(["11", "10", "01", "00"])]


def gen(r, name):
    n = r.randint(1, 4)
    c = r.randint(0, 3)
    x = r.random()
    if name in ("fuse_adjacents", "combine_single_qubit_gates") or x < .3:
        d = neighbours(r, n, c, r.randint(1, 9))
    elif name in ("convert_to_prx",):
        d = circ.random(r, n, c, r.randint(1, 12), big=.1, cond=.2, measure=.15)
    else:
        d = circ.random(r, n, c, r.randint(1, 15), big=.25)
    if name in ("arrange_swaps", "commute_swaps", "resolve_swaps", "reverse_parallelize", "convert_to_cx", "convert_to_cz") and n > 1:
        for _ in range(r.randint(1, 5)):
            d["ops"].insert(r.randrange(len(d["ops"]) + 1), ["g", ["gate", r.choice(["swap", "swap", "cx", "cy", "cz"]), []], r.sample(range(n), 2)])
    if name == "gray_synth_toffoli" and n > 2:
        for _ in range(r.randint(1, 3)):
            d["ops"].insert(r.randrange(len(d["ops"]) + 1), ["g", ccx(r), r.sample(range(n), 3)])
    if name == "cancel_zero_controls" and n > 1:
        for _ in range(r.randint(1, 4)):
            e = r.choice([["gate", "cx", []], ["gate", "cp", [circ.angle(r)]], ["gate", "cz", []], ["ctrl", circ.gate(r, 1), 1, r.choice("01")], ["ctrl", ["gate", "x", []], 1, "0"],
                          ["ctrl", ["gate", "p", [circ.angle(r)]], 1, "0"], ["ctrl", ["gate", "z", []], 1, "0"]])
            d["ops"].insert(r.randrange(len(d["ops"]) // 2 + 1), ["g", e, r.sample(range(n), 2)])
    return d


def strip_strict(d):
    d["ops"] = [o for o in d["ops"] if not (o[0] in ("g",) and E.width(o[1]) == 2 and not (o[1][0] == "gate" and o[1][1] in ("cx", "cz", "cy", "swap")))]
    return d


def _task(part):
    def t(ctx):
        r = ctx.rng
        k = 300 if not thorough() else 3000
        ctx.bound("circuits on 1-4 qubits, 0-3 clbits, up to 20 instructions")
        for name, arg in PASSES[part::4]:
            for i in range(k * (4 if name == "fuse_adjacents" else 2 if name in ("convert_to_prx", "combine_single_qubit_gates", "cancel_zero_controls") else 1)):
                d = gen(r, name)
                if arg and arg.get("strict") and r.random() < .8:
                    strip_strict(d)
                ctx.run(c_pass, name=name, arg=arg, d=d, seed=r.randrange(1 << 30))
                if ctx.full():
                    return
    return t


for _p in range(4):
    task(f"passes{_p}", weight=2)(_task(_p))


@task("layout")
def t_layout(ctx):
    r = ctx.rng
    for i in range(200 if not thorough() else 2000):
        d = gen(r, "manual_layout")
        m = r.sample(range(d["n"] + r.randint(0, 2)), d["n"])
        ctx.run(c_pass, name="manual_layout", arg={"map": m}, d=d, seed=i)


@task("pipelines", weight=2)
def t_pipe(ctx):
    r = ctx.rng
    pool = [p for p in PASSES if p[0] not in ("transpile",) and not (p[1] and p[1].get("strict"))]
    for i in range(500 if not thorough() else 5000):
        names = [r.choice(pool) for _ in range(r.randint(2, 5))]
        # passes that presuppose zero qubits only make sense on the circuit they start from
        rs = [j for j, (n, _) in enumerate(names) if n == "resolve_swaps"]
        ctx.run(c_pipe, names=names, d=gen(r, names[0][0]), seed=i)
        if ctx.full():
            return


@task("symbolic")
def t_sym(ctx):
    r = ctx.rng
    pool = [p for p in PASSES if not (p[1] and p[1].get("strict")) and p[0] != "convert_to_prx"]   # prx angles need numbers
    for i in range(400 if not thorough() else 4000):
        nm, arg = r.choice(pool + [("fuse_adjacents", None)] * 4 + [("combine_single_qubit_gates", None)] * 3)
        d = gen(r, nm)
        env = {}
        for o in d["ops"]:
            if o[0] == "g" and o[1][0] == "gate" and o[1][2] and r.random() < .6:
                s = r.choice("abc")
                env[s] = env.get(s, round(r.uniform(-3, 3), 3))
                o[1] = ["gate", o[1][1], [s] + o[1][2][1:]]
        if env:
            ctx.run(c_sym, name=nm, arg=arg, d=d, env=env, seed=i)
        if ctx.full():
            return


@case("verdict")
def c_verdict(d, e):
    """the comparison offered with a pass tells a meaning-preserving rewrite from one that changes the outcome statistics"""
    CP = need("qrisp.circuit.pass_management.circuit_pass", "CircuitPass")
    a, b = circ.build(d), circ.build(e)
    kept = [i.op.name for i in a.data]

    def swap_in(qc):
        return b.copy()
    for qc in (a, b):
        if not len(qc.clbits):
            raise Undecided("no classical bits")
    pa, pb = sim.distribution(a), sim.distribution(b)
    diff = max([abs(pa.get(k, 0) - pb.get(k, 0)) for k in set(pa) | set(pb)] or [0])
    got = CP(swap_in).compare_measurement(a, precision=3)
    if diff > 1e-2:
        check(got is False, f"a rewrite that changes an outcome probability by {diff:.3g} is reported as preserving the statistics")
    elif diff < 1e-5:
        check(got is True, "a rewrite with the same statistics is reported as changing them")
    check([i.op.name for i in a.data] == kept, "the comparison changes the circuit")


@task("verdicts")
def t_verdict(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 600):
        n = r.randint(1, 3)
        d = circ.random(r, n, 0, r.randint(1, 6), measure=0, reset=0, cond=0)
        d["c"] = n
        e = {**d, "ops": list(d["ops"])}
        if i % 3:
            k = r.randrange(n)
            e["ops"] = d["ops"] + [["g", ["gate", r.choice(["x", "z", "h", "y"]), []], [k]]]
        if i % 3 == 2:      # disjoint supports
            d = {**d, "ops": [["g", ["gate", "x", []], [j]] for j in range(n) if r.random() < .5]}
            e = {**d, "ops": d["ops"] + [["g", ["gate", "x", []], [r.randrange(n)]]]}
        for x in (d, e):
            x["ops"] = list(x["ops"]) + [["m", j, j] for j in range(n)]
        ctx.run(c_verdict, d=d, e=e)
