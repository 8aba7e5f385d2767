"""C13: circuit import and export. Both circuits are turned into one neutral list of steps (matrix on qubits, measurement, reset, condition), the foreign side
with the matrices the foreign library itself reports, and the lists are compared as quantum instruments: for every classical outcome the
(unnormalised) state on the maximally entangled input, so equality means equality for all input states, up to a global phase."""
import cmath
import json
import math
import random

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import circ, expr as X
from vb.sim import op_unitary

ID = "C13"
LEVEL = "translation_validation"
RULE = "one evaluation = one circuit exported or imported and compared as an instrument on all inputs; nontrivial = distinct"
TRUSTED = ["the step interpreter in this file", "vb.expr matrix specifications", "matrices reported by qiskit, cirq, pennylane, pytket, stim for their own gates"]
ASSUMPTIONS = ["measurement results of circuits exported to libraries without classical bits (cirq, pennylane) are identified by the measured qubit and its order"]


# ------------------------------------------------------------------------------------------------------------- neutral interpreter
def mat(e, env=None):
    return X.dense(X.expected(e, X.Num, env or {}))


def apply(psi, U, q, n):
    k = len(q)
    t = psi.reshape((2,) * n)
    t = np.tensordot(U.reshape((2,) * (2 * k)), t, axes=(list(range(k, 2 * k)), list(q)))
    return np.moveaxis(t, list(range(k)), list(q)).reshape(-1)


def instrument(steps, n, bits=()):
    """classical outcome -> state on (qubits, reference)"""
    N = 2 * n
    psi = np.zeros((1 << n, 1 << n), dtype=complex)
    for i in range(1 << n):
        psi[i, i] = 1
    br = [({b: 0 for b in bits}, psi.reshape(-1))]

    def go(steps, br):
        for s in steps:
            if s[0] == "u":
                br = [(c, apply(p, s[1], s[2], N)) for c, p in br]
            elif s[0] in ("m", "r"):
                new = []
                for c, p in br:
                    t = np.moveaxis(p.reshape((2,) * N), s[1], 0)
                    for v in (0, 1):
                        x = np.zeros_like(t)
                        x[v if s[0] == "m" else 0] = t[v]
                        if np.max(np.abs(x)) > 1e-12:
                            y = np.moveaxis(x, 0, s[1]).reshape(-1)
                            new.append((dict(c, **{}) | {s[2]: v} if s[0] == "m" else c, y))
                br = new
            elif s[0] == "if":
                yes = [b for b in br if s[1](b[0])]
                no = [b for b in br if not s[1](b[0])]
                br = go(s[2], yes) + go(s[3], no)
            else:
                raise KeyError(s[0])
        return br
    res = {}
    for c, p in go(steps, br):
        res.setdefault(tuple(sorted(c.items(), key=repr)), []).append(p)
    return res


def densities(res, perm=None):
    return {c: sum(np.outer(p, p.conj()) for p in ps) for c, ps in res.items()}


def same(a, b, n, what, bits=()):
    A, B = densities(instrument(a, n, bits)), densities(instrument(b, n, bits))
    for c in sorted(set(A) | set(B), key=repr):
        x, y = A.get(c), B.get(c)
        d = np.max(np.abs((0 if x is None else x) - (0 if y is None else y)))
        check(d < 1e-4, lambda: f"{what}: for classical outcome {[f'{k}={v}' for k, v in c]} the resulting states differ by {d:.3g}")


def steps_of(d, mode="clbit", env=None):
    """steps of a described circuit. mode clbit: results go to the classical bits; order/qubit: every measurement has its own bit"""
    out, last, cnt, occ = [], {}, 0, {}
    for o in d["ops"]:
        if o[0] == "g":
            out.append(("u", mat(o[1], env), o[2]))
        elif o[0] == "m":
            if mode == "clbit":
                key = o[2]
            elif mode == "order":
                key = cnt
            else:
                occ[o[1]] = occ.get(o[1], -1) + 1
                key = (o[1], occ[o[1]])
            cnt += 1
            last[o[2]] = key
            out.append(("m", o[1], key))
        elif o[0] == "reset":
            out.append(("r", o[1]))
        elif o[0] == "if":
            keys = [last.get(c, c if mode == "clbit" else None) for c in o[3]]
            out.append(("if", lambda c, keys=keys, pat=o[4]: all(c.get(k, 0) == int(v) for k, v in zip(keys, pat)), [("u", mat(o[1], env), o[2])], []))
    return out, last


# ------------------------------------------------------------------------------------------------------------- reading foreign circuits
def qiskit_steps(qc, qmap=None, cmap=None):
    from qiskit.quantum_info import Operator
    qmap = qmap or {q: i for i, q in enumerate(qc.qubits)}
    cmap = cmap or {c: i for i, c in enumerate(qc.clbits)}
    out = []
    for ins in qc.data:
        op = ins.operation
        q, c = [qmap[x] for x in ins.qubits], [cmap[x] for x in ins.clbits]
        if op.name == "measure":
            out.append(("m", q[0], c[0]))
        elif op.name == "reset":
            out.append(("r", q[0]))
        elif op.name == "barrier":
            pass
        elif op.name == "if_else":
            if not isinstance(op.condition, tuple):
                cond = lambda s, e=op.condition, m=dict(cmap): evaluate(e, s, m)
                parts = [qiskit_steps(b, dict(zip(b.qubits, q)), {x: cmap[y] for x, y in zip(b.clbits, ins.clbits)}) for b in op.blocks]
                out.append(("if", cond, parts[0], parts[1] if len(parts) > 1 else []))
                continue
            bit, val = op.condition
            reg = list(bit) if hasattr(bit, "size") else [bit]
            keys = [cmap[b] for b in reg]
            val = int(val)
            cond = lambda s, keys=keys, val=val: all(s.get(k, 0) == (val >> i & 1) for i, k in enumerate(keys))
            parts = []
            for b in op.blocks:
                m = {x: cmap[y] for x, y in zip(b.clbits, ins.clbits)}
                parts.append(qiskit_steps(b, dict(zip(b.qubits, q)), m))
            out.append(("if", cond, parts[0], parts[1] if len(parts) > 1 else []))
        else:
            try:
                U = Operator(op).data
            except Exception:
                d = op.definition
                out += qiskit_steps(d, dict(zip(d.qubits, q)), dict(zip(d.clbits, c)))
                continue
            out.append(("u", U, q[::-1]))
    return out


def evaluate(e, s, cmap):
    from qiskit.circuit.classical import expr
    if isinstance(e, expr.Var):
        return bool(s.get(cmap[e.var], 0))
    if isinstance(e, expr.Unary) and e.op in (expr.Unary.Op.LOGIC_NOT, expr.Unary.Op.BIT_NOT):
        return not evaluate(e.operand, s, cmap)
    if isinstance(e, expr.Binary):
        a, b = evaluate(e.left, s, cmap), evaluate(e.right, s, cmap)
        o = expr.Binary.Op
        f = {o.LOGIC_AND: a and b, o.BIT_AND: a and b, o.LOGIC_OR: a or b, o.BIT_OR: a or b, o.BIT_XOR: a != b, o.EQUAL: a == b, o.NOT_EQUAL: a != b}
        if e.op in f:
            return f[e.op]
    if isinstance(e, expr.Value):
        return bool(e.value)
    if isinstance(e, expr.Cast):
        return evaluate(e.operand, s, cmap)
    raise Undecided(f"condition {e}")


def cirq_steps(circuit, qubits):
    import cirq
    idx = {q: i for i, q in enumerate(qubits)}
    out, occ = [], {}
    for op in circuit.all_operations():
        q = [idx[x] for x in op.qubits]
        g = op.gate
        if isinstance(g, cirq.MeasurementGate):
            for j, x in enumerate(q):
                occ[x] = occ.get(x, -1) + 1
                out.append(("m", x, (x, occ[x])))
                if g.full_invert_mask()[j]:
                    out.append(("flip", (x, occ[x])))
        elif isinstance(g, cirq.ResetChannel):
            out.append(("r", q[0]))
        elif not q:
            continue
        else:
            out.append(("u", cirq.unitary(op), q))
    return out


def pennylane_steps(qc):
    import pennylane as qml
    f = qc.to_pennylane()
    n = len(qc.qubits)
    with qml.queuing.AnnotatedQueue() as queue:
        f(wires=list(range(n)))
    out, occ = [], {}
    for op in qml.tape.QuantumScript.from_queue(queue).operations:
        w = [int(x) for x in op.wires]
        if "MidMeasure" in type(op).__name__ or "MidMeasure" in op.name:
            occ[w[0]] = occ.get(w[0], -1) + 1
            out.append(("m", w[0], (w[0], occ[w[0]])))
            if getattr(op, "reset", False):
                out.append(("r", w[0]))
        else:
            if op.name == "GlobalPhase":
                continue
            out.append(("u", np.array(qml.matrix(op, wire_order=w), dtype=complex), w))
    return out


def pytket_steps(circuit, qc, env=None):
    from pytket import OpType
    from pytket.transform import Transform
    import sympy
    c = circuit.copy()
    Transform.DecomposeBoxes().apply(c)
    if env:
        c.symbol_substitution({sympy.Symbol(k): v for k, v in env.items()})
    qs = {}
    for i, q in enumerate(qc.qubits):
        for t in c.qubits:
            if t.reg_name == q.identifier or str(t).startswith(q.identifier + "["):
                qs[t] = i
    need_n = len(qc.qubits)
    check(len(qs) == need_n and len(c.qubits) == need_n, lambda: f"qubits {c.qubits} of the exported circuit are not those of the circuit")
    bits = {b: i for i, b in enumerate(c.bits)}
    out = []
    for cmd in c.get_commands():
        q = [qs[x] for x in cmd.qubits]
        if cmd.op.type == OpType.Measure:
            out.append(("m", q[0], bits[cmd.bits[0]]))
        elif cmd.op.type == OpType.Reset:
            out.append(("r", q[0]))
        elif cmd.op.type == OpType.Barrier:
            pass
        elif cmd.bits:
            raise Undecided("conditional pytket operation")
        else:
            out.append(("u", np.array(cmd.op.get_unitary()), q))
    return out


def stim_steps(circuit, map_):
    import stim
    out, k = [], 0
    for ins in circuit.flattened():
        t = ins.targets_copy()
        if ins.name in ("M", "MZ"):
            for x in t:
                out.append(("m", x.value, k))
                k += 1
        elif ins.name in ("R", "RZ"):
            out += [("r", x.value) for x in t]
        elif ins.name == "TICK":
            pass
        else:
            g = stim.gate_data(ins.name)
            w = 2 if g.is_two_qubit_gate else 1
            U = np.array(g.unitary_matrix, dtype=complex)
            for i in range(0, len(t), w):
                grp = t[i:i + w]
                if any(x.is_measurement_record_target for x in grp):
                    rec = [x for x in grp if x.is_measurement_record_target]
                    q = [x.value for x in grp if not x.is_measurement_record_target]
                    base = {"CX": "X", "CY": "Y", "CZ": "Z"}[g.name]
                    V = np.array(stim.gate_data(base).unitary_matrix, dtype=complex)
                    key = k + rec[0].value
                    out.append(("if", lambda s, key=key: s.get(key, 0) == 1, [("u", V, q)], []))
                else:
                    out.append(("u", U, [x.value for x in grp][::-1]))
    return out, k


# ------------------------------------------------------------------------------------------------------------- export
def atoms(e):
    if e[0] == "gate":
        return {e[1]}
    if e[0] == "circ":
        return set().union(*[atoms(x) for x, _ in e[1]], {"circ"})
    return atoms(e[1]) | {e[0]}


def constructs(d):
    res = set()
    for o in d["ops"]:
        if o[0] == "g":
            res |= atoms(o[1])
        elif o[0] == "if":
            res |= atoms(o[1]) | {"if"}
        else:
            res.add(o[0])
    return res


EVERY = {*X.GATES, "inv", "ctrl", "circ", "wrap", "m", "reset", "if", "barrier"}


def supported(target, d):
    """the constructs that the converters offer; rejecting anything else is a correct answer"""
    c = constructs(d)
    g, k = c & set(X.GATES), c - set(X.GATES)
    if target == "qiskit":
        return True
    if target == "qasm2":
        return "if" not in k
    if target == "cirq":
        return not g & {"u1", "u3", "r", "cy"} and k <= {"inv", "circ", "wrap", "m", "reset"} | ({"ctrl"} if "y" not in g else set())
    if target == "pennylane":
        return k <= {"inv", "circ", "wrap", "m"} or k <= {"ctrl", "m"} and "xxyy" not in g
    if target == "pytket":
        return not g & {"gphase", "r", "rxx", "rzz"} and k <= {"inv", "circ", "wrap", "m"}
    if target == "stim":
        return g <= {*CLIFF1, *CLIFF2} and k <= {"inv", "circ", "wrap", "m", "reset", "barrier"}
    raise KeyError(target)


def export(target, qc, d, env=None):
    """-> steps, mode"""
    if target == "qiskit":
        return qiskit_steps(qc.to_qiskit()), "clbit"
    if target == "qasm2":
        import qiskit.qasm2
        return qiskit_steps(qiskit.qasm2.loads(qc.to_qasm2(), custom_instructions=qiskit.qasm2.LEGACY_CUSTOM_INSTRUCTIONS)), "clbit"
    if target == "cirq":
        import cirq
        return cirq_steps(qc.to_cirq(), [cirq.LineQubit(i) for i in range(d["n"])]), "qubit"
    if target == "pennylane":
        return pennylane_steps(qc), "qubit"
    if target == "pytket":
        return pytket_steps(qc.to_pytket(), qc), "clbit"
    if target == "stim":
        st, mp = qc.to_stim(return_measurement_map=True)
        return stim_steps(st, mp)[0], "order"
    raise KeyError(target)


@case("export")
def c_export(target, d):
    qc = circ.build(d)
    before = [(i.op.name, [str(p) for p in i.op.params], list(i.qubits), list(i.clbits)) for i in qc.data]
    try:
        got, mode = export(target, qc, d)
    except (Fail, Undecided):
        raise
    except Exception as e:
        if supported(target, d):
            raise Fail(f"{target} export rejects a circuit of supported constructs {sorted(constructs(d))}: {type(e).__name__}: {e}")
        return "rejected"
    check(before == [(i.op.name, [str(p) for p in i.op.params], list(i.qubits), list(i.clbits)) for i in qc.data], f"{target} export changes the circuit")
    want, last = steps_of(d, mode)
    bits = tuple(range(d["c"])) if mode == "clbit" else ()
    same(want, got, d["n"], f"{target} export of {circ.show(d)}", bits)
    if target == "stim":
        mp = qc.to_stim(return_measurement_map=True)[1]
        check({qc.clbits.index(c): i for c, i in mp.items()} == last, lambda: f"measurement map {mp} instead of {last}")
    return "ok"


TARGETS = ["qiskit", "qasm2", "cirq", "pennylane", "pytket", "stim"]
CLIFF1, CLIFF2 = ["x", "y", "z", "h", "s", "sx", "sx_dg", "id"], ["cx", "cy", "cz", "swap"]


def t_exp(target):
    @task("export_" + target, timeout=500, weight=2)
    def run(ctx):
        r = ctx.rng
        ctx.bound("circuits on up to 3 qubits with up to 8 operations; compared for all input states and all outcomes")
        for g in X.GATES:
            for k in range(6):
                w = X.GATES[g][2]
                e = ["gate", g, [circ.angle(r) for _ in range(X.GATES[g][1])]]
                if k == 1:
                    e = ["inv", e]
                elif k == 2:
                    e = ["ctrl", e, 1, r.choice("01"), None]
                elif k == 3:
                    if w > 1:
                        continue
                    e = ["ctrl", e, 2, r.choice(["10", "01", "11", "00"]), None]
                elif k == 4:
                    e = ["wrap", e]
                elif k == 5:
                    e = ["inv", ["ctrl", e, 1, r.choice("01"), None]]
                if X.width(e) > 3:
                    continue
                n = 3
                ctx.run(c_export, target=target, d={"n": n, "c": 0, "ops": [["g", ["gate", "h", []], [i]] for i in range(n)] + [["g", e, r.sample(range(n), X.width(e))]]})
                if ctx.full():
                    return
        for i in range(500 if not thorough() else 4000):
            n = r.randint(1, 3)
            c = r.randint(0, 3)
            kw = {}
            if target == "stim" or i % 3 == 0:
                kw = {"one": CLIFF1, "two": CLIFF2}
            if target in ("cirq", "pennylane") and i % 2:
                kw |= {"cond": 0, "barrier": 0}
            if i % 4 == 1:
                kw |= {"cond": .3, "measure": .3}
            if target == "pytket":
                kw |= {"cond": 0, "reset": 0, "barrier": 0}
            if i % 3 == 1:
                kw["big"] = .6
            if n == 1:
                kw["big"] = 0
            ctx.run(c_export, target=target, d=circ.random(r, n, c, r.randint(1, 8), overwrite=True, **kw))
            if ctx.full():
                return
    return run


for _t in TARGETS:
    t_exp(_t)


# ------------------------------------------------------------------------------------------------------------- parameters
@case("export_params")
def c_params(target, ops, n, env):
    """a circuit with free parameters is exported; binding them in the foreign circuit gives the circuit bound here"""
    import qrisp
    import sympy
    qc = qrisp.QuantumCircuit(n)
    for e, q in ops:
        qc.append(X.build(e), [qc.qubits[i] for i in q])
    want = [("u", mat(e, env), q) for e, q in ops]
    if target == "qiskit":
        f = qc.to_qiskit()
        names = [p.name for p in f.parameters]
        check(len(set(names)) == len(names) and set(names) == {str(s) for s in qc.abstract_params}, lambda: f"parameters of the export {names} instead of {qc.abstract_params}")
        got = qiskit_steps(f.assign_parameters({p: env[p.name] for p in f.parameters}))
    elif target == "pennylane":
        import pennylane as qml
        f = qc.to_pennylane()
        with qml.queuing.AnnotatedQueue() as queue:
            f(wires=list(range(n)), subs_dic={s: env[str(s)] for s in qc.abstract_params})
        got = [("u", np.array(qml.matrix(o, wire_order=[int(w) for w in o.wires]), dtype=complex), [int(w) for w in o.wires])
               for o in qml.tape.QuantumScript.from_queue(queue).operations if o.name != "GlobalPhase"]
    else:
        try:
            f = qc.to_pytket()
        except Exception:
            return "rejected"
        got = pytket_steps(f, qc, env)
    same(want, got, n, f"{target} export with parameters {env} of {[X.show(e) for e, _ in ops]}")


@task("parameters", timeout=400)
def t_params(ctx):
    r = ctx.rng
    for i in range(240 if not thorough() else 1500):
        target = ["qiskit", "pennylane", "pytket"][i % 3]
        n = r.randint(1, 3)
        ops = []
        for _ in range(r.randint(1, 4)):
            gs = [g for g, v in X.GATES.items() if v[2] <= n and v[1] and not (target == "pytket" and g in ("gphase", "r", "rxx", "rzz"))]
            g = r.choice(gs)
            e = ["gate", g, [r.choice(["a", "b", "a", round(r.uniform(-3, 3), 2)]) for _ in range(X.GATES[g][1])]]
            x = r.random()
            if x < .15:
                e = ["inv", e]
            elif x < .4 and target != "pytket":
                e = ["circ", [[e, list(range(X.width(e)))]], X.width(e)]
            elif x < .6 and X.width(e) < n and target == "qiskit":
                e = ["ctrl", e, 1, r.choice("01"), None]
            ops.append([e, r.sample(range(n), X.width(e))])
        ctx.run(c_params, target=target, ops=ops, n=n, env={"a": round(r.uniform(-3, 3), 3), "b": round(r.uniform(-3, 3), 3)})
        if ctx.full():
            return


# ------------------------------------------------------------------------------------------------------------- import
def import_same(want, qc, n, what, bits=(), mode="clbit", phase=True):
    """qc: imported circuit, read with the checked matrix of each of its operations"""
    check(len(qc.qubits) == n, lambda: f"{what}: {len(qc.qubits)} qubits instead of {n}")
    out = []
    occ = {}
    for ins in qc.data:
        q, c = [qc.qubits.index(x) for x in ins.qubits], [qc.clbits.index(x) for x in ins.clbits]
        if ins.op.name == "measure":
            if mode == "qubit":
                occ[q[0]] = occ.get(q[0], -1) + 1
                c = [(q[0], occ[q[0]])]
            out.append(("m", q[0], c[0]))
        elif ins.op.name == "reset":
            out.append(("r", q[0]))
        elif ins.op.name == "barrier":
            continue
        elif hasattr(ins.op, "base_op"):
            out.append(("if", lambda s, c=c, pat=ins.op.ctrl_state: all(s.get(k, 0) == int(v) for k, v in zip(c, pat)), [("u", op_unitary(ins.op.base_op, "auto"), q)], []))
        else:
            out.append(("u", op_unitary(ins.op, "auto"), q))
    same(want, out, n, what, bits)


QK = {"h": (0, 1), "x": (0, 1), "y": (0, 1), "z": (0, 1), "s": (0, 1), "sdg": (0, 1), "t": (0, 1), "tdg": (0, 1), "sx": (0, 1), "sxdg": (0, 1), "id": (0, 1), "p": (1, 1),
      "rx": (1, 1), "ry": (1, 1), "rz": (1, 1), "r": (2, 1), "u": (3, 1), "cx": (0, 2), "cy": (0, 2), "cz": (0, 2), "ch": (0, 2), "cs": (0, 2), "csdg": (0, 2), "csx": (0, 2),
      "cp": (1, 2), "crx": (1, 2), "cry": (1, 2), "crz": (1, 2), "cu": (4, 2), "swap": (0, 2), "iswap": (0, 2), "dcx": (0, 2), "ecr": (0, 2), "rxx": (1, 2), "ryy": (1, 2), "rzz": (1, 2),
      "rzx": (1, 2), "ccx": (0, 3), "ccz": (0, 3), "cswap": (0, 3), "rccx": (0, 3)}
QK_LIB = {"XXPlusYYGate": (2, 2), "XXMinusYYGate": (2, 2), "U1Gate": (1, 1), "U2Gate": (2, 1), "U3Gate": (3, 1), "CU1Gate": (1, 2), "CU3Gate": (3, 2), "C3XGate": (0, 4)}


def qk_gate(e):
    """["lib", name, params] | ["ctrl", e, n, state] | ["inv", e] | ["box", n, [[e, q]], phase, instruction] | ["pow"...]"""
    import qiskit.circuit.library as L
    from qiskit import QuantumCircuit
    if e[0] == "lib":
        if e[1] in QK_LIB:
            return getattr(L, e[1])(*e[2])
        t = QuantumCircuit(4)
        k = QK[e[1]]
        getattr(t, e[1])(*e[2], *range(k[1]))
        return t.data[0].operation
    if e[0] == "ctrl":
        return qk_gate(e[1]).control(e[2], ctrl_state=e[3])
    if e[0] == "inv":
        return qk_gate(e[1]).inverse()
    t = QuantumCircuit(e[1], global_phase=e[3])
    for x, q in e[2]:
        t.append(qk_gate(x), q)
    return t.to_instruction() if boxed_inst(e) else t.to_gate()


def qk_width(e):
    if e[0] == "lib":
        return (QK_LIB.get(e[1]) or QK[e[1]])[1]
    if e[0] == "ctrl":
        return e[2] + qk_width(e[1])
    if e[0] == "inv":
        return qk_width(e[1])
    return e[1]


def qk_random(r, n, depth):
    x = r.random()
    if depth <= 0 or x < .5:
        while True:
            tab = QK_LIB if r.random() < .2 else QK
            g = r.choice(sorted(tab))
            if tab[g][1] <= n:
                return ["lib", g, [circ.angle(r) for _ in range(tab[g][0])]]
    if x < .7 and n >= 2:
        b = qk_random(r, n - 1, depth - 1)
        k = r.randint(1, n - qk_width(b))
        return ["ctrl", b, k, r.choice([None, r.randrange(1 << k)])] if not boxed_inst(b) and '"cu"' not in json.dumps(b) else b
    if x < .8:
        return ["inv", qk_random(r, n, depth - 1)]
    w = r.randint(1, n)
    ops = []
    for _ in range(r.randint(1, 3)):
        b = qk_random(r, w, depth - 1)
        ops.append([b, r.sample(range(w), qk_width(b))])
    inst = r.random() < .2 and not any(0 for _ in ops)
    return ["box", w, ops, r.choice([0, 0, .7, math.pi]), inst]


def boxed_inst(e):
    return e[0] == "box" and (e[4] or any(boxed_inst(x) for x, _ in e[2])) or e[0] in ("ctrl", "inv") and boxed_inst(e[1])


@case("import_qiskit")
def c_from_qiskit(n, regs, cregs, phase, ops, via="object"):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
    import qrisp
    qc = QuantumCircuit(global_phase=phase)
    for i, k in enumerate(regs):
        qc.add_register(QuantumRegister(k, f"reg{i}"))
    for i, k in enumerate(cregs):
        qc.add_register(ClassicalRegister(k, f"creg{i}"))
    strict = True
    for o in ops:
        if o[0] == "g":
            qc.append(qk_gate(o[1]), o[2])
        elif o[0] == "m":
            qc.measure(o[1], o[2])
        elif o[0] == "reset":
            qc.reset(o[1])
        elif o[0] == "barrier":
            qc.barrier(*o[1])
        elif o[0] == "if":
            cond = (qc.cregs[o[3][1]], o[4]) if o[3][0] == "reg" else (qc.clbits[o[3][1]], o[4])
            with qc.if_test(cond) as els:
                qc.append(qk_gate(o[1]), o[2])
            if o[5] is not None:
                if o[3][0] == "reg" and qc.cregs[o[3][1]].size > 1:
                    strict = False
                with els:
                    qc.append(qk_gate(o[5]), o[6])
        elif o[0] == "while":
            strict = False
            with qc.while_loop((qc.clbits[o[1]], 1)):
                qc.x(o[2])
                qc.measure(o[2], o[1])
    want = None if any(o[0] == "while" for o in ops) else qiskit_steps(qc)
    try:
        if via == "qasm2":
            import qiskit.qasm2
            got = qrisp.QuantumCircuit.from_qasm_str(qiskit.qasm2.dumps(qc))
        else:
            got = qrisp.QuantumCircuit.from_qiskit(qc)
    except Exception as e:
        if strict and via == "object" and not any(o[0] == "g" and boxed_inst(o[1]) for o in ops) and '"cu"' not in json.dumps(ops):
            raise Fail(f"import of a circuit of standard gates is rejected: {type(e).__name__}: {e}")
        return "rejected"
    if want is None:
        raise Fail("a loop is imported as a circuit without loop")
    check(len(got.clbits) == sum(cregs), lambda: f"{len(got.clbits)} classical bits instead of {sum(cregs)}")
    import_same(want, got, n, "qiskit import", tuple(range(sum(cregs))))
    if phase == 0 and via == "object" and not any(o[0] != "g" for o in ops):
        from qiskit.quantum_info import Operator
        U = np.eye(1 << n, dtype=complex)
        V = Operator(qc).data.reshape((2,) * (2 * n)).transpose(list(range(n))[::-1] + list(range(n, 2 * n))[::-1]).reshape(1 << n, 1 << n)
        W = np.eye(1 << n, dtype=complex)
        for ins in got.data:
            W = np.column_stack([apply(W[:, i], op_unitary(ins.op, "auto"), [got.qubits.index(x) for x in ins.qubits], n) for i in range(1 << n)])
        d = np.max(np.abs(V - W))
        check(d < 1e-4, lambda: f"qiskit import: matrix differs by {d:.3g}" + (" (a global phase only)" if np.max(np.abs(abs(V) - abs(W))) < 1e-4 else ""))
    return "ok"


@task("import_qiskit", timeout=500, weight=2)
def t_from_qiskit(ctx):
    r = ctx.rng
    for i, g in enumerate([*sorted(QK), *sorted(QK_LIB)]):
        tab = QK if g in QK else QK_LIB
        for k in range(3):
            e = ["lib", g, [circ.angle(r) for _ in range(tab[g][0])]]
            if k == 1:
                if tab[g][1] > 2 or g == "cu":
                    continue
                e = ["ctrl", e, 1, r.choice([0, 1, None])]
            elif k == 2:
                e = ["inv", e]
            n = max(2, qk_width(e))
            ctx.run(c_from_qiskit, n=n, regs=[n], cregs=[], phase=0, ops=[["g", e, r.sample(range(n), qk_width(e))]])
            if ctx.full():
                return
    for i in range(500 if not thorough() else 4000):
        n = r.randint(1, 3)
        regs = [n] if r.random() < .5 else [1] * n if r.random() < .5 or n == 1 else [1, n - 1]
        cregs = r.choice([[], [1], [2], [1, 2], [2, 1]])
        nc = sum(cregs)
        ops = []
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if nc and x < .2:
                ops.append(["m", r.randrange(n), r.randrange(nc)])
            elif x < .25:
                ops.append(["reset", r.randrange(n)])
            elif x < .3:
                ops.append(["barrier", r.sample(range(n), r.randint(1, n))])
            elif nc and x < .45:
                e, f = qk_random(r, n, 1), qk_random(r, n, 1)
                if boxed_inst(e) or boxed_inst(f):
                    continue
                reg = r.random() < .4
                j = r.randrange(len(cregs)) if reg else r.randrange(nc)
                val = r.randrange(1 << cregs[j]) if reg else r.randrange(2)
                els = r.random() < .35
                ops.append(["if", e, r.sample(range(n), qk_width(e)), ["reg" if reg else "bit", j], val, f if els else None, r.sample(range(n), qk_width(f)) if els else None])
            elif nc and x < .47:
                ops.append(["while", r.randrange(nc), r.randrange(n)])
            else:
                e = qk_random(r, n, 2)
                ops.append(["g", e, r.sample(range(n), qk_width(e))])
        if not ops:
            continue
        ctx.run(c_from_qiskit, n=n, regs=regs, cregs=cregs, phase=r.choice([0, 0, 1.2]), ops=ops, via="qasm2" if i % 5 == 4 else "object")
        if ctx.full():
            return


# ------------------------------------------------------------------------------------------------------------- cirq import
def cirq_op(o, qs):
    import cirq
    k = o[0]
    if k == "pow":
        base = {"X": cirq.X, "Y": cirq.Y, "Z": cirq.Z, "H": cirq.H, "CX": cirq.CX, "CZ": cirq.CZ, "SWAP": cirq.SWAP}[o[1]]
        return (base ** o[2])(*[qs[i] for i in o[3]])
    if k == "rot":
        return {"rx": cirq.rx, "ry": cirq.ry, "rz": cirq.rz}[o[1]](o[2])(qs[o[3][0]])
    if k == "named":
        g = {"CCX": cirq.CCX, "ISWAP": cirq.ISWAP, "S": cirq.S, "T": cirq.T, "I": cirq.I, "CCZ": cirq.CCZ, "CSWAP": cirq.CSWAP, "PX": cirq.PhasedXPowGate(phase_exponent=.3, exponent=.7), "XX": cirq.XX ** .3}[o[1]]
        return g(*[qs[i] for i in o[2]])
    if k == "ctrl":
        sub = cirq_op(o[1], qs)
        return sub.controlled_by(*[qs[i] for i in o[2]], control_values=o[3])
    if k == "ctrlgate":
        sub = cirq_op(o[1], qs)
        return sub.gate.controlled(len(o[2]), control_values=o[3])(*[qs[i] for i in o[2]], *sub.qubits)
    if k == "gphase":
        return cirq.global_phase_operation(cmath.exp(1j * o[1]))
    if k == "m":
        return cirq.measure(*[qs[i] for i in o[1]], key=o[2], invert_mask=tuple(o[3]))
    if k == "reset":
        return cirq.reset(qs[o[1]])
    if k == "tag":
        return cirq_op(o[1], qs).with_tags("t")
    if k == "cc":
        return cirq_op(o[1], qs).with_classical_controls(o[2])
    raise KeyError(k)


def cirq_plain(o):
    if o[0] in ("rot", "m", "reset"):
        return not (o[0] == "m" and any(o[3]))
    if o[0] == "pow":
        return o[1] in "XYZ" or o[2] == 1
    if o[0] in ("ctrl", "ctrlgate"):
        return o[1][0] == "rot" or o[1][0] == "pow" and o[1][1] == "Y"
    if o[0] == "tag":
        return cirq_plain(o[1])
    return False


@case("import_cirq")
def c_from_cirq(n, ops):
    import cirq
    import qrisp
    qs = [cirq.LineQubit(i) for i in range(n)]
    c = cirq.Circuit()
    for q in qs:
        c.append(cirq.X(q) ** 2)     # all qubits occur
    for o in ops:
        c.append(cirq_op(o, qs))
    invert = any(o[0] == "m" and any(o[3]) for o in ops)
    cc = any(o[0] == "cc" for o in ops)
    want = None if invert or cc else cirq_steps(c, qs)
    try:
        got = qrisp.QuantumCircuit.from_cirq(c)
    except Exception as e:
        if all(cirq_plain(o) for o in ops):
            raise Fail(f"import of a circuit of supported cirq gates is rejected: {type(e).__name__}: {e}")
        return "rejected"
    if want is None:
        raise Fail("an inverted measurement or a classical control is silently dropped")
    import_same(want, got, n, f"cirq import of {ops}", mode="qubit")
    return "ok"


@task("import_cirq", timeout=400)
def t_from_cirq(ctx):
    r = ctx.rng
    exps = [1, 1, -1, .5, -.5, .25, -.25, 3, 2, 1.5, .3, -1.7, 2.5]

    def one(n, depth=1):
        x = r.random()
        if x < .35:
            g = r.choice("XYZ")
            return ["pow", g, r.choice(exps), [r.randrange(n)]]
        if x < .5:
            return ["rot", r.choice(["rx", "ry", "rz"]), circ.angle(r), [r.randrange(n)]]
        if x < .55 and n > 1:
            return ["pow", r.choice(["CX", "CZ", "SWAP"]), r.choice([1, 1, 1, -1, 3, .5]), r.sample(range(n), 2)]
        if x < .6:
            return ["pow", "H", r.choice([1, 1, -1, 3, .5]), [r.randrange(n)]]
        if x < .8 and n > 1:
            b = r.choice([["pow", r.choice("XYZ"), r.choice(exps), [0]], ["rot", r.choice(["rx", "ry", "rz"]), circ.angle(r), [0]], ["pow", "H", 1, [0]], ["gphase", circ.angle(r)]])
            q = r.sample(range(n), n)
            if b[0] != "gphase":
                b = [*b[:-1], [q[0]]]
            k = r.randint(1, n - 1)
            return [r.choice(["ctrl", "ctrlgate"]) if b[0] != "gphase" else "ctrl", b, q[1:1 + k], [r.choice([0, 1, 1]) for _ in range(k)]]
        if x < .85:
            return ["gphase", circ.angle(r)]
        if x < .9:
            q = r.sample(range(n), r.randint(1, n))
            return ["m", q, f"k{r.randrange(10 ** 6)}", [r.random() < .15 for _ in q]]
        if x < .93:
            return ["reset", r.randrange(n)]
        if x < .96:
            return ["tag", one(n)]
        g = r.choice(["CCX", "ISWAP", "S", "T", "I", "PX", "XX", "CSWAP"])
        w = {"CCX": 3, "ISWAP": 2, "XX": 2, "CSWAP": 3}.get(g, 1)
        return ["named", g, r.sample(range(n), w)] if w <= n else ["pow", "X", 1, [0]]
    for i in range(700 if not thorough() else 5000):
        n = r.randint(1, 3)
        ops = [one(n) for _ in range(r.randint(1, 5))]
        ks = [o for o in ops if o[0] == "m"]
        if ks and r.random() < .3:
            ops.append(["cc", ["pow", "X", 1, [0]], ks[0][2]])
        ctx.run(c_from_cirq, n=n, ops=ops)
        if ctx.full():
            return


@case("round")
def c_round(d):
    """export to qiskit and import again"""
    import qrisp
    qc = circ.build(d)
    back = qrisp.QuantumCircuit.from_qiskit(qc.to_qiskit())
    check([q.identifier for q in back.qubits] == [q.identifier for q in qc.qubits], "qubit names change in a round trip")
    check([q.identifier for q in back.clbits] == [q.identifier for q in qc.clbits], "classical bit names change in a round trip")
    import_same(steps_of(d)[0], back, d["n"], f"round trip of {circ.show(d)}", tuple(range(d["c"])))


@task("round", timeout=400)
def t_round(ctx):
    r = ctx.rng
    for i in range(400 if not thorough() else 2500):
        n = r.randint(1, 3)
        d = circ.random(r, n, r.randint(0, 2), r.randint(1, 7), big=0 if n == 1 else .3, cond=.1 if i % 2 else 0)
        if any(o[0] == "if" and len(o[3]) > 1 for o in d["ops"]):
            continue
        ctx.run(c_round, d=d)
        if ctx.full():
            return


# ------------------------------------------------------------------------------------------------------------- parities and noise in stim
@case("stim_annotations")
def c_ann(n, c, ops):
    """parities become detectors / observables over exactly the measurements the classical bits hold at that point; noise keeps its qubits and parameters"""
    import qrisp
    import stim
    NG = need("qrisp.misc.stim_tools", "StimNoiseGate")
    qc = qrisp.QuantumCircuit(n, c)
    cur, k, want, noise = {}, 0, [], []
    for o in ops:
        if o[0] == "m":
            qc.measure(qc.qubits[o[1]], qc.clbits[o[2]])
            cur[o[2]] = k
            k += 1
        elif o[0] == "p":
            h = qc.parity([qc.clbits[i] for i in o[1]], expectation=o[3], observable=o[2])
            want.append((h, bool(o[2]), frozenset(cur[i] for i in o[1])))
        elif o[0] == "e":
            qc.append(NG(o[1], *o[2], pauli_string=o[4]), [qc.qubits[i] for i in o[3]])
            if o[4] is None:
                noise.append((o[1], tuple(o[2]), tuple(o[3])))
            else:
                noise.append((o[1], tuple(o[2]), tuple((s, q) for s, q in zip(o[4], o[3]) if s != "I")))
        else:
            getattr(qc, o[0])(*o[1])
    st, mm, dm, om = qc.to_stim(return_measurement_map=True, return_detector_map=True, return_observable_map=True)
    cnt, det, obs, got = 0, [], {}, []
    for ins in st.flattened():
        if ins.name == "M":
            cnt += len(ins.targets_copy())
        elif ins.name == "DETECTOR":
            det.append(frozenset(cnt + t.value for t in ins.targets_copy()))
        elif ins.name == "OBSERVABLE_INCLUDE":
            j = int(ins.gate_args_copy()[0])
            obs[j] = obs.get(j, frozenset()) ^ frozenset(cnt + t.value for t in ins.targets_copy())
        elif stim.gate_data(ins.name).is_noisy_gate and ins.gate_args_copy():
            t = ins.targets_copy()
            if ins.name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
                got.append((ins.name, tuple(ins.gate_args_copy()), tuple(("X" if x.is_x_target else "Y" if x.is_y_target else "Z", x.value) for x in t)))
            else:
                w = 1 if stim.gate_data(ins.name).is_single_qubit_gate else 2
                for i in range(0, len(t), w):
                    got.append((ins.name, tuple(ins.gate_args_copy()), tuple(x.value for x in t[i:i + w])))
    check(cnt == k, f"{cnt} measurements instead of {k}")
    check({qc.clbits.index(b): i for b, i in mm.items()} == cur, lambda: f"measurement map {mm} instead of {cur}")
    for h, o, s in want:
        m = om if o else dm
        check(h in m, f"the {'observable' if o else 'detector'} map lacks the parity over measurements {sorted(s)}")
        have = obs.get(m[h]) if o else det[m[h]] if m[h] < len(det) else None
        check(have == s, lambda: f"{'observable' if o else 'detector'} {m[h]} covers measurements {sorted(have) if have is not None else None} instead of {sorted(s)}")
    check(len(det) == sum(1 for w in want if not w[1]) and len(obs) == sum(1 for w in want if w[1]), "number of detectors or observables")
    alias = lambda L: [("E" if a == "CORRELATED_ERROR" else a, tuple(round(x, 12) for x in b), q) for a, b, q in L]
    check(alias(got) == alias(noise), lambda: f"noise {got} instead of {noise}")


@task("stim_annotations", timeout=300)
def t_ann(ctx):
    r = ctx.rng
    for i in range(120 if not thorough() else 1000):
        n, c = r.randint(2, 4), r.randint(2, 5)
        ops, have, seen = [], [], set()
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < .35 or not have:
                ops.append(["m", r.randrange(n), b := r.randrange(c)])
                have.append(b)
            elif x < .6:
                s = r.sample(sorted(set(have)), r.randint(1, len(set(have))))
                key = (frozenset(s),)
                if key in seen:       # handles are identified by their bits
                    continue
                seen.add(key)
                ops.append(["p", s, r.random() < .4, r.randint(0, 1)])
            elif x < .8:
                k = r.choice(["X_ERROR", "Z_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "PAULI_CHANNEL_1", "E"])
                q = r.sample(range(n), 2 if k in ("DEPOLARIZE2", "E") else 1)
                ops.append(["e", k, [.1, .05, .2] if k == "PAULI_CHANNEL_1" else [r.choice([.125, .25])], q, r.choice(["XZ", "YX", "IZ", "ZI"]) if k == "E" else None])
            else:
                g = r.choice(["x", "h", "cx", "s"])
                ops.append([g, r.sample(range(n), 2 if g == "cx" else 1)])
        ctx.run(c_ann, n=n, c=c, ops=ops)
        if ctx.full():
            return
