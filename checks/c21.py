"""C21: circuit containers and metrics. Random histories of container operations are executed on real circuits and, in parallel, on a plain list of
(matrix or tag, qubit names, classical bit names); after every step every live circuit must equal its list. Metrics are recomputed from their
definition on the flattened operation sequence."""
import math
import random

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import circ, expr as X
from vb.sim import op_unitary

ID = "C21"
LEVEL = "exploration"
RULE = "one evaluation = one history of container operations (all circuits compared after every step) or one circuit whose metrics are recomputed; nontrivial = distinct"
TRUSTED = ["the list model of circuits in this file", "vb.expr matrix specifications", "vb.sim.op_unitary (cross-checked by C07, C09)"]


class Model:
    def __init__(self, q=(), c=(), ops=()):
        self.q, self.c, self.ops = list(q), list(c), list(ops)

    def copy(self):
        return Model(self.q, self.c, self.ops)


def same(qc, m, what):
    got_q, got_c = [q.identifier for q in qc.qubits], [c.identifier for c in qc.clbits]
    check(got_q == m.q, lambda: f"{what}: qubits {got_q} instead of {m.q}")
    check(got_c == m.c, lambda: f"{what}: classical bits {got_c} instead of {m.c}")
    check(qc.num_qubits() == len(m.q), lambda: f"{what}: num_qubits {qc.num_qubits()}")
    check(len(qc.data) == len(m.ops), lambda: f"{what}: {len(qc.data)} operations instead of {len(m.ops)}")
    for i, (ins, (tag, U, q, c)) in enumerate(zip(qc.data, m.ops)):
        iq, ic = tuple(x.identifier for x in ins.qubits), tuple(x.identifier for x in ins.clbits)
        check(iq == q, lambda: f"{what}: operation {i} ({ins.op.name}) acts on qubits {iq} instead of {q}")
        check(ic == c, lambda: f"{what}: operation {i} ({ins.op.name}) acts on classical bits {ic} instead of {c}")
        check(all(x in qc.qubits for x in ins.qubits), lambda: f"{what}: operation {i} holds a qubit object that is not part of the circuit")
        if U is None:
            check(ins.op.name == tag, lambda: f"{what}: operation {i} is {ins.op.name} instead of {tag}")
        else:
            key = (id(ins.op), id(U))
            if key in CACHE and CACHE[key][0] is ins.op and CACHE[key][1] is U and CACHE[key][2] == fingerprint(ins.op):
                continue
            d = np.max(np.abs(op_unitary(ins.op, "auto") - U)) if 1 << ins.op.num_qubits == len(U) else 9
            check(d < 1e-4, lambda: f"{what}: operation {i} ({ins.op.name}) has another matrix than the {tag} that was appended")
            CACHE[key] = (ins.op, U, fingerprint(ins.op))


CACHE = {}


def fingerprint(op):
    d = op.definition
    return (op.name, op.num_qubits, op.num_clbits, tuple(map(str, op.params)), None if d is None else tuple((i.op.name, tuple(map(str, i.op.params)), tuple(q.identifier for q in i.qubits)) for i in d.data))


def mat(e, env=None):
    return X.dense(X.expected(e, X.Num, env or {}))


def embed(U, q, names):
    """matrix of U on the named qubits, first name most significant"""
    n, k = len(names), len(q)
    pos = [n - 1 - names.index(x) for x in q]
    out = np.zeros((1 << n, 1 << n), dtype=complex)
    for c in range(1 << n):
        i = sum((c >> pos[j] & 1) << (k - 1 - j) for j in range(k))
        base = c
        for p in pos:
            base &= ~(1 << p)
        for r in range(1 << k):
            if U[r, i] != 0:
                out[base | sum((r >> (k - 1 - j) & 1) << pos[j] for j in range(k)), c] += U[r, i]
    return out


def whole(m):
    U = np.eye(1 << len(m.q), dtype=complex)
    for tag, V, q, c in m.ops:
        if V is None:
            if tag in ("barrier",):
                continue
            return None
        U = embed(V, q, m.q) @ U
    return U


@case("history")
def c_history(steps, seed_):
    """steps: list of step names; arguments are drawn from the seed so that a step list can be shortened"""
    import qrisp
    r = random.Random(seed_)
    CACHE.clear()
    qc = qrisp.QuantumCircuit(3, 2)
    live = [(qc, Model([q.identifier for q in qc.qubits], [c.identifier for c in qc.clbits]))]
    same(qc, live[0][1], "new circuit")

    def pick():
        return r.choice(live)

    def ref(qc, i):
        return r.choice([qc.qubits[i], i])

    for n_, k in enumerate(steps):
        qc, m = pick()
        nq, nc = len(m.q), len(m.c)
        what = f"step {n_} ({k})"
        before = [(a, b.copy()) for a, b in live]
        if k == "gate":
            e = circ.expression(r, r.randint(1, min(3, nq)), depth=r.randint(0, 2))
            q = r.sample(range(nq), X.width(e))
            qc.append(X.build(e), [ref(qc, i) for i in q])
            m.ops.append(("gate", mat(e), tuple(m.q[i] for i in q), ()))
        elif k == "method":
            g = r.choice(["x", "y", "z", "h", "s", "t", "sx", "cx", "cz", "cy", "swap", "p", "rx", "ry", "rz", "cp", "rxx", "rzz", "xxyy", "u3", "r", "gphase", "id", "s_dg", "t_dg", "sx_dg", "mcx", "crx", "ccx"])
            if g in ("mcx", "ccx"):
                if nq < 3:
                    continue
                q = r.sample(range(nq), 3)
                pat = r.choice(["11", "10", "00"])
                if g == "mcx":
                    qc.mcx([qc.qubits[i] for i in q[:2]], qc.qubits[q[2]], ctrl_state=pat)
                else:
                    pat = "11"
                    qc.ccx(*[ref(qc, i) for i in q])
                e = ["ctrl", ["gate", "x", []], 2, pat, None]
            elif g == "crx":
                q = r.sample(range(nq), 2)
                a = circ.angle(r) or .5
                qc.crx(a, *[ref(qc, i) for i in q])
                e = ["ctrl", ["gate", "rx", [a]], 1, "1", None]
            elif g in ("s_dg", "t_dg"):
                q = [r.randrange(nq)]
                getattr(qc, g)(ref(qc, q[0]))
                e = ["inv", ["gate", g[0], []]]
            else:
                _, np_, w = X.GATES[g]
                a = [circ.angle(r) or .5 for _ in range(np_)]
                q = r.sample(range(nq), w)
                getattr(qc, g)(*a, *[ref(qc, i) for i in q])
                e = ["gate", g, a]
            m.ops.append((g, mat(e), tuple(m.q[i] for i in q), ()))
        elif k == "broadcast":
            g = r.choice(["h", "x", "cx"])
            if g == "cx" and nq >= 3:
                c, *t = r.sample(range(nq), 3)
                if r.random() < .5:
                    qc.cx(qc.qubits[c], [qc.qubits[i] for i in t])
                    todo = [(c, i) for i in t]
                else:
                    qc.cx([qc.qubits[i] for i in t], [qc.qubits[c]] * 2)
                    todo = [(i, c) for i in t]
            else:
                g = "h"
                todo = [(i,) for i in r.sample(range(nq), r.randint(1, nq))]
                qc.h([ref(qc, i[0]) for i in todo])
            for q in todo:
                m.ops.append((g, mat(["gate", g, []]), tuple(m.q[i] for i in q), ()))
        elif k == "measure":
            if r.random() < .5 and nc:
                q, c = r.randrange(nq), r.randrange(nc)
                qc.measure(ref(qc, q), r.choice([qc.clbits[c], c]))
                m.ops.append(("measure", None, (m.q[q],), (m.c[c],)))
            elif r.random() < .5:
                q = r.randrange(nq)
                qc.measure(qc.qubits[q])
                check(len(qc.clbits) == nc + 1, f"{what}: measuring without a classical bit adds {len(qc.clbits) - nc} bits")
                m.c.append(qc.clbits[-1].identifier)
                m.ops.append(("measure", None, (m.q[q],), (m.c[-1],)))
            else:
                qs = r.sample(range(nq), min(2, nq))
                qc.measure([qc.qubits[i] for i in qs])
                for j, i in enumerate(qs):
                    m.c.append(qc.clbits[nc + j].identifier)
                    m.ops.append(("measure", None, (m.q[i],), (m.c[-1],)))
        elif k == "cond":
            if not nc:
                continue
            e = circ.gate(r, 1)
            g = X.build(e).c_if()
            q, c = r.randrange(nq), r.randrange(nc)
            qc.append(g, [qc.qubits[q]], [qc.clbits[c]])
            m.ops.append((g.name, None, (m.q[q],), (m.c[c],)))
        elif k == "reset":
            q = r.randrange(nq)
            qc.reset(ref(qc, q))
            m.ops.append(("reset", None, (m.q[q],), ()))
        elif k == "barrier":
            q = r.sample(range(nq), r.randint(1, nq))
            if r.random() < .3:
                qc.barrier()
                q = range(nq)
            else:
                qc.barrier([qc.qubits[i] for i in q])
            m.ops.append(("barrier", None, tuple(m.q[i] for i in q), ()))
        elif k == "add":
            if nq < 5:
                x = qc.add_qubit(*([] if r.random() < .5 else [qrisp.Qubit(f"own_{seed_}_{n_}")]))
                m.q.append(x.identifier)
            x = qc.add_clbit(*([] if r.random() < .5 else [qrisp.Clbit(f"ownc_{seed_}_{n_}")]))
            m.c.append(x.identifier)
        elif k == "copy":
            live.append((qc.copy(), m.copy()))
        elif k == "clear":
            live.append((qc.clearcopy(), Model(m.q, m.c)))
        elif k == "inverse":
            if any(o[1] is None and o[0] != "barrier" for o in m.ops):
                try:
                    qc.inverse()
                except Exception:
                    pass
                else:
                    raise Fail(f"{what}: inverting a circuit with measurement or reset is accepted")
            else:
                live.append((qc.inverse(), Model(m.q, m.c, [(t, None if U is None else U.conj().T, q, c) for t, U, q, c in m.ops[::-1]])))
        elif k == "extend":
            oc, om = pick()
            if len(om.q) > nq or len(om.c) > nc or len(m.ops) + len(om.ops) > 60 or oc is qc:
                continue
            q, c = r.sample(range(nq), len(om.q)), r.sample(range(nc), len(om.c))
            tr = {oc.qubits[i]: qc.qubits[j] for i, j in enumerate(q)}
            tr.update({oc.clbits[i]: qc.clbits[j] for i, j in enumerate(c)})
            if r.random() < .3:
                tr = {key.identifier: v for key, v in tr.items()}
            n_tr = dict(tr)
            qc.extend(oc, tr)
            check(tr == n_tr, f"{what}: the translation dictionary was changed")
            mq, mc = {a: m.q[j] for a, j in zip(om.q, q)}, {a: m.c[j] for a, j in zip(om.c, c)}
            m.ops += [(t, U, tuple(mq[x] for x in a), tuple(mc[x] for x in b)) for t, U, a, b in om.ops]
        elif k == "extend_id":
            o = qc.copy()
            e = circ.gate(r, 1)
            o.data = []
            i = r.randrange(nq)
            o.append(X.build(e), [o.qubits[i]])
            qc.extend(o)
            m.ops.append(("gate", mat(e), (m.q[i],), ()))
        elif k in ("compose", "togate"):
            oc, om = pick()
            U = whole(om)
            if U is None or len(om.q) > nq or om.c or oc is qc or not om.ops:
                continue
            q = r.sample(range(nq), len(om.q))
            entry = ("composite", U, tuple(m.q[i] for i in q), ())
            if k == "togate":
                g = oc.to_gate(r.choice([None, "myname"]))
                qc.append(g, [qc.qubits[i] for i in q])
                m.ops.append(entry)
            elif r.random() < .5:
                check(qc.compose(oc, [qc.qubits[i] for i in q]) is None, f"{what}: in-place composition returns something")
                m.ops.append(entry)
            else:
                new = qc.compose(oc, [qc.qubits[i] for i in q], inplace=False)
                m2 = m.copy()
                m2.ops.append(entry)
                live.append((new, m2))
        elif k == "compose_id":
            o = qc.clearcopy()
            e = circ.expression(r, min(2, nq), depth=1)
            i = r.sample(range(nq), X.width(e))
            o.append(X.build(e), [o.qubits[j] for j in i])
            names = tuple(m.q)
            qc.compose(o)
            check(len(qc.data) == len(m.ops) + 1, f"{what}: composition by identifiers adds {len(qc.data) - len(m.ops)} operations")
            ins = qc.data[-1]
            if m.c:
                check([c.identifier for c in ins.clbits] == m.c, f"{what}: classical bits are not matched by identifier")
                qc.data.pop()
                continue
            m.ops.append(("composite", embed(mat(e), [m.q[j] for j in i], m.q), names, ()))
        elif k == "instr":
            if not qc.data:
                continue
            j = r.randrange(len(qc.data))
            ins = qc.data[j].copy()
            check(ins.qubits is not qc.data[j].qubits and ins.op is not qc.data[j].op, f"{what}: copy of an instruction shares its lists")
            qc.append(ins)
            m.ops.append(m.ops[j])
        elif k == "drop":
            if qc.data and len(live) > 1:
                j = r.randrange(len(qc.data))
                qc.data.pop(j)
                m.ops.pop(j)
        elif k == "bad":
            bad = r.choice(["few", "many", "dup", "foreign", "type", "index", "clbit", "dupq", "dupc", "nocl", "manycl", "len"])
            f = {
                "few": lambda: qc.append(qrisp.circuit.CXGate(), [qc.qubits[0]]),
                "many": lambda: qc.append(qrisp.circuit.HGate(), [qc.qubits[0], qc.qubits[1]]),
                "dup": lambda: qc.cx(qc.qubits[0], qc.qubits[0]),
                "foreign": lambda: qc.h(qrisp.QuantumCircuit(1).qubits[0]),
                "type": lambda: qc.append("h", [qc.qubits[0]]),
                "index": lambda: qc.h(nq + 2),
                "clbit": lambda: qc.measure(qc.qubits[0], qrisp.QuantumCircuit(0, 1).clbits[0]),
                "dupq": lambda: qc.add_qubit(qrisp.Qubit(m.q[0])),
                "dupc": lambda: qc.add_clbit(qrisp.Clbit(m.c[0])) if m.c else qc.h("a"),
                "nocl": lambda: qc.append(qrisp.circuit.Measurement(), [qc.qubits[0]]),
                "manycl": lambda: qc.append(qrisp.circuit.HGate(), [qc.qubits[0]], [qc.clbits[0]]) if m.c else qc.h(1.5),
                "len": lambda: qc.cx([qc.qubits[0]], [qc.qubits[1], qc.qubits[2]]) if nq > 2 else qc.h(None),
            }[bad]
            if nq < 2 and bad in ("many", "few"):
                continue
            try:
                f()
            except Exception:
                pass
            else:
                raise Fail(f"{what}: ill-formed request '{bad}' is accepted")
        for i, (a, b) in enumerate(live):
            same(a, b, f"{what}, circuit {i}")
        del live[:-4]


STEPS = ["gate"] * 5 + ["method"] * 5 + ["broadcast", "measure", "cond", "reset", "barrier", "add", "copy", "copy", "clear", "inverse", "inverse", "extend", "extend", "extend_id", "compose", "compose", "togate", "togate", "compose_id", "instr", "drop", "bad", "bad"]


@task("history", timeout=400, weight=3)
def t_history(ctx):
    ctx.bound("histories of up to 30 container operations over up to 4 live circuits on up to 5 qubits")
    r = ctx.rng
    for i in range(700 if not thorough() else 6000):
        ctx.run(c_history, steps=[r.choice(STEPS) for _ in range(r.randint(5, 30))], seed_=r.randrange(10 ** 6))
        if ctx.full():
            return


@task("unitary_history", timeout=400, weight=3)
def t_uhistory(ctx):
    r = ctx.rng
    st = [s for s in STEPS if s not in ("measure", "cond", "reset")]
    for i in range(700 if not thorough() else 6000):
        ctx.run(c_history, steps=[r.choice(st) for _ in range(r.randint(5, 30))], seed_=r.randrange(10 ** 6))
        if ctx.full():
            return


# ---------------------------------------------------------------------------------------------------------------- parameters
@case("bind")
def c_bind(ops, n, env, part):
    import qrisp
    import sympy
    qc = qrisp.QuantumCircuit(n)
    for e, q in ops:
        qc.append(X.build(e), [qc.qubits[i] for i in q])
    syms = sorted({p for e, q in ops for p in params(e)})
    check({str(s) for s in qc.abstract_params} == set(syms), lambda: f"abstract parameters {qc.abstract_params} instead of {syms}")
    sub = {s: env[str(s)] for s in qc.abstract_params}
    n0 = [fingerprint(i.op) for i in qc.data]
    keep = dict(sub)
    new = qc.bind_parameters(sub)
    check(sub == keep, "binding changes the dictionary of values")
    check(not new.abstract_params, lambda: f"bound circuit still reports parameters {new.abstract_params}")
    check([fingerprint(i.op) for i in qc.data] == n0 and {str(s) for s in qc.abstract_params} == set(syms), "binding parameters changes the original circuit")
    check(len(new.data) == len(ops), f"{len(new.data)} operations after binding instead of {len(ops)}")
    for i, (ins, (e, q)) in enumerate(zip(new.data, ops)):
        check([new.qubits.index(x) for x in ins.qubits] == q, f"operation {i} acts on other qubits after binding")
        d = np.max(np.abs(op_unitary(ins.op, "auto") - mat(e, env)))
        check(d < 1e-4, lambda: f"operation {i} {X.show(e)} at {env}: bound gate deviates by {d:.3g}")
        d2 = np.max(np.abs(np.array(ins.op.get_unitary(), dtype=complex) - mat(e, env)))
        check(d2 < 1e-3, lambda: f"operation {i} {X.show(e)} at {env}: matrix of the bound gate deviates by {d2:.3g}")
    again = qc.bind_parameters({s: env[str(s)] + .5 for s in qc.abstract_params})
    for i, (ins, (e, q)) in enumerate(zip(again.data, ops)):
        d = np.max(np.abs(op_unitary(ins.op, "auto") - mat(e, {k: v + .5 for k, v in env.items()})))
        check(d < 1e-4, lambda: f"operation {i} {X.show(e)}: second binding deviates by {d:.3g}")


def params(e):
    if e[0] == "gate":
        return {p for p in e[2] if isinstance(p, str)}
    if e[0] == "circ":
        return set().union(*[params(x) for x, _ in e[1]]) if e[1] else set()
    return params(e[1])


@task("parameters", timeout=400)
def t_par(ctx):
    r = ctx.rng
    for i in range(80 if not thorough() else 800):
        ops = []
        n = r.randint(2, 3)
        for _ in range(r.randint(1, 4)):
            e = X.random_expr(r, r.randint(1, 3), n, sym=True, methods=(None,))
            if X.width(e) <= n:
                ops.append([e, r.sample(range(n), X.width(e))])
        if not ops:
            continue
        ctx.run(c_bind, ops=ops, n=n, env={s: round(r.uniform(-3, 3), 3) for s in "abc"}, part=0)
        if ctx.full():
            return


# ---------------------------------------------------------------------------------------------------------------- metrics
def flatten(qc):
    out = []

    def go(c, tr):
        for ins in c.data:
            q = [tr[x] for x in ins.qubits]
            cl = [tr[x] for x in ins.clbits]
            if ins.op.definition is not None:
                d = ins.op.definition
                t = dict(zip(d.qubits, q))
                t.update(zip(d.clbits, cl))
                go(d, t)
            else:
                out.append((ins.op, q, cl))
    tr = {x: x for x in list(qc.qubits) + list(qc.clbits)}
    go(qc, tr)
    return out


def tcost(op, eps):
    name = op.name
    if hasattr(op, "base_op"):
        return tcost(op.base_op, eps)
    if name in ("t", "t_dg"):
        return 1
    if name in ("rx", "ry", "rz", "p", "u1"):
        ps = [op.params[0]]
    elif name == "u3":
        ps = list(op.params)
    elif name in ("x", "y", "z", "h", "s", "s_dg", "sx", "sx_dg", "id", "cx", "cy", "cz", "measure", "reset", "barrier", "gphase"):
        return 0
    else:
        raise Undecided(f"no T cost known for {name}")
    tot = 0
    for p in ps:
        x = (float(p) / math.pi) % 1
        if min(abs(x), abs(x - .5), abs(x - 1)) < 1e-9:
            continue
        tot += 1 if min(abs(x - .25), abs(x - .75)) < 1e-9 else 3 * math.log2(1 / eps)
    return tot


def ccost(op):
    if hasattr(op, "base_op"):
        return ccost(op.base_op)
    return 1 if op.name in ("cx", "cy", "cz") else 0


def path(ops, cost):
    lvl = {}
    for op, q, c in ops:
        if op.name in ("qb_alloc", "qb_dealloc", "gphase") or not q and not c:
            continue
        b = max(lvl.get(x, 0) for x in q + c) + cost(op)
        for x in q + c:
            lvl[x] = b
    return lvl


@case("metrics")
def c_metrics(d):
    qc = circ.build(d)
    data = list(qc.data)
    fl = flatten(qc)
    want = {}
    for ins in qc.data:
        want[ins.op.name] = want.get(ins.op.name, 0) + 1
    check(qc.count_ops() == want, lambda: f"count_ops {qc.count_ops()} instead of {want}")
    tr = qc.transpile()
    got = [(i.op.name, [q.identifier for q in i.qubits], [c.identifier for c in i.clbits]) for i in tr.data]
    exp = [(op.name, [x.identifier for x in q], [x.identifier for x in c]) for op, q, c in fl]
    check(got == exp, lambda: "transpiled operation list differs from the flattened one" + next((f" at {i}: {a} instead of {b}" for i, (a, b) in enumerate(zip(got, exp)) if a != b), f": {len(got)} instead of {len(exp)} operations"))
    cx = sum(op.name in ("cx", "cy", "cz") for op, _, _ in fl)
    check(qc.cnot_count() == cx, lambda: f"cnot_count {qc.cnot_count()} instead of {cx}")
    lv = path(fl, lambda op: 1)
    dep = max([lv.get(q, 0) for q in qc.qubits], default=0)
    check(qc.depth() == dep, lambda: f"depth {qc.depth()} instead of {dep}")
    dd = qc.get_depth_dic()
    check(all(dd[q] == lv.get(q, 0) for q in qc.qubits), lambda: f"depth of the qubits {dd} instead of {lv}")
    top = path([(i.op, i.qubits, i.clbits) for i in qc.data], lambda op: 1)
    check(qc.depth(transpile=False) == max([top.get(q, 0) for q in qc.qubits], default=0), lambda: f"untranspiled depth {qc.depth(transpile=False)}")
    w = lambda op: 0 if op.num_qubits == 1 else 3
    lw = path(fl, w)
    check(qc.depth(depth_indicator=w) == max([lw.get(q, 0) for q in qc.qubits], default=0), "depth with a user cost differs from the longest path")
    lc = path(fl, ccost)
    check(qc.cnot_depth() == max([lc.get(q, 0) for q in qc.qubits], default=0), lambda: f"two-qubit depth {qc.cnot_depth()} instead of {max([lc.get(q, 0) for q in qc.qubits], default=0)}")
    eps = 2 ** -10
    lt = path(fl, lambda op: tcost(op, eps))
    t = max([lt.get(q, 0) for q in qc.qubits], default=0)
    check(abs(qc.t_depth(eps) - int(t + 1e-9)) < 1, lambda: f"T-depth {qc.t_depth(eps)} instead of {t}")
    check(qc.data == data and len(qc.data) == len(data), "computing metrics changes the circuit")
    for level in (0, 1, 2):
        tl = qc.transpile(level)
        check(len(tl.qubits) == len(qc.qubits) and len(tl.clbits) == len(qc.clbits), "transpiling changes the registers")
        if level == 0:
            check([i.op.name for i in tl.data] == [i.op.name for i in qc.data], "transpiling by zero levels changes the operations")


@task("metrics", timeout=400, weight=2)
def t_metrics(ctx):
    ctx.bound("random circuits on up to 5 qubits, 25 operations with composites, controls, measurements, resets, conditions")
    r = ctx.rng
    for i in range(700 if not thorough() else 6000):
        n = r.randint(2, 5)
        d = circ.random(r, n, r.randint(0, 3), r.randint(3, 25), barrier=0 if i % 4 else .05, cond=.08 if i % 3 == 0 else 0)
        ctx.run(c_metrics, d=d)
        if ctx.full():
            return


@case("compare")
def c_compare(a, b, n, phase):
    """compare_unitary is true exactly for equal matrices (up to a global phase on request)"""
    import qrisp

    def mk(ops):
        qc, m = qrisp.QuantumCircuit(n), Model([f"q{i}" for i in range(n)])
        for e, q in ops:
            qc.append(X.build(e), [qc.qubits[i] for i in q])
            m.ops.append(("g", mat(e), tuple(m.q[i] for i in q), ()))
        return qc, whole(m)
    (qa, A), (qb, B) = mk(a), mk(b)
    if phase:
        qb.gphase(phase, 0)
        B = B * np.exp(1j * phase)
    d = np.linalg.norm(A - B)
    t = np.trace(A.conj().T @ B)
    dp = np.linalg.norm(A * (t / abs(t) if abs(t) > 1e-9 else 1) - B)
    for dist, kw in ((d, {}), (dp, {"ignore_gphase": True})):
        if 1e-5 < dist < 1e-2:
            continue
        check(qa.compare_unitary(qb, **kw) == (dist < 1e-3), lambda: f"compare_unitary {kw} says {dist >= 1e-3} for circuits at distance {dist:.3g}")
    check(not qa.compare_unitary(qrisp.QuantumCircuit(n + 1)), "circuits of different size compare equal")


@task("compare", timeout=300)
def t_compare(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 600):
        n = r.randint(1, 3)
        a = [[circ.gate(r, 1 if n == 1 else None), None] for _ in range(r.randint(1, 4))]
        for x in a:
            x[1] = r.sample(range(n), X.width(x[0]))
        b = [list(x) for x in a]
        k = r.random()
        if k < .4:
            j = r.randrange(len(b))
            b[j] = [["inv", ["inv", b[j][0]]], b[j][1]]
        elif k < .7:
            b = b[1:] + b[:1]
        else:
            j = r.randrange(len(b))
            b[j] = [["inv", b[j][0]], b[j][1]]
        ctx.run(c_compare, a=a, b=b, n=n, phase=r.choice([0, 0, 1.3, math.pi]))


@case("merge")
def c_merge(a, b, qa, qb, n):
    """an instruction merged with another one performs both, in order"""
    import qrisp
    qc = qrisp.QuantumCircuit(n)
    for e, q in ((a, qa), (b, qb)):
        qc.append(X.build(e), [qc.qubits[i] for i in q])
    i0, i1 = qc.data
    res = i0.merge(i1)
    names = [q.identifier for q in res.qubits]
    check(set(names) == {q.identifier for q in i0.qubits + i1.qubits} and len(set(names)) == len(names), "merged instruction acts on other qubits")
    U = embed(mat(b), [q.identifier for q in i1.qubits], names) @ embed(mat(a), [q.identifier for q in i0.qubits], names)
    check(np.max(np.abs(op_unitary(res.op, "auto") - U)) < 1e-4, "merged instruction has another matrix than the product")
    inv = i0.inverse()
    check(np.max(np.abs(op_unitary(inv.op, "auto") - mat(a).conj().T)) < 1e-4 and inv.qubits == i0.qubits, "inverse of an instruction")
    check(np.max(np.abs(op_unitary(i0.op, "auto") - mat(a))) < 1e-4, "inverting an instruction changes it")


@case("extend_fn")
def c_extfn(n, c):
    """module-level extension by identity: missing bits are added"""
    import qrisp
    ext = need("qrisp.circuit", "extend")
    a, b = qrisp.QuantumCircuit(1, 1), qrisp.QuantumCircuit(n, c)
    for i in range(n):
        b.h(i)
    for i in range(min(n, c)):
        b.measure(i, i)
    ext(a, b)
    check(len(a.qubits) == 1 + n and len(a.clbits) == 1 + c, lambda: f"extended circuit has {len(a.qubits)} qubits, {len(a.clbits)} classical bits")
    check([(i.op.name, [q.identifier for q in i.qubits], [x.identifier for x in i.clbits]) for i in a.data] == [(i.op.name, [q.identifier for q in i.qubits], [x.identifier for x in i.clbits]) for i in b.data], "extended operation list differs")


@case("cond_default")
def c_conddef(e, k, flips):
    """a classically conditioned operation without an explicit pattern acts exactly when all condition bits are one"""
    import qrisp
    from vb.sim import distribution
    w = X.width(e)
    qc = qrisp.QuantumCircuit(k + w, k + w)
    for i in flips:
        qc.x(i)
    for i in range(k):
        qc.measure(i, i)
    qc.append(X.build(e).c_if(k) if k > 1 else X.build(e).c_if(), [qc.qubits[k + i] for i in range(w)], [qc.clbits[i] for i in range(k)])
    for i in range(w):
        qc.measure(k + i, k + i)
    base = qc.data[len(flips) + k].op
    check(base.num_control == k, f"{base.num_control} condition bits instead of {k}")
    col = mat(e)[:, 0] if len(flips) == k else np.eye(1 << w)[0]
    want = {}
    for j in range(1 << w):
        if abs(col[j]) ** 2 > 1e-9:
            want[tuple(int(i in flips) for i in range(k)) + tuple(j >> (w - 1 - i) & 1 for i in range(w))] = abs(col[j]) ** 2
    run = {tuple(map(int, key[::-1])): v for key, v in qc.run().items()}
    for name, got in (("circuit", distribution(qc)), ("built-in run", run)):
        d = max(abs(got.get(x, 0) - want.get(x, 0)) for x in set(got) | set(want))
        check(d < 1e-3, lambda: f"{X.show(e)} conditioned on {k} bits with ones at {flips}: {name} gives {got} instead of {want}")


@case("rounded")
def c_round(ops, n, decimals, env):
    """the rounded matrix of a circuit is its matrix up to the requested number of decimals"""
    import qrisp
    import sympy
    qc, U = qrisp.QuantumCircuit(n), np.eye(1 << n, dtype=complex)
    names = [q.identifier for q in qc.qubits]
    for e, q in ops:
        qc.append(X.build(e), [qc.qubits[i] for i in q])
        U = embed(mat(e, env), [names[i] for i in q], names) @ U
    got = qc.get_unitary(decimals=decimals)
    check(got.shape == U.shape, f"matrix of shape {got.shape}")
    if got.dtype == object:
        got = np.array([[complex(sympy.sympify(x).subs({s: env[str(s)] for s in sympy.sympify(x).free_symbols})) for x in row] for row in got])
        check(np.max(np.abs(got - U)) < 8 * 10.0 ** -decimals, lambda: f"symbolic matrix rounded to {decimals} decimals deviates by {np.max(np.abs(got - U)):.3g}")
    else:
        d = np.max(np.abs(np.array(got, dtype=complex) - U))
        check(d < .75 * 10.0 ** -decimals + 2e-4, lambda: f"matrix rounded to {decimals} decimals deviates by {d:.3g}")
        z = np.array(got, dtype=complex).ravel() * 10.0 ** decimals
        check(max(np.max(np.abs(z.real - np.round(z.real))), np.max(np.abs(z.imag - np.round(z.imag)))) < 1e-2, f"matrix is not rounded to {decimals} decimals")


@task("instructions", timeout=300)
def t_instr(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 500):
        n = r.randint(2, 4)
        a, b = circ.gate(r), circ.gate(r)
        ctx.run(c_merge, a=a, b=b, qa=r.sample(range(n), X.width(a)), qb=r.sample(range(n), X.width(b)), n=n)
    for n in range(1, 4):
        for c in range(3):
            ctx.run(c_extfn, n=n, c=c)
    for k in (1, 2, 3):
        for e in (["gate", "x", []], ["gate", "cx", []], ["gate", "ry", [0.7]], ["ctrl", ["gate", "x", []], 1, "0", None]):
            for m in range(1 << k):
                ctx.run(c_conddef, e=e, k=k, flips=[i for i in range(k) if m >> i & 1])
    for i in range(24 if not thorough() else 200):
        n = r.randint(1, 2)
        ops = []
        for _ in range(r.randint(1, 3)):
            e = circ.gate(r, 1 if n == 1 else None)
            if i % 3 == 0 and e[2]:
                e = ["gate", e[1], ["a"] + e[2][1:]]
            ops.append([e, r.sample(range(n), X.width(e))])
        ctx.run(c_round, ops=ops, n=n, decimals=r.choice([1, 2, 3]), env={"a": round(r.uniform(-3, 3), 3)})
