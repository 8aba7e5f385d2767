"""Descriptions of circuits: plain lists (JSON), from which the real circuit object is built.

{"n": qubits, "c": clbits, "ops": [["g", gate expression, qubits] | ["m", qubit, clbit] | ["reset", qubit]
  | ["if", gate expression, qubits, clbits, pattern] | ["barrier", qubits]]}
"""
import math

from vb import expr as E

PI = math.pi
ANGLES = [PI / 2, -PI / 2, PI / 4, -PI / 4, PI, PI / 8, 0.3, 1.1, 2.7, -0.9, -2.2, 3 * PI / 4, 5.0, 0.0]


def angle(r):
    return r.choice(ANGLES) if r.random() < .5 else round(r.uniform(-7, 7), 3)


def gate(r, k=None, one=None, two=None):
    """elementary gate expression on k (1 or 2) qubits"""
    if k is None:
        k = r.choice([1, 1, 2])
    g = r.choice((one or E.ONEQ) if k == 1 else (two or E.TWOQ))
    return ["gate", g, [angle(r) for _ in range(E.GATES[g][1])]]


def expression(r, width, kinds=("gate", "inv", "ctrl", "circ", "wrap"), depth=2, one=None, two=None, methods=(None,)):
    """random gate expression on exactly `width` qubits"""
    ch = [k for k in kinds if depth > 0]
    k = r.choice(ch) if ch else "gate"
    if k == "ctrl" and width == 1:
        k = "gate"
    if k in ("gate", "inv", "wrap") and width > 2 and depth <= 0:
        k = "ctrl"
    if k == "gate":
        if width <= 2:
            return gate(r, width, one, two)
        k = "ctrl" if "ctrl" in kinds else "circ"
    if k in ("inv", "wrap"):
        return [k, expression(r, width, kinds, depth - 1, one, two, methods)]
    if k == "ctrl":
        nc = r.randint(1, width - 1)
        b = width - nc
        if b > 2:
            nc, b = width - 1, 1
        pat = "".join(r.choice("1110") for _ in range(nc))
        return ["ctrl", expression(r, b, tuple(x for x in kinds if x != "wrap"), depth - 1, one, two, methods), nc, pat, r.choice(methods)]
    ops = []
    for _ in range(r.randint(2, 3)):
        w = r.randint(1, min(2, width))
        ops.append([expression(r, w, kinds, depth - 1, one, two, methods), r.sample(range(width), w)])
    return ["circ", ops, width]


def random(r, n, c, length, measure=.12, reset=.05, cond=.08, barrier=.03, big=.15, kinds=("gate", "inv", "ctrl", "circ", "wrap"), one=None, two=None,
           final=True, classical=0.0, overwrite=False, methods=(None,)):
    """random circuit; classical: share of gates drawn from permutation gates (keeps states sparse)"""
    ops, used = [], []
    free = list(range(c))
    r.shuffle(free)
    while len(ops) < length:
        x = r.random()
        if c and x < measure and (free or overwrite):
            cb = free.pop() if free and not (overwrite and used and r.random() < .3) else r.choice(used or [0])
            ops.append(["m", r.randrange(n), cb])
            used.append(cb)
            continue
        x -= measure
        if 0 <= x < reset:
            ops.append(["reset", r.randrange(n)])
            continue
        x -= reset
        if used and 0 <= x < cond:
            k = r.randint(1, min(2, len(set(used))))
            cl = r.sample(sorted(set(used)), k)
            e = gate(r, min(n, r.choice([1, 1, 2])), one, two)
            ops.append(["if", e, r.sample(range(n), E.width(e)), cl, "".join(r.choice("110") for _ in range(k))])
            continue
        x -= cond
        if 0 <= x < barrier:
            ops.append(["barrier", r.sample(range(n), r.randint(1, n))])
            continue
        if r.random() < classical:
            g = r.choice(["x", "x", "cx", "cx", "swap", "ccx", "z", "s", "t", "cz"])
            if g == "ccx":
                if n < 3:
                    continue
                e = ["ctrl", ["gate", "x", []], 2, r.choice(["11", "10", "01", "00"])]
            else:
                e = ["gate", g, []]
            if E.width(e) > n:
                continue
        elif r.random() < big and n >= 2:
            e = expression(r, r.randint(1, min(3, n)), kinds, 2, one, two, methods)
        else:
            e = gate(r, 1 if n == 1 else None, one, two)
        ops.append(["g", e, r.sample(range(n), E.width(e))])
    if final and free:
        qs = r.sample(range(n), min(len(free), n))
        for q in qs:
            ops.append(["m", q, free.pop()])
    return {"n": n, "c": c, "ops": ops}


def build(d, env=None):
    import qrisp
    qc = qrisp.QuantumCircuit(d["n"], d["c"])
    for o in d["ops"]:
        if o[0] == "g":
            qc.append(E.build(o[1], env), [qc.qubits[q] for q in o[2]])
        elif o[0] == "m":
            qc.measure(qc.qubits[o[1]], qc.clbits[o[2]])
        elif o[0] == "reset":
            qc.reset(qc.qubits[o[1]])
        elif o[0] == "if":
            op = E.build(o[1], env).c_if(len(o[3]), ctrl_state=o[4])
            qc.append(op, [qc.qubits[q] for q in o[2]], [qc.clbits[q] for q in o[3]])
        elif o[0] == "barrier":
            qc.barrier([qc.qubits[q] for q in o[1]])
        else:
            raise KeyError(o[0])
    return qc


def show(d):
    out = []
    for o in d["ops"]:
        if o[0] == "g":
            out.append(f"{E.show(o[1])} {o[2]}")
        elif o[0] == "if":
            out.append(f"if c{o[3]}=={o[4]}: {E.show(o[1])} {o[2]}")
        else:
            out.append(" ".join(map(str, o)))
    return f"{d['n']} qubits: " + "; ".join(out)


def measured(d):
    return sorted({o[2] for o in d["ops"] if o[0] == "m"})
