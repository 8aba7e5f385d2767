"""C22: quantum arrays and dictionaries against their classical models (numpy arrays of entry identities, Python dicts).

Contracts: every view operation commutes with the numpy operation on the entry identities; encoding, measuring and decoding go through the same
index map; elementwise operations and quantum-indexed access are evaluated on superpositions of contents."""
from fractions import Fraction
import itertools
import math

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb.q import grid, map_state, qubits
from vb.fmt import encode, fmt, value, var

ID = "C22"
LEVEL = "exploration"
RULE = "one evaluation = one chain of view operations (shape, indices) or one array/dictionary operation with its shapes, types and contents; nontrivial = distinct"
TRUSTED = ["vb.sim evaluator", "numpy indexing semantics", "CPython"]


def entry(kind):
    import qrisp
    k = kind[0]
    if k == "float":
        return qrisp.QuantumFloat(*kind[1:3], signed=kind[3])
    if k == "bool":
        return qrisp.QuantumBool()
    if k == "char":
        return qrisp.QuantumChar()
    if k == "var":
        return qrisp.QuantumVariable(kind[1])
    if k == "mod":
        return qrisp.QuantumModulus(kind[1])
    raise KeyError(k)


def build(shape, kind=("float", 2, 0, False)):
    import qrisp
    return qrisp.QuantumArray(qtype=entry(kind), shape=tuple(shape))


def idx(x):
    if isinstance(x, list) and x and x[0] == "s":
        return slice(*x[1:])
    if x == "...":
        return Ellipsis
    if x is None:
        return None
    return x


def apply_np(m, op, others):
    o, a = op[0], op[1:]
    if o == "get":
        return m[tuple(idx(x) for x in a[0])] if a[1] else m[idx(a[0][0])]
    if o == "reshape":
        return m.reshape(tuple(a[0]))
    if o == "reshape*":
        return m.reshape(*a[0])
    if o == "flatten":
        return m.flatten()
    if o == "ravel":
        return m.ravel()
    if o == "transpose":
        return m.transpose(*([tuple(a[0])] if a[0] is not None else []))
    if o == "swapaxes":
        return m.swapaxes(*a[0])
    if o == "concat":
        import numpy as np
        return np.concatenate((m, others[a[0]][1]), axis=a[1])
    if o == "rconcat":
        import numpy as np
        return np.concatenate((others[a[0]][1], m), axis=a[1])
    raise KeyError(o)


def apply_q(q, op, others):
    o, a = op[0], op[1:]
    if o == "get":
        return q[tuple(idx(x) for x in a[0])] if a[1] else q[idx(a[0][0])]
    if o == "reshape":
        return q.reshape(tuple(a[0]))
    if o == "reshape*":
        return q.reshape(*a[0])
    if o == "flatten":
        return q.flatten()
    if o == "ravel":
        return q.ravel()
    if o == "transpose":
        return q.transpose(*([tuple(a[0])] if a[0] is not None else []))
    if o == "swapaxes":
        return q.swapaxes(*a[0])
    if o == "concat":
        return q.concatenate(others[a[0]][0], axis=a[1])
    if o == "rconcat":
        return others[a[0]][0].concatenate(q, axis=a[1])
    raise KeyError(o)


def ids(q):
    import numpy as np
    import qrisp
    if isinstance(q, qrisp.QuantumVariable):
        return tuple(hash(x) for x in q.reg)
    return [tuple(hash(x) for x in e.reg) for e in q.flatten()]


def chain(shape, ops, shape2=None):
    """build array + model, run the operations on both; returns (array, model of ids, base entries, base ids, others)"""
    import numpy as np
    A = build(shape)
    base = [e for e in A.flatten()]
    n = len(base)
    M = np.arange(n).reshape(shape)
    bid = {tuple(hash(x) for x in e.reg): i for i, e in enumerate(base)}
    others = []
    if shape2:
        B = build(shape2)
        bb = [e for e in B.flatten()]
        others.append((B, (np.arange(len(bb)) + n).reshape(shape2)))
        for i, e in enumerate(bb):
            bid[tuple(hash(x) for x in e.reg)] = n + i
        base += bb
    check(len(bid) == len(base), "distinct entries share qubits")
    check(len({q for k in bid for q in k}) == sum(len(k) for k in bid), "distinct entries share qubits")
    q, m = A, M
    for o in ops:
        mr = qr = None
        try:
            mr = apply_np(m, o, others)
        except (IndexError, ValueError, TypeError) as e:
            me = e
        else:
            me = None
        try:
            qr = apply_q(q, o, others)
        except Exception as e:
            if me is None:
                raise
            return None
        if me is not None:
            raise Fail(f"shape {m.shape}: {o} must be rejected ({me}) but gives {ids(qr)}")
        q, m = qr, mr
    return q, m, base, bid, others


@case("view")
def c_view(shape, ops, shape2=None):
    import numpy as np
    import qrisp
    r = chain(shape, ops, shape2)
    if r is None:
        return
    q, m, base, bid, others = r
    what = f"array {shape} after {ops}"
    if np.shape(m) == ():
        check(isinstance(q, qrisp.QuantumVariable), f"{what}: expected a single entry")
        check(bid.get(ids(q)) == int(m), lambda: f"{what}: entry {bid.get(ids(q))} instead of {int(m)}")
        return
    check(tuple(q.shape) == m.shape, lambda: f"{what}: shape {q.shape} instead of {m.shape}")
    check(q.ndim == m.ndim and q.size == m.size and len(q) == len(m), f"{what}: ndim/size/len")
    got = [bid.get(x) for x in ids(q)]
    check(got == [int(x) for x in m.reshape(-1)], lambda: f"{what}: entries {got} instead of {m.reshape(-1).tolist()}")
    it = [bid.get(tuple(hash(x) for x in e.reg)) for e in q]
    check(it == got, lambda: f"{what}: iterating gives {it}, flat order is {got}")
    for t in itertools.product(*[range(s) for s in m.shape]):
        check(bid.get(ids(q[t])) == int(m[t]), lambda: f"{what}: element {t} is entry {bid.get(ids(q[t]))} instead of {int(m[t])}")
        break


def basis(qs):
    """contents of the session's circuit applied to |0>: every qubit must be a basis state"""
    from vb.sim import Sparse
    qc = qs.copy()
    s = Sparse(limit=1 << 12)
    br = s.run(qc, {0: 1.0})
    check(len(br) == 1 and sum(abs(v) > 1e-6 for v in br[0].st.values()) == 1, "expected a basis state")
    k = next(k for k, v in br[0].st.items() if abs(v) > 1e-6)
    pos = {q: i for i, q in enumerate(qc.qubits)}
    return lambda reg: sum((k >> pos[q] & 1) << i for i, q in enumerate(reg))


@case("content")
def c_content(shape, ops, kind, seed, mode, shape2=None):
    """encode through a view, then read back: qubit contents, measurement of another view, duplicate, delete"""
    import random
    import numpy as np
    import qrisp
    r = random.Random(seed)
    n = math.prod(shape)
    A = build(shape, kind)
    codes = [r.randrange(1 << A.qtype.size) if kind[0] != "mod" else r.randrange(kind[1]) for _ in range(n)]
    if mode == "big":
        codes = [c | 1 << (A.qtype.size - 1) for c in codes]
    vals = [A.qtype.decoder(c) for c in codes]
    M = np.empty(n, dtype=object)
    M[:] = vals
    ids_ = np.arange(n).reshape(shape)
    q, m = A, ids_
    for o in ops:
        m = apply_np(m, o, [])
        q = apply_q(q, o, [])
    what = f"{mode} of array {shape} of {kind} after {ops}"
    base = [e for e in A.flatten()]
    if mode in ("encode", "big"):
        # assign the whole view at once; entries not in the view stay zero
        v = M[m.reshape(-1)].reshape(m.shape)
        q[...] = v if r.random() < .5 else v.tolist()
    else:
        for e, x in zip(base, vals):
            e[:] = x
    if mode == "delete":
        q.delete()
        gone = [i for i, e in enumerate(base) if e.is_deleted()]
        check(gone == sorted(int(x) for x in m.reshape(-1)), lambda: f"{what}: deleted the entries {gone} instead of {sorted(m.reshape(-1).tolist())}")
        return
    if mode == "duplicate":
        D = q.duplicate(init=True)
        check(tuple(D.shape) == m.shape, f"{what}: shape of the duplicate")
        ent = [e for e in D.flatten()]
        check(not set(x for e in ent for x in map(hash, e.reg)) & set(x for e in base for x in map(hash, e.reg)), f"{what}: the duplicate shares qubits with the original")
        qrisp.merge([D.qs, A.qs])
        get = basis(A.qs)
        for e, i in zip(ent, m.reshape(-1)):
            check(get(e.reg) == base[0].encoder(vals[i]), lambda: f"{what}: entry holds {get(e.reg)} instead of the code of {vals[i]}")
        return
    get = basis(A.qs)
    inv = set(int(x) for x in m.reshape(-1))
    for i, e in enumerate(base):
        want = base[0].encoder(vals[i]) if i in inv or mode not in ("encode", "big") else 0
        check(get(e.reg) == want, lambda: f"{what}: entry {i} holds the code {get(e.reg)} instead of {want} ({vals[i]})")
    res = q.get_measurement()
    check(len(res) == 1, f"{what}: measurement of a basis state gives {len(res)} outcomes")
    out = list(res.keys())[0]
    exp = [vals[i] for i in m.reshape(-1)]
    check(tuple(np.shape(out)) == m.shape, lambda: f"{what}: outcome has shape {np.shape(out)} instead of {m.shape}")
    check(list(np.asarray(out).reshape(-1)) == exp, lambda: f"{what}: measured {np.asarray(out).tolist()} instead of {exp}")
    o2 = qrisp.OutcomeArray(np.array(exp, dtype=np.asarray(out).dtype).reshape(m.shape))
    check(out == o2 and hash(out) == hash(o2), f"{what}: equal outcomes do not hash alike")
    check(o2 in dict(res.items()) or out in dict(res.items()), f"{what}: outcome not found by an equal key")


ELEM = {
    "add": (lambda a, b: a + b, lambda x, y: x + y), "sub": (lambda a, b: a - b, lambda x, y: x - y), "mul": (lambda a, b: a * b, lambda x, y: x * y),
    "eq": (lambda a, b: a == b, lambda x, y: x == y), "ne": (lambda a, b: a != b, lambda x, y: x != y), "lt": (lambda a, b: a < b, lambda x, y: x < y),
    "gt": (lambda a, b: a > b, lambda x, y: x > y), "le": (lambda a, b: a <= b, lambda x, y: x <= y), "ge": (lambda a, b: a >= b, lambda x, y: x >= y),
    "and": (lambda a, b: a & b, lambda x, y: x & y), "or": (lambda a, b: a | b, lambda x, y: x | y), "xor": (lambda a, b: a ^ b, lambda x, y: x ^ y),
}


@case("elementwise")
def c_elem(op, shape, kind, other, kind2=None, perm=False, seed=0):
    """out-of-place and in-place elementwise operations with an array, a scalar, a classical array or a quantum number"""
    import random
    import numpy as np
    import qrisp
    r = random.Random(seed)
    A = build(shape, kind)
    V = A
    n = math.prod(shape)
    order = np.arange(n).reshape(shape)
    if perm:
        V = A.transpose()
        order = order.transpose()
    inpl = op[0] == "i"
    base = [e for e in A.flatten()]
    E = [base[int(i)] for i in order.reshape(-1)]
    bl = kind[0] == "bool"
    one = lambda: r.randrange(2) if bl else r.randrange(0, 1 << kind[1])
    if other == "array":
        B = build(V.shape, kind2 or kind)
        O = [e for e in B.flatten()]
        arg = B
    elif other == "var":
        arg = entry(kind2 or kind)
        O = [arg]
    elif other == "classical":
        cv = [one() for _ in range(n)]
        arg = np.array(cv).reshape(V.shape)
        O = []
    else:
        cv = [one()] * n
        arg = cv[0]
        O = []
    regs = E + O
    qrisp.merge([x.qs for x in regs])
    F = [fmt(x) if not bl else (1, 0, False) for x in regs]
    before = [list(x.reg) for x in regs]
    if inpl:
        X = V
        if op == "iadd":
            X += arg
        elif op == "isub":
            X -= arg
        elif op == "imul":
            X *= arg
        R = []
        f = {"iadd": lambda x, y: x + y, "isub": lambda x, y: x - y, "imul": lambda x, y: x * y}[op]
    else:
        q, f = ELEM[op]
        res = q(V, arg)
        check(tuple(res.shape) == tuple(V.shape), lambda: f"{op}: result has shape {res.shape} instead of {V.shape}")
        R = [e for e in res.flatten()]
        check(len({hash(x) for e in R + regs for x in e.reg}) == sum(e.size for e in R + regs), f"{op}: result shares qubits")
        qrisp.merge([x.qs for x in regs + R])
    fr = [fmt(x) if not isinstance(x, qrisp.QuantumBool) else (1, 0, False) for x in R]
    what = f"{op} of array {shape} of {kind} ({'transposed' if perm else 'as is'}) with {other} {kind2 or ''}{'' if O else cv}"
    exact = op in ("add", "sub", "mul") and O
    ins = []
    for _ in range(6):
        t = tuple(r.randrange(1 << x[0]) for x in F)
        if t not in ins:
            ins.append(t)

    def spec(t):
        v = [value(c, *ff) for c, ff in zip(t, F)]
        a = v[:n]
        b = v[n:] if other == "array" else [v[n]] * n if other == "var" else cv
        if bl:
            a, b = [int(x) for x in a], [int(x) for x in b]
        o = [f(x, y) for x, y in zip(a, b)]
        if inpl:
            return tuple(encode(x, ff, False, what) for x, ff in zip(o, F)) + tuple(t[n:])
        return tuple(t[:len(F)]) + tuple(encode(int(x) if isinstance(x, bool) else x, ff, bool(exact), what) for x, ff in zip(o, fr))
    z = tuple(0 for _ in R)
    map_state(E[0].qs, before + [list(x.reg) for x in R], [t + z for t in ins], lambda t: spec(t), what=what, limit=1 << 18)


@case("reduce")
def c_red(op, shape, axis):
    import numpy as np
    import qrisp
    A = build(shape, ("bool",))
    E = [e for e in A.flatten()]
    res = getattr(A, op)(axis=tuple(axis) if isinstance(axis, list) else axis)
    R = [res] if isinstance(res, qrisp.QuantumVariable) else [e for e in res.flatten()]
    ax = tuple(axis) if isinstance(axis, list) else axis
    ref = getattr(np, op)
    ex = ref(np.zeros(shape), axis=ax)
    if np.shape(ex):
        check(tuple(res.shape) == np.shape(ex), lambda: f"{op} over axis {axis} of {shape}: shape {res.shape} instead of {np.shape(ex)}")
    qrisp.merge([e.qs for e in E + R])
    ins = grid([1] * len(E), rng(op), 64)
    map_state(E[0].qs, E + R, [t + (0,) * len(R) for t in ins],
              lambda t: t[:len(E)] + tuple(int(x) for x in np.reshape(ref(np.array(t[:len(E)]).reshape(shape), axis=ax), -1)), what=f"{op} over axis {axis} of shape {shape}")


@case("qindex")
def c_qidx(shape, esize, action, seed):
    """with array[quantum index] as entry: act on the entry <=> act on the indexed entry"""
    import random
    import qrisp
    r = random.Random(seed)
    A = build(shape, ("float", esize, 0, False))
    E = [e for e in A.flatten()]
    I = [qrisp.QuantumFloat(int(math.log2(s))) for s in shape]
    if action == "copy":
        out = qrisp.QuantumFloat(esize)
    key = I[0] if len(I) == 1 else tuple(I)
    with A[key] as e:
        if action == "incr":
            e += 1
        elif action == "copy":
            qrisp.cx(e, out)
        elif action == "flip":
            qrisp.x(e[0])
    regs = E + I + ([out] if action == "copy" else [])
    qrisp.merge([x.qs for x in regs])
    sizes = [esize] * len(E) + [i.size for i in I]
    ins = []
    for t in itertools.product(*[range(s) for s in shape]):
        for _ in range(2):
            c = tuple(r.randrange(1 << esize) for _ in E) + t
            if c not in ins:
                ins.append(c)

    def spec(t):
        c = list(t[:len(E)])
        k = 0
        for s, x in zip(shape, t[len(E):len(E) + len(I)]):
            k = k * s + x
        if action == "incr":
            c[k] = (c[k] + 1) % (1 << esize)
        elif action == "flip":
            c[k] ^= 1
        return tuple(c) + tuple(t[len(E):len(E) + len(I)]) + ((c[k],) if action == "copy" else ())
    z = (0,) if action == "copy" else ()
    map_state(A.qs, regs, [t + z for t in ins], spec, what=f"{action} through a quantum index into shape {shape}, {esize} qubits")


@case("permute")
def c_perm(kind, n, arg, esize=1):
    """cyclic shifts and permutations of arrays, variables and lists of qubits; quantum shift amounts; demultiplexing"""
    import qrisp
    if kind.endswith("array"):
        A = build([n], ("float", esize, 0, False))
        E = [list(e.reg) for e in A.flatten()]
        qs = A.qs
    else:
        A = qrisp.QuantumVariable(n)
        E = [[q] for q in A.reg]
        esize = 1
        qs = A.qs
    extra = []
    if kind.startswith("shift"):
        qrisp.cyclic_shift(A, arg)
        f = lambda c, t: [c[(i - arg) % n] for i in range(n)]
    elif kind.startswith("qshift"):
        s = qrisp.QuantumFloat(arg[0], signed=arg[1])
        qrisp.merge([s.qs, qs])
        qrisp.cyclic_shift(A, s)
        extra = [list(s.reg)]
        sh = lambda x: x - (1 << len(extra[0])) if arg[1] and x >> (len(extra[0]) - 1) else x
        f = lambda c, t: [c[(i - sh(t[0])) % n] for i in range(n)]
    elif kind.startswith("perm"):
        need("qrisp", "permute_iterable")(A, arg)
        # documented convention: the new entry at position i is the old one at position perm[i]
        f = lambda c, t: [c[arg[i]] for i in range(n)]
    sizes = [esize] * n + [len(x) for x in extra]
    ins = grid(sizes, rng(str((kind, n, arg))), 128)
    map_state(qs, E + extra, ins, lambda t: tuple(f(t[:n], t[n:])) + tuple(t[n:]), what=f"{kind} n={n} {arg}")


@case("demux")
def c_demux(n, esize, par, arr):
    """input moves to the addressed position of the output, all other positions keep zero"""
    import qrisp
    ctrl = qrisp.QuantumFloat(n)
    if arr:
        inp = qrisp.QuantumFloat(esize)
        ireg = list(inp.reg)
        out = qrisp.demux(inp, ctrl, parallelize_qc=par)
        O = [list(e.reg) for e in out.flatten()]
    else:
        v = qrisp.QuantumVariable(1)
        ireg, esize = [v[0]], 1
        out = qrisp.demux(v[0], ctrl, parallelize_qc=par)
        O = [[q] for q in out.reg]
    qrisp.merge([ctrl.qs, out.qs])
    ins = grid([esize, n], rng(str((n, esize))), 128)
    map_state(ctrl.qs, [ireg, list(ctrl.reg)] + O, [t + (0,) * len(O) for t in ins], lambda t: (0, t[1]) + tuple(t[0] if i == t[1] else 0 for i in range(len(O))), what=f"demux n={n} size={esize} parallel={par}")


@case("dict")
def c_dict(keys, vkind, seed, method="gray", given=False, full=True):
    """lookups: value register = encoder(dict[key]) for every key that is present, key unchanged, no relative phase"""
    import random
    import qrisp
    r = random.Random(seed)
    K = [entry(k) for k in keys]
    labels = [[k.decoder(i) for i in range(1 << k.size)] for k in K]
    rt = entry(vkind) if vkind else None
    if rt is not None:
        vals = [rt.decoder(i) for i in range(vkind[1] if vkind[0] == "mod" else 1 << rt.size)]
    else:
        vals = ["red", "green", "blue", "x"][:r.randint(2, 4)]
    model = {}
    for t in itertools.product(*labels):
        if full or r.random() < .7:
            model[t if len(t) > 1 else t[0]] = r.choice(vals)
    if not model:
        return
    D = qrisp.QuantumDictionary(model, return_type=rt)
    for k in list(model)[:2]:
        check(D[k] == model[k], f"classical lookup of {k}")
    if len(K) > 1:
        qrisp.merge([k.qs for k in K])
    key = tuple(K) if len(K) > 1 else K[0]
    if given or method != "gray":
        v = D.load(key, value_qv=rt.duplicate() if given and rt is not None else None, synth_method=method)
    else:
        v = D[key]
    qrisp.merge([k.qs for k in K] + [v.qs])
    ins = [t for t in itertools.product(*[range(1 << k.size) for k in K]) if (tuple(l[i] for l, i in zip(labels, t)) if len(K) > 1 else labels[0][t[0]]) in model]

    def spec(t):
        k = tuple(l[i] for l, i in zip(labels, t)) if len(K) > 1 else labels[0][t[0]]
        return tuple(t[:len(K)]) + (v.encoder(model[k]),)
    if rt is None:
        check(set(v.decoder(i) for i in range(1 << v.size)) >= set(model.values()), "value register cannot represent all values")
    map_state(K[0].qs, K + [v], [t + (0,) for t in ins], spec, what=f"lookup keys={keys} values={vkind} method={method} entries={len(model)}")


@case("traced")
def c_traced(shape, ops, esize, seed, op2=None):
    """views of arrays inside traced programs: measuring the view gives the classical view of the contents"""
    import random
    import numpy as np
    import qrisp
    from qrisp.jasp import make_jaspr
    r = random.Random(seed)
    C = np.array([r.randrange(1 << esize) for _ in range(math.prod(shape))]).reshape(shape)
    m = C
    for o in ops:
        m = apply_np(m, o, [])

    def main():
        A = qrisp.QuantumArray(qtype=qrisp.QuantumFloat(esize), shape=tuple(shape))
        A[...] = C
        q = A
        for o in ops:
            q = apply_q(q, o, [])
        if op2 == "dup":
            q = q.duplicate(init=True)
        elif op2 == "add":
            q = q + q.duplicate(init=True)
        elif op2 == "iadd":
            q += 1
        elif op2 == "concat":
            B = qrisp.QuantumArray(qtype=qrisp.QuantumFloat(esize), shape=tuple(m.shape))
            B[...] = (m + 1) % (1 << esize)
            q = q.concatenate(B, axis=0)
        if np.shape(m) == ():
            return qrisp.measure(q)
        return q.measure()
    exp = m
    if op2 == "add":
        exp = m + m
    elif op2 == "iadd":
        exp = (m + 1) % (1 << esize)
    elif op2 == "concat":
        exp = np.concatenate((m, (m + 1) % (1 << esize)), axis=0)
    got = np.array(make_jaspr(main)()())
    if op2 == "add":      # the traced sum keeps the operand's format
        check(got.shape == exp.shape and all(int(a - b) % (1 << esize) == 0 for a, b in zip(got.reshape(-1), exp.reshape(-1))), lambda: f"traced array {shape} {ops} {op2}: {got.tolist()} instead of {exp.tolist()}")
    else:
        check(got.shape == np.shape(exp) and (got == exp).all(), lambda: f"traced array {C.tolist()} {ops} {op2}: measured {got.tolist()} instead of {np.array(exp).tolist()}")


# ------------------------------------------------------------------------------------------------ generators
def rslice(r, n):
    return ["s", r.choice([None, r.randint(-n - 1, n + 1)]), r.choice([None, r.randint(-n - 1, n + 1)]), r.choice([None, 1, 2, -1, -2])]


def rops(r, shape, k, empty=False, oob=.08):
    """random chain of view operations together with the resulting shape"""
    import numpy as np
    m = np.arange(math.prod(shape)).reshape(shape)
    ops = []
    for _ in range(k):
        if m.ndim == 0 or m.size == 0:
            break
        c = r.random()
        if c < .45:
            nk = r.randint(1, m.ndim)
            key = []
            for d in range(nk):
                n = m.shape[d]
                if r.random() < .4 / max(1, m.ndim - 1):
                    key.append(r.randint(-n, n - 1) if r.random() > oob else r.choice([n, -n - 1, n + 3]))
                else:
                    key.append(rslice(r, n))
            if r.random() < .1 and nk < m.ndim:
                key = ["..."] + key
            o = ["get", key, nk > 1 or "..." in key or r.random() < .3]
        elif c < .6:
            f = []
            s = m.size
            while s > 1 and len(f) < 3:
                d = r.choice([x for x in range(1, s + 1) if s % x == 0])
                f.append(d)
                s //= d
            f.append(s)
            if r.random() < .3:
                f[r.randrange(len(f))] = -1
            o = [r.choice(["reshape", "reshape*"]), f]
        elif c < .7:
            o = [r.choice(["flatten", "ravel"])]
        elif c < .85:
            p = list(range(m.ndim))
            r.shuffle(p)
            o = ["transpose", p if r.random() < .7 else None]
        else:
            o = ["swapaxes", [r.randrange(-m.ndim, m.ndim) for _ in range(2)]]
        try:
            m2 = apply_np(m, o, [])
        except (IndexError, ValueError):
            ops.append(o)
            return ops, None
        if np.size(m2) == 0 and not empty:
            continue
        ops.append(o)
        m = m2
    return ops, np.shape(m)


def rshape(r, dims=(1, 3), top=4, cap=16):
    while True:
        s = [r.randint(1, top) for _ in range(r.randint(*dims))]
        if math.prod(s) <= cap:
            return s


@task("views", weight=3)
def t_views(ctx):
    ctx.bound("views: shapes up to 3 axes / 16 entries, chains of up to 4 operations")
    r = ctx.rng
    for i in range(1200 if not thorough() else 10000):
        s = rshape(r)
        ops, sh = rops(r, s, r.randint(1, 4))
        if sh and r.random() < .3:
            s2 = list(sh)
            ax = r.randrange(len(s2))
            s2[ax] = r.randint(1, 3)
            if math.prod(s2) <= 16:
                ops2, _ = [[r.choice(["concat", "rconcat"]), 0, ax]], None
                ctx.run(c_view, shape=s, ops=ops + ops2, shape2=s2)
        else:
            ctx.run(c_view, shape=s, ops=ops)
        if ctx.full():
            return


KINDS = [("float", 2, 0, False), ("float", 2, -1, True), ("float", 2, 1, False), ("bool",), ("char",), ("var", 2), ("mod", 5), ("float", 3, 0, True)]


@task("content", weight=3)
def t_content(ctx):
    r = ctx.rng
    for i in range(160 if not thorough() else 1200):
        s = rshape(r, cap=6)
        while True:
            ops, sh = rops(r, s, r.randint(0, 3), oob=0)
            if sh:
                break
        k = list(r.choice(KINDS))
        mode = r.choice(["encode", "encode", "read", "duplicate", "delete"])
        ctx.run(c_content, shape=s, ops=ops, kind=k, seed=i, mode=mode)
        if ctx.full():
            return
    for n, e, s in ((31, 0, False), (32, 0, False), (33, 0, False), (31, 0, True), (30, 2, False), (40, 0, True)):
        ctx.run(c_content, shape=[2], ops=[], kind=["float", n, e, s], seed=n, mode="big")


@task("elementwise", weight=3)
def t_elem(ctx):
    ctx.bound("elementwise operations: up to 4 entries of 1..2 qubits, six sampled contents in superposition")
    r = ctx.rng
    for op in ("add", "sub", "mul", "eq", "ne", "lt", "gt", "le", "ge", "iadd", "isub"):
        for other in ("array", "var", "classical", "scalar"):
            if op == "mul" and other in ("classical", "scalar"):
                continue
            for k in range(1 if not thorough() else 6):
                sg = r.random() < .3
                kind = ["float", r.randint(1, 2), 0, sg]
                kind2 = ["float", r.randint(1, 2), 0, sg]
                if op in ("eq", "ne", "lt", "gt", "le", "ge") and other in ("classical", "scalar"):
                    kind2 = None
                ctx.run(c_elem, op=op, shape=r.choice([[2], [3], [2, 2], [1, 2]]), kind=kind, other=other, kind2=kind2, perm=r.random() < .4, seed=r.randrange(1000))
                if ctx.full():
                    return
    for other in ("classical", "scalar"):
        for k in range(3):
            s = r.randrange(1000)
            import random
            ctx.run(c_imul, shape=r.choice([[2], [2, 2]]), n=r.randint(2, 3), other=other, seed=s)
    for op in ("and", "or", "xor"):
        for other in ("array", "var"):
            ctx.run(c_elem, op=op, shape=r.choice([[2], [3], [2, 2]]), kind=["bool"], other=other, perm=r.random() < .4, seed=r.randrange(1000))


@case("imul")
def c_imul(shape, n, other, seed):
    import random
    import numpy as np
    import qrisp
    r = random.Random(seed)
    A = build(shape, ("float", n, 0, False))
    E = [e for e in A.flatten()]
    c = [r.choice([1, 3, 5, 7]) for _ in E]
    if other == "scalar":
        c = [c[0]] * len(E)
        A *= c[0]
    else:
        A *= np.array(c).reshape(shape)
    ins = list({tuple(r.randrange(1 << n) for _ in E) for _ in range(6)})
    map_state(A.qs, E, ins, lambda t: tuple(x * y % (1 << n) for x, y in zip(t, c)), what=f"in-place product of {shape} with {c}")


@task("reduce")
def t_red(ctx):
    r = ctx.rng
    for op in ("all", "any"):
        for shape, axes in (([3], [None, 0, -1]), ([2, 3], [None, 0, 1, -1, [0, 1], [0]]), ([2, 1, 2], [None, 0, 1, 2, [0, 2], [1, 2], -2])):
            for ax in axes:
                ctx.run(c_red, op=op, shape=shape, axis=ax)


@task("qindex", weight=2)
def t_qidx(ctx):
    r = ctx.rng
    for shape in ([2], [4], [8], [2, 2], [4, 2], [2, 4], [2, 2, 2]):
        for action in ("incr", "copy", "flip"):
            ctx.run(c_qidx, shape=shape, esize=r.randint(1, 2) if math.prod(shape) < 8 else 1, action=action, seed=r.randrange(1000))
            if ctx.full():
                return
    for n in range(1, 9):
        for a in sorted({-n, -3, -2, -1, 0, 1, 2, 3, n - 1, n, n + 2}):
            for k in ("shift_var", "shift_array"):
                if k == "shift_array" and (n > 5 or a % 2):
                    continue
                ctx.run(c_perm, kind=k, n=n, arg=a, esize=1)
        if 2 <= n <= 5:
            ctx.run(c_perm, kind="qshift_var", n=n, arg=[2, False])
            ctx.run(c_perm, kind="qshift_var", n=n, arg=[1, True])
        for _ in range(3):
            p = list(range(n))
            r.shuffle(p)
            ctx.run(c_perm, kind=r.choice(["perm_var", "perm_array"]), n=n, arg=p, esize=1)
        if ctx.full():
            return
    for n in (1, 2, 3):
        for par in (False, True):
            ctx.run(c_demux, n=n, esize=1, par=par, arr=False)
            ctx.run(c_demux, n=n, esize=2 if n < 3 else 1, par=par, arr=True)


@task("dict", weight=2)
def t_dict(ctx):
    r = ctx.rng
    ks = [["float", 2, 0, False], ["float", 1, -1, True], ["bool"], ["var", 2], ["float", 3, 0, False], ["float", 2, 1, False], ["mod", 3]]
    vs = [["float", 2, 0, False], ["float", 2, -1, True], ["bool"], None, ["var", 3], ["mod", 5]]
    for i in range(40 if not thorough() else 300):
        keys = [r.choice(ks[:-1]) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if sum({"float": k[1] + (k[3] if len(k) > 3 else 0) if len(k) > 2 else 0, "bool": 1, "var": 2, "mod": 2}[k[0]] for k in keys) > 5:
            continue
        ctx.run(c_dict, keys=keys, vkind=r.choice(vs), seed=i, method=r.choice(["gray", "gray", "pprm"]), given=r.random() < .3, full=r.random() < .6)
        if ctx.full():
            return


@task("traced", weight=3)
def t_traced(ctx):
    r = ctx.rng
    for i in range(14 if not thorough() else 80):
        s = rshape(r, cap=6)
        while True:
            ops, sh = rops(r, s, r.randint(1, 3), oob=0)
            if sh is not None and (sh != () or i % 4 == 0):
                break
        ctx.run(c_traced, shape=s, ops=ops, esize=2, seed=i, op2=r.choice([None, "dup", "add", "iadd", "concat"]) if sh else None)
        ctx.gc()
        if ctx.full():
            return
