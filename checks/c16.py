"""C16: uncomputation and the classifications it relies on.

(1) Classification. Whenever an operation is classified as value-preserving (permeable) on qubits S its matrix is block diagonal there, whenever it
is classified as basis-preserving (qfree) its matrix is a generalized permutation. For the gate library incl. inverses and controls this is decided
for ALL real parameters (exact trigonometric normal form of the real gate data); nested composites, wrapped arithmetic and random gates are bounded.
(2) Uncomputation of random temporaries in random programs against the ideal result on a generic state."""
import itertools
import random

import numpy as np

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb import expr as X
from vb import lang
from vb.expr import GATES
from vb.sim import DirtyDealloc, SimError, Sparse, extract as bits
from vb.session import SIZES, N, final, off

ID = "C16"
LEVEL = "exploration"
RULE = "one evaluation = one classified gate or one program with uncomputation compared with the ideal state; nontrivial = distinct"
TRUSTED = ["vb.sim evaluator", "vc.trig normal form", "vb.expr matrix specifications"]
ASSUMPTIONS = ["classification thresholds of the library (1e-4) are taken as exact zero"]


# ---------------------------------------------------------------------------------------------------------------- classification
def preserves(U, n, S):
    """largest entry of U that changes the value of a qubit in S (qubit 0 most significant)"""
    m = sum(1 << (n - 1 - i) for i in S)
    idx = np.arange(1 << n)
    bad = ((idx[:, None] ^ idx[None, :]) & m) != 0
    return float(np.abs(U[bad]).max()) if bad.any() else 0.0


def monomial(U):
    return int((np.abs(U) > 1e-3).sum(axis=0).max()) <= 1


def verdicts(g, U, what, r, order=None):
    perm, qf = need("qrisp.permeability", "is_permeable"), need("qrisp.permeability", "is_qfree")
    n = g.num_qubits
    for i, v in dict(g.permeability).items():
        if v:
            check(preserves(U, n, [i]) < 2e-3, lambda: f"{what}: declared value-preserving on qubit {i} but its matrix changes that qubit")
    if g.is_qfree:
        check(monomial(U), lambda: f"{what}: declared basis-preserving but its matrix is not a generalized permutation")
    subsets = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    r.shuffle(subsets)
    for s in subsets[:6]:
        r.shuffle(s)
        if perm(g, list(s)):
            check(preserves(U, n, s) < 2e-3, lambda: f"{what}: classified as value-preserving on qubits {s} but its matrix changes them (up to {preserves(U, n, s):.3f})")
    if qf(g):
        check(monomial(U), lambda: f"{what}: classified as basis-preserving but its matrix is not a generalized permutation")
    for i, v in dict(g.permeability).items():
        if v:
            check(preserves(U, n, [i]) < 2e-3, lambda: f"{what}: recorded as value-preserving on qubit {i} but its matrix changes that qubit")


@case("classify")
def c_classify(e, sub=0):
    U = X.dense(X.expected(e, X.Num, {}))
    verdicts(X.build(e, {}), U, X.show(e), random.Random(sub))


@case("declared")
def c_declared(e, env):
    """same with the symbols bound to numbers after construction"""
    U = X.dense(X.expected(e, X.Num, env))
    verdicts(X.build(["bind", e], env), U, f"{X.show(e)} {env}", random.Random(0))


def base(g, syms="abc"):
    return ["gate", g, list(syms[:GATES[g][1]])]


def prove(ctx, e):
    from vc import trig
    perm, qf = need("qrisp.permeability", "is_permeable"), need("qrisp.permeability", "is_qfree")

    def f():
        g = X.build(e)
        M = trig.matrix(g, "auto")
        n = g.num_qubits
        claims = [[i] for i, v in g.permeability.items() if v]
        claims += [list(s) for k in (1, 2) for s in itertools.combinations(range(n), min(k, n)) if perm(X.build(e), list(s))]
        bad = None
        for s in claims:
            m = sum(1 << (n - 1 - i) for i in s)
            for c, col in enumerate(M):
                for row, v in col.items():
                    if (row ^ c) & m and v != trig.ZERO:
                        bad = f"{X.show(e)} is classified as value-preserving on {s}; entry ({row},{c}) = {v!r}"
        q = g.is_qfree
        if q:
            for c, col in enumerate(M):
                if sum(1 for v in col.values() if v != trig.ZERO) > 1:
                    bad = f"{X.show(e)} is classified as basis-preserving; column {c} has several entries"
        if bad is None:
            return None
        return bad, dict(e=e, env=dict(a=0.7, b=-1.9, c=2.6))
    ctx.prove(f"classification: {X.show(e)}", f, c_declared)


@task("library", timeout=400, weight=2)
def t_lib(ctx):
    for fn in ("standard_operations.* (declared permeability / is_qfree)", "type_checker.is_permeable", "type_checker.is_qfree", "ControlledOperation.__init__ (declared permeability)", "Operation.inverse"):
        ctx.function(fn)
    for g in GATES:
        b = base(g)
        es = [b, ["inv", b], ["wrap", b], ["copy", b]]
        for n in (1, 2):
            for cs in ("".join(p) for p in itertools.product("01", repeat=n)):
                es += [["ctrl", b, n, cs, None], ["inv", ["ctrl", b, n, cs, None]], ["ctrl", ["wrap", b], n, cs, None]]
        for e in es:
            prove(ctx, e)
            ctx.run(c_declared, e=e, env=dict(a=0.7, b=-1.9, c=2.6))
            if ctx.full():
                return


@task("gates", timeout=400)
def t_gates(ctx):
    ctx.bound("random nestings of inverse/control/copy/wrap/composite circuits of depth <= 4 on <= 5 qubits; all query orders sampled")
    r = ctx.rng
    for i in range(400 if not thorough() else 4000):
        e = X.random_expr(r, r.randint(1, 4), 5, sym=False, methods=(None, None, "gray", "auto"))
        ctx.run(c_classify, e=e, sub=i)
        if ctx.full():
            return


# --- functions of the library that ship a declaration
def _lib():
    import qrisp
    q = qrisp
    F = lambda s, **k: q.QuantumFloat(s, **k)

    def modular(f):
        def run():
            a, b = q.QuantumModulus(5), q.QuantumModulus(5)
            f(a, b)
            return [a, b]
        return run

    def on(f, *mk):
        def run():
            v = [m() for m in mk]
            q.merge([x.qs for x in v])
            f(*v)
            return v
        return run
    f2, f1, s2 = (lambda: F(2)), (lambda: F(1)), (lambda: F(1, signed=True))
    out = {
        "a+=b": on(lambda a, b: a.__iadd__(b), f2, f2), "a+=3": on(lambda a: a.__iadd__(3), lambda: F(3)), "a-=b": on(lambda a, b: a.__isub__(b), f2, f2),
        "a+b": on(lambda a, b: a + b, f2, f1), "a-b": on(lambda a, b: a - b, f1, f1), "a*b": on(lambda a, b: a * b, f2, f1), "a*a": on(lambda a: a * a, f2),
        "a<b": on(lambda a, b: a < b, f2, f2), "a==b": on(lambda a, b: a == b, f2, f2), "a>=b": on(lambda a, b: a >= b, f2, f1), "a<2": on(lambda a: a < 2, lambda: F(3)), "a!=1": on(lambda a: a != 1, f2),
        "signed a*b": on(lambda a, b: a * b, s2, s2), "signed a<b": on(lambda a, b: a < b, s2, s2),
        "a//b": on(lambda a, b: a // b, f2, f1),
        "ge": on(lambda a, b: a & b, q.QuantumBool, q.QuantumBool), "or": on(lambda a, b: a | b, q.QuantumBool, q.QuantumBool), "xor": on(lambda a, b: a ^ b, q.QuantumBool, q.QuantumBool), "not": on(lambda a: ~a, q.QuantumBool),
        "cuccaro": on(lambda a, b: q.cuccaro_adder(a, b), f2, f2), "gidney": on(lambda a, b: q.gidney_adder(a, b), f2, f2), "qcla": on(lambda a, b: q.qcla(a, b), f2, f2), "fourier": on(lambda a, b: q.fourier_adder(a, b), f2, f2),
        "QFT": on(lambda a: q.QFT(a), lambda: F(3)), "init": on(lambda a: a.init_state({0: .5, 1: .5, 2: .7}), f2),
        "shift": on(lambda a: q.cyclic_shift(list(a.reg) if False else a, 1), lambda: F(3)),
        "mod +=": modular(lambda a, b: a.__iadd__(b)), "mod +": modular(lambda a, b: a + b), "mod *=": modular(lambda a, b: a.__imul__(3)), "mod -=": modular(lambda a, b: a.__isub__(b)), "mod +=c": modular(lambda a, b: a.__iadd__(3)),
    }

    def qd():
        d = q.QuantumDictionary(return_type=q.QuantumFloat(2))
        for i in range(4):
            d[i] = (3 * i + 1) % 4
        a = F(2)
        d[a]
        return [a]
    out["dictionary"] = qd
    return out


@case("declared_function")
def c_fn(name):
    """every operation a library function leaves in the session satisfies its own declaration"""
    from vb.sim import Sparse
    f = _lib()[name]
    try:
        v = f()
    except (AttributeError, NotImplementedError, TypeError) as e:
        raise Undecided(f"{name}: {e}")
    n_decl = 0
    for ins in v[0].qs.data:
        op = ins.op
        if op.name in ("qb_alloc", "qb_dealloc", "measure", "reset", "barrier") or op.num_clbits or op.num_qubits > 10:
            continue
        n = op.num_qubits
        decl = [i for i, x in dict(op.permeability).items() if x]
        if not decl and not op.is_qfree:
            continue
        n_decl += 1
        from vb.sim import op_unitary
        U = op_unitary(op, "auto") if n <= 8 else None
        if U is None:
            continue
        # qubits the function itself allocates (results, workspace) start in zero
        known = {q.identifier for x in v for q in x.reg}
        work = [i for i, q in enumerate(ins.qubits) if q.identifier not in known]
        cols = [c for c in range(1 << n) if not any(c >> (n - 1 - i) & 1 for i in work)]
        V = U[:, cols]
        m = sum(1 << (n - 1 - i) for i in decl)
        for j, c in enumerate(cols):
            rows = np.nonzero(np.abs(V[:, j]) > 1e-3)[0]
            for row in rows:
                check(not (int(row) ^ c) & m, lambda: f"{name}: operation {op.name} is declared value-preserving on {decl} but maps {c:0{n}b} to {int(row):0{n}b}")
            if op.is_qfree:
                check(len(rows) == 1, lambda: f"{name}: operation {op.name} is declared basis-preserving but maps {c:0{n}b} to a superposition")


@task("functions", timeout=500, weight=2)
def t_functions(ctx):
    for name in _lib():
        ctx.run(c_fn, name=name)


@case("wrap_verify")
def c_wrapv(e, perm, qf, n):
    """a declaration that is wrong must be rejected by verification"""
    import qrisp
    U = X.dense(X.expected(e, X.Num, {}))
    g = X.build(e, {})
    w = X.width(e)
    vs = [qrisp.QuantumVariable(1) for _ in range(w)]
    good = preserves(U, w, perm) < 1e-4 if perm else True
    goodq = monomial(U)

    def f(*a):
        qs = a[0].qs
        qs.append(g, [x[0] for x in a])
    qrisp.merge([v.qs for v in vs])
    try:
        qrisp.gate_wrap(permeability=list(perm), is_qfree=qf, verify=True)(f)(*vs)
    except Exception as ex:
        if "erification" in str(ex):
            check(not (good and (goodq or not qf)), lambda: f"{X.show(e)}: correct declaration (value-preserving on {perm}, basis-preserving {qf}) rejected")
            return
        raise
    check(good, lambda: f"{X.show(e)}: wrong declaration 'value-preserving on {perm}' passes verification")
    check(goodq or not qf, lambda: f"{X.show(e)}: wrong declaration 'basis-preserving' passes verification")


@task("verify", timeout=400)
def t_verify(ctx):
    r = ctx.rng
    for i in range(80 if not thorough() else 600):
        e = X.random_expr(r, r.randint(1, 3), 4, sym=False, methods=(None,))
        n = X.width(e)
        if n < 2:
            continue
        ctx.run(c_wrapv, e=e, perm=sorted(r.sample(range(n), r.randint(0, n))), qf=r.choice([True, None]), n=n)
        if ctx.full():
            return


# ---------------------------------------------------------------------------------------------------------------- uncomputation
def comp(R, t, ops):
    """classical computation into temporary t (list of variables created so far)"""
    import qrisp
    for st in ops:
        k = st[0]
        if k == "mcx":
            qrisp.mcx([R.q(i) if i >= 0 else t[~i // 8][~i % 8] for i in st[1]], t[st[2] // 8][st[2] % 8], ctrl_state=st[3], method=st[4])
        elif k == "x":
            qrisp.x(t[st[1] // 8][st[1] % 8])
        elif k == "swap":
            qrisp.swap(t[st[1] // 8][st[1] % 8], t[st[2] // 8][st[2] % 8])
        elif k == "ctl":
            with qrisp.control([R.q(i) for i in st[1]], ctrl_state=st[2]):
                qrisp.x(t[st[3] // 8][st[3] % 8])
        elif k == "phase":
            qrisp.p(st[2], t[st[1] // 8][st[1] % 8])
        elif k == "wrapcx":
            qrisp.gate_wrap(permeability=[0], is_qfree=True)(lambda a, b: qrisp.cx(a, b))([R.q(st[1])], [t[st[2] // 8][st[2] % 8]])
        else:
            raise ValueError(k)


def make(R, st):
    """creates the temporaries of one group"""
    import qrisp
    k = st[0]
    if k == "qv":
        return qrisp.QuantumVariable(st[1])
    if k == "mul":
        return R.v[st[1]] * R.v[st[2]]
    if k == "add":
        return R.v[st[1]] + R.v[st[2]]
    if k == "lt":
        return R.v[st[1]] < R.v[st[2]]
    if k == "eq":
        return R.v[st[1]] == st[2]
    if k == "ltc":
        return R.v[st[1]] < st[2]
    if k == "dict":
        d = qrisp.QuantumDictionary(return_type=qrisp.QuantumFloat(2))
        for i, x in enumerate(st[2]):
            d[i] = x
        return d[R.v[st[1]]]
    raise ValueError(k)


def use(R, t, ops):
    import qrisp
    for st in ops:
        k = st[0]
        if k == "cx":
            qrisp.cx(t[st[1] // 8][st[1] % 8], R.q(st[2]))
        elif k == "cp":
            qrisp.cp(st[3], t[st[1] // 8][st[1] % 8], R.q(st[2]))
        elif k == "ccx":
            qrisp.mcx([t[st[1] // 8][st[1] % 8], R.q(st[2])], R.q(st[3]))
        elif k == "p":
            qrisp.p(st[2], t[st[1] // 8][st[1] % 8])
        elif k == "ctl":
            with qrisp.control(t[st[1] // 8][st[1] % 8]):
                qrisp.h(R.q(st[2]))
                qrisp.rz(st[3], R.q(st[2]))
        elif k == "g":
            R.one(st)


def data_vars(prep):
    import qrisp
    v = [qrisp.QuantumFloat(s) for s in SIZES]
    R = lang.Runner(v, sizes=SIZES)
    qrisp.merge([x.qs for x in v])
    if prep:
        r = random.Random(prep)
        for i in range(N):
            qrisp.ry(r.uniform(.7, 2.4), R.q(i))
            qrisp.p(r.uniform(0, 6), R.q(i))
    return v, R, [q.identifier for x in v for q in x.reg]


def with_temps(R, mk, cops, uops, keep):
    import qrisp
    t = []
    for m in mk:
        x = make(R, m)
        t.append(x)
    qrisp.merge([x.qs for x in t] + [x.qs for x in R.v])
    comp(R, t, cops)
    use(R, t, uops)
    return t


@case("uncompute")
def c_unc(mk, cops, uops, after, mode, prep, strict):
    import qrisp
    # ideal: the temporaries are functions of the data right after their last use
    v, R, data = data_vars(prep)
    t = with_temps(R, mk, cops, uops, True)
    tq = [q.identifier for x in t for q in x.reg]
    (w, _), = final(v[0].qs.copy(), data + tq, "program before uncomputation")
    ideal, seen = {}, {}
    for k in range(len(w)):
        if abs(w[k]) > 1e-9:
            x = k & ((1 << N) - 1)
            if x in ideal:
                if abs(w[k]) > 1e-6 and abs(ideal[x]) > 1e-6:
                    raise Undecided("temporary is no function of the data")
                if abs(w[k]) < abs(ideal[x]):
                    continue
            ideal[x] = w[k]
    names = ()
    v, R, data = data_vars(0)
    for st in after:
        R.one(st)
    qc = v[0].qs.copy()
    pos = {q.identifier: i for i, q in enumerate(qc.qubits)}
    init = {sum((x >> i & 1) << pos[d] for i, d in enumerate(data)): a for x, a in ideal.items()}
    (ref, _), = final(qc, data, "reference", init)
    # real
    v, R, data = data_vars(prep)
    try:
        if mode in ("auto", "auto_re"):
            def body(*args):
                with_temps(lang.Runner(args, sizes=SIZES), mk, cops, uops, True)
            (qrisp.auto_uncompute(body) if mode == "auto" else qrisp.auto_uncompute(recompute=True)(body))(*v)
            for st in after:
                R.one(st)
        else:
            t = with_temps(R, mk, cops, uops, True)
            for st in after:
                R.one(st)
            if mode == "stack":
                for x in t[:-1]:
                    x.uncompute(do_it=False)
                t[-1].uncompute()
            elif mode == "fn":
                from qrisp.permeability import uncompute
                uncompute(t[0].qs, t)
            elif mode == "each":
                for x in t[::-1]:
                    x.uncompute()
            elif mode == "env":
                t[-1].uncompute()
                for x in t[:-1]:
                    x.uncompute()
    except Exception as e:
        if type(e) is Exception or "ncomput" in str(e):
            check(not strict, lambda: f"uncomputation of a classical function of untouched data is refused: {e}")
            return
        raise
    live = [x.name for x in v[0].qs.qv_list]
    check(sorted(live) == sorted(x.name for x in v), lambda: f"temporaries survive uncomputation: {live}")
    for what, qc in (("session", v[0].qs.copy()), ("compiled session", v[0].qs.compile())):
        (w, _), = final(qc, data, what)
        ov = abs(np.vdot(ref, w))
        check(abs(ov - 1) < 2e-3, lambda: f"{what}: state of the remaining variables after uncomputation has overlap {ov:.4f} with the state before")


@case("recompute")
def c_rec(c1, c2, uops, u2, prep):
    """t2 is computed from t1 and data; t1 is released with recomputation, later t2 is released, which needs t1 again"""
    import qrisp
    v, R, data = data_vars(prep)
    t = with_temps(R, [["qv", 2], ["qv", 2]], c1 + c2, uops + u2, True)
    tq = [q.identifier for x in t for q in x.reg]
    (w, _), = final(v[0].qs.copy(), data + tq, "program before uncomputation")
    ref = np.zeros(1 << N, dtype=complex)
    for k in range(len(w)):
        if abs(w[k]) > 1e-9:
            x = k & ((1 << N) - 1)
            if abs(ref[x]) > 1e-6 and abs(w[k]) > 1e-6:
                raise Undecided("temporary is no function of the data")
            ref[x] += w[k]
    v, R, data = data_vars(prep)
    t = with_temps(R, [["qv", 2], ["qv", 2]], c1 + c2, uops, True)
    try:
        t[0].uncompute(recompute=True)
        use(R, [None, t[1]], u2)
        t[1].uncompute()
    except Exception as e:
        if type(e) is Exception or "ncomput" in str(e):
            return
        raise
    for what, qc in (("session", v[0].qs.copy()), ("compiled session", v[0].qs.compile())):
        (w, _), = final(qc, data, what)
        ov = abs(np.vdot(ref, w))
        check(abs(ov - 1) < 2e-3, lambda: f"{what}: state of the remaining variables after recomputation has overlap {ov:.4f} with the state before")


def rand_group(r):
    """temporaries, computation, sources, free destinations"""
    k = r.choice(["qv", "qv", "qv2", "qv2", "mul", "add", "lt", "eq", "ltc", "dict", "mix"])
    if k == "qv":
        mk, sizes = [["qv", 3]], [3]
    elif k == "qv2":
        mk, sizes = [["qv", 2], ["qv", 1]], [2, 1]
    elif k == "mul":
        mk, sizes = [["mul", 1, 2]], [4]
    elif k == "add":
        mk, sizes = [["add", 1, 2]], [3]
    elif k == "lt":
        mk, sizes = [["lt", 1, 2]], [1]
    elif k == "eq":
        mk, sizes = [["eq", 1, r.randrange(4)]], [1]
    elif k == "ltc":
        mk, sizes = [["ltc", 2, r.randrange(1, 4)]], [1]
    elif k == "dict":
        mk, sizes = [["dict", 1, [r.randrange(4) for _ in range(4)]]], [2]
    else:
        mk, sizes = [["lt", 1, 2], ["qv", 2]], [1, 2]
    tq = [8 * i + j for i, s in enumerate(sizes) for j in range(s)]
    free = [8 * i + j for i, s in enumerate(sizes) for j in range(s) if mk[i][0] == "qv"]
    src = [3, 4, 5, 6] if k not in ("qv", "qv2") else r.sample(range(N), 4)
    dst = [i for i in range(N) if i not in src]
    return mk, tq, free, src, dst


def rand_comp(r, tq, free, src, n):
    out = []
    if not free:
        return out
    for _ in range(n):
        k = r.choice(["mcx", "mcx", "mcx", "mcx", "x", "swap", "ctl", "phase", "wrapcx"])
        t = r.choice(free)
        if k == "mcx":
            c = r.sample(src + [~x for x in tq if x != t], r.randint(1, 3))
            out.append(["mcx", c, t, "".join(r.choice("01") for _ in c), r.choice(["auto", "auto", "gray", "balauca"]) if len(c) > 2 else "auto"])
        elif k == "x":
            out.append(["x", t])
        elif k == "swap":
            u = r.choice(free)
            if u != t:
                out.append(["swap", t, u])
        elif k == "ctl":
            c = r.sample(src, r.randint(1, 2))
            out.append(["ctl", c, "".join(r.choice("01") for _ in c), t])
        elif k == "phase":
            out.append(["phase", t, round(r.uniform(-3, 3), 3)])
        else:
            out.append(["wrapcx", r.choice(src), t])
    return out


def rand_use(r, tq, src, dst, n):
    out = []
    for _ in range(n):
        k = r.choice(["cx", "cp", "cps", "ccx", "p", "ctl", "g", "gp"])
        t, d = r.choice(tq), r.choice(dst)
        a = round(r.uniform(-3, 3), 3)
        if k == "cx":
            out.append(["cx", t, d])
        elif k == "cp":
            out.append(["cp", t, d, a])
        elif k == "cps":
            out.append(["cp", t, r.choice(src), a])
        elif k == "ccx":
            out.append(["ccx", t, r.choice(src + [x for x in dst if x != d]), d])
        elif k == "p":
            out.append(["p", t, a])
        elif k == "ctl":
            out.append(["ctl", t, d, a])
        elif k == "g":
            out.append(lang.leaf(r, dst if len(dst) > 1 else dst * 2) if len(dst) > 2 else ["g", "h", [], [d]])
        else:
            out.append(["g", "p", [a], [r.choice(src)]])
    return out


def plain(cops):
    """no temporary qubit is changed again after it served as control, no swaps: reversing the computation step by step is possible"""
    used = set()
    for c in cops:
        t = {"mcx": 2, "ctl": 3, "x": 1, "wrapcx": 2, "phase": 1}.get(c[0])
        if t is None or c[t] in used:
            return False
        if c[0] == "mcx":
            used |= {~i for i in c[1] if i < 0}
    return True


def fuzz(ctx, n, modes, after):
    r = ctx.rng
    for i in range(n):
        mk, tq, free, src, dst = rand_group(r)
        cops = rand_comp(r, tq, free, src, r.randint(1, 5))
        uops = rand_use(r, tq, src, dst, r.randint(1, 4))
        aft = [lang.leaf(r, list(range(N))) for _ in range(r.randint(1, 3))] if after and r.random() < .7 else []
        mode = r.choice(modes)
        ctx.run(c_unc, mk=mk, cops=cops, uops=uops, after=aft, mode=mode, prep=r.randint(1, 9), strict=not aft and mode != "env" and mode != "each" and plain(cops))
        if ctx.full():
            return
        if i % 15 == 14:
            ctx.gc()


@task("explicit", timeout=500, weight=3)
def t_explicit(ctx):
    ctx.bound("random temporaries (arithmetic, comparison, dictionary, reversible circuits of up to 5 gates) over 7 data qubits, up to 4 uses")
    fuzz(ctx, 70 if not thorough() else 700, ["stack", "fn", "each", "env"], False)


@task("after", timeout=500, weight=3)
def t_after(ctx):
    fuzz(ctx, 70 if not thorough() else 700, ["stack", "fn", "each", "env"], True)


@task("automatic", timeout=500, weight=3)
def t_auto(ctx):
    fuzz(ctx, 60 if not thorough() else 600, ["auto", "auto", "auto_re"], True)


@task("recomputation", timeout=500, weight=2)
def t_rec(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 600):
        src = r.sample(range(N), 4)
        dst = [x for x in range(N) if x not in src]
        t1, t2 = [0, 1], [8, 9]
        c1 = rand_comp(r, t1, t1, src, r.randint(1, 3))
        c2 = [["mcx", [~r.choice(t1)] + r.sample(src, r.randint(0, 1)), r.choice(t2), None, "auto"] for _ in range(r.randint(1, 3))]
        for c in c2:
            c[3] = "".join(r.choice("01") for _ in c[1])
        ctx.run(c_rec, c1=c1, c2=c2, uops=rand_use(r, t1 + t2, src, dst, r.randint(0, 2)), u2=rand_use(r, t2, src, dst, r.randint(1, 3)), prep=r.randint(1, 9))
        if ctx.full():
            return
