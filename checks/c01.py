"""C01: in-place addition. Deductive: carry-chain adders proved for every register width (vc/contracts/adders.py).
Bounded stand-in: every adder at small widths on the superposition of ALL inputs (value, workspace and phase action)."""
from vlib.api import Undecided, case, check, need, task, thorough
from vb.q import grid, map_state, qubits

ID = "C01"
LEVEL = "exploration"
RULE = ("one evaluation = one adder x argument kinds x widths x option combination, evaluated on the superposition of all register contents "
        "(up to 2^12, sampled above); nontrivial = distinct such configuration")
TRUSTED = ["vb.sim evaluator", "CPython", "vc engine (symbolic execution, loop cutting)", "z3 / cvc5"]
MIN_OBLIGATIONS = 1500
TECHNIQUE = ("contract-based deductive verification (Cuccaro, Gidney and increment adders: loop invariants over registers of symbolic width, "
             "obligations generated from the current source, discharged by z3 for all widths and inputs); bounded contract evaluation for the other adders")
THEOREMS = ["cuccaro_adder, gidney_adder, lin_incr, increment_qb_list: target = (target + addend + carry-in) mod 2^n, carry-out, addend kept, workspace clean, for every n"]


def adder(name):
    import qrisp
    if name == "thapliyal":
        def f(a, b, **kw):
            qrisp.inpl_add(b, a, **kw)
        return f
    f = getattr(qrisp, name, None)
    if f is None:
        raise Undecided(f"adder {name} not offered")
    if name == "qcla_r2":
        pass
    return f


def call(name, a, b, kw):
    import qrisp
    if name.startswith("qcla"):
        opts = {"qcla": {}, "qcla00": dict(radix_base=2, radix_exponent=0), "qcla02": dict(radix_base=2, radix_exponent=2),
                "qcla31": dict(radix_base=3, radix_exponent=1), "qclaT": dict(t_depth_reduction=False), "qcla00T": dict(radix_base=2, radix_exponent=0, t_depth_reduction=False), "qcla31T": dict(radix_base=3, radix_exponent=1, t_depth_reduction=False)}[name]
        return qrisp.qcla(a, b, **opts, **kw)
    return adder(name)(a, b, **kw)


@case("static")
def c_static(name, na, nb, c=None, cin=False, cout=False, ctrl=0, env=0, inv=False, aslist=False, seed=0):
    """one static program; c: classical addend (then na is ignored); ctrl: 0 none, 1 keyword; env: number of controls of an
    enclosing control block; inv: enclosing inversion block; env mode uses control([..])"""
    import random
    import qrisp
    regs, names, sizes = [], [], []

    def var(n, name, t=None):
        v = (t or qrisp.QuantumFloat)(n) if t is not qrisp.QuantumBool else qrisp.QuantumBool()
        regs.append(v)
        names.append(name)
        sizes.append(n)
        return v
    a = c if c is not None else var(na, "a")
    b = var(nb, "b")
    kw = {}
    if cin:
        kw["c_in"] = var(1, "cin", qrisp.QuantumBool)
    if cout:
        kw["c_out"] = var(1, "cout", qrisp.QuantumBool)
    if ctrl:
        kw["ctrl"] = var(1, "ctrl", qrisp.QuantumBool)
        if ctrl == 2:
            kw["ctrl"] = kw["ctrl"][0]
    es = [var(1, f"env{i}", qrisp.QuantumBool) for i in range(env)]
    aa, bb = (list(a) if aslist and c is None else a), (list(b) if aslist else b)
    r = random.Random(seed)
    cs = "".join(r.choice("01") for _ in range(env)) if env and r.random() < .6 else "1" * env

    def body():
        if inv:
            with qrisp.invert():
                call(name, aa, bb, kw)
        else:
            call(name, aa, bb, kw)
    if env == 0:
        body()
    else:
        with qrisp.control([e[0] for e in es] if env > 1 else es[0], ctrl_state=cs):
            body()
    ix = {n: i for i, n in enumerate(names)}
    M = 1 << nb

    def spec(t):
        v = list(t)
        on = all(v[ix[f"env{i}"]] == int(cs[i]) for i in range(env)) and (not ctrl or v[ix["ctrl"]] == 1)
        if on:
            add = (c if c is not None else v[ix["a"]])
            ci = v[ix["cin"]] if cin else 0
            av = add % M
            if cout:
                ext = (v[ix["cout"]] << nb) + v[ix["b"]]
                ext = (ext - (av + ci) if inv else ext + av + ci) % (2 * M)
                v[ix["b"]], v[ix["cout"]] = ext % M, ext >> nb
            else:
                v[ix["b"]] = ((v[ix["b"]] - (add + ci)) if inv else (v[ix["b"]] + add + ci)) % M
        return tuple(v)
    qs = regs[0].qs
    ins = grid(sizes, r, 2048 if thorough() else 512)
    if cout and not inv:
        ins = [t for t in ins if t[ix["cout"]] == 0] or [tuple(0 for _ in sizes)]
    elif cout:
        # the inverse is specified on the range of the forward operation
        fw = []
        inv_spec = spec
        for t in ins:
            if t[ix["cout"]]:
                continue
            on = all(t[ix[f"env{i}"]] == int(cs[i]) for i in range(env)) and (not ctrl or t[ix["ctrl"]] == 1)
            v = list(t)
            if on:
                add = (c if c is not None else v[ix["a"]]) % M
                s = v[ix["b"]] + add + (v[ix["cin"]] if cin else 0)
                v[ix["b"]], v[ix["cout"]] = s % M, (s >> nb) & 1
            fw.append(tuple(v))
        ins = fw
    map_state(qs, regs, ins, spec, what=f"{name}(a:{'int ' + str(c) if c is not None else na}, b:{nb} qubits, cin={cin}, cout={cout}, ctrl={ctrl}, control block {cs!r}, inverted={inv})")


@case("operator")
def c_op(op, sb, other, sa=None, seed=0, exps=(0, 0)):
    """+= / -= of quantum numbers (fixed point formats) and of classical numbers. sb, sa = [size, exponent, signed]"""
    import random
    import qrisp
    import math
    b = qrisp.QuantumFloat(sb[0], sb[1], signed=bool(sb[2]))
    nb = b.size
    u = 2.0 ** sb[1]
    if sa is None:
        if op == "+=":
            b += other
        else:
            b -= other
        k = round(other / u)
        f = lambda t: ((t[0] + (k if op == "+=" else -k)) % (1 << nb),)
        regs = [b]
    else:
        a = qrisp.QuantumFloat(sa[0], sa[1], signed=bool(sa[2]))
        if op == "+=":
            b += a
        else:
            b -= a
        na = a.size

        def f(t):
            v = t[1] - (1 << na) if sa[2] and t[1] >> (na - 1) else t[1]
            d = math.floor(v * 2.0 ** sa[1] / u)
            assert d * u == v * 2.0 ** sa[1]
            return ((t[0] + (d if op == "+=" else -d)) % (1 << nb), t[1])
        regs = [b, a]
    ins = grid([len(r) for r in regs], random.Random(seed), 512)
    map_state(b.qs, regs, ins, f, what=f"QuantumFloat{tuple(sb)} {op} {other if sa is None else 'QuantumFloat' + str(tuple(sa))}")


@case("remaud")
def c_remaud(n):
    import random
    import qrisp
    a, b, z = qrisp.QuantumFloat(n), qrisp.QuantumFloat(n), qrisp.QuantumFloat(1)
    qrisp.remaud_adder(a, b, z)
    M = 1 << n
    ins = [t + (0,) for t in grid([n, n], random.Random(n), 512)]
    map_state(a.qs, [a, b, z], ins, lambda t: (t[0], (t[0] + t[1]) % M, (t[0] + t[1]) >> n), what=f"remaud_adder width {n}")


@case("increment")
def c_incr(n, e, amount):
    import random
    import qrisp
    q = qrisp.QuantumFloat(n, e)
    qrisp.increment(q, amount)
    k = round(amount / 2.0 ** e)
    map_state(q.qs, [q], grid([n], random.Random(0), 512), lambda t: ((t[0] + k) % (1 << n),), what=f"increment by {amount} (width {n}, exponent {e})")


# ------------------------------------------------------------------ traced programs
_J = {}


def jasp_prog(name, opts):
    """jaspr taking (na, nb, c); circuits are then extracted for concrete widths"""
    import qrisp
    from qrisp.jasp import make_jaspr
    key = (name, tuple(sorted(opts.items())))
    if key in _J:
        return _J[key]
    cl, cin, cout, ctrl, env, inv = (opts.get(k, False) for k in ("cl", "cin", "cout", "ctrl", "env", "inv"))

    def main(na, nb, c):
        b = qrisp.QuantumFloat(nb)
        rets = []
        if cl:
            a = c
        else:
            a = qrisp.QuantumFloat(na)
            rets.append(a)
        rets.append(b)
        kw = {}
        for on, nm in ((cin, "c_in"), (cout, "c_out"), (ctrl, "ctrl")):
            if on:
                kw[nm] = qrisp.QuantumBool()
                rets.append(kw[nm])
        if ctrl:
            kw["ctrl"] = kw["ctrl"][0]
        if name == "fourier":
            from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_fourier_adder import jasp_fourier_adder
            f = jasp_fourier_adder
        elif name == "iadd":
            def f(a, b):
                b += a
        elif name == "isub":
            def f(a, b):
                b -= a
        else:
            f = getattr(qrisp, name)

        def body():
            if inv:
                with qrisp.invert():
                    f(a, b, **kw)
            else:
                f(a, b, **kw)
        if env:
            e = qrisp.QuantumBool()
            rets.append(e)
            with qrisp.control(e[0]):
                body()
        else:
            body()
        return tuple(rets) if len(rets) > 1 else rets[0]
    _J[key] = make_jaspr(main)(1, 1, 1)
    return _J[key]


@case("traced")
def c_traced(name, na, nb, c=0, opts=None):
    import random
    opts = opts or {}
    j = jasp_prog(name, opts)
    out = j.to_qc(na, nb, c)
    *rets, qc = out
    rets = [r for r in rets if isinstance(r, (list, tuple)) or type(r).__name__ == "Qubit"]      # drop classical fields of the returned variables
    regs = [list(r) if isinstance(r, (list, tuple)) else [r] for r in rets]
    names = ([] if opts.get("cl") else ["a"]) + ["b"] + [k for k in ("cin", "cout", "ctrl", "env") if opts.get(k)]
    sizes = [len(r) for r in regs]
    check(len(names) == len(regs), "register structure of the extracted circuit")
    ix = {n: i for i, n in enumerate(names)}
    check(sizes[ix["b"]] == nb, "width of the extracted target register")
    M = 1 << nb
    inv = bool(opts.get("inv")) ^ (name == "isub")

    def spec(t):
        v = list(t)
        if all(v[ix[k]] for k in ("ctrl", "env") if k in ix):
            add = (v[ix["a"]] if "a" in ix else c)
            ci = v[ix["cin"]] if "cin" in ix else 0
            if "cout" in ix:
                add %= M
                ext = (v[ix["cout"]] << nb) + v[ix["b"]]
                ext = (ext - (add + ci) if inv else ext + add + ci) % (2 * M)
                v[ix["b"]], v[ix["cout"]] = ext % M, ext >> nb
            else:
                v[ix["b"]] = ((v[ix["b"]] - add - ci) if inv else (v[ix["b"]] + add + ci)) % M
        return tuple(v)
    ins = grid(sizes, random.Random(1), 512)
    if "cout" in ix:
        ins = [t for t in ins if t[ix["cout"]] == 0]
        if inv:
            inv = False
            ins = [spec(t) for t in ins]
            inv = True
    map_state(qc, regs, ins, spec, what=f"traced {name} {opts} a:{na if 'a' in ix else c} b:{nb}", check_dealloc=True)


_V = {}


def vent_prog(cin, cout, ctrl):
    import qrisp
    from qrisp.jasp import make_jaspr
    k = (cin, cout, ctrl)
    if k not in _V:
        def main(n, d, v, ci, ct, sup):
            t = qrisp.QuantumFloat(n)
            t[:] = v
            c1, c2, c3 = qrisp.QuantumBool(), qrisp.QuantumBool(), qrisp.QuantumBool()
            with qrisp.control(ci == 1):
                qrisp.x(c1[0])
            with qrisp.control(ct == 1):
                qrisp.x(c3[0])
            with qrisp.control(sup == 1):
                qrisp.h(t)
            kw = {}
            if cin:
                kw["c_in"] = c1
            if cout:
                kw["c_out"] = c2
            if ctrl:
                kw["ctrl"] = c3[0]
            qrisp.gidney_cq_venting_adder(d, t, **kw)
            with qrisp.control(sup == 1):
                # undo by an independent construction: Draper subtraction, then the transversal Hadamard
                from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_fourier_adder import jasp_fourier_adder
                qrisp.h(t)
            return qrisp.measure(t), qrisp.measure(c1), qrisp.measure(c2), qrisp.measure(c3)
        _V[k] = make_jaspr(main)(1, 1, 1, 1, 1, 1)
    return _V[k]


@case("venting")
def c_vent(n, d, v, ci=0, ct=1, cin=False, cout=False, ctrl=False, sup=0):
    j = vent_prog(cin, cout, ctrl)
    t, c1, c2, c3 = (int(x) for x in j(n, d, v, ci, ct, sup))
    on = ct if ctrl else 1
    s = v + (d % (1 << n) + (ci if cin else 0) if on else 0)
    if sup:
        # on H|v>, adding s shifts the argument of the character (-1)^{x.v}; only v=0 (uniform) is invariant
        check(t == 0, f"venting adder on the uniform superposition introduced phases or entanglement: n={n}, d={d}, read {t}")
        return
    check(t == s % (1 << n), f"venting adder n={n}: {v}+{d}+{ci if cin else 0} (ctrl {ct if ctrl else None}) gave {t}")
    check(c1 == ci and c3 == ct, "carry-in or control changed")
    if cout:
        check(c2 == s >> n, f"venting adder n={n}: {v}+{d}+{ci if cin else 0} (ctrl {ct if ctrl else None}) carry-out {c2}")


CARRY = ["cuccaro_adder", "gidney_adder"]


@task("static.qq", timeout=500)
def t1(ctx):
    ctx.bound("static quantum-quantum addition: widths 1..4 (target) x 1..5 (addend), all carry/control/inversion combinations of the carry-chain adders; all register contents")
    for name in CARRY:
        for nb in range(1, 5):
            for na in range(1, 6):
                for cin in (False, True):
                    for cout in (False, True):
                        for ctrl in (0, 1):
                            if ctx.full():
                                return
                            big = na + nb > 6
                            if big and (cin, cout, ctrl) not in ((False, False, 0), (True, True, 1)) and (na, nb) != (3, 4):
                                continue
                            ctx.run(c_static, name=name, na=na, nb=nb, cin=cin, cout=cout, ctrl=ctrl)
        for nb, na in ((1, 1), (2, 1), (3, 3), (3, 2), (2, 3)):
            for inv in (False, True):
                for env in (0, 1, 2):
                    for cin, cout in ((False, False), (True, False), (True, True)):
                        for seed in (0, 1):
                            if env == 0 and seed:
                                continue
                            if name == "gidney_adder" and inv and cout:
                                continue
                            ctx.run(c_static, name=name, na=na, nb=nb, env=env, inv=inv, cin=cin, cout=cout, seed=seed + 7)


@task("static.cq", timeout=500)
def t2(ctx):
    ctx.bound("static classical-quantum addition: widths 1..5, all addends in -2^n..2^(n+1), all carry/control combinations")
    r = ctx.rng
    for name in CARRY:
        for nb in range(1, 6):
            cs = range(-(1 << nb), 2 << nb) if nb <= 2 else sorted({0, 1, (1 << nb) - 1, 1 << nb, (1 << nb) + 3, -1, -3} | {r.randrange(1 << nb) for _ in range(4)})
            for c in cs:
                for k in range(8):
                    if ctx.full():
                        return
                    if nb > 3 and k not in (0, r.randrange(8)):
                        continue
                    if name == "cuccaro_adder" and not 0 <= c < 1 << nb:
                        continue
                    ctx.run(c_static, name=name, na=0, nb=nb, c=c, cin=bool(k & 1), cout=bool(k & 2), ctrl=k >> 2)
                if nb in (1, 3):
                    for env in (1, 2):
                        for inv in (False, True):
                            if 0 <= c < 1 << nb:
                                ctx.run(c_static, name=name, na=0, nb=nb, c=c, env=env, inv=inv, seed=c)


@task("static.fourier", timeout=500)
def t3(ctx):
    ctx.bound("Fourier adder: widths 1..5, control blocks and inversion; look-ahead adder: widths 1..9, radix 2 and 3, exponents 0..2; Thapliyal: widths 3..4; increment: widths 1..5")
    r = ctx.rng
    for nb in range(1, 6):
        for na in range(1, nb + 1):
            for env, inv in ((0, False), (0, True), (1, False), (2, True)):
                if ctx.full():
                    return
                if na + nb + env > 8:
                    continue
                ctx.run(c_static, name="fourier_adder", na=na, nb=nb, env=env, inv=inv, seed=na)
        for c in sorted({0, 1, (1 << nb) - 1, r.randrange(1 << nb), -2, 3 << nb}):
            for env, inv in ((0, False), (0, True), (1, False), (2, True)):
                ctx.run(c_static, name="fourier_adder", na=0, nb=nb, c=c, env=env, inv=inv, seed=c)
    for n in range(3, 5):
        for m in range(2, n + 1):
            ctx.run(c_static, name="thapliyal", na=m, nb=n) if m == n and n > 2 else None
    for n in range(1, 6):
        for a in range(-(1 << n) + 1, 1 << n):
            if n > 3 and r.random() > .25:
                continue
            ctx.run(c_incr, n=n, e=0, amount=a)
            if n == 3:
                ctx.run(c_incr, n=n, e=-1, amount=a / 2)


@task("static.qcla", timeout=600)
def t4(ctx):
    r = ctx.rng
    for name in ("qcla", "qcla00", "qcla02", "qcla31", "qclaT", "qcla31T", "qcla00T"):
        for nb in range(1, 10):
            for na in sorted({1, nb, max(1, nb - 1), max(1, nb // 2)}):
                if ctx.full():
                    return
                if na + nb > 12 and na != nb:
                    continue
                ctx.run(c_static, name=name, na=na, nb=nb)
            for c in sorted({1, (1 << nb) - 1, r.randrange(1 << nb), r.randrange(1 << nb)}):
                for ctrl in (0, 2):
                    if nb > 7 and c % 2:
                        continue
                    ctx.run(c_static, name=name, na=0, nb=nb, c=c, ctrl=ctrl)


@task("static.op", timeout=400)
def t5(ctx):
    ctx.bound("+= and -= on fixed-point numbers: widths 1..4, exponents -2..1, signed and unsigned, quantum and classical operands")
    r = ctx.rng
    for sb in ([3, 0, 0], [3, -1, 0], [4, -2, 0], [3, 1, 0], [3, 0, 1], [3, -2, 1], [2, 0, 0], [1, 0, 0]):
        for op in ("+=", "-="):
            for k in sorted({0, 1, 2, (1 << sb[0]) - 1, r.randrange(1 << sb[0]), -1, -3}):
                ctx.run(c_op, op=op, sb=sb, other=k * 2.0 ** sb[1] if sb[1] < 0 else int(k * 2 ** sb[1]))
            for sa in ([3, 0, 0], [2, 0, 1], [2, -1, 0], [2, 1, 0], [1, 2, 0], [2, -2, 1], [4, 0, 0], [3, 1, 1]):
                if ctx.full():
                    return
                if sa[1] < sb[1] or (sa[2] and not sb[2]):   # documented rejections
                    continue
                ctx.run(c_op, op=op, sb=sb, other=None, sa=sa) if sb[2] or not sa[2] else None


@task("traced.carry", timeout=700, weight=3)
def t6(ctx):
    ctx.bound("traced addition (circuit extraction for concrete widths): widths 1..5, carry/control/inversion combinations")
    combos = []
    for cl in (False, True):
        for cin, cout, ctrl, env, inv in ((0, 0, 0, 0, 0), (1, 1, 0, 0, 0), (1, 0, 1, 0, 0), (0, 1, 1, 0, 0), (0, 0, 0, 1, 0), (0, 0, 0, 0, 1), (0, 0, 0, 1, 1), (1, 1, 1, 0, 0)):
            combos.append({k: True for k, v in dict(cl=cl, cin=cin, cout=cout, ctrl=ctrl, env=env, inv=inv).items() if v})
    for name in CARRY:
        for opts in combos:
            if name == "gidney_adder" and opts.get("inv"):
                pass
            for nb, na in ((1, 1), (2, 1), (3, 3), (2, 4), (4, 3), (5, 2)):
                if ctx.full():
                    return
                for c in ((1, 2, (1 << nb) - 1) if opts.get("cl") else (0,)):
                    if c >= 1 << nb:
                        continue
                    ctx.run(c_traced, name=name, na=na, nb=nb, c=c, opts=opts)
    ctx.gc()


@task("traced.other", timeout=600, weight=2)
def t7(ctx):
    for name, opts in (("fourier", {}), ("fourier", dict(cl=True)), ("fourier", dict(env=True)), ("iadd", {}), ("isub", {}), ("iadd", dict(cl=True)), ("isub", dict(cl=True)), ("iadd", dict(env=True)), ("isub", dict(env=True, cl=True)), ("iadd", dict(inv=True))):
        for nb, na in ((1, 1), (2, 1), (3, 3), (3, 2), (2, 3), (5, 3)):
            if ctx.full():
                return
            for c in ((1, (1 << nb) - 1) if opts.get("cl") else (0,)):
                ctx.run(c_traced, name=name, na=na, nb=nb, c=c, opts=opts)
    ctx.gc()


@task("remaud", timeout=400)
def t8(ctx):
    ctx.bound("polylog-depth adder: widths 4..9 (documented smallest width of the construction)")
    for n in range(4, 10):
        ctx.run(c_remaud, n=n)


@task("venting", timeout=700, weight=3)
def t9(ctx):
    ctx.bound("carry-venting adder (traced, measurement based): widths 1..9, simulated on basis inputs and the uniform superposition")
    r = ctx.rng
    for cin, cout, ctrl in ((False, False, False), (True, False, False), (True, True, False), (True, False, True), (False, False, True), (True, True, True)):
        for n in (1, 2, 3, 5, 6, 7, 8, 9):
            for _ in range(4 if thorough() else 2):
                if ctx.full():
                    return
                d, v = r.choice([r.randrange(1 << n), (1 << n) - 1]), r.choice([r.randrange(1 << n), (1 << n) - 1])
                ctx.run(c_vent, n=n, d=d, v=v, ci=r.randrange(2), ct=r.randrange(2), cin=cin, cout=cout, ctrl=ctrl)
            if n in (6, 7):
                ctx.run(c_vent, n=n, d=r.randrange(1 << n), v=0, ci=r.randrange(2), ct=1, cin=cin, cout=False, ctrl=ctrl, sup=1)
                if ctrl:
                    for d in (1, 2, (1 << n) - 1):
                        ctx.run(c_vent, n=n, d=d, v=0, ci=r.randrange(2), ct=0, cin=cin, cout=False, ctrl=ctrl, sup=1)
    ctx.gc()


# ------------------------------------------------------------------ deductive part: every width, every input
GROUPS = 8


def _mk(i):
    @task(f"proof.{i}", timeout=600, weight=2)
    def t(ctx, i=i):
        from vc.contracts import adders
        from vc.engine import prove_lemma
        if i == 0:
            for l in adders.LEMMAS:
                prove_lemma(ctx, l)
        for k, n in enumerate(adders.programs()):
            if k % GROUPS == i and (thorough() or "[traced" not in n):
                adders.run_one(ctx, n)
        ctx.assume("contracts of x / cx / mcx / swap and of the clean-target AND on basis states (decided by C06, C07); control, inversion and conjugation blocks (C15)")
        ctx.assume("a traced classical addend satisfies 0 <= a < 2^n")
    return t


for _i in range(GROUPS):
    _mk(_i)


@task("proof.sensitivity", timeout=1500, tiers=("thorough",))
def t_sens(ctx):
    """every gate emitted in the proved configurations matters for some contract"""
    from vc import selftest
    from vc.contracts import adders
    P = adders.programs()
    for funcs, names in ((("lin_incr",), ["lin_incr"]), (("increment_qb_list",), ["increment_qb_list"]),
                         (("cuccaro_adder",), ["cuccaro_adder(classical)[c_in, c_out]", "cuccaro_adder(classical)[c_in, c_out, ctrl]"])):
        alive = None
        for n in names:
            tot, a = selftest.run(*P[n], funcs)
            alive = set(a) if alive is None else alive & set(a)
            ctx.note(f"{n}: {tot} damaged variants, {len(a)} still provable (gates not emitted in this configuration)")
        check(not alive, f"damaged variants of {names} are provable: {sorted(alive)[:5]}")
