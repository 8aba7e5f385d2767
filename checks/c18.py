"""C18: logic synthesis. Truth tables, Boolean expressions and phase functions are synthesised with every method and the circuits are evaluated
on the superposition of all inputs; the phase synthesis is additionally decided for symbolic phases (all values at once).

Contracts: |x>|0> -> |x>|f(x)> without relative phase (phase-tolerant methods: phase may depend on x), inverse and controlled gates accordingly."""
import cmath
import itertools
import math

from vlib.api import Fail, Undecided, case, check, need, rng, task, thorough
from vb.q import grid, map_state, relation

ID = "C18"
LEVEL = "exploration"
RULE = "one evaluation = one Boolean function (or phase function) x synthesis method, evaluated on all inputs; nontrivial = distinct"
TRUSTED = ["vb.sim evaluator", "sympy linear arithmetic (symbolic phase obligations)"]

GS = "qrisp.alg_primitives.logic_synthesis.gray_synthesis"
TT = "qrisp.alg_primitives.logic_synthesis.truth_tables"


def tab(rows, m):
    import numpy as np
    return np.array([[r >> j & 1 for j in range(m)] for r in rows])


@case("synth")
def c_synth(rows, m, method, inv=False, gate=False, form="array", ctrl=False):
    """rows: function values f(x), output bit j = bit j of f(x)"""
    import qrisp
    n = int(math.log2(len(rows)))
    T = tab(rows, m)
    if form == "array":
        tt = qrisp.TruthTable(T)
    else:
        tt = qrisp.TruthTable(["".join(str(T[i, j]) for i in range(len(rows))) for j in range(m)])
    a, b = qrisp.QuantumVariable(n), qrisp.QuantumVariable(m)
    qrisp.merge([a.qs, b.qs])
    c = qrisp.QuantumBool() if ctrl else None

    def go():
        if gate:
            a.qs.append(tt.gate_synth(method=method, inv=inv), list(a.reg) + list(b.reg))
        elif inv:
            with qrisp.invert():
                tt.q_synth(a, b, method=method)
        else:
            tt.q_synth(a, b, method=method)
    if ctrl:
        with qrisp.control(c):
            go()
        qrisp.merge([a.qs, c.qs])
    else:
        go()
    regs = [a, b] + ([c] if ctrl else [])
    what = f"{'gate_' if gate else ''}synthesis of {rows} ({n}->{m}) method={method} inverse={inv} controlled={ctrl}"
    ins = [(x, 0) + t for x in range(1 << n) for t in ([(0,), (1,)] if ctrl else [()])]
    f = lambda t: rows[t[0]] if not ctrl or t[2] else 0
    free = method in ("best",) or "pt" in method
    if not free:
        # reversible use: the output qubits may hold anything
        full = [(x, y) + t for x in range(1 << n) for y in range(1 << m) for t in ([(0,), (1,)] if ctrl else [()])]
        if len(full) <= 256 and m == 1:
            map_state(a.qs, regs, full, lambda t: (t[0], t[1] ^ f(t)) + t[2:], what=what)
            return
    if inv:
        ins = [(t[0], f(t)) + t[2:] for t in ins]
        map_state(a.qs, regs, ins, lambda t: (t[0], 0) + t[2:], what=what, phase="any" if free else None)
        return
    map_state(a.qs, regs, ins, lambda t: (t[0], f(t)) + t[2:], what=what, phase="any" if free else None)


@case("pair")
def c_pair(rows, m, method, imethod):
    """phase-tolerant computation followed by its inverse leaves no phase"""
    import qrisp
    n = int(math.log2(len(rows)))
    tt = qrisp.TruthTable(tab(rows, m))
    a, b, o = qrisp.QuantumVariable(n), qrisp.QuantumVariable(m), qrisp.QuantumVariable(m)
    qrisp.merge([a.qs, b.qs, o.qs])
    tt.q_synth(a, b, method=method)
    qrisp.cx(b, o)
    if imethod:
        tt.q_synth(a, b, method=imethod)
    else:
        with qrisp.invert():
            tt.q_synth(a, b, method=method)
    map_state(a.qs, [a, b, o], [(x, 0, 0) for x in range(1 << n)], lambda t: (t[0], 0, rows[t[0]]), what=f"compute {rows} with {method}, copy, uncompute")


@case("expr")
def c_expr(monos, names, method):
    """Boolean expression (polynomial over GF(2)); variable i (in alphabetical order) is input qubit i"""
    import sympy as sp
    import qrisp
    S = [sp.Symbol(x) for x in names]
    e = sp.sympify(sum(c * sp.prod([s ** k for s, k in zip(S, ex)]) for c, ex in monos))
    used = sorted((s for s in e.free_symbols), key=lambda s: s.name)
    if not used or not isinstance(e, sp.Expr):
        return
    tt = qrisp.TruthTable(e)
    check(tt.bit_amount == len(used) and tt.shape == (1 << len(used), 1), f"shape of the truth table of {e}")
    pos = {s: i for i, s in enumerate(used)}

    def f(x):
        return sum(c * math.prod(((x >> pos[s] & 1) ** k if k else 1) for s, k in zip(S, ex) if s in pos or k) for c, ex in monos if all(s in pos or not k for s, k in zip(S, ex))) % 2
    tb = [int(v) for v in tt.n_rep[:, 0]]
    check(tb == [f(x) for x in range(1 << len(used))], lambda: f"truth table of {e}: {tb}")
    poly = need(TT, "synth_poly")(qrisp.TruthTable(tt.n_rep))
    ps = sp.symbols([f"x{i}" for i in range(len(used))])
    for x in range(1 << len(used)):
        v = int(sp.sympify(poly).subs({s: x >> i & 1 for i, s in enumerate(ps)})) % 2
        check(v == tb[x], lambda: f"polynomial {poly} of table {tb} gives {v} at {x}")
    a, b = qrisp.QuantumVariable(len(used)), qrisp.QuantumVariable(1)
    qrisp.merge([a.qs, b.qs])
    tt.q_synth(a, b, method=method)
    map_state(a.qs, [a, b], [(x, 0) for x in range(1 << len(used))], lambda t: (t[0], tb[t[0]]), what=f"synthesis of {e} with {method}")


@case("phase")
def c_phase(phases, how):
    """phase synthesis: state with index k (first qubit most significant) gets the phase phases[k] up to a common phase; exact when controlled"""
    import qrisp
    n = int(math.log2(len(phases)))
    a = qrisp.QuantumVariable(n)
    rev = lambda x: sum((x >> i & 1) << (n - 1 - i) for i in range(n))
    gps = need(GS, "gray_phase_synth")
    what = f"phase synthesis of {phases} ({how})"
    if how in ("ctrl", "ctrl0"):
        c = qrisp.QuantumBool()
        with qrisp.control(c, ctrl_state=1 if how == "ctrl" else 0):
            qrisp.app_phase_function([a], lambda x: phases[rev(int(x[::-1], 2))])
        qrisp.merge([a.qs, c.qs])
        on = 1 if how == "ctrl" else 0
        # a common phase may be lost only if it is global
        map_state(a.qs, [a, c], [(x, y) for x in range(1 << n) for y in (0, 1)], lambda t: t, phase=lambda t: cmath.exp(1j * phases[rev(t[0])]) if t[1] == on else 1, what=what)
        return
    if how == "inv":
        with qrisp.invert():
            gps(a, phases)
        sg = -1
    elif how == "qb_list":
        need(GS, "gray_phase_synth_qb_list")(a.qs, list(a.reg), phases)
        sg = 1
    else:
        gps(a, phases)
        sg = 1
    map_state(a.qs, [a], [(x,) for x in range(1 << n)], lambda t: t, phase=lambda t: cmath.exp(sg * 1j * phases[rev(t[0])]), what=what)


def symbolic_phase(n, zero=()):
    """obligation: the circuit synthesised for symbolic phases t_k gives basis state k exactly the phase t_k (or t_k - t_0), for all real t"""
    import sympy as sp
    from vb.sim import Sparse
    gsq = need(GS, "gray_synth_qc")
    T = [sp.Integer(0) if k in zero else sp.Symbol(f"t{k}", real=True) for k in range(1 << n)]
    qc = gsq(list(T))
    pos = {q: i for i, q in enumerate(qc.qubits)}
    # cx/p circuits only: parity and phase bookkeeping in exact rational arithmetic
    for x in range(1 << n):
        bits = [x >> (n - 1 - i) & 1 for i in range(n)]
        ph = sp.Integer(0)
        for ins in qc.data:
            nm = ins.op.name
            qs = [pos[q] for q in ins.qubits]
            if nm == "cx":
                bits[qs[1]] ^= bits[qs[0]]
            elif nm == "p":
                if bits[qs[0]]:
                    ph += ins.op.params[0]
            elif nm == "gphase":
                ph += ins.op.params[0]
            elif nm in ("id", "barrier"):
                pass
            else:
                raise Undecided(f"instruction {nm} in the phase synthesis circuit")
        if bits != [x >> (n - 1 - i) & 1 for i in range(n)]:
            return False, f"basis state {x} is not preserved"
        off = ph if x == 0 else off
        d = sp.nsimplify(sp.expand(ph - off - (T[x] - T[0])), rational=True, tolerance=1e-12)
        if sp.simplify(d) != 0:
            return False, f"state {x} gets the phase {ph} instead of t{x}"
    return True, ""


@case("symbolic")
def c_sym(n, zero):
    ok, m = symbolic_phase(n, tuple(zero))
    check(ok, f"symbolic phase synthesis, {n} qubits, zero phases {zero}: {m}")


@case("traversal")
def c_trav(n, locs):
    """the CNOT traversal visits every requested parity and returns to the identity"""
    mqt = need(GS, "multi_qb_traversal")
    cn, seq = mqt(list(locs), n)
    check(len(cn) == len(seq), "lengths")
    st = [1 << i for i in range(n)]      # parity of the initial bits held by every qubit (bit i = input qubit i)
    seen = set()
    for (c, t), p in zip(cn, seq):
        if c != t:
            st[t] ^= st[c]
        if st[t] == p:
            seen.add(p)
        elif p in locs and p not in seen:
            raise Fail(f"traversal of {locs}: announces parity {p} but qubit {t} holds {st[t]}")
    miss = [p for p in locs if p not in seen and p]
    check(not miss, lambda: f"traversal of {locs}: parities {miss} never occur")
    check(st == [1 << i for i in range(n)], lambda: f"traversal of {locs}: ends in the parities {st}")


@case("classical")
def c_cl(rows, m, i, j):
    """table operations: cofactors, columns, disjunction, Walsh spectrum"""
    import numpy as np
    import qrisp
    T = tab(rows, m)
    n = int(math.log2(len(rows)))
    tt = qrisp.TruthTable(T)
    check((np.array(tt.n_rep) == T).all() and tt.bit_amount == n and tt.shape == T.shape, "table contents")
    check(tt.str_l == ["".join(str(T[k, c]) for k in range(len(rows))) for c in range(m)], "string form")
    check((np.array(tt.sub_table(i).n_rep)[:, 0] == T[:, i]).all(), f"column {i}")
    s = np.array(tt.swap_col(i, j).n_rep)
    e = T.copy()
    e[:, [i, j]] = e[:, [j, i]]
    check((s == e).all(), lambda: f"swapping columns {i} and {j} of {T.tolist()} gives {s.tolist()}")
    for v in range(n):
        cf = tt.cofactors(v)
        for b in (0, 1):
            ex = [T[k] for k in range(len(rows)) if (k >> (n - 1 - v) & 1) == b]
            check((np.array(cf[b].n_rep) == np.array(ex)).all(), lambda: f"cofactor {b} of variable {v}")
    va = np.array(tt.variable_array().n_rep)
    check((va == np.array([[k >> (n - 1 - v) & 1 for v in range(n)] for k in range(len(rows))])).all(), "variable array")
    o = qrisp.TruthTable(1 - T)
    check((np.array((tt | o).n_rep) == 1).all() and (np.array((tt | tt).n_rep) == T).all(), "disjunction")
    rw = need(TT, "rw_spectrum")(T[:, i].copy())
    for k in range(len(rows)):
        check(rw[k] == sum(int(T[x, i]) * (-1) ** bin(x & k).count("1") for x in range(len(rows))), lambda: f"Walsh coefficient {k} of {T[:, i]}: {rw[k]}")


METHODS = ["gray", "gray_pt", "pprm", "pprm_pt", "best"]


@task("exhaustive", weight=3)
def t_ex(ctx):
    ctx.bound("all Boolean functions of up to 2 inputs / 2 outputs, all single-output functions of 3 inputs (one method each, all methods on the thorough tier)")
    for n in (1, 2):
        for m in (1, 2):
            for rows in itertools.product(range(1 << m), repeat=1 << n):
                for me in METHODS:
                    if (n, m) == (2, 2) and not thorough() and hash((rows, me)) % 5:
                        continue
                    ctx.run(c_synth, rows=list(rows), m=m, method=me)
                    if ctx.full():
                        return
    r = ctx.rng
    for f in range(256):
        rows = [f >> i & 1 for i in range(8)]
        for me in METHODS if thorough() else [r.choice(METHODS)]:
            ctx.run(c_synth, rows=rows, m=1, method=me)
        if ctx.full():
            return


@task("random", weight=3)
def t_rand(ctx):
    r = ctx.rng
    for i in range(120 if not thorough() else 900):
        n, m = r.randint(1, 4), r.randint(1, 3)
        rows = [r.randrange(1 << m) for _ in range(1 << n)]
        if r.random() < .2:
            rows = [x & r.randrange(1 << m) & r.randrange(1 << m) for x in rows]
        me = r.choice(METHODS)
        ctx.run(c_synth, rows=rows, m=m, method=me, inv=r.random() < .3, gate=r.random() < .3, form=r.choice(["array", "str"]), ctrl=r.random() < .25 and me in ("gray", "pprm"))
        ctx.run(c_cl, rows=rows, m=m, i=r.randrange(m), j=r.randrange(m))
        if i % 3 == 0:
            me = r.choice([("gray_pt", "gray_pt_inv"), ("gray_pt", None), ("pprm_pt", None), ("best", None)])
            ctx.run(c_pair, rows=rows, m=m, method=me[0], imethod=me[1])
        if ctx.full():
            return


@task("expr")
def t_expr(ctx):
    r = ctx.rng
    for i in range(60 if not thorough() else 400):
        k = r.randint(1, 4)
        names = r.sample(["a", "b", "x", "y0", "z", "x1"], k)
        monos = [[1, [r.randint(0, 1) if r.random() < .9 else 2 for _ in range(k)]] for _ in range(r.randint(1, 5))]
        ctx.run(c_expr, monos=monos, names=names, method=r.choice(["gray", "pprm"]))
        if ctx.full():
            return


@task("phase", weight=2)
def t_phase(ctx):
    r = ctx.rng
    for n in (2, 3, 4):
        for mask in range(1, 1 << n):
            a = round(r.uniform(.2, 2.5), 3)
            ctx.run(c_phase, phases=[a if bin(x & mask).count("1") & 1 else 0 for x in range(1 << n)], how="plain")
    for i in range(80 if not thorough() else 600):
        n = r.randint(1, 4)
        k = r.random()
        ph = [round(r.uniform(-3, 3), 3) if k < .5 else r.choice([0, 0, math.pi, math.pi / 2, -math.pi / 4]) for _ in range(1 << n)]
        ctx.run(c_phase, phases=ph, how=r.choice(["plain", "plain", "inv", "qb_list", "ctrl", "ctrl0"]))
        if ctx.full():
            return


@task("symbolic", weight=2)
def t_sym(ctx):
    ctx.bound("symbolic phases: every real value of the phases at once, for 1..3 qubits and sampled zero patterns; traversals for up to 5 qubits")
    r = ctx.rng
    for n in (1, 2, 3):
        ctx.run(c_sym, n=n, zero=[])
    for i in range(12 if not thorough() else 60):
        n = r.randint(2, 3)
        ctx.run(c_sym, n=n, zero=sorted(r.sample(range(1 << n), r.randint(1, (1 << n) - 1))))
    for n in (1, 2, 3):
        al = list(range(1, 1 << n))
        subs = itertools.chain.from_iterable(itertools.combinations(al, k) for k in range(1, len(al) + 1))
        for s in subs:
            ctx.run(c_trav, n=n, locs=list(s))
    for i in range(200 if not thorough() else 2000):
        n = r.randint(4, 6)
        ctx.run(c_trav, n=n, locs=sorted(r.sample(range(1, 1 << n), r.randint(1, min(20, (1 << n) - 1)))))
        if ctx.full():
            return
