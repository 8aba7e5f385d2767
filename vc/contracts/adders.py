"""Contracts of the ripple-carry adders for every register width (symbolic n), every input basis state, both traced and
direct mode, with and without carry-in / carry-out / control.

Specification: carries C(0) = c_in, C(j+1) = maj(a_j, b_j, C(j)); afterwards b_j = a_j xor b_j xor C(j) for j < n,
c_out ^= C(n), a / c_in / ctrl unchanged, all workspace returned in state zero. Lemma `ripple` (induction on n) turns
this into  value(b') = (value(a) + value(b) + c_in) mod 2^n.
"""
import z3

from .. import qheap, sym
from ..engine import Engine, Lemma, Unsupported, prove_lemma
from ..load import load
from ..qheap import BARR, Bits, Fam, HeapLoop, QB, QF, QV, Reg, as_reg, prove, st, touch

I = z3.IntSort()
BVal = z3.Function("BVal", BARR, I, I)       # value of the first k bits
P2 = z3.Function("P2", I, I)
C = z3.Function("C", I, z3.BoolSort())


def bit(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def vdef(a, k):
    return [BVal(a, z3.IntVal(0)) == 0, P2(z3.IntVal(0)) == 1,
            z3.Implies(k >= 0, z3.And(P2(k + 1) == 2 * P2(k), BVal(a, k + 1) == BVal(a, k) + bit(z3.Select(a, k)) * P2(k)))]


def maj(a, b, c):
    return z3.Or(z3.And(a, b), z3.And(a, c), z3.And(b, c))


L_ripple = Lemma("ripple: sum bits and carries are the binary sum",
                 lambda a, b, s, c, k: z3.Implies(k >= 0, BVal(s, k) + bit(z3.Select(c, k)) * P2(k) == BVal(a, k) + BVal(b, k) + bit(z3.Select(c, 0))),
                 [BARR, BARR, BARR, BARR, I], ("induction", 4),
                 lambda a, b, s, c, k: vdef(a, k) + vdef(b, k) + vdef(s, k) + [
                     z3.Select(s, k) == z3.Xor(z3.Xor(z3.Select(a, k), z3.Select(b, k)), z3.Select(c, k)),
                     z3.Select(c, k + 1) == maj(z3.Select(a, k), z3.Select(b, k), z3.Select(c, k))])
L_vb = Lemma("k bits hold a value below 2^k", lambda a, k: z3.Implies(k >= 0, z3.And(BVal(a, k) >= 0, BVal(a, k) < P2(k), P2(k) >= 1)),
             [BARR, I], ("induction", 1), lambda a, k: vdef(a, k))
L_mod = Lemma("therefore the sum register holds the sum mod 2^n",
              lambda s, x, c, p: z3.Implies(z3.And(s >= 0, s < p, c >= 0, c <= 1, s + c * p == x), s == x % p), [I, I, I, I])
LEMMAS = [L_ripple, L_vb, L_mod]


def fresh_reg(e, cls, n, name):
    v = cls(sym.W(n, None, 0, None)) if cls is not QB else QB()
    st(e)["heap"][v.id] = e.fresh(name, BARR)
    st(e)["alloc"].remove(v)
    return v


def setup(e, classical, c_in, c_out, ctrl, narrow=None):
    """common precondition: registers with arbitrary contents; ghost functions A0, B0"""
    n = e.fresh("n")
    e.assume(n >= 1)
    s = st(e)
    b = fresh_reg(e, QF, n, "b")
    if classical:
        arr = e.fresh("abits", BARR)
        A0 = lambda j: z3.And(j < n, z3.Select(arr, j))       # the addend fits into the target width
        a = Bits(A0)
        na = n
    else:
        na = e.fresh("na")
        e.assume(na >= 1)
        a = fresh_reg(e, QF, na, "a")
        aa = a.arr()
        A0 = lambda j: z3.And(j < na, z3.Select(aa, j))
    bb = b.arr()
    B0 = lambda j: z3.Select(bb, j)
    opt = {}
    ci = z3.BoolVal(False)
    for nm, on in (("c_in", c_in), ("c_out", c_out), ("ctrl", ctrl)):
        if on:
            opt[nm] = fresh_reg(e, QB, None, nm)
    if c_in:
        ci = opt["c_in"].reg.snap()(z3.IntVal(0))
    cdef = lambda k: [C(z3.IntVal(0)) == ci, z3.Implies(k >= 0, C(k + 1) == maj(A0(k), B0(k), C(k)))]
    s["defs"] = [cdef]
    for k in (z3.IntVal(0), n, n - 1, n - 2):
        e.pc += cdef(k)
        touch(k)
    ct = opt["ctrl"].reg.snap()(z3.IntVal(0)) if ctrl else z3.BoolVal(True)
    s.update(A0=A0, B0=B0, n=n, na=na, a=a, b=b, opt=opt, ctrl_v=ct, aarr=None if classical else a.arr(), init=dict(s["heap"]), shifts=[na])
    return a, b, opt


def kw(opt):
    return {k: v[0] for k, v in opt.items()}


def post(e):
    s = st(e)
    n, A0, B0, ct = s["n"], s["A0"], s["B0"], s["ctrl_v"]
    b = s["b"].reg.snap()
    prove(Fam(n, lambda j: b(j) == z3.Xor(B0(j), z3.And(ct, z3.Xor(A0(j), C(j))))), "every bit of the target holds the sum bit (or is kept if not controlled on)")
    if isinstance(s["a"], QV):
        a, a0 = s["a"].arr(), s["aarr"]
        prove(Fam(s["na"], lambda j: z3.Select(a, j) == z3.Select(a0, j)), "the addend is unchanged")
    for nm in ("c_in", "ctrl"):
        if nm in s["opt"]:
            v = s["opt"][nm]
            e.prove(z3.Select(v.arr(), 0) == z3.Select(s["init"][v.id], 0), f"{nm} is unchanged")
    if "c_out" in s["opt"]:
        v = s["opt"]["c_out"]
        e.prove(z3.Select(v.arr(), 0) == z3.Xor(z3.Select(s["init"][v.id], 0), z3.And(ct, C(n))), "carry-out is flipped by the final carry")
    e.prove(z3.And([z3.BoolVal(getattr(v, "deleted", False)) for v in s["alloc"]]), "all workspace is deleted")


# ------------------------------------------------------------------ Cuccaro
CUC = "alg_primitives/arithmetic/adders/cuccaro_adder.py"


def v_cuccaro(tracing, classical, c_in, c_out, ctrl):
    def views(s):
        al = s["alloc"]
        if classical:
            if len(al) < 3:
                raise Unsupported("unexpected workspace")
            return al[0].reg + al[1].reg, al[2], [al[0], al[1]]
        if len(al) < 2:
            raise Unsupported("unexpected workspace")
        return s["a"].reg[:sym.W(z3.If(s["na"] <= s["n"], s["na"], s["n"]), None, 0, None)] + al[0].reg, al[1], [s["a"], al[0]]

    def mod(s):
        _, anc, av = views(s)
        return av + [s["b"], anc]

    def common(s, anc):
        aa = anc.arr()
        return [("workspace above the carry qubit is zero", Fam(anc._n, lambda j: z3.Implies(j >= 1, z3.Not(z3.Select(aa, j))))),
                ("carry qubit", z3.Select(aa, 0) == z3.Xor(C(z3.IntVal(0)), s["A0"](z3.IntVal(0))))] + frame_a(s)

    def frame_a(s):
        if not isinstance(s["a"], QV):
            return []
        a, a0, n = s["a"].arr(), s["aarr"], s["n"]
        return [("addend bits above the target width are untouched", Fam(s["na"], lambda j: z3.Implies(j >= n, z3.Select(a, j) == z3.Select(a0, j))))]

    def inv1(e, k, s, L):
        av, anc, _ = views(s)
        A, Bq, A0, B0, n = av.snap(), s["b"].reg.snap(), s["A0"], s["B0"], s["n"]
        return [("b holds a xor b below, is untouched above", Fam(n, lambda j: Bq(j) == z3.If(j <= k, z3.Xor(A0(j), B0(j)), B0(j)))),
                ("a holds the carries", Fam(n, lambda j: A(j) == z3.If(j < k, z3.Xor(C(j + 1), A0(j + 1)), z3.If(j == k, C(k + 1), A0(j)))))
                ] + common(s, anc)

    def inv2(e, k, s, L):
        av, anc, _ = views(s)
        A, Bq, A0, B0, n, ct = av.snap(), s["b"].reg.snap(), s["A0"], s["B0"], s["n"], s["ctrl_v"]
        m = n - 1 - k
        touch(m), touch(m - 1)
        for d in s["defs"]:
            e.pc += d(m) + d(m - 1)
        return [("sum bits above, a xor b below", Fam(n, lambda j: Bq(j) == z3.If(j <= m, z3.Xor(A0(j), B0(j)), z3.Xor(B0(j), z3.And(ct, z3.Xor(A0(j), C(j))))))),
                ("a restored above, carries below", Fam(n, lambda j: A(j) == z3.If(j < m, z3.Xor(C(j + 1), A0(j + 1)), z3.If(j == m, C(m + 1), A0(j)))))
                ] + common(s, anc)

    loops = {("cuccaro_adder", 0): HeapLoop(inv1, mod), ("cuccaro_adder", 1): HeapLoop(inv2, mod), ("cuccaro_adder", 2): HeapLoop(inv2, mod)}
    ns = load(CUC, qheap.shims(tracing), loops=loops)

    def run(e):
        a, b, opt = setup(e, classical, c_in, c_out, ctrl)
        ns["cuccaro_adder"](a, b, **kw(opt))
        post(e)
    return run


# ------------------------------------------------------------------ Gidney
GID = "alg_primitives/arithmetic/adders/gidney_adder.py"


def v_gidney(classical, c_in, c_out, ctrl):
    def parts(s):
        al = s["alloc"]
        if classical:
            anc, av, mods = (al[0] if al else None), None, []
        else:
            if len(al) < 2:
                raise Unsupported("unexpected workspace")
            anc = al[1]
            av = s["a"].reg[:sym.W(z3.If(s["na"] <= s["n"], s["na"], s["n"]), None, 0, None)] + al[0].reg
            mods = [s["a"], al[0]]
        bv = s["b"].reg
        off = 0
        if classical and c_in:
            bv = s["opt"]["c_in"].reg + bv
            off = 1
        if c_out:
            bv = bv + s["opt"]["c_out"].reg
        return anc, av, bv, mods, off

    def mod(s):
        anc, av, bv, mods, off = parts(s)
        return mods + [s["b"]] + ([anc] if anc is not None else []) + [s["opt"][x] for x in ("c_in", "c_out") if x in s["opt"]]

    # bits of the (possibly extended) operands as seen by the carry chain
    def chain(s):
        anc, av, bv, mods, off = parts(s)
        A0, B0, n, ct = s["A0"], s["B0"], s["n"], s["ctrl_v"]
        init = s["init"]
        ci = z3.Select(init[s["opt"]["c_in"].id], 0) if c_in else z3.BoolVal(False)
        co = z3.Select(init[s["opt"]["c_out"].id], 0) if c_out else z3.BoolVal(False)
        if classical:
            # position p of the chain: p = j + off; carry into p: CC(p) = C(p - off) for p >= off, CC(0) = False
            a = lambda p: z3.If(p == 0, z3.BoolVal(True), A0(p - 1)) if off else A0(p)
            b = lambda p: z3.If(p - off < n, z3.If(p == 0, ci, B0(p - off)) if off else B0(p), co)
            # classical carry chain acts with a & ctrl
            c = lambda p: z3.And(p > 0, C(p - off), ct)
            return anc, av, bv, a, b, c, n + off + (1 if c_out else 0), ct, ci, co, off
        return anc, av, bv, A0, (lambda p: z3.If(p < n, B0(p), co)), C, n + (1 if c_out else 0), ct, ci, co, off

    if classical:
        def fwd(e, k, s, L):
            # before iteration k (i = k+1): anc[j] = carry into j+1 (j <= k), b[j] = b ^ carry (1 <= j <= k)
            anc, av, bv, a, b, c, N, ct, ci, co, off = chain(s)
            An, Bq = anc.reg.snap(), bv.snap()
            dfs(e, s, k, off)
            return [("carry ancillas", Fam(N - 1, lambda j: An(j) == z3.And(j <= k, c(j + 1)))),
                    ("target bits", Fam(N, lambda j: Bq(j) == z3.Xor(b(j), z3.And(j >= 1, j <= k, c(j)))))]

        def bwd(e, k, s, L):
            anc, av, bv, a, b, c, N, ct, ci, co, off = chain(s)
            An, Bq = anc.reg.snap(), bv.snap()
            m = N - 2 - k
            dfs(e, s, m, off)
            return [("carry ancillas", Fam(N - 1, lambda j: An(j) == z3.And(j <= m, c(j + 1)))),
                    ("target bits", Fam(N, lambda j: Bq(j) == z3.Xor(b(j), z3.And(j >= 1, c(j)))))]

        def fin(e, k, s, L):
            anc, av, bv, a, b, c, N, ct, ci, co, off = chain(s)
            Bq = bv.snap()
            dfs(e, s, k, off)
            lo = k + off
            # positions below lo are finished
            return [("finished and unfinished bits", Fam(N, lambda j: Bq(j) == z3.Xor(z3.Xor(b(j), z3.And(j >= 1, c(j))), z3.And(j < lo, j >= off, a(j), ct, j - off < n_of(s)))))]

        def n_of(s):
            return s["n"] + (1 if c_out else 0)
        loops = {("_apply_classical_carry_chain", 0): HeapLoop(fwd, mod), ("_apply_classical_carry_chain", 1): HeapLoop(bwd, mod),
                 ("gidney_adder", 0): HeapLoop(fin, mod)}
    else:
        def fwd(e, k, s, L):
            anc, av, bv, a, b, c, N, ct, ci, co, off = chain(s)
            An, Aq, Bq = anc.reg.snap(), av.snap(), bv.snap()
            dfs(e, s, k, 0)
            n = s["n"]
            return [("carry ancillas", Fam(N - 1, lambda j: An(j) == z3.And(j <= k, c(j + 1)))),
                    ("target bits", Fam(N, lambda j: Bq(j) == z3.Xor(b(j), z3.Or(z3.And(j >= 1, j <= k, c(j)), z3.And(j == 0, ci))))),
                    ("addend bits", Fam(n, lambda j: Aq(j) == z3.Xor(a(j), z3.Or(z3.And(j >= 1, j <= k, c(j)), z3.And(j == 0, ci)))))] + rest(s)

        def bwd(e, k, s, L):
            anc, av, bv, a, b, c, N, ct, ci, co, off = chain(s)
            An, Aq, Bq = anc.reg.snap(), av.snap(), bv.snap()
            m = N - 2 - k
            dfs(e, s, m, 0)
            n = s["n"]
            # positions above m are finished; 1..m hold b xor carry; position 0 holds b xor c_in
            def want(j):
                return z3.If(j > m, z3.Xor(b(j), z3.And(ct, z3.Xor(c(j), z3.And(j < n, a(j))))), z3.Xor(b(j), z3.If(j == 0, ci, c(j))))
            return [("carry ancillas", Fam(N - 1, lambda j: An(j) == z3.And(j <= m, c(j + 1)))),
                    ("target bits", Fam(N, lambda j: Bq(j) == want(j))),
                    ("addend bits", Fam(n, lambda j: Aq(j) == z3.Xor(a(j), z3.Or(z3.And(j >= 1, j <= m, c(j)), z3.And(j == 0, ci)))))] + rest(s)

        def rest(s):
            n = s["n"]
            out = []
            a, a0 = s["a"].arr(), s["aarr"]
            out.append(("addend bits above the target width are untouched", Fam(s["na"], lambda j: z3.Implies(j >= n, z3.Select(a, j) == z3.Select(a0, j)))))
            if c_in:
                v = s["opt"]["c_in"]
                out.append(("carry-in untouched", z3.Select(v.arr(), 0) == z3.Select(s["init"][v.id], 0)))
            return out
        loops = {("_apply_quantum_carry_chain", 0): HeapLoop(fwd, mod), ("_apply_quantum_carry_chain", 1): HeapLoop(bwd, mod)}

    def dfs(e, s, m, off):
        for d in s["defs"]:
            for q in (m, m - 1, m + 1, m - 2):
                e.pc += d(q)
        for q in (m, m - 1, m + 1, m + 2, m - 2):
            touch(q)

    ns = load(GID, qheap.shims(True), loops=loops)

    def run(e):
        a, b, opt = setup(e, classical, c_in, c_out, ctrl)
        ns["gidney_adder"](a, b, **kw(opt))
        post(e)
    return run


# ------------------------------------------------------------------ incrementers
INC = "alg_primitives/arithmetic/adders/incrementation.py"


def inc_setup(e, c_in, c_out):
    """b += 1 (or += c_in); carries C(j+1) = b_j and C(j)"""
    n = e.fresh("n")
    e.assume(n >= 1)
    s = st(e)
    b = fresh_reg(e, QF, n, "b")
    bb = b.arr()
    B0 = lambda j: z3.Select(bb, j)
    opt = {nm: fresh_reg(e, QB, None, nm) for nm, on in (("c_in", c_in), ("c_out", c_out)) if on}
    ci = opt["c_in"].reg.snap()(z3.IntVal(0)) if c_in else z3.BoolVal(True)
    cdef = lambda k: [C(z3.IntVal(0)) == ci, z3.Implies(k >= 0, C(k + 1) == z3.And(B0(k), C(k)))]
    s["defs"] = [cdef]
    for k in (z3.IntVal(0), z3.IntVal(1), n, n - 1, n - 2):
        e.pc += cdef(k)
        touch(k)
    s.update(A0=lambda j: z3.BoolVal(False), B0=B0, n=n, na=n, a=None, b=b, opt=opt, ctrl_v=z3.BoolVal(True), init=dict(s["heap"]), shifts=[])
    return b, opt


def pos(e, s, *ks):
    for k in ks:
        for q in (k, k - 1, k + 1, k - 2, k + 2):
            for d in s["defs"]:
                e.pc += d(q)
            touch(q)


def v_lin_incr(c_out):
    def view(s):
        return s["b"].reg + s["opt"]["c_out"].reg if c_out else s["b"].reg

    def mod(s):
        return [s["b"], s["alloc"][0]] + ([s["opt"]["c_out"]] if c_out else [])

    def orig(s):
        B0, n = s["B0"], s["n"]
        if not c_out:
            return B0, n
        co = z3.Select(s["init"][s["opt"]["c_out"].id], 0)
        return (lambda j: z3.If(j < n, B0(j), co)), n + 1

    def fwd(e, k, s, L):
        pos(e, s, k)
        An, Bq = s["alloc"][0].reg.snap(), view(s).snap()
        b0, N = orig(s)
        return [("carries", Fam(N - 1, lambda j: An(j) == z3.And(j <= k, C(j + 1)))), ("target untouched", Fam(N, lambda j: Bq(j) == b0(j)))]

    def bwd(e, k, s, L):
        b0, N = orig(s)
        m = N - 2 - k
        pos(e, s, m)
        An, Bq = s["alloc"][0].reg.snap(), view(s).snap()
        return [("carries", Fam(N - 1, lambda j: An(j) == z3.And(j <= m, C(j + 1)))),
                ("target", Fam(N, lambda j: Bq(j) == z3.If(j > m, z3.Xor(b0(j), C(j)), b0(j))))]
    ns = load(INC, qheap.shims(False), loops={("lin_incr", 0): HeapLoop(fwd, mod), ("lin_incr", 1): HeapLoop(bwd, mod)},
              builtin_over={"list": lambda x=(): x if isinstance(x, (Reg, QV)) else list(x)})

    def run(e):
        b, opt = inc_setup(e, True, c_out)
        ns["lin_incr"](b.reg, **kw(opt))
        post(e)
    return run


def v_increment():
    """increment_qb_list: b += 1; the phase tolerant ANDs are used in mirrored pairs (checked)"""
    def mod(s):
        return [s["b"], s["alloc"][0]]

    def fwd(e, k, s, L):
        pos(e, s, k)
        An, Bq, B0, n = s["alloc"][0].reg.snap(), s["b"].reg.snap(), s["B0"], s["n"]
        return [("carries", Fam(n - 2, lambda j: An(j) == z3.And(j <= k, C(j + 2)))), ("target untouched", Fam(n, lambda j: Bq(j) == B0(j)))]

    def bwd(e, k, s, L):
        n = s["n"]
        m = n - 2 - k          # next position to be processed
        pos(e, s, m)
        An, Bq, B0 = s["alloc"][0].reg.snap(), s["b"].reg.snap(), s["B0"]
        return [("carries", Fam(n - 2, lambda j: An(j) == z3.And(j <= m - 1, C(j + 2)))),
                ("target", Fam(n, lambda j: Bq(j) == z3.If(j > m, z3.Xor(B0(j), C(j)), B0(j))))]
    ns = load(INC, qheap.shims(False), loops={("increment_qb_list", 0): HeapLoop(fwd, mod), ("increment_qb_list", 1): HeapLoop(bwd, mod)})

    def run(e):
        b, opt = inc_setup(e, False, False)
        ns["increment_qb_list"](b.qs, b.reg)
        post(e)
    return run


def programs():
    P = {"lin_incr": (v_lin_incr, (False,)), "lin_incr[c_out]": (v_lin_incr, (True,)), "increment_qb_list": (v_increment, ())}
    for t in (False, True):
        for ci in (False, True):
            for co in (False, True):
                for ct in (False, True):
                    lab = f"[{'traced' if t else 'direct'}{', c_in' if ci else ''}{', c_out' if co else ''}{', ctrl' if ct else ''}]"
                    P["cuccaro_adder" + lab] = (v_cuccaro, (t, False, ci, co, ct))
    for ci in (False, True):
        for co in (False, True):
            for ct in (False, True):
                lab = f"[{', '.join(x for x, o in (('c_in', ci), ('c_out', co), ('ctrl', ct)) if o)}]"
                P["cuccaro_adder(classical)" + lab] = (v_cuccaro, (True, True, ci, co, ct))
                P["gidney_adder" + lab] = (v_gidney, (False, ci, co, ct))
                P["gidney_adder(classical)" + lab] = (v_gidney, (True, ci, co, ct))
    return P


def run_one(ctx, name):
    mk, args = programs()[name]
    try:
        Engine(name=name).explore(mk(*args)).report(ctx, name)
    except Exception as ex:
        ctx.undecided(f"{name}: {type(ex).__name__}: {ex}")
