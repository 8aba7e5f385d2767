"""Contracts of QubitTerm products, adjoints and commutation tests for terms on any number of qubits.

A term is a finite map qubit -> factor (0 = identity / absent); its dictionary is symbolic, the factor table is the real
one. Specification tables are computed here from 2x2 matrices. A loop over dictionary keys visits every key once, in an
unknown order; invariants are stated at an arbitrary fixed qubit w (so they hold for all qubits) and on two ghosts: the
set of visited keys and the product of the specified coefficients of visited keys (a power of i).
"""
import builtins

import numpy as np
import z3

from ..engine import Abort, Engine, Unsupported
from ..load import UNDEF, LoopSpec, Shim, Undef, load

PATH = "operators/qubit/qubit_term.py"
FAC = ["I", "X", "Y", "Z", "A", "C", "P0", "P1"]
M = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]),
     "A": np.array([[0, 1], [0, 0]]), "C": np.array([[0, 0], [1, 0]]), "P0": np.diag([1, 0]), "P1": np.diag([0, 1])}
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
SET = z3.ArraySort(z3.IntSort(), z3.BoolSort())
ASSUMES = ["terms: a product of tensor factors is the tensor product of the single-qubit products (used to lift the per-qubit contract to the operator)",
           "terms: dictionaries hold the factors X, Y, Z, A, C, P0, P1 only; iteration visits every key exactly once",
           "commutation test: where single-qubit products differ in their factor, the verdict is delegated to the commutator, which is evaluated (bounded), not proved"]


def E():
    return Engine.cur


class Cond:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)


class K:
    """qubit index"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, K):
            return Cond(self.t == o.t)
        raise Unsupported("comparison of a qubit index")

    __hash__ = None


class F:
    """factor"""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, F):
            return x
        if isinstance(x, str) and x in FAC:
            return F(z3.IntVal(FAC.index(x)))
        raise Unsupported(f"factor {x!r}")

    def __eq__(self, o):
        if isinstance(o, str) and o not in FAC:
            return False
        return Cond(self.t == F.of(o).t)

    def __ne__(self, o):
        if isinstance(o, str) and o not in FAC:
            return True
        return Cond(self.t != F.of(o).t)

    __hash__ = None


UNITS = {1: 0, 1j: 1, -1: 2, -1j: 3}


class C:
    """coefficient: zero, or i^k"""

    def __init__(self, z, k):
        self.z, self.k = z, k

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, (builtins.int, float, complex)):
            if x == 0:
                return C(z3.BoolVal(True), z3.IntVal(0))
            for u, k in UNITS.items():
                if x == u:
                    return C(z3.BoolVal(False), z3.IntVal(k))
        raise Unsupported(f"coefficient {x!r}")

    def __mul__(self, o):
        o = C.of(o)
        return C(z3.Or(self.z, o.z), (self.k + o.k) % 4)

    __rmul__ = __mul__

    def __neg__(self):
        return C(self.z, (self.k + 2) % 4)

    def eq(self, o):
        o = C.of(o)
        return z3.Or(z3.And(self.z, o.z), z3.And(z3.Not(self.z), z3.Not(o.z), self.k % 4 == o.k % 4))

    def __eq__(self, o):
        return Cond(self.eq(o))

    def __ne__(self, o):
        return Cond(z3.Not(self.eq(o)))

    def __bool__(self):
        return E().branch(z3.Not(self.z))

    __hash__ = None


class S:
    """set of qubit indices"""

    def __init__(self, mem):
        self.mem = mem

    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (builtins.set, list, tuple)) and not x:
            return S(lambda k: z3.BoolVal(False))
        raise Unsupported(f"set of {type(x).__name__}")

    def __or__(self, o):
        m, n = self.mem, S.of(o).mem
        return S(lambda k: z3.Or(m(k), n(k)))

    __ror__ = __or__
    union = __or__

    def update(self, o):
        self.mem = (self | o).mem

    def vc_iter(self):
        return Keys(self.mem, lambda k: K(k))


class Keys:
    def __init__(self, mem, val):
        self.mem, self.val = mem, val
        self.len = E().fresh("len")
        E().assume(self.len >= 0)
        self.seen = z3.K(z3.IntSort(), z3.BoolVal(False))

    def elem(self, k):
        e = E()
        x = e.fresh("key")
        e.assume(z3.And(self.mem(x), z3.Not(self.seen[x])))
        for arr in e.notes["arrs"]:
            e.assume(code(arr[x]))              # well-formed inputs
        self.key = x
        return self.val(x)


class D:
    """dictionary qubit -> factor"""

    def __init__(self, arr=None):
        self.arr = arr if arr is not None else z3.K(z3.IntSort(), z3.IntVal(0))

    def mem(self, k):
        return self.arr[k] != 0

    def get(self, k, d=None):
        if d is None:
            raise Unsupported("lookup without default")
        return F(z3.If(self.arr[k.t] != 0, self.arr[k.t], F.of(d).t))

    def __getitem__(self, k):
        E().prove(self.arr[k.t] != 0, "looked-up qubit is in the term")
        return F(self.arr[k.t])

    def __setitem__(self, k, v):
        t = F.of(v).t
        E().prove(t != 0, "stored factor is not the identity")
        self.arr = z3.Store(self.arr, k.t, t)

    def __delitem__(self, k):
        E().prove(self.arr[k.t] != 0, "deleted qubit is in the term")
        self.arr = z3.Store(self.arr, k.t, z3.IntVal(0))

    def __contains__(self, k):
        return bool(Cond(self.arr[k.t] != 0))

    def keys(self):
        a = self.arr
        return S(lambda k: a[k] != 0)

    def items(self):
        a = self.arr
        return Keys(lambda k: a[k] != 0, lambda k: (K(k), F(a[k])))

    def vc_iter(self):
        return self.keys().vc_iter()

    def copy(self):
        return D(self.arr)

    @property
    def __class__(self):
        return dict


class Table:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, ab):
        a, b = (F.of(x).t for x in ab)
        e = E()
        ent = [(FAC.index(p), FAC.index(q), F.of(v[0]).t, C.of(v[1])) for (p, q), v in self.real.items()]
        e.prove(z3.Or([z3.And(a == p, b == q) for p, q, _, _ in ent]), "the product table has an entry for every pair of factors")
        f, z, k = z3.IntVal(0), z3.BoolVal(True), z3.IntVal(0)
        for p, q, ff, c in ent:
            g = z3.And(a == p, b == q)
            f, z, k = z3.If(g, ff, f), z3.If(g, c.z, z), z3.If(g, c.k, k)
        return F(f), C(z, k)


def spec_tables():
    out = {}
    for i, p in enumerate(FAC):
        for j, q in enumerate(FAC):
            m = M[p] @ M[q]
            if not m.any():
                out[i, j] = (0, True, 0)
                continue
            for h, r in enumerate(FAC):
                for u, k in UNITS.items():
                    if np.array_equal(m, u * M[r]):
                        out[i, j] = (h, False, k)
            assert (i, j) in out
    return out


TAB = spec_tables()


def spec(a, b):
    f, z, k = z3.IntVal(0), z3.BoolVal(True), z3.IntVal(0)
    for (p, q), (h, zz, kk) in TAB.items():
        g = z3.And(a == p, b == q)
        f, z, k = z3.If(g, z3.IntVal(h), f), z3.If(g, z3.BoolVal(zz), z), z3.If(g, z3.IntVal(kk), k)
    return f, C(z, k)


def code(t):
    return z3.And(t >= 0, t < len(FAC))


class Opaque:
    """hash value and the like"""

    def __eq__(self, o):
        raise Unsupported("opaque value inspected")

    __hash__ = None


def module(loops):
    def sset(x=()):
        return S(x.mem) if isinstance(x, S) else (S(x.mem) if isinstance(x, D) else S.of(list(x)))

    def sdict(x=(), **k):
        return D(x.arr) if isinstance(x, D) else (D() if x == () or x == {} else builtins.dict(x, **k))

    def slen(x):
        if isinstance(x, (D, S, Keys)):
            raise Unsupported("length of a term")
        return builtins.len(x)

    def ssorted(x, **k):
        return Opaque() if isinstance(x, (Keys, S, D)) else builtins.sorted(x, **k)

    def stuple(x=()):
        return Opaque() if isinstance(x, (Opaque, Keys, S)) else builtins.tuple(x)

    def shash(x):
        return Opaque() if isinstance(x, Opaque) else builtins.hash(x)

    shims = {"qrisp": Shim(**{k: None for k in ("conjugate", "cx", "gphase", "rz", "x", "y", "z", "h", "control", "mcx", "s", "s_dg", "sx", "sx_dg", "p", "QuantumBool", "QuantumVariable")},
                           custom_control=lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)),
             "qrisp.operators.qubit.visualization": Shim(X_=None, Y_=None, Z_=None),
             "numpy": np, "sympy": Shim(Symbol=None)}
    ns = load(PATH, shims, loops, cut=["QubitTerm"], dict_literal=D,
              builtin_over={"set": sset, "dict": sdict, "len": slen, "sorted": ssorted, "tuple": stuple, "hash": shash})
    for k, v in list(ns.items()):
        if type(v) is builtins.dict and v and not k.startswith("__") and all(isinstance(x, builtins.tuple) and len(x) == 2 and all(y in FAC for y in x) for x in v):
            ns[k] = Table(v)
    return ns


class Ghost(LoopSpec):
    """loop over the keys of terms; inv_at(e, env, seen_w, g) -> list of (label, formula), g = ghost dictionary"""

    def __init__(self, inv_at, ghost0, ghost_step, fresh):
        self.inv_at, self.g0, self.gs, self.fr = inv_at, ghost0, ghost_step, fresh
        LoopSpec.__init__(self, None)
        self.inv = self._inv
        self._havoc = self._hv
        self.used = 0

    def _inv(self, e, k, env, L):
        it = L.itobj
        if z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 0 and not hasattr(L, "gh"):
            L.gh = self.g0()
            return self.inv_at(e, env, it, L.gh, L)
        if getattr(L, "fresh_state", False) and not getattr(L, "assumed", False):
            L.assumed = True
            e.assume(z3.Implies(L.k == it.len, z3.And([it.seen[x] == it.mem(x) for x in e.notes["w"]])))
            return self.inv_at(e, env, it, L.gh, L)
        # after the body
        key = it.key
        L.gh = self.gs(L.gh, key)
        it.seen = z3.Store(it.seen, key, True)
        return self.inv_at(e, env, it, L.gh, L)

    def _hv(self, e, k, env, L):
        it = L.itobj
        it.seen = e.fresh("seen", SET)
        for x in e.notes["w"]:
            e.assume(z3.Implies(it.seen[x], it.mem(x)))
        L.fresh_state = True
        L.gh, out = self.fr(e, env, L)
        self.used += 1
        e.notes["gh"] = L
        for n, v in env.items():
            if isinstance(v, D) and v.arr.get_id() not in e.notes["inputs"]:
                v.arr = e.fresh(n, ARR)
        return out


def setup(e, ns):
    w = e.fresh("w")
    e.notes["w"] = [w]
    a, b = e.fresh("a", ARR), e.fresh("b", ARR)
    e.notes["inputs"] = {a.get_id(), b.get_id()}
    e.notes["arrs"] = (a, b)
    T = ns["QubitTerm"]
    A, B = object.__new__(T), object.__new__(T)
    A.factor_dict, B.factor_dict = D(a), D(b)
    e.assume(z3.And(code(a[w]), code(b[w])))
    return w, a, b, A, B


def acc(env, L):
    """name of the accumulator of the loop: the one variable bound before the loop and assigned in it"""
    c = [n for n in L.names if not isinstance(L.env0.get(n, UNDEF), Undef)]
    if len(c) != 1:
        raise Unsupported("accumulator of the loop")
    return c[0]


def freshc(e):
    k = e.fresh("coeff")
    e.assume(z3.And(k >= 0, k < 4))
    return C(z3.BoolVal(False), k)


def v_mul():
    def inv(e, env, it, g, L):
        a, b = e.notes["arrs"]
        w = e.notes["w"][0]
        res = [x for n, x in env.items() if isinstance(x, D) and x.arr.get_id() not in e.notes["inputs"]]
        if len(res) != 1:
            raise Unsupported("state of the product loop")
        f, c = spec(a[w], b[w])
        return [("factor of every visited qubit is the specified one, others are absent", res[0].arr[w] == z3.If(it.seen[w], f, z3.IntVal(0))),
                ("coefficient = product of the specified coefficients", C.of(env[acc(env, L)]).eq(g["c"])),
                ("no visited qubit has product zero", z3.Implies(it.seen[w], z3.Not(c.z)))]

    def step(g, key):
        a, b = E().notes["arrs"]
        f, c = spec(a[key], b[key])
        return {"c": g["c"] * c}

    def fresh(e, env, L):
        c = freshc(e)
        return {"c": c}, {acc(env, L): freshc(e)}
    sp = Ghost(inv, lambda: {"c": C.of(1)}, step, fresh)
    ns = module({("QubitTerm.__mul__", 0): sp})

    def run(e):
        w, a, b, A, B = setup(e, ns)
        r, c = A * B
        f, cw = spec(a[w], b[w])
        if isinstance(c, builtins.int) and c == 0:
            key = e.notes["gh"].itobj.key
            fk, ck = spec(a[key], b[key])
            e.prove(ck.z, "zero is returned only if the factors on some qubit multiply to zero")
            return
        e.prove(r.factor_dict.arr[w] == f, "product has the specified factor on every qubit")
        e.prove(z3.Not(cw.z), "no qubit has product zero")
        e.prove(C.of(c).eq(e.notes["gh"].gh["c"]), "coefficient is the product over all qubits")
    return run


def v_adjoint():
    ADJ = [FAC.index({"A": "C", "C": "A"}.get(f, f)) for f in FAC]

    def sp_(t):
        r = z3.IntVal(0)
        for i, j in enumerate(ADJ):
            r = z3.If(t == i, z3.IntVal(j), r)
        return r

    def inv(e, env, it, g, L):
        a, b = e.notes["arrs"]
        w = e.notes["w"][0]
        res = [x for n, x in env.items() if isinstance(x, D) and x.arr.get_id() not in e.notes["inputs"]]
        if len(res) != 1:
            raise Unsupported("state of the adjoint loop")
        return [("visited qubits carry the adjoint factor", res[0].arr[w] == z3.If(it.seen[w], sp_(a[w]), z3.IntVal(0)))]
    sp = Ghost(inv, lambda: {}, lambda g, k: g, lambda e, env, L: ({}, {}))
    ns = module({("QubitTerm.adjoint", 0): sp})

    def run(e):
        w, a, b, A, B = setup(e, ns)
        r = A.adjoint()
        e.prove(r.factor_dict.arr[w] == sp_(a[w]), "adjoint term has the adjoint factor on every qubit")
    return run


def commutes(a, b):
    f, c = spec(a, b)
    g, d = spec(b, a)
    return z3.Or(z3.And(c.z, d.z), z3.And(z3.Not(c.z), z3.Not(d.z), f == g, c.k == d.k))


def pauli(t):
    return z3.And(t >= 1, t <= 3)


def verdict(r):
    return r.t if isinstance(r, Cond) else z3.BoolVal(bool(r))


def v_qw():
    def inv(e, env, it, g, L):
        a, b = e.notes["arrs"]
        w = e.notes["w"][0]
        return [("visited qubits commute", z3.Implies(it.seen[w], commutes(a[w], b[w])))]
    sp = Ghost(inv, lambda: {}, lambda g, k: g, lambda e, env, L: ({}, {}))
    ns = module({("QubitTerm.commute_qw", 0): sp})

    def run(e):
        w, a, b, A, B = setup(e, ns)
        r = A.commute_qw(B)
        if e.branch(verdict(r)):
            e.prove(commutes(a[w], b[w]), "verdict true: the factors commute on every qubit")
        else:
            key = e.notes["gh"].itobj.key
            e.prove(z3.Not(commutes(a[key], b[key])), "verdict false: the factors on some qubit do not commute")
    return run


def v_pauli():
    def inv(e, env, it, g, L):
        a, b = e.notes["arrs"]
        w = e.notes["w"][0]
        return [("visited qubits commute or carry anticommuting Pauli factors", z3.Implies(it.seen[w], z3.Or(commutes(a[w], b[w]), z3.And(pauli(a[w]), pauli(b[w]))))),
                ("sign = parity of the anticommuting qubits", C.of(env[acc(env, L)]).eq(C(z3.BoolVal(False), z3.If(g["p"], z3.IntVal(2), z3.IntVal(0)))))]

    def step(g, key):
        a, b = E().notes["arrs"]
        return {"p": z3.Xor(g["p"], z3.Not(commutes(a[key], b[key])))}

    def fresh(e, env, L):
        return {"p": e.fresh("parity", z3.BoolSort())}, {acc(env, L): freshc(e)}
    sp = Ghost(inv, lambda: {"p": z3.BoolVal(False)}, step, fresh)
    ns = module({("QubitTerm.commute_pauli", 0): sp})

    def run(e):
        w, a, b, A, B = setup(e, ns)
        r = A.commute_pauli(B)
        if isinstance(r, bool) and not r:
            key = e.notes["gh"].itobj.key
            e.prove(z3.And(z3.Not(commutes(a[key], b[key])), z3.Not(z3.And(pauli(a[key]), pauli(b[key])))), "rejected: some qubit has non-commuting factors that are not both Pauli factors")
            return
        e.prove(z3.Or(commutes(a[w], b[w]), z3.And(pauli(a[w]), pauli(b[w]))), "every qubit commutes or carries two Pauli factors")
        e.prove(verdict(r) == z3.Not(e.notes["gh"].gh["p"]), "verdict = the number of anticommuting qubits is even")
    return run


def v_commute():
    def anti(a, b):
        f, c = spec(a, b)
        g, d = spec(b, a)
        return z3.And(z3.Not(c.z), z3.Not(d.z), f == g, d.k == (c.k + 2) % 4)

    def nz(a, b):
        return z3.And(z3.Not(spec(a, b)[1].z), z3.Not(spec(b, a)[1].z))

    def inv(e, env, it, g, L):
        a, b = e.notes["arrs"]
        w = e.notes["w"][0]
        return [("visited qubits commute or anticommute and have nonzero products", z3.Implies(it.seen[w], z3.And(nz(a[w], b[w]), z3.Or(commutes(a[w], b[w]), anti(a[w], b[w]))))),
                ("sign = parity of the anticommuting qubits", C.of(env[acc(env, L)]).eq(C(z3.BoolVal(False), z3.If(g["p"], z3.IntVal(2), z3.IntVal(0)))))]

    def step(g, key):
        a, b = E().notes["arrs"]
        return {"p": z3.Xor(g["p"], anti(a[key], b[key]))}

    def fresh(e, env, L):
        return {"p": e.fresh("parity", z3.BoolSort())}, {acc(env, L): freshc(e)}
    sp = Ghost(inv, lambda: {"p": z3.BoolVal(False)}, step, fresh)
    ns = module({("QubitTerm.commute", 0): sp})

    class Delegated(Exception):
        pass

    def run(e):
        w, a, b, A, B = setup(e, ns)

        def comm(*_):
            raise Delegated()
        type(A).commutator = comm
        try:
            r = A.commute(B)
        except Delegated:
            key = e.notes["gh"].itobj.key
            e.prove(a[key] == a[key], "verdict delegated to the commutator")
            return
        if isinstance(r, bool):
            key = e.notes["gh"].itobj.key
            e.prove(z3.And(spec(a[key], b[key])[1].z, spec(b[key], a[key])[1].z, z3.BoolVal(r)), "early verdict: both products vanish")
            return
        e.prove(z3.And(nz(a[w], b[w]), z3.Or(commutes(a[w], b[w]), anti(a[w], b[w]))), "every qubit commutes or anticommutes, products nonzero")
        e.prove(verdict(r) == z3.Not(e.notes["gh"].gh["p"]), "verdict = the number of anticommuting qubits is even")
    return run


def programs():
    return {"QubitTerm.__mul__": (v_mul, ()), "QubitTerm.adjoint": (v_adjoint, ()), "QubitTerm.commute_qw": (v_qw, ()),
            "QubitTerm.commute_pauli": (v_pauli, ()), "QubitTerm.commute": (v_commute, ())}


def run_one(ctx, name):
    mk, args = programs()[name]
    try:
        Engine(name=name).explore(mk(*args)).report(ctx, name)
    except Exception as ex:
        ctx.undecided(f"{name}: {type(ex).__name__}: {ex}")
