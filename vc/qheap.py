"""Symbolic basis-state machine: executes real gate-emitting code on registers of symbolic (unbounded) width.

A register is an array Int -> Bool of symbolic length; gates that permute basis states (x, cx, mcx, swap and the
clean-target AND) update the arrays. By linearity a circuit of such gates that maps every basis state as stated
acts as stated on every superposition. Contracts of the gate functions themselves (what cx/mcx/... do to their
qubits, that the clean-target AND is phase free on a clean target, that control/conjugation/inversion blocks denote
control/conjugation/inversion) are decided by C06, C07 and C15 and are assumptions here.

Facts about all positions of a register are Families f(j), 0 <= j < n: proving takes a fresh j, assuming instantiates
at every index the code or a goal touches.
"""
import contextlib

import z3

from . import jaxshim, sym
from .engine import Engine, Unsupported
from .load import LoopSpec, Shim, SymRange
from .sym import B, W, bt, wrap

BARR = z3.ArraySort(z3.IntSort(), z3.BoolSort())
FALSE = z3.K(z3.IntSort(), z3.BoolVal(False))


def E():
    return Engine.cur


class Skip(Exception):
    """raised by the first quantum effect inside a block whose classical condition is false"""


def live():
    if st().get("dead"):
        raise Skip()


class Fam:
    """for all 0 <= j < n: fn(j)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def at(self, j):
        return z3.Implies(z3.And(j >= 0, j < self.n), self.fn(j))


def st(e=None):
    e = e or E()
    n = e.notes
    if "heap" not in n:
        n.update(heap={}, sizes={}, fams=[], idx=[], guard=[], rec=[], alloc=[], vars={})
    return n


def touch(j):
    e = E()
    n = st(e)
    j = z3.simplify(j)
    if any(j.eq(x) for x in n["idx"]):
        return
    n["idx"].append(j)
    for f in n["fams"]:
        e.assume(f.at(j))


def assume_fam(f):
    e = E()
    n = st(e)
    n["fams"].append(f)
    for j in n["idx"]:
        e.assume(f.at(j))


def prove(f, label):
    e = E()
    if isinstance(f, Fam):
        j = e.fresh("j")
        npc = len(e.pc)
        fams = st(e)["fams"]
        for d in [0, 1, -1] + list(st(e).get("shifts", [])):
            for g in fams:
                e.pc.append(g.at(j + d))
        for d in st(e).get("defs", []):
            for q in (j, j - 1):
                e.pc += d(q)
        r = e.prove(f.at(j), label)
        del e.pc[npc:]
        return r
    return e.prove(f, label)


def assume(f):
    if isinstance(f, Fam):
        assume_fam(f)
    else:
        E().assume(f)


def guard():
    g = [x() if callable(x) else x for x in st()["guard"]]
    return z3.And(g) if g else z3.BoolVal(True)


class Q:
    """one qubit: cell idx of a variable"""

    def __init__(self, qv, idx):
        self.qv, self.i = qv, z3.simplify(idx)
        touch(self.i)

    def val(self):
        return z3.Select(st()["heap"][self.qv.id], self.i)

    def set(self, new):
        h = st()["heap"]
        g = guard()
        old = self.val()
        h[self.qv.id] = z3.Store(h[self.qv.id], self.i, new if z3.is_true(g) else z3.If(g, new, old))

    def qs(self):
        return QS()

    def differs(self, o):
        if self.qv is not o.qv:
            return z3.BoolVal(True)
        return self.i != o.i

    def __add__(self, o):
        return as_reg([self]) + o

    def __radd__(self, o):
        return as_reg(o) + as_reg([self])

    def __eq__(self, o):
        if not isinstance(o, Q):
            return False
        return self.qv is o.qv and E().branch(self.i == o.i)

    def __hash__(self):
        return 7


class Reg:
    """concatenation of slices of variables"""

    def __init__(self, segs):
        self.segs = segs           # (qv, offset term, length term)

    @property
    def size(self):
        return self.vc_len()

    @property
    def reg(self):
        return self

    def ensure_reg(self):
        return self

    def n(self):
        return z3.simplify(z3.Sum([s[2] for s in self.segs])) if self.segs else z3.IntVal(0)

    def vc_len(self):
        return W(self.n(), None, 0, None)

    def snap(self):
        """j -> content now at position j of the view (the arrays are captured)"""
        h = dict(st()["heap"])

        def get(j):
            r = None
            off = self.n()
            for qv, o, l in reversed(self.segs):
                off = z3.simplify(off - l)
                v = z3.Select(h[qv.id], o + j - off)
                r = v if r is None else z3.If(j < off + l, v, r)
            return z3.BoolVal(False) if r is None else r
        return get

    def __getitem__(self, i):
        live()
        e = E()
        tot = self.n()
        if isinstance(i, slice):
            if i.step is not None:
                if i.step == -1 and i.start is None and i.stop is None:
                    raise Unsupported("reversed view")
                raise Unsupported("slice step")

            def cl(x, d):
                if x is None:
                    return d
                x = wrap(x).t
                x = z3.simplify(x)
                if z3.is_int_value(x):
                    if x.as_long() < 0:
                        x = tot + x
                elif not e.entails(x >= 0):
                    raise Unsupported("slice bound of unknown sign")
                if e.entails(z3.And(x >= 0, x <= tot)):
                    return x
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > tot, tot, x))
            a, b = cl(i.start, z3.IntVal(0)), cl(i.stop, tot)
            if i.start is None and i.stop is None:
                return Reg(list(self.segs))
            out = []
            off = z3.IntVal(0)
            for qv, o, l in self.segs:
                def lim(x):
                    if e.entails(x <= off):
                        return z3.IntVal(0)
                    if e.entails(x >= off + l):
                        return l
                    if e.entails(z3.And(x >= off, x <= off + l)):
                        return x - off
                    return z3.If(x < off, z3.IntVal(0), z3.If(x > off + l, l, x - off))
                s0, s1 = lim(a), lim(b)
                ln = z3.simplify(s1 - s0)
                if not e.entails(ln >= 0):
                    ln = z3.If(ln < 0, z3.IntVal(0), ln)
                ln = z3.simplify(ln)
                if not (z3.is_int_value(ln) and ln.as_long() == 0):
                    out.append((qv, z3.simplify(o + s0), ln))
                off = off + l
            return Reg(out)
        i = wrap(i).t
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = tot + i
        elif not e.entails(i >= 0):
            if e.branch(i < 0):
                i = tot + i
        e.prove(z3.And(i >= 0, i < tot), "register index in range")
        e.assume(z3.And(i >= 0, i < tot))
        off = z3.IntVal(0)
        for k, (qv, o, l) in enumerate(self.segs):
            if k == len(self.segs) - 1 or e.branch(i < off + l):
                return Q(qv, o + i - off)
            off = off + l
        raise Unsupported("empty register")

    def __add__(self, o):
        o = as_reg(o)
        return Reg(self.segs + o.segs)

    def __radd__(self, o):
        return as_reg(o) + self

    def vc_iter(self):
        return RegIter(self)

    def __iter__(self):
        n = z3.simplify(self.n())
        if z3.is_int_value(n):
            return iter([self[i] for i in range(n.as_long())])
        raise Unsupported("iteration over a register of symbolic size")


class RegIter:
    def __init__(self, r):
        self.r, self.len = r, r.n()

    def elem(self, k):
        return self.r[W(k, None, 0, None)]


def as_reg(x):
    if isinstance(x, Reg):
        return x
    if isinstance(x, QV):
        return x.reg
    if isinstance(x, Q):
        return Reg([(x.qv, x.i, z3.IntVal(1))])
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += as_reg(y).segs
        return Reg(r)
    raise Unsupported(f"not a register: {type(x).__name__}")


class QS:
    def __getattr__(self, k):
        if k in GATES:
            return GATES[k]
        raise Unsupported(f"session method {k}")


class QV:
    def __init__(self, size=None, name=None, qs=None, **kw):
        live()
        n = st()
        self.id = f"q{len(n['vars'])}"
        n["vars"][self.id] = self
        n["heap"][self.id] = FALSE
        self._n = z3.simplify(wrap(size).t)
        n["alloc"].append(self)
        self.name = name or self.id
        if not z3.is_int_value(self._n):
            E().prove(self._n >= 0, "allocated size is not negative")

    @property
    def size(self):
        return W(self._n, None, 0, None)

    @property
    def reg(self):
        return Reg([(self, z3.IntVal(0), self._n)])

    def ensure_reg(self):
        return self.reg

    @property
    def qs(self):
        return QS()

    def __getitem__(self, i):
        return self.reg[i]

    def __add__(self, o):
        return self.reg + o

    def __radd__(self, o):
        return as_reg(o) + self.reg

    def vc_len(self):
        return self.size

    def vc_iter(self):
        return RegIter(self.reg)

    def __iter__(self):
        return iter(self.reg)

    def duplicate(self, name=None, qs=None, init=False):
        if init:
            raise Unsupported("duplicate(init)")
        return type(self)(self.size)

    def delete(self, verify=False, recompute=False):
        h, n = st()["heap"], self._n
        g = guard()
        arr = h[self.id]
        prove(Fam(n, lambda j: z3.Implies(g, z3.Not(z3.Select(arr, j)))), "deleted workspace is back in the zero state")
        self.deleted = True

    def arr(self):
        return st()["heap"][self.id]

    # integer-type helpers
    exponent = 0
    signed = False


class QF(QV):
    def __init__(self, size=None, exponent=0, qs=None, name=None, signed=False):
        QV.__init__(self, size)
        self.exponent, self.signed = exponent, signed


class QB(QV):
    def __init__(self, name=None, qs=None):
        QV.__init__(self, 1)

    def duplicate(self, **k):
        return QB()

    def flip(self):
        GATES["x"](self[0])
        return self


def one(q):
    """a single qubit argument"""
    if isinstance(q, Q):
        return q
    if isinstance(q, (QV, Reg)):
        r = as_reg(q)
        if not E().entails(r.n() == 1):
            raise Unsupported("register where one qubit is expected")
        return r[0]
    if isinstance(q, (list, tuple)) and len(q) == 1:
        return one(q[0])
    raise Unsupported(f"not a qubit: {type(q).__name__}")


def record(op):
    """inside inversion blocks gates are collected; otherwise executed"""
    live()
    n = st()
    r = n["rec"]
    if not r:
        op(False)
        return
    g = list(n["guard"])

    def run(inv):
        # quantum conditions entered inside the inversion block are read when the gate is finally applied
        saved, n["guard"] = n["guard"], [x() if callable(x) else x for x in g]
        op(inv)
        for x, v in zip(g, n["guard"]):
            if callable(x):
                E().prove(x() == v, "control qubit is not changed by the controlled block")
        n["guard"] = saved
    r[-1].append(run)


def g_x(q):
    if isinstance(q, (QV, Reg)):
        reg = as_reg(q)

        def op(inv):
            h = st()["heap"]
            for qv, o, l in reg.segs:
                j = z3.Int("lam_j")
                g = guard()
                a = h[qv.id]
                h[qv.id] = z3.Lambda([j], z3.Xor(z3.Select(a, j), z3.And(g, j >= o, j < o + l)))
        record(op)
        return q
    q1 = one(q)
    record(lambda inv: q1.set(z3.Not(q1.val())))
    return q


def g_cx(c, t):
    c, t = one(c), one(t)

    def op(inv):
        E().prove(c.differs(t), "control and target are different qubits")
        t.set(z3.Xor(t.val(), c.val()))
    record(op)


def g_mcx(ctrls, t, method="auto", ctrl_state=-1, num_ancilla=1):
    cs = [one(c) for c in (ctrls if isinstance(ctrls, (list, tuple)) else list(as_reg(ctrls)))]
    t = one(t)
    if isinstance(ctrl_state, str):
        pat = [s == "1" for s in ctrl_state]
    elif ctrl_state == -1:
        pat = [True] * len(cs)
    else:
        pat = [bool(ctrl_state >> i & 1) for i in range(len(cs))]
    clean = {"gidney": 1, "gidney_inv": -1, "gray_pt": 1, "gray_pt_inv": -1}.get(method, 0)

    def op(inv):
        for c in cs:
            E().prove(c.differs(t), "control and target are different qubits")
        a = z3.And([c.val() if p else z3.Not(c.val()) for c, p in zip(cs, pat)])
        k = -clean if inv else clean
        if method.startswith("gidney"):
            if k == 1:
                E().prove(z3.Implies(guard(), z3.Not(t.val())), "clean-target AND acts on a zero target")
                t.set(a)
                return
            E().prove(z3.Implies(guard(), t.val() == a), "measurement-based inverse AND acts on the AND of its controls")
            t.set(z3.BoolVal(False))
            return
        if method.startswith("gray_pt"):
            # phase tolerant pair: relative phases cancel only between a computation and its mirror image
            E().notes.setdefault("pt", []).append((k, cs, t, a))
        t.set(z3.Xor(t.val(), a))
    record(op)


def g_swap(a, b):
    a, b = one(a), one(b)

    def op(inv):
        x, y = a.val(), b.val()
        a.set(y)
        b.set(z3.If(guard(), x, b.val()))
    record(op)


GATES = dict(x=g_x, cx=g_cx, mcx=g_mcx, swap=g_swap)


@contextlib.contextmanager
def control(c, ctrl_state=-1, invert=False, **kw):
    if kw:
        raise Unsupported("control options")
    qs = []
    live()
    if isinstance(c, (B, bool, W)):
        t = bt(c)
        if ctrl_state not in (-1, 1, "1"):
            t = z3.Not(t)
        if invert:
            t = z3.Not(t)
        if E().branch(t):
            yield
            return
        n = st()
        n["dead"] = True
        try:
            yield
        except Skip:
            pass
        n["dead"] = False
        return
    else:
        qs = [one(x) for x in (c if isinstance(c, (list, tuple)) else [c])]
        if ctrl_state == -1 or ctrl_state == "1" * len(qs):
            pat = [True] * len(qs)
        elif isinstance(ctrl_state, str):
            pat = [s == "1" for s in ctrl_state]
        else:
            pat = [bool(ctrl_state >> i & 1) for i in range(len(qs))]
        t = z3.And([q.val() if p else z3.Not(q.val()) for q, p in zip(qs, pat)])
    if invert:
        t = z3.Not(t)
    if st()["rec"] and qs:
        def late():
            r = z3.And([q.val() if p else z3.Not(q.val()) for q, p in zip(qs, pat)])
            return z3.Not(r) if invert else r
        st()["guard"].append(late)
        try:
            yield
        finally:
            st()["guard"].pop()
        return
    before = [q.val() for q in qs]
    st()["guard"].append(t)
    try:
        yield
    finally:
        st()["guard"].pop()
    for q, v in zip(qs, before):
        E().prove(q.val() == v, "control qubit is not changed by the controlled block")


@contextlib.contextmanager
def inversion():
    n = st()
    n["rec"].append([])
    yield
    ops = n["rec"].pop()
    for o in reversed(ops):
        if n["rec"]:
            n["rec"][-1].append(lambda inv, o=o: o(not inv))
        else:
            o(True)


def conjugate(f, allocation_management=True):
    def call(*a, **k):
        @contextlib.contextmanager
        def cm():
            n = st()
            n["rec"].append([])
            f(*a, **k)
            ops = n["rec"].pop()
            if n["rec"]:
                raise Unsupported("conjugation inside an inversion block")
            for o in ops:
                o(False)
            yield
            for o in reversed(ops):
                o(True)
        return cm()
    return call


def jlen(x):
    if isinstance(x, (QV, Reg)):
        return as_reg(x).vc_len()
    return len(x)


def custom_control(f=None, **k):
    return f if f is not None else (lambda g: g)


def shims(tracing, extra=None):
    s = jaxshim.make([])
    core = Shim(QuantumVariable=QV, **GATES)
    jasp = Shim(check_for_tracing_mode=lambda: tracing, jlen=jlen, jrange=jrange, DynamicQubitArray=Reg,
                qache=lambda f=None, **k: f if f is not None else (lambda g: g), jnp=s["jax.numpy"])
    env = Shim(conjugate=conjugate, custom_control=custom_control, control=control, invert=inversion)
    qt = Shim(QuantumBool=QB, QuantumFloat=QF, QuantumVariable=QV)
    circ = Shim(Qubit=Q)
    s.update({"qrisp.core": core, "qrisp.core.gate_application_functions": core, "qrisp.jasp": jasp,
              "qrisp.environments": env, "qrisp.qtypes": qt, "qrisp.circuit": circ,
              "qrisp.misc": Shim(int_encoder=int_encoder, gate_wrap=custom_control),
              "qrisp": Shim(QuantumVariable=QV, QuantumBool=QB, QuantumFloat=QF, check_for_tracing_mode=lambda: tracing,
                            control=control, invert=inversion, conjugate=conjugate, jrange=jrange, jlen=jlen, **GATES)})
    if extra:
        s.update(extra)
    return s


def jrange(*a):
    live()
    a = [wrap(x) for x in a]
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    raise Unsupported("jrange step")


class Bits:
    """classical integer given by its bits (array of booleans, little endian)"""

    def __init__(self, fn):
        self.fn = fn

    def get_bit(self, i):
        t = wrap(i).t
        touch(t)
        return B(self.fn(t))

    def __lshift__(self, k):
        if wrap(k).const() != 1:
            raise Unsupported("shift")
        f = self.fn
        return Bits(lambda j: z3.And(j >= 1, f(j - 1)))

    def __add__(self, k):
        f = self.fn
        if wrap(k).const() != 1 or not z3.is_false(z3.simplify(f(z3.IntVal(0)))):
            raise Unsupported("addition to a bit sequence")
        return Bits(lambda j: z3.If(j == 0, z3.BoolVal(True), f(j)))


def int_encoder(qv, x):
    if not isinstance(x, Bits):
        raise Unsupported("int_encoder")

    def op(inv):
        h = st()["heap"]
        j = z3.Int("lam_j")
        a, g, n = h[qv.id], guard(), qv._n
        h[qv.id] = z3.Lambda([j], z3.Xor(z3.Select(a, j), z3.And(g, j >= 0, j < n, x.fn(j))))
    record(op)


class HeapLoop(LoopSpec):
    """loop contract over the register contents. inv(e, k, ghost) -> list of (label, formula | Fam);
    mod(ghost) -> variables the loop may change (checked)"""

    def __init__(self, inv, mod, defs=None):
        self._inv, self.mod, self.variant, self.defs = inv, mod, None, defs

    def hint(self, e, k, env0, env, L):
        n = st(e)
        ch = {v.id for v in self.mod(n)}
        for vid, a in n["heap"].items():
            if vid not in ch and vid in L.heap0:
                e.prove(a == L.heap0[vid], "loop changes only the registers it is allowed to change")

    def inv(self, e, k, env, L):
        for d in (self.defs or []) + st(e).get("defs", []):
            for q in (k, k - 1, k + 1):
                e.pc += d(q)
        for q in (k, k + 1, k - 1):
            touch(q)
        return [(l, f) for l, f in self._inv(e, k, st(e), L)]

    def havoc(self, e, k, env, names, L):
        n = st(e)
        L.heap0 = dict(n["heap"])
        n["fams"] = [f for f in n["fams"] if getattr(f, "static", False)]
        for v in self.mod(n):
            n["heap"][v.id] = e.fresh("h_" + v.id, BARR)
        L.heap0 = dict(n["heap"])
        return LoopSpec.havoc(self, e, k, env, names, L)

    _havoc = None
