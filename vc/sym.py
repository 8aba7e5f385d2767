"""Symbolic values.

W  : integer with a machine type (u8,u32,u64: exact wrap-around; i32,i64: mathematical, see ASSUMPTION_INT) or no
     type (Python int, unbounded; also JAX weakly typed literals).
B  : boolean.   Arr: array of symbolic length with machine-typed elements.
Operations build z3 terms; unsigned wrap-around is modelled exactly ('mod 2^w') unless interval arithmetic or the
path condition shows that no wrap-around occurs.
"""
import z3

from .engine import Engine, Unsupported

ASSUMPTION_INT = "signed loop/index arithmetic (int32/int64) is treated as mathematical integers (array sizes < 2^31)"

BITS = dict(u8=8, u32=32, u64=64)

pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())      # 2^k for k >= 0


def E():
    return Engine.cur


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_const(t):
    return z3.is_int_value(t)


def pow2_of(s, smax=None):
    """z3 term for 2^s; adds the definitional facts for s. For bounded s the exact table is used."""
    if isinstance(s, int):
        return z3.IntVal(2 ** s)
    e = E()
    e.assume(z3.And(pow2(z3.IntVal(0)) == 1, pow2(s) >= 1, pow2(s + 1) == 2 * pow2(s)))
    return pow2(s)


class B:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t

    def __bool__(self):
        return E().branch(self.t)

    def __and__(self, o):
        return B(z3.And(self.t, bt(o)))

    def __or__(self, o):
        return B(z3.Or(self.t, bt(o)))

    def __xor__(self, o):
        return B(z3.Xor(self.t, bt(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return B(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            return B(self.t == bt(o))
        return self.as_w() == o

    def __ne__(self, o):
        return B(z3.Not((self == o).t))

    def as_w(self, ty=None):
        return W(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), ty, 0, 1)

    def __add__(self, o):
        return self.as_w() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_w() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_w() - o

    def __rsub__(self, o):
        return wrap(o) - self.as_w()

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def astype(self, ty):
        return self.as_w(ty)


def bt(x):
    if isinstance(x, B):
        return x.t
    if isinstance(x, W):
        return x.t != 0
    return z3.BoolVal(bool(x))


def _mx(*a):
    return None if any(x is None for x in a) else max(a)


def _mn(*a):
    return None if any(x is None for x in a) else min(a)


class W:
    __slots__ = ("t", "ty", "lo", "hi", "p2")

    def __init__(self, t, ty=None, lo=None, hi=None, p2=None):
        self.t = iv(t) if isinstance(t, int) else t
        self.ty = ty
        if isinstance(t, int):
            lo = hi = t
        elif is_const(self.t):
            lo = hi = self.t.as_long()
        if lo is not None and lo == hi and not is_const(self.t):
            self.t = iv(lo)
        self.lo, self.hi = lo, hi
        self.p2 = p2                # exponent term s if value is known to be exactly 2^s

    # ---- helpers
    @property
    def dtype(self):
        return self.ty

    @property
    def shape(self):
        return ()

    def const(self):
        return self.t.as_long() if is_const(self.t) else None

    def concrete(self):
        t = z3.simplify(self.t)
        if is_const(t):
            return t.as_long()
        raise Unsupported("symbolic value where a concrete one is needed")

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        return E().branch(self.t != 0)

    def astype(self, ty):
        return cast(self, ty)

    def item(self):
        return self

    # ---- arithmetic
    def _bin(self, o, op):
        o = wrap(o)
        if o is NotImplemented:
            return NotImplemented
        ty = join(self.ty, o.ty)
        return self, o, ty

    def __add__(self, o):
        r = self._bin(o, "+")
        if r is NotImplemented:
            return r
        a, b, ty = r
        return fit(a.t + b.t, ty, _add(a.lo, b.lo), _add(a.hi, b.hi))

    def __radd__(self, o):
        return wrap(o) + self

    def __sub__(self, o):
        r = self._bin(o, "-")
        if r is NotImplemented:
            return r
        a, b, ty = r
        return fit(a.t - b.t, ty, _sub(a.lo, b.hi), _sub(a.hi, b.lo))

    def __rsub__(self, o):
        return wrap(o) - self

    def __neg__(self):
        return W(0) - self

    def __pos__(self):
        return self

    def __abs__(self):
        return W(z3.If(self.t >= 0, self.t, -self.t), self.ty)

    def __mul__(self, o):
        r = self._bin(o, "*")
        if r is NotImplemented:
            return r
        a, b, ty = r
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi = min(c), max(c)
        t = a.t * b.t
        if lo is not None and a.const() is None and b.const() is None:
            # valid consequence of the operand ranges; spares the solver nonlinear reasoning
            E().assume(z3.And(t >= lo, t <= hi))
        return fit(t, ty, lo, hi)

    def __rmul__(self, o):
        return wrap(o) * self

    def __floordiv__(self, o):
        r = self._bin(o, "//")
        if r is NotImplemented:
            return r
        a, b, ty = r
        if b.lo is not None and b.lo > 0 or E().entails(b.t > 0):
            t = a.t / b.t
        elif E().entails(b.t < 0):
            t = (-a.t) / (-b.t)
        else:
            raise Unsupported("division by value of unknown sign")
        lo = hi = None
        if a.lo is not None and a.lo >= 0:
            lo, hi = 0, a.hi
            if b.lo is not None and b.lo > 0 and a.hi is not None:
                hi = a.hi // b.lo
        return fit(t, ty, lo, hi)

    def __rfloordiv__(self, o):
        return wrap(o) // self

    def __mod__(self, o):
        r = self._bin(o, "%")
        if r is NotImplemented:
            return r
        a, b, ty = r
        if not (b.lo is not None and b.lo > 0 or E().entails(b.t > 0)):
            raise Unsupported("modulo by value not known to be positive")
        return W(a.t % b.t, ty, 0, _sub(b.hi, 1))

    def __rmod__(self, o):
        return wrap(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        o = wrap(o)
        if self.const() == 2:
            if o.const() is not None:
                return W(2 ** o.const(), self.ty)
            if not E().entails(o.t >= 0):
                raise Unsupported("2**negative")
            return fit(pow2_of(o.t), self.ty, 1, None, p2=o.t)
        if o.const() is not None and 0 <= o.const() <= 4:
            r = W(1)
            for _ in range(o.const()):
                r = r * self
            return r
        raise Unsupported("general power")

    def __rpow__(self, o):
        return wrap(o) ** self

    def __lshift__(self, o):
        o = determined(wrap(o))
        c = o.const()
        if c is not None:
            return fit(self.t * 2 ** c, self.ty, _mulc(self.lo, 2 ** c), _mulc(self.hi, 2 ** c))
        p = pow2_of(o.t)
        p2 = o.t if self.const() == 1 else None
        return fit(p if self.const() == 1 else self.t * p, self.ty, None, None, p2=p2)

    def __rlshift__(self, o):
        return wrap(o) << self

    def __rshift__(self, o):
        o = determined(wrap(o))
        c = o.const()
        if c is not None:
            lo = self.lo // 2 ** c if self.lo is not None else None
            hi = self.hi // 2 ** c if self.hi is not None else None
            return W(self.t / (2 ** c), self.ty, lo, hi)
        return W(self.t / pow2_of(o.t), self.ty, 0 if (self.lo is not None and self.lo >= 0) else None, self.hi)

    def __and__(self, o):
        o = wrap(o)
        ty = join(self.ty, o.ty)
        for x, y in ((self, o), (o, self)):
            c = y.const()
            if c is not None and c >= 0 and (c & (c + 1)) == 0:
                if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= c:
                    return W(x.t, ty, x.lo, x.hi)
                return W(x.t % (c + 1), ty, 0, c)
            if c is not None and c > 0 and (c & (c - 1)) == 0:
                return W(((x.t / c) % 2) * c, ty, 0, c)
        raise Unsupported("general bitwise and")

    __rand__ = __and__

    def __or__(self, o):
        o = wrap(o)
        ty = join(self.ty, o.ty)
        if self.const() == 0:
            return W(o.t, ty, o.lo, o.hi)
        if o.const() == 0:
            return W(self.t, ty, self.lo, self.hi)
        # x | y = x + y if the bits are disjoint: y < 2^s and 2^s divides x
        e = E()
        for x, y in ((self, o), (o, self)):
            for c in (32,):
                if e.entails(z3.And(y.t >= 0, y.t < 2 ** c, x.t % 2 ** c == 0)):
                    return fit(x.t + y.t, ty, None, None)
            for s in e.notes.get("or_splits", []):
                if e.entails(z3.And(y.t >= 0, y.t < s, x.t % s == 0)):
                    return fit(x.t + y.t, ty, None, None)
        raise Unsupported("general bitwise or")

    __ror__ = __or__

    def __xor__(self, o):
        o = wrap(o)
        ty = join(self.ty, o.ty)
        for x, y in ((self, o), (o, self)):
            if y.p2 is not None or (y.const() is not None and y.const() > 0 and y.const() & (y.const() - 1) == 0):
                bit = (x.t / y.t) % 2
                return fit(z3.If(bit == 0, x.t + y.t, x.t - y.t), ty, None, None)
            if y.const() == 0:
                return W(x.t, ty, x.lo, x.hi)
        if all(z.lo is not None and z.lo >= 0 and z.hi is not None and z.hi <= 1 for z in (self, o)):
            return W(z3.If(self.t == o.t, z3.IntVal(0), z3.IntVal(1)), ty, 0, 1)
        raise Unsupported("general bitwise xor")

    __rxor__ = __xor__

    def __invert__(self):
        if self.ty in BITS:
            m = 2 ** BITS[self.ty] - 1
            return W(m - self.t, self.ty, 0, m)
        return W(-1 - self.t, self.ty)

    # ---- comparisons
    def _cmp(self, o, f):
        o = wrap(o)
        if o is NotImplemented:
            return NotImplemented
        return B(f(self.t, o.t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __repr__(self):
        return f"W({self.t},{self.ty})"


def _add(a, b):
    return None if a is None or b is None else a + b


def _sub(a, b):
    return None if a is None or b is None else a - b


def _mulc(a, c):
    return None if a is None else a * c


def determined(w):
    """replace w by a constant if the path condition determines its value"""
    if w.const() is not None:
        return w
    e = E()
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*e.pc)
    if s.check() == z3.sat:
        v = s.model().eval(w.t, model_completion=True)
        if z3.is_int_value(v):
            s.add(w.t != v)
            if s.check() == z3.unsat:
                return W(v.as_long(), w.ty)
    return w


def wrap(o):
    if isinstance(o, W):
        return o
    if isinstance(o, bool):
        return W(int(o))
    if isinstance(o, int):
        return W(o)
    if isinstance(o, B):
        return o.as_w()
    if isinstance(o, z3.ArithRef):
        return W(o)
    try:
        import numpy as np
        if isinstance(o, np.integer):
            return W(int(o))
    except ImportError:
        pass
    return NotImplemented


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    s = {a, b}
    if s == {"u32", "u64"}:
        return "u64"
    if s == {"i32", "i64"}:
        return "i64"
    if s == {"u32", "i32"} or s == {"u32", "i64"}:
        return "i64"
    raise Unsupported(f"type promotion {a},{b}")


def fit(t, ty, lo, hi, p2=None):
    """Value of raw integer term t in machine type ty."""
    if ty not in BITS:
        return W(t, ty, lo, hi, p2)
    m = 2 ** BITS[ty]
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return W(t, ty, lo, hi, p2)
    if E().entails(z3.And(t >= 0, t < m)):
        return W(t, ty, max(lo, 0) if lo is not None else 0, min(hi, m - 1) if hi is not None else m - 1, p2)
    return W(t % m, ty, 0, m - 1)


def cast(x, ty):
    if isinstance(x, Arr):
        return x.astype(ty)
    if isinstance(x, B):
        return x.as_w(ty)
    x = wrap(x)
    if ty in BITS:
        return fit(x.t, ty, x.lo, x.hi, x.p2)
    return W(x.t, ty, x.lo, x.hi, x.p2)


def fresh_w(name, ty):
    e = E()
    v = e.fresh(name)
    if ty in BITS:
        m = 2 ** BITS[ty]
        e.assume(z3.And(v >= 0, v < m))
        return W(v, ty, 0, m - 1)
    return W(v, ty)


ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())


class _At:
    def __init__(self, a, i=None):
        self.a, self.i = a, i

    def __getitem__(self, i):
        return _At(self.a, i)

    def set(self, v):
        a = self.a
        v = cast(v, a.ty)
        idx = a._norm(self.i)
        if E().entails(z3.And(idx >= 0, idx < a.n)):
            return Arr(a.n, z3.Store(a.t, idx, v.t), a.ty)
        # out-of-bounds updates are dropped
        inb = z3.And(idx >= 0, idx < a.n)
        return Arr(a.n, z3.If(inb, z3.Store(a.t, idx, v.t), a.t), a.ty)


class Arr:
    """1-d array of symbolic length n; elements have machine type ty (range facts are added at each read)."""

    def __init__(self, n, t, ty="u32"):
        self.n = iv(n) if isinstance(n, int) else n
        self.t, self.ty = t, ty

    @property
    def shape(self):
        return (W(self.n, None, 0, None),)

    @property
    def dtype(self):
        return self.ty

    @property
    def at(self):
        return _At(self)

    def __len__(self):
        raise Unsupported("len() of symbolic array")

    def _norm(self, i):
        i = wrap(i)
        if i.lo is not None and i.lo >= 0 or E().entails(i.t >= 0):
            return i.t
        return z3.If(i.t < 0, i.t + self.n, i.t)

    def raw(self, i):
        """element term at index term i with its range fact"""
        v = z3.Select(self.t, iv(i) if isinstance(i, int) else i)
        if self.ty in BITS:
            E().assume(z3.And(v >= 0, v < 2 ** BITS[self.ty]))
        return v

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        idx = self._norm(i)
        if not E().entails(z3.And(idx >= 0, idx < self.n)):
            # JAX clamps out-of-bounds reads
            idx = z3.If(idx < 0, z3.IntVal(0), z3.If(idx >= self.n, self.n - 1, idx))
        v = self.raw(idx)
        m = 2 ** BITS[self.ty] if self.ty in BITS else None
        return W(v, self.ty, 0 if m else None, m - 1 if m else None)

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("strided slice")
        lo = iv(0) if s.start is None else wrap(s.start).t
        hi = self.n if s.stop is None else wrap(s.stop).t
        if not E().entails(z3.And(lo >= 0, lo <= hi, hi <= self.n)):
            raise Unsupported("slice bounds")
        i = z3.Int("sl_i")
        if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
            return Arr(hi - lo, self.t, self.ty)
        return Arr(hi - lo, z3.Lambda([i], z3.Select(self.t, i + lo)), self.ty)

    def astype(self, ty):
        if ty == self.ty:
            return self
        raise Unsupported("array cast")

    def __eq__(self, o):
        return EqMask(self, o, True)

    def __ne__(self, o):
        return EqMask(self, o, False)

    def __hash__(self):
        raise Unsupported("hash of symbolic array")

    def __iter__(self):
        raise Unsupported("iteration over symbolic array")

    def __invert__(self):
        i = z3.Int("inv_i")
        return Arr(self.n, z3.Lambda([i], 2 ** BITS[self.ty] - 1 - z3.Select(self.t, i)), self.ty)


class EqMask:
    """elementwise a == b, consumed by all()/any()"""

    def __init__(self, a, b, eq):
        self.a, self.b, self.eq = a, b, eq


def all_mask(m):
    """jnp.all(a == b): a boolean q with  q -> equal at every read index, not q -> differ at witness w"""
    e = E()
    if not m.eq:
        raise Unsupported("all(a != b)")
    a, b = m.a, m.b
    q = e.fresh("alleq", z3.BoolSort())
    w = e.fresh("diffat")
    i = z3.Int("q_i")
    bi = (lambda j: z3.Select(b.t, j)) if isinstance(b, Arr) else (lambda j: wrap(b).t)
    e.assume(z3.Implies(z3.Not(q), z3.And(w >= 0, w < a.n, z3.Select(a.t, w) != bi(w))))
    e.assume(z3.Implies(q, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(a.t, i) == bi(i)))))
    e.notes.setdefault("allmask", []).append((q, w, a, b))
    return B(q)
