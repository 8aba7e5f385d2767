"""Contracts of the fixed-point codec: QuantumFloat.encoder / decoder (direct mode, every mantissa size) and the signed
integer isomorphism used in traced mode (64-bit machine integers, every bit width 0..61).

Numbers of the direct mode are mathematical integers / rationals (`N`); binary floating point rounding is not modelled.
"""
import builtins

import z3

from .. import sym
from ..engine import Engine, Lemma, Unsupported
from ..iheap import P
from ..load import Shim, load

PATH = "qtypes/quantum_float.py"
I = z3.IntSort()
ASSUME_REAL = "direct-mode codec: the scaled value i / 2**exponent is taken as the exact rational (no binary floating point rounding)"
L_mod0 = Lemma("a number in [0,M) is its own remainder", lambda u, m: z3.Implies(z3.And(u >= 0, u < m), u % m == u), [I, I])
L_mod1 = Lemma("a number in [-M,0) has remainder u+M", lambda u, m: z3.Implies(z3.And(u < 0, u >= -m), u % m == u + m), [I, I])
L_mod2 = Lemma("a number in [M,2M) has remainder u-M", lambda u, m: z3.Implies(z3.And(u >= m, u < 2 * m), u % m == u - m), [I, I])
L_div = Lemma("quotient of a number in [0,M) / [M,2M)", lambda u, m: z3.Implies(m >= 1, z3.And(z3.Implies(z3.And(u >= 0, u < m), u / m == 0), z3.Implies(z3.And(u >= m, u < 2 * m), u / m == 1))), [I, I])
LEMMAS = [L_mod0, L_mod1, L_mod2, L_div]
EXPONENTS = tuple(range(-6, 7))


def E():
    return Engine.cur


class Cond:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().branch(self.t)


class N:
    """exact number; .t is an Int or Real term. `lg` = k if the number is known to be 2^k, `mask` = k if it is 2^k - 1"""

    def __init__(self, t, lg=None, mask=None):
        self.t, self.lg, self.mask = t, lg, mask

    @property
    def is_int(self):
        return self.t.sort() == I

    @staticmethod
    def of(x):
        if isinstance(x, N):
            return x
        if isinstance(x, builtins.int):
            x = builtins.int(x)
            lg = z3.IntVal(x.bit_length() - 1) if x > 0 and x & (x - 1) == 0 else None
            mask = z3.IntVal(x.bit_length()) if x > 0 and (x + 1) & x == 0 else None
            return N(z3.IntVal(x), lg, mask)
        if isinstance(x, float):
            a, b = x.as_integer_ratio()
            return N(z3.Q(a, b))
        raise Unsupported(f"number {type(x).__name__}")

    def real(self):
        return z3.ToReal(self.t) if self.is_int else self.t

    def _bin(self, o, f):
        o = N.of(o)
        if self.is_int and o.is_int:
            return f(self.t, o.t)
        return f(self.real(), o.real())

    def __add__(self, o):
        return N(self._bin(o, lambda a, b: a + b))

    __radd__ = __add__

    def __sub__(self, o):
        mask = self.lg if isinstance(o, builtins.int) and o == 1 else None
        return N(z3.simplify(self._bin(o, lambda a, b: a - b)), None, mask)

    def __rsub__(self, o):
        return N.of(o) - self

    def __neg__(self):
        return N(-self.t)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = N.of(o)
        if not (z3.is_int_value(o.t) or z3.is_rational_value(o.t) or z3.is_int_value(self.t) or z3.is_rational_value(self.t)):
            raise Unsupported("product of two unknowns")
        return N(self._bin(o, lambda a, b: a * b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = N.of(o)
        c = z3.simplify(o.real())
        if not z3.is_rational_value(c) or c.numerator_as_long() == 0:
            raise Unsupported("division by an unknown")
        return N(self.real() / c)

    def __lt__(self, o):
        return Cond(self._bin(o, lambda a, b: a < b))

    def __le__(self, o):
        return Cond(self._bin(o, lambda a, b: a <= b))

    def __gt__(self, o):
        return Cond(self._bin(o, lambda a, b: a > b))

    def __ge__(self, o):
        return Cond(self._bin(o, lambda a, b: a >= b))

    def __eq__(self, o):
        return Cond(self._bin(o, lambda a, b: a == b))

    def __ne__(self, o):
        return Cond(self._bin(o, lambda a, b: a != b))

    __hash__ = None

    def __bool__(self):
        return E().branch(self.t != 0)

    def ints(self, what):
        if not self.is_int:
            raise TypeError(f"{what} of a non-integer")

    def __mod__(self, o):
        o = N.of(o)
        self.ints("remainder")
        o.ints("remainder")
        e = E()
        if not z3.is_int_value(o.t):
            e.assume(o.t >= 1) if o.lg is not None else None
            for l in (L_mod0, L_mod1, L_mod2):
                e.use(l, self.t, o.t)
        return N(self.t % o.t)

    def __floordiv__(self, o):
        o = N.of(o)
        self.ints("quotient")
        o.ints("quotient")
        if not z3.is_int_value(o.t):
            E().use(L_div, self.t, o.t)
        return N(self.t / o.t)

    def __and__(self, o):
        o = N.of(o)
        if o.mask is None and self.mask is not None:
            self, o = o, self
        if o.mask is None:
            raise Unsupported("& with something that is not 2^k - 1")
        return self % N(P(o.mask), o.mask)

    __rand__ = __and__

    def __lshift__(self, o):
        k = o.t if isinstance(o, N) else z3.IntVal(o)
        self.ints("shift")
        if z3.is_int_value(k):
            if k.as_long() < 0:
                raise ValueError("negative shift count")
            return N(self.t * 2 ** k.as_long())
        if self.lg is not None and z3.is_int_value(self.t):
            return N(P(z3.simplify(self.lg + k)), z3.simplify(self.lg + k))
        raise Unsupported("shift of an unknown by an unknown")

    def __rlshift__(self, o):
        return N.of(o) << self

    def __pow__(self, o):
        raise Unsupported("power of an unknown")

    def __rpow__(self, o):
        if o == 2 and isinstance(o, builtins.int):
            return N.of(1) << self
        raise Unsupported("power")

    def __rshift__(self, o):
        k = o.t if isinstance(o, N) else z3.IntVal(o)
        return self // N(P(k), k)


class _IM(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, N) and o.is_int)


class Int(metaclass=_IM):
    def __new__(cls, x=0, *a):
        if isinstance(x, N):
            if x.is_int:
                return x
            return N(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))       # truncation
        return builtins.int(x, *a)


def frac(a=0, b=1):
    return N.of(a) / N.of(b)


def nabs(x):
    return N(z3.If(x.t >= 0, x.t, -x.t)) if isinstance(x, N) else builtins.abs(x)


def fl(x=0.0):
    return N(x.real()) if isinstance(x, N) else builtins.float(x)


class B64:
    """jax int64 value (two's complement, wrapping)"""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, B64):
            return x
        if isinstance(x, builtins.int) and not isinstance(x, bool):
            return B64(z3.BitVecVal(x, 64))
        raise Unsupported(f"64-bit integer from {type(x).__name__}")


def _b(f):
    return (lambda s, o: B64(f(s.t, B64.of(o).t))), (lambda s, o: B64(f(B64.of(o).t, s.t)))


def _shl(a, b):
    E().prove(z3.And(b >= 0, b < 64), "shift count lies in [0, 64)")
    return a << b


def _shr(a, b):
    E().prove(z3.And(b >= 0, b < 64), "shift count lies in [0, 64)")
    return a >> b


for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("and", lambda a, b: a & b),
               ("or", lambda a, b: a | b), ("xor", lambda a, b: a ^ b), ("lshift", _shl), ("rshift", _shr)):
    _a, _r = _b(_f)
    setattr(B64, f"__{_n}__", _a)
    setattr(B64, f"__r{_n}__", _r)
B64.__neg__ = lambda s: B64(-s.t)
B64.__invert__ = lambda s: B64(~s.t)
for _n, _f in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b), ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b),
               ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)):
    setattr(B64, f"__{_n}__", (lambda f: lambda s, o: Cond(f(s.t, B64.of(o).t)))(_f))


def where(c, a, b):
    t = c.t if isinstance(c, Cond) else B64.of(c).t != 0
    return B64(z3.If(t, B64.of(a).t, B64.of(b).t))


def module():
    class Base:
        pass

    class Never:
        pass

    jnp = Shim(int64=B64.of, where=where, asarray=lambda x, *a, **k: x, array=lambda x, *a, **k: x)
    core = Shim(Tracer=Never)
    shims = {
        "jax": Shim(jit=lambda f=None, **k: f if f is not None else (lambda g: g), Array=Never, numpy=jnp, core=core),
        "jax.core": core,
        "jax.numpy": jnp,
        "qrisp.core": Shim(QuantumVariable=Base, cx=None, x=None, QuantumSession=None),
        "qrisp.environments": Shim(conjugate=None, invert=None, control=None),
        "qrisp.jasp": Shim(check_for_tracing_mode=lambda *a: False),
        "qrisp.misc": Shim(gate_wrap=lambda *a, **k: (lambda f: f)),
        "fractions": Shim(Fraction=frac),
    }
    return load(PATH, shims, builtin_over={"int": Int, "abs": nabs, "float": fl})


def make(ns, e, signed, ex):
    q = object.__new__(ns["QuantumFloat"])
    m = e.fresh("msize")
    e.assume(m >= (0 if signed else 1))
    P(m)
    P(m + 1)
    # true facts about 2^m that keep refuting models meaningful
    e.assume(z3.Or([z3.And(m == j, sym.pow2(m) == 2 ** j) for j in range(8)] + [z3.And(m >= 8, sym.pow2(m) >= 256, sym.pow2(m) % 256 == 0)]))
    q.signed, q.exponent = signed, ex
    n = z3.simplify(m + 1) if signed else m
    if isinstance(getattr(type(q), "size", None), property):
        raise Unsupported("register size is computed")
    q.size = N(n)
    return q, m, n


def spec(i, m, signed):
    """integer meant by the register content i"""
    return z3.If(i >= sym.pow2(m), i - 2 * sym.pow2(m), i) if signed else i


def scaled(t, ex):
    return t * 2 ** ex if ex >= 0 else z3.ToReal(t) / (2 ** -ex)


def v_decode(signed, ex):
    ns = module()

    def run(e):
        q, m, n = make(ns, e, signed, ex)
        i = e.fresh("i")
        e.assume(z3.And(i >= 0, i < P(n)))
        r = N.of(q.decoder(N(i)))
        e.prove(r.real() == N(scaled(spec(i, m, signed), ex)).real(), "decoded value = content read as a (two's complement) integer times 2^exponent")
    return run


def v_round(signed, ex):
    ns = module()

    def run(e):
        q, m, n = make(ns, e, signed, ex)
        i = e.fresh("i")
        e.assume(z3.And(i >= 0, i < P(n)))
        try:
            r = q.encoder(N(scaled(spec(i, m, signed), ex)))
        except ValueError:
            e.prove(False, "a representable value is not rejected")
            return
        e.prove(N.of(r).real() == z3.ToReal(i), "encoding the value of a register content gives that content")
    return run


def v_reject(signed, ex, kind):
    """kind: int | real"""
    ns = module()

    def run(e):
        q, m, n = make(ns, e, signed, ex)
        v = e.fresh("v", I if kind == "int" else z3.RealSort())
        num = N(v)
        lo = scaled(-sym.pow2(m), ex) if signed else z3.IntVal(0)
        hi = scaled(sym.pow2(m) - 1, ex)
        inside = z3.And(num.real() >= N(lo).real(), num.real() <= N(hi).real())
        try:
            r = N.of(q.encoder(num))
        except ValueError:
            e.prove(z3.Not(inside), "only values outside the representable range are rejected")
            return
        e.prove(inside, "values outside the representable range are rejected")
        e.prove(z3.And(r.real() >= 0, r.real() < z3.ToReal(P(n))), "accepted values give a register content")
        back = scaled(spec(z3.ToInt(r.real()), m, signed), ex)
        err = N(back).real() - num.real()
        u = z3.Q(2 ** max(ex, 0), 2 ** max(-ex, 0))
        e.prove(z3.And(err < u, -err < u), "an accepted value off the grid is moved by less than one step")
    return run


def v_iso():
    ns = module()

    def run(e):
        n, x = e.fresh("n", z3.BitVecSort(64)), e.fresh("x", z3.BitVecSort(64))
        one = z3.BitVecVal(1, 64)
        e.assume(z3.And(n >= 0, n <= 61))
        half, full = one << n, one << (n + 1)
        f, g = ns["_signed_int_iso"], ns["_signed_int_iso_inv"]
        fx = B64.of(f(B64(x), B64(n))).t
        e.prove(z3.And(fx >= 0, fx < full), "the code lies in [0, 2^(n+1))")
        e.prove((fx - x) & (full - 1) == 0, "the code is congruent to the value modulo 2^(n+1)")
        gx = B64.of(g(B64(x), B64(n))).t
        e.prove(z3.And(gx >= -half, gx < half), "the decoded integer lies in [-2^n, 2^n)")
        e.prove((gx - x) & (full - 1) == 0, "the decoded integer is congruent to the code modulo 2^(n+1)")
        e.prove(z3.Implies(z3.And(x >= -half, x < half), B64.of(g(B64(fx), B64(n))).t == x), "decoding the code of a value gives the value")
        e.prove(z3.Implies(z3.And(x >= 0, x < full), B64.of(f(B64(gx), B64(n))).t == x), "encoding the value of a code gives the code")
    return run


def programs():
    out = {"_signed_int_iso / _signed_int_iso_inv": (v_iso, ())}
    for s in (False, True):
        nm = "signed" if s else "unsigned"
        for ex in EXPONENTS:
            out[f"QuantumFloat.decoder ({nm}, exponent {ex})"] = (v_decode, (s, ex))
            out[f"QuantumFloat.encoder after decoder ({nm}, exponent {ex})"] = (v_round, (s, ex))
            out[f"QuantumFloat.encoder of integers ({nm}, exponent {ex})"] = (v_reject, (s, ex, "int"))
            out[f"QuantumFloat.encoder of reals ({nm}, exponent {ex})"] = (v_reject, (s, ex, "real"))
    return out


def run_one(ctx, name):
    mk, args = programs()[name]
    try:
        Engine(name=name).explore(mk(*args)).report(ctx, name)
    except Exception as ex:
        ctx.undecided(f"{name}: {type(ex).__name__}: {ex}")
