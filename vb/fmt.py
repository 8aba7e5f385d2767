"""fixed-point formats (size, exponent, signed) shared by the arithmetic checks"""
from fractions import Fraction

from vlib.api import check


def value(code, n, e, s):
    if s and code >> (n - 1):
        code -= 1 << n
    return Fraction(code) * Fraction(2) ** e


def fmt(x):
    return (int(x.size), int(x.exponent), bool(x.signed))


def encode(v, f, exact, what):
    n, e, s = f
    c = Fraction(v) / Fraction(2) ** e
    check(c.denominator == 1, lambda: f"{what}: result {v} is not representable with exponent {e}")
    c = int(c)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
    if exact:
        check(lo <= c <= hi, lambda: f"{what}: result {v} does not fit the returned format (size {n}, exponent {e}, signed {s})")
    return c % (1 << n)


def var(f):
    import qrisp
    return qrisp.QuantumFloat(f[0], f[1], signed=f[2])
