"""multi-limb integers: construction, reading and adversarial numbers shared by the checks of the type"""
from vlib.api import need

M = "qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger"
B32 = 2 ** 32


def mk(x, n):
    return need(M, "BigInteger").create_static(x, n)


def val(r):
    return r()


def as_py(r):
    if hasattr(r, "digits"):
        return r()
    return r.item() if hasattr(r, "item") else r


SPECIAL = [0, 1, 2, 3, B32 - 1, B32 - 2, B32 // 2, B32 // 2 - 1, B32 // 2 + 1, 0xFFFF0000, 0x10000, 0x55555555]


def num(r, n):
    k = r.randint(0, 9)
    if k == 0:
        return r.choice([0, 1, 2 ** (32 * n) - 1, 2 ** (32 * n - 1), 2 ** (32 * n - 1) - 1])
    if k == 1:
        return 2 ** r.randrange(32 * n)
    if k == 2:
        return 2 ** r.randrange(32 * n) - 1
    if k == 3:
        return r.randrange(2 ** r.randint(1, 32 * n))
    return sum((r.choice(SPECIAL) if r.random() < .7 else r.randrange(B32)) << (32 * i) for i in range(r.randint(1, n)))


def pair(r, n):
    a, b = num(r, n), num(r, n)
    k = r.randint(0, 7)
    if k == 0:
        b = a
    elif k == 1:
        b = (a + 1) % 2 ** (32 * n)
    elif k == 2:      # equal except one limb
        i = r.randrange(n)
        b = a ^ (r.choice(SPECIAL) << (32 * i))
    return a, b
