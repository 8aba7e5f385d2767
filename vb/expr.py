"""Gate expressions: one description, evaluated (a) by the real gate classes and (b) by matrix algebra."""
import cmath
import math

import numpy as np

from vc import trig

GATES = {  # name: (constructor name, number of parameters, qubits)
    "x": ("XGate", 0, 1), "y": ("YGate", 0, 1), "z": ("ZGate", 0, 1), "h": ("HGate", 0, 1), "s": ("SGate", 0, 1), "t": ("TGate", 0, 1),
    "sx": ("SXGate", 0, 1), "sx_dg": ("SXDGGate", 0, 1), "id": ("IDGate", 0, 1), "p": ("PGate", 1, 1), "rx": ("RXGate", 1, 1), "ry": ("RYGate", 1, 1),
    "rz": ("RZGate", 1, 1), "gphase": ("GPhaseGate", 1, 1), "u1": ("U1Gate", 1, 1), "u3": ("u3Gate", 3, 1), "r": ("RGate", 2, 1),
    "cx": ("CXGate", 0, 2), "cy": ("CYGate", 0, 2), "cz": ("CZGate", 0, 2), "cp": ("CPGate", 1, 2), "swap": ("SwapGate", 0, 2),
    "rxx": ("RXXGate", 1, 2), "rzz": ("RZZGate", 1, 2), "xxyy": ("XXYYGate", 2, 2),
}
ONEQ = [g for g, v in GATES.items() if v[2] == 1]
TWOQ = [g for g, v in GATES.items() if v[2] == 2]


class Num:
    """complex arithmetic"""
    one, zero = 1 + 0j, 0j
    ang = staticmethod(float)
    e = staticmethod(lambda a: cmath.exp(1j * a))
    cos = staticmethod(lambda a: complex(math.cos(a / 2)))
    sin = staticmethod(lambda a: complex(math.sin(a / 2)))
    neg = staticmethod(lambda a: -a)
    add = staticmethod(lambda a, b: a + b)
    conj = staticmethod(lambda z: z.conjugate())


class Sym:
    one, zero = trig.ONE, trig.ZERO
    ang = staticmethod(trig.angle)
    e = staticmethod(lambda a: trig.TP.expi(a))
    cos = staticmethod(lambda a: trig.cos(a * trig.HALF))
    sin = staticmethod(lambda a: trig.sin(a * trig.HALF))
    neg = staticmethod(lambda a: a * -1)
    add = staticmethod(lambda a, b: a + b)
    conj = staticmethod(lambda z: z.conj())


PI = math.pi


def spec(name, params, K):
    """textbook matrix, rows"""
    a = [K.ang(p) for p in params]
    c = lambda x: K.ang(x)
    I, mI = K.e(c(PI / 2)), K.e(c(-PI / 2))
    o, z = K.one, K.zero
    m = z - o
    h = K.cos(c(PI / 2))
    if name in ("x",):
        return [[z, o], [o, z]]
    if name == "y":
        return [[z, mI], [I, z]]
    if name == "z":
        return [[o, z], [z, m]]
    if name == "h":
        return [[h, h], [h, z - h]]
    if name == "s":
        return [[o, z], [z, I]]
    if name == "t":
        return [[o, z], [z, K.e(c(PI / 4))]]
    if name == "id":
        return [[o, z], [z, o]]
    if name == "p":
        return [[o, z], [z, K.e(a[0])]]
    if name == "gphase":
        return [[K.e(a[0]), z], [z, K.e(a[0])]]
    if name in ("rx", "sx", "sx_dg"):
        t = a[0] if name == "rx" else c(PI / 2 if name == "sx" else -PI / 2)
        return [[K.cos(t), mI * K.sin(t)], [mI * K.sin(t), K.cos(t)]]
    if name == "ry":
        return [[K.cos(a[0]), z - K.sin(a[0])], [K.sin(a[0]), K.cos(a[0])]]
    if name in ("rz", "u1"):   # u1 is documented (and shipped) as rz
        return [[K.cos(a[0]) - I * K.sin(a[0]), z], [z, K.cos(a[0]) + I * K.sin(a[0])]]
    if name == "u3":
        return [[K.cos(a[0]), z - K.e(a[2]) * K.sin(a[0])], [K.e(a[1]) * K.sin(a[0]), K.e(K.add(a[1], a[2])) * K.cos(a[0])]]
    if name == "r":   # rotation by -theta in the u3 picture: as shipped (no textbook normal form is documented)
        return [[K.cos(a[0]), K.e(K.neg(a[1])) * K.sin(a[0])], [z - K.e(a[1]) * K.sin(a[0]), K.cos(a[0])]]
    if name in ("cx", "cy", "cz", "cp"):
        b = spec(name[1], params, K)
        return [[o, z, z, z], [z, o, z, z], [z, z, b[0][0], b[0][1]], [z, z, b[1][0], b[1][1]]]
    if name == "swap":
        return [[o, z, z, z], [z, z, o, z], [z, o, z, z], [z, z, z, o]]
    if name == "rxx":
        C, S = K.cos(a[0]), mI * K.sin(a[0])
        return [[C, z, z, S], [z, C, S, z], [z, S, C, z], [S, z, z, C]]
    if name == "rzz":
        P, M = K.cos(a[0]) + I * K.sin(a[0]), K.cos(a[0]) - I * K.sin(a[0])
        return [[M, z, z, z], [z, P, z, z], [z, z, P, z], [z, z, z, M]]
    if name == "xxyy":
        C, S = K.cos(a[0]), mI * K.sin(a[0])
        return [[o, z, z, z], [z, C, S * K.e(a[1]), z], [z, S * K.e(K.neg(a[1])), C, z], [z, z, z, o]]
    raise KeyError(name)


def columns(rows):
    n = len(rows)
    return [{r: rows[r][c] for r in range(n) if rows[r][c]} for c in range(n)]


def adjoint(M, K):
    out = [dict() for _ in M]
    for c, col in enumerate(M):
        for r, v in col.items():
            out[r][c] = K.conj(v)
    return out


def controlled(M, pat, K):
    n = len(M)
    i = int("".join(map(str, pat)), 2) if len(pat) else 0
    out = []
    for c in range(n << len(pat)):
        blk, cc = divmod(c, n)
        out.append({i * n + r: v for r, v in M[cc].items()} if blk == i else {c: K.one})
    return out


def embed(M, qs, n, K):
    """matrix of the gate acting on qubits qs of an n-qubit register (qubit 0 most significant)"""
    k = len(qs)
    out = []
    for c in range(1 << n):
        sub = 0
        for q in qs:
            sub = sub << 1 | (c >> (n - 1 - q) & 1)
        base = c
        for q in qs:
            base &= ~(1 << (n - 1 - q))
        col = {}
        for r, v in M[sub].items():
            x = base
            for j, q in enumerate(qs):
                if r >> (k - 1 - j) & 1:
                    x |= 1 << (n - 1 - q)
            col[x] = v
        out.append(col)
    return out


def mul(A, B):
    out = []
    for col in B:
        d = {}
        for k, v in col.items():
            for r, w in A[k].items():
                x = w * v
                d[r] = d[r] + x if r in d else x
        out.append({k: v for k, v in d.items() if v})
    return out


def pattern(cs, n):
    if isinstance(cs, int):
        v = cs % (1 << n)
        return [(v >> i) & 1 for i in range(n)]
    return [int(c) for c in cs]


def width(e):
    if e[0] == "gate":
        return GATES[e[1]][2]
    if e[0] in ("inv", "copy", "bind", "wrap"):
        return width(e[1])
    if e[0] == "ctrl":
        return width(e[1]) + e[2]
    if e[0] == "circ":
        return e[2]
    raise KeyError(e[0])


def expected(e, K, env=None):
    t = e[0]
    if t == "gate":
        return columns(spec(e[1], [val(p, env) for p in e[2]], K))
    if t == "inv":
        return adjoint(expected(e[1], K, env), K)
    if t in ("copy", "bind", "wrap"):
        return expected(e[1], K, env)
    if t == "ctrl":
        return controlled(expected(e[1], K, env), pattern(e[3], e[2]), K)
    if t == "circ":
        n = e[2]
        M = [{i: K.one} for i in range(1 << n)]
        for g, qs in e[1]:
            M = mul(embed(expected(g, K, env), qs, n, K), M)
        return M
    raise KeyError(t)


def val(p, env):
    if isinstance(p, str):
        if env is None:
            import sympy
            return sympy.Symbol(p, real=True)
        return env[p]
    return p


def build(e, env=None):
    """the real operation object; env None -> symbolic parameters stay symbols; 'bind' substitutes late"""
    import qrisp
    import qrisp.circuit.standard_operations as std
    t = e[0]
    if t == "gate":
        return getattr(std, GATES[e[1]][0])(*[val(p, env) for p in e[2]])
    if t == "inv":
        return build(e[1], env).inverse()
    if t == "copy":
        return build(e[1], env).copy()
    if t == "wrap":
        g = build(e[1], env)
        qc = qrisp.QuantumCircuit(g.num_qubits)
        qc.append(g, qc.qubits)
        return qc.to_gate("wrapped")
    if t == "bind":
        import sympy
        g = build(e[1], None)
        return g.bind_parameters({sympy.Symbol(s, real=True): env[s] for s in symbols(e[1])})
    if t == "ctrl":
        kw = {} if len(e) < 5 or e[4] is None else {"method": e[4]}
        return build(e[1], env).control(e[2], ctrl_state=e[3], **kw)
    if t == "circ":
        qc = qrisp.QuantumCircuit(e[2])
        for g, qs in e[1]:
            qc.append(build(g, env), [qc.qubits[q] for q in qs])
        return qc.to_gate("composite")
    raise KeyError(t)


def symbols(e):
    if e[0] == "gate":
        return sorted({p for p in e[2] if isinstance(p, str)})
    if e[0] == "circ":
        return sorted({s for g, _ in e[1] for s in symbols(g)})
    return symbols(e[1])


def dense(M):
    n = len(M)
    U = np.zeros((n, n), dtype=complex)
    for c, col in enumerate(M):
        for r, v in col.items():
            U[r, c] = v
    return U


def show(e):
    t = e[0]
    if t == "gate":
        return f"{e[1]}({', '.join(map(str, e[2]))})" if e[2] else e[1]
    if t == "inv":
        return f"({show(e[1])})^-1"
    if t == "ctrl":
        return f"control[{e[3]}{'' if len(e) < 5 or e[4] is None else ',' + str(e[4])}]({show(e[1])})"
    if t == "circ":
        return "circuit[" + "; ".join(f"{show(g)}@{list(q)}" for g, q in e[1]) + "]"
    return f"{t}({show(e[1])})"


def random_expr(r, depth, maxw, sym=True, methods=(None,), names=None):
    if depth == 0 or r.random() < .15:
        g = r.choice(names or list(GATES))
        return ["gate", g, [(r.choice("abc") if sym else round(r.uniform(-7, 7), 3)) for _ in range(GATES[g][1])]]
    k = r.choice(["inv", "ctrl", "ctrl", "circ", "wrap", "copy", "inv"])
    e = random_expr(r, depth - 1, maxw, sym, methods, names)
    if k in ("inv", "copy", "wrap"):
        return [k, e]
    if k == "ctrl":
        room = maxw - width(e)
        if room < 1:
            return ["inv", e]
        n = r.randint(1, min(room, 3))
        cs = r.choice(["".join(r.choice("01") for _ in range(n)), -1, r.randrange(1 << n)])
        return ["ctrl", e, n, cs, r.choice(methods)]
    n = r.randint(width(e), maxw)
    items = [[e, r.sample(range(n), width(e))]]
    for _ in range(r.randint(1, 2)):
        f = random_expr(r, 0, n, sym, methods, names)
        if width(f) <= n:
            items.append([f, r.sample(range(n), width(f))])
    r.shuffle(items)
    return ["circ", items, n]
