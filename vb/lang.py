"""Small program language over the quantum environments with a denotational (matrix) semantics.

A program is a JSON tree; `denote` gives its unitary directly from the meaning of the blocks (control, inversion, conjugation, repetition,
wrapping, condition), `Runner` executes the same tree through the real environments, directly or while tracing.
Qubits are global indices of the data registers; index 0 is the least significant bit."""
import cmath
import math

import numpy as np

SIZES = (2, 2, 1)       # registers: two unsigned numbers and one bool
N = sum(SIZES)
NP = {"h": 0, "x": 0, "y": 0, "z": 0, "s": 0, "t": 0, "s_dg": 0, "t_dg": 0, "sx": 0, "rx": 1, "ry": 1, "rz": 1, "p": 1, "u3": 3,
      "cx": 0, "cz": 0, "cy": 0, "cp": 1, "crx": 1, "swap": 0, "rzz": 1, "ccx": 0, "gphase": 1}
NQ = {"cx": 2, "cz": 2, "cy": 2, "cp": 2, "crx": 2, "swap": 2, "rzz": 2, "ccx": 3}
LEAF = list(NP)


def m1(name, a=()):
    h = math.sqrt(.5)
    e = cmath.exp
    if name == "h":
        return [[h, h], [h, -h]]
    if name == "x":
        return [[0, 1], [1, 0]]
    if name == "y":
        return [[0, -1j], [1j, 0]]
    d = {"z": math.pi, "s": math.pi / 2, "t": math.pi / 4, "s_dg": -math.pi / 2, "t_dg": -math.pi / 4}
    if name in d:
        return [[1, 0], [0, e(1j * d[name])]]
    if name == "sx":
        return [[h, -1j * h], [-1j * h, h]]
    if name in ("p", "cp"):
        return [[1, 0], [0, e(1j * a[0])]]
    if name == "gphase":
        return [[e(1j * a[0]), 0], [0, e(1j * a[0])]]
    c, s = math.cos(a[0] / 2), math.sin(a[0] / 2)
    if name in ("rx", "crx"):
        return [[c, -1j * s], [-1j * s, c]]
    if name == "ry":
        return [[c, -s], [s, c]]
    if name == "rz":
        return [[e(-.5j * a[0]), 0], [0, e(.5j * a[0])]]
    if name == "u3":
        return [[c, -e(1j * a[2]) * s], [e(1j * a[1]) * s, e(1j * (a[1] + a[2])) * c]]
    raise KeyError(name)


def lift(m, q, n=N):
    m = np.array(m, dtype=complex)
    U = np.zeros((1 << n, 1 << n), dtype=complex)
    for x in range(1 << n):
        for v in (0, 1):
            U[x & ~(1 << q) | v << q, x] += m[v, x >> q & 1]
    return U


def on(pred, U, n=N):
    """U where pred(x) holds, identity elsewhere (U must preserve pred)"""
    R = np.eye(1 << n, dtype=complex)
    for x in range(1 << n):
        if pred(x):
            R[:, x] = U[:, x]
    return R


def gate(name, a, qs, n=N):
    if name in ("cx", "cy", "cz", "cp", "crx"):
        return on(lambda x: x >> qs[0] & 1, lift(m1({"cx": "x", "cy": "y", "cz": "z"}.get(name, name), a), qs[1], n), n)
    if name == "ccx":
        return on(lambda x: x >> qs[0] & 1 and x >> qs[1] & 1, lift(m1("x"), qs[2], n), n)
    if name == "swap":
        U = np.zeros((1 << n, 1 << n), dtype=complex)
        for x in range(1 << n):
            i, j = x >> qs[0] & 1, x >> qs[1] & 1
            U[x & ~(1 << qs[0]) & ~(1 << qs[1]) | j << qs[0] | i << qs[1], x] = 1
        return U
    if name == "rzz":
        return np.diag([cmath.exp(-.5j * a[0] * (1 if (x >> qs[0] ^ x >> qs[1]) & 1 == 0 else -1)) for x in range(1 << n)])
    return lift(m1(name, a), qs[0], n)


def off(reg):
    return sum(SIZES[:reg])


def val(x, reg):
    return x >> off(reg) & ((1 << SIZES[reg]) - 1)


def cond(c, x):
    """truth value of a condition description on basis state x"""
    k = c[0]
    if k == "eqc":
        return val(x, c[1]) == c[2]
    if k == "eq":
        return val(x, 0) == val(x, 1)
    if k == "lt":
        return val(x, c[1]) < c[2]
    if k == "ge":
        return val(x, c[1]) >= c[2]
    if k == "bool":
        return bool(x >> off(2) & 1)
    if k == "and":
        return cond(c[1], x) and cond(c[2], x)
    if k == "or":
        return cond(c[1], x) or cond(c[2], x)
    if k == "not":
        return not cond(c[1], x)
    raise KeyError(k)


def pattern(qs, state):
    """ctrl_state: None (all ones), int (bit i of the int <-> qubit i) or string (character i <-> qubit i)"""
    if state is None:
        return [1] * len(qs)
    if isinstance(state, str):
        return [int(c) for c in state]
    return [state >> i & 1 for i in range(len(qs))]


def denote(prog, n=N):
    U = np.eye(1 << n, dtype=complex)
    for st in prog:
        U = denote1(st, n) @ U
    return U


def denote1(st, n=N):
    k = st[0]
    if k == "g":
        return gate(st[1], st[2], st[3], n)
    if k == "control":
        _, qs, state, inv, body = st[:5]
        pat = pattern(qs, state)
        return on(lambda x: all((x >> q & 1) == b for q, b in zip(qs, pat)) != bool(inv), denote(body, n), n)
    if k == "ctrlp":        # control block whose body additionally acts on the truth value
        _, qs, state, kind, a, body = st
        pat = pattern(qs, state)
        t = lambda x: all((x >> q & 1) == b for q, b in zip(qs, pat))
        ph = {"p": (0, a), "rz": (-a / 2, a / 2)}[kind]
        D = np.diag([cmath.exp(1j * ph[int(t(x))]) for x in range(1 << n)])
        return on(t, denote(body, n), n) @ D
    if k == "cond":
        return on(lambda x: cond(st[1], x), denote(st[2], n), n)
    if k == "condx":        # condition block with an else part: body, flip of the truth value, other body
        U = on(lambda x: cond(st[1], x), denote(st[2], n), n)
        return on(lambda x: not cond(st[1], x), denote(st[3], n), n) @ U
    if k == "invert":
        return denote(st[1], n).conj().T
    if k == "conj":
        C = denote(st[1], n)
        return C.conj().T @ denote(st[2], n) @ C
    if k == "iter":
        return np.linalg.matrix_power(denote(st[2], n), st[1])
    if k in ("wrap", "env"):
        return denote(st[1], n)
    if k == "cusc":         # function with custom control: frame (not controlled) around a payload
        C = denote(st[1], n)
        return C.conj().T @ denote(st[2], n) @ C
    if k == "clctrl":
        _, bits, state, inv, body = st
        t = all(int(b) == p for b, p in zip(bits, pattern(bits, state)))
        return denote(body, n) if t != bool(inv) else np.eye(1 << n)
    if k == "anc":          # temporary bool := AND of qubits; block controlled on it; uncomputed and deleted
        return on(lambda x: all(x >> q & 1 for q in st[1]), denote(st[2], n), n)
    if k == "tmp":          # temporary that is allocated, toggled and released: identity around a body
        return denote(st[2], n)
    raise KeyError(k)


def support(prog):
    """qubits a program acts on (reads or writes)"""
    s = set()
    for st in prog:
        k = st[0]
        if k == "g":
            s |= set(st[3])
        elif k in ("control", "ctrlp", "anc"):
            s |= set(st[1]) | support(st[-1])
        elif k in ("cond", "condx"):
            s |= set(cond_qubits(st[1])) | set().union(*[support(b) for b in st[2:]])
        elif k in ("conj", "cusc"):
            s |= support(st[1]) | support(st[2])
        elif k == "tmp":
            s |= set(st[1]) | support(st[2])
        else:
            s |= support(st[-1])
    return s


def cond_qubits(c):
    k = c[0]
    if k in ("and", "or"):
        return cond_qubits(c[1]) + cond_qubits(c[2])
    if k == "not":
        return cond_qubits(c[1])
    if k == "eq":
        return list(range(4))
    r = 2 if k == "bool" else c[1]
    return list(range(off(r), off(r) + SIZES[r]))


def depth(prog):
    return max([0] + [1 + max([0] + [depth(b) for b in st if isinstance(b, list) and b and isinstance(b[0], list)]) if st[0] != "g" else 0 for st in prog])


def leaf(r, qs, kinds=LEAF):
    while True:
        g = r.choice(kinds)
        k = NQ.get(g, 1)
        if k <= len(qs):
            return ["g", g, [round(r.uniform(-3, 3), 3) for _ in range(NP[g])], r.sample(qs, k)]


def rand_cond(r, avail, compound=True):
    opts = []
    if set(range(0, 2)) <= avail:
        opts += [["eqc", 0, r.randrange(4)], ["lt", 0, r.randrange(1, 4)], ["ge", 0, r.randrange(1, 4)]]
    if set(range(2, 4)) <= avail:
        opts += [["eqc", 1, r.randrange(4)], ["lt", 1, r.randrange(1, 4)]]
    if set(range(0, 4)) <= avail:
        opts += [["eq"]]
    if 4 in avail:
        opts += [["bool"]]
    return r.choice(opts) if opts else None


def rand_prog(r, d, qs, kinds, ln=3):
    """random program on qubits qs with nesting depth <= d using block kinds"""
    out = []
    for _ in range(r.randint(1, ln)):
        if d == 0 or r.random() < .35 or len(qs) < 2:
            out.append(leaf(r, qs))
            continue
        k = r.choice(kinds)
        if k in ("control", "ctrlp", "anc"):
            m = min(len(qs) - 1, r.choice([1, 1, 2, 2, 3]))
            if k == "anc":
                m = min(m, 2)
            c = r.sample(qs, m)
            rest = [q for q in qs if q not in c]
            state = None if r.random() < .4 else (r.randrange(1 << m) if r.random() < .5 else "".join(r.choice("01") for _ in range(m)))
            body = rand_prog(r, d - 1, rest, kinds, ln)
            if k == "control":
                out.append(["control", c, state, int(r.random() < .25), body])
            elif k == "ctrlp":
                if m == 1:      # the truth value of a single control is the control qubit itself
                    state = None
                out.append(["ctrlp", c, state, r.choice(["p", "rz"]), round(r.uniform(-3, 3), 3), body])
            else:
                out.append(["anc", c, body])
        elif k in ("cond", "condx"):
            c = rand_cond(r, set(qs))
            if c is None:
                continue
            rest = [q for q in qs if q not in cond_qubits(c)]
            if not rest:
                continue
            if c[0] in ("lt", "ge", "eq"):
                k = "cond"
            st = [k, c, rand_prog(r, d - 1, rest, kinds, ln)]
            if k == "condx":
                st.append(rand_prog(r, d - 1, rest, kinds, ln))
            out.append(st)
        elif k in ("invert", "wrap", "env"):
            out.append([k, rand_prog(r, d - 1, qs, kinds, ln)])
        elif k in ("conj", "cusc"):
            out.append([k, [leaf(r, qs) for _ in range(r.randint(1, 2))], rand_prog(r, d - 1, qs, kinds, ln)])
        elif k == "iter":
            # documented: no variables may be created or deleted inside
            out.append([k, r.randint(1, 3), rand_prog(r, d - 1, qs, [x for x in kinds if x not in ("cond", "condx", "anc", "tmp")] or ["invert"], ln)])
        elif k == "clctrl":
            m = r.choice([1, 1, 2, 3])
            state = None if r.random() < .3 else (r.randrange(1 << m) if r.random() < .5 else "".join(r.choice("01") for _ in range(m)))
            pat = pattern([0] * m, state)
            bits = pat if r.random() < .6 else [r.randrange(2) for _ in range(m)]
            out.append([k, bits, state, int(r.random() < .25), rand_prog(r, d - 1, qs, kinds, ln)])
        elif k == "tmp":
            out.append([k, [r.choice(qs)], rand_prog(r, d - 1, qs, kinds, ln)])
    return out


def is_value(v, c):
    from qrisp import QuantumBool, mcx
    res = QuantumBool()
    mcx(list(v), res[0], ctrl_state=c)
    return res


class Runner:
    """executes a program through the real environments; vars: the three registers"""

    def __init__(self, vars, traced=False, opts=None, sizes=SIZES):
        self.v, self.traced, self.o, self.sizes = vars, traced, opts or {}, sizes

    def q(self, i):
        for v, s in zip(self.v, self.sizes):
            if i < s:
                return v[i]
            i -= s

    def gate(self, st):
        import qrisp
        _, name, a, qs = st
        q = [self.q(i) for i in qs]
        if name == "ccx":
            qrisp.mcx(q[:2], q[2])
        elif name == "crx":
            with qrisp.control(q[0]):
                qrisp.rx(a[0], q[1])
        else:
            getattr(qrisp, name)(*a, *q)

    def run(self, prog):
        for st in prog:
            self.one(st)

    def one(self, st):
        import qrisp
        k = st[0]
        if k == "g":
            return self.gate(st)
        if k == "control":
            kw = {} if st[2] is None else {"ctrl_state": st[2]}
            if st[3]:
                kw["invert"] = True
            if self.o.get("ctrl_method"):
                kw["ctrl_method"] = self.o["ctrl_method"]
            c = [self.q(i) for i in st[1]]
            with qrisp.control(c if len(c) > 1 else c[0], **kw):
                self.run(st[4])
        elif k == "ctrlp":
            kw = {} if st[2] is None else {"ctrl_state": st[2]}
            c = [self.q(i) for i in st[1]]
            with qrisp.control(c if len(c) > 1 else c[0], **kw) as t:
                getattr(qrisp, st[3])(st[4], t)
                self.run(st[5])
        elif k in ("cond", "condx"):
            self.cond(st)
        elif k == "invert":
            with qrisp.invert():
                self.run(st[1])
        elif k == "conj":
            with qrisp.conjugate(self.frame)(*self.v, prog=st[1]):
                self.run(st[2])
        elif k == "iter":
            if self.traced:
                from qrisp import jrange
                import jax.numpy as jnp
                for _ in jrange(jnp.int64(st[1])):
                    self.run(st[2])
            else:
                qrisp.merge([v.qs for v in self.v])
                with qrisp.IterationEnvironment(self.v[0].qs, st[1], precompile=self.o.get("precompile", False)):
                    self.run(st[2])
        elif k == "wrap":
            with qrisp.GateWrapEnvironment("wrapped"):
                self.run(st[1])
        elif k == "env":
            with qrisp.QuantumEnvironment():
                self.run(st[1])
        elif k == "cusc":
            self.cusc(st)
        elif k == "clctrl":
            kw = {} if st[2] is None else {"ctrl_state": st[2]}
            if st[3]:
                kw["invert"] = True
            bits = [bool(b) for b in st[1]]
            if self.traced:
                import jax.numpy as jnp
                bits = [jnp.asarray(b) ^ (jnp.asarray(self.dyn) != 0) for b in bits]
            with qrisp.control(bits, **kw):
                self.run(st[4])
        elif k == "anc":
            t = qrisp.QuantumBool()
            c = [self.q(i) for i in st[1]]
            qrisp.mcx(c, t[0])
            with qrisp.control(t[0]):
                self.run(st[2])
            with qrisp.invert():
                qrisp.mcx(c, t[0])
            t.delete()
        elif k == "tmp":
            t = qrisp.QuantumBool()
            qrisp.cx(self.q(st[1][0]), t[0])
            qrisp.cx(self.q(st[1][0]), t[0])
            self.run(st[2])
            t.delete()
        else:
            raise KeyError(k)

    dyn = 0

    def frame(self, *v, prog=()):
        Runner(v, self.traced, self.o, self.sizes).run(prog)

    def cusc(self, st):
        import qrisp
        from qrisp import control, custom_control
        run = self

        def payload(a, b, c, dyn, ctrl=None):
            R = Runner((a, b, c), run.traced, run.o, run.sizes)
            R.dyn = dyn
            R.run(st[1])
            if ctrl is not None:
                with control(ctrl):
                    R.run(st[2])
            else:
                R.run(st[2])
            with qrisp.invert():
                R.run(st[1])
        custom_control(payload)(*self.v, self.dyn)

    def cond(self, st):
        import qrisp
        from qrisp import q_eq
        c = st[1]
        a, b, t = self.v
        k = c[0]
        if k == "eqc":
            v = self.v[c[1]]
            if self.o.get("cond") == "qc" or st[0] == "condx":
                with qrisp.quantum_condition(is_value)(v, c[2]) as tv:
                    self.body(st, tv)
            elif self.o.get("cond") == "q_eq":
                with q_eq(v, c[2]):
                    self.run(st[2])
            else:
                with v == c[2] as tv:
                    self.body(st, tv)
        elif k == "eq":
            if self.o.get("cond") == "q_eq":
                with q_eq(a, b) as tv:
                    self.body(st, tv)
            else:
                with a == b as tv:
                    self.body(st, tv)
        elif k == "lt":
            v = self.v[c[1]]
            with v < c[2] as tv:
                self.body(st, tv)
        elif k == "ge":
            v = self.v[c[1]]
            with v >= c[2] as tv:
                self.body(st, tv)
        elif k == "bool":
            if st[0] == "condx":
                with t:
                    self.run(st[2])
                with qrisp.control(t[0], ctrl_state=0):
                    self.run(st[3])
            else:
                with t:
                    self.run(st[2])

    def body(self, st, tv):
        import qrisp
        self.run(st[2])
        if st[0] == "condx":
            qrisp.x(tv[0] if hasattr(tv, "reg") else tv)
            self.run(st[3])
