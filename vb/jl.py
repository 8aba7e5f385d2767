"""Language of dynamic programs (registers of argument-dependent size, classical values, loops, branches, slices, subroutines, measurements)
with a reference interpreter (`Ref`) and an executor through the real package (`Run`, directly or while tracing).

program = {"regs": [[kind, size expression], ...], "fns": [{"regs": n, "ints": m, "body": [...]}, ...], "body": [...], "ret": [...]}
integer expression: int | ["a", i] argument | ["v", name] | ["n", R] size of a register expression | [op, e, e]
truth value: ["b", name] measured bit | ["lt"|"eq"|"ge", e, e] | ["not", c] | ["and"|"or", c, c]
register expression R: register number | ["sl", R, lo, hi] (lo, hi: expression or None) | ["cat", R, R]
                       | ["qb", qubit reference] (single qubit passed to a subroutine)
qubit reference: ["q", R, e] (index e modulo size) | ["k", R, int] (literal index)"""
import cmath

from vb.lang import NP, m1

TWO = {"cx": "x", "cy": "y", "cz": "z", "cp": "p", "crx": "rx"}
SELF = {"h", "x", "y", "z", "swap"}
INVN = {"s": "s_dg", "s_dg": "s", "t": "t_dg", "t_dg": "t"}
EPS = 1e-10


class Stop(Exception):
    pass


# ------------------------------------------------------------------------------------------------- reference
class Ref:
    """executes a program on a sparse state; measurement outcomes are taken from `choices` (extended with the first possible outcome)"""

    def __init__(self, prog, args, choices=(), limit=20000):
        self.p, self.args = prog, args
        self.choices, self.taken, self.alts = list(choices), [], []
        self.st, self.nq, self.prob = {0: 1.}, 0, 1.
        self.rec = [None]
        self.ops, self.limit = [], limit
        self.env = {}
        self.regs = [self.alloc(1 if k == "bool" else self.e(s[0], [])) for k, *s in prog["regs"]]
        self.nstep = 0

    # values
    def e(self, x, regs):
        if isinstance(x, int):
            return x
        k = x[0]
        if k == "a":
            return self.args[x[1]]
        if k == "v":
            return self.env[x[1]]
        if k == "n":
            return len(self.R(x[1], regs))
        a, b = self.e(x[1], regs), self.e(x[2], regs)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b, "//": lambda: a // b, "^": lambda: a ^ b, "&": lambda: a & b}[k]()

    def c(self, x, regs):
        k = x[0]
        if k == "b":
            return bool(self.env[x[1]])
        if k == "not":
            return not self.c(x[1], regs)
        if k in ("and", "or"):
            a, b = self.c(x[1], regs), self.c(x[2], regs)
            return a and b if k == "and" else a or b
        a, b = self.e(x[1], regs), self.e(x[2], regs)
        return {"lt": a < b, "eq": a == b, "ge": a >= b}[k]

    def R(self, r, regs):
        if isinstance(r, int):
            return regs[r]
        if r[0] == "qb":
            return [self.q(r[1], regs)]
        if r[0] == "sl":
            q = self.R(r[1], regs)
            return q[slice(None if r[2] is None else self.e(r[2], regs), None if r[3] is None else self.e(r[3], regs))]
        return self.R(r[1], regs) + self.R(r[2], regs)

    def q(self, x, regs):
        r = self.R(x[1], regs)
        return r[x[2]] if x[0] == "k" else r[self.e(x[2], regs) % len(r)]

    # state
    def alloc(self, n):
        self.nq += n
        return list(range(self.nq - n, self.nq))

    def emit(self, op):
        self.nstep += 1
        if self.nstep > self.limit:
            raise Stop("program too long")
        if self.rec[-1] is not None:
            self.rec[-1].append(op)
        else:
            self.apply(op)

    def apply(self, op):
        m, q, ctl = op
        out = {}
        for k, v in self.st.items():
            if any(not k >> c & 1 for c in ctl):
                out[k] = out.get(k, 0) + v
                continue
            if isinstance(q, tuple):        # swap
                i, j = k >> q[0] & 1, k >> q[1] & 1
                t = k & ~(1 << q[0]) & ~(1 << q[1]) | j << q[0] | i << q[1]
                out[t] = out.get(t, 0) + v
                continue
            b = k >> q & 1
            for w in (0, 1):
                a = m[w][b]
                if a:
                    t = k & ~(1 << q) | w << q
                    out[t] = out.get(t, 0) + a * v
        self.st = {k: v for k, v in out.items() if abs(v) > 1e-12}

    @staticmethod
    def dagger(op):
        m, q, ctl = op
        if m is None:
            return op
        return [[complex(m[j][i]).conjugate() for j in (0, 1)] for i in (0, 1)], q, ctl

    def gate(self, name, a, qs):
        if len(set(qs)) != len(qs):
            raise Stop("operands not distinct")
        if name == "swap":
            self.emit((None, tuple(qs), ()))
        elif name == "ccx":
            self.emit((m1("x"), qs[2], tuple(qs[:2])))
        elif name in TWO:
            self.emit((m1(TWO[name], a), qs[1], (qs[0],)))
        elif name == "rzz":
            x = (m1("x"), qs[1], (qs[0],))
            for o in (x, (m1("rz", a), qs[1], ()), x):
                self.emit(o)
        else:
            self.emit((m1(name, a), qs[0], ()))

    def measure(self, q):
        p1 = sum(abs(v) ** 2 for k, v in self.st.items() if k >> q & 1)
        i = len(self.taken)
        if i < len(self.choices):
            o = self.choices[i]
        else:
            o = 1 if p1 > .5 else 0
            if EPS < p1 < 1 - EPS:
                self.alts.append(self.taken + [1 - o])
        self.taken.append(o)
        pr = p1 if o else 1 - p1
        self.prob *= pr
        s = pr ** -.5
        self.st = {k: v * s for k, v in self.st.items() if (k >> q & 1) == o}
        return o

    # statements
    def run(self):
        self.block(self.p["body"], self.regs)
        return self

    def block(self, body, regs):
        for st in body:
            self.one(st, regs)

    def local(self, body, regs):
        """block whose new names stay local"""
        keys = set(self.env)
        self.block(body, regs)
        self.env = {k: v for k, v in self.env.items() if k in keys}

    def one(self, st, regs):
        k = st[0]
        if k == "g":
            a = [x if isinstance(x, float) else self.e(x, regs) * .37 for x in st[2]]
            self.gate(st[1], a, [self.q(x, regs) for x in st[3]])
        elif k == "set":
            self.env[st[1]] = self.e(st[2], regs)
        elif k in ("for", "fori"):
            lo, hi = self.e(st[2], regs), self.e(st[3], regs)
            for i in range(lo, hi):
                keys = set(self.env)
                self.env[st[1]] = i
                self.block(st[4], regs)
                self.env = {n: v for n, v in self.env.items() if n in keys}
        elif k == "while":
            i = 0
            while self.c(st[1], regs):
                self.local(st[2], regs)
                i += 1
                if i > 50:
                    raise Stop("long loop")
        elif k in ("if", "ifc"):
            self.local(st[2] if self.c(st[1], regs) else st[3], regs)
        elif k == "switch":
            self.local(st[2][self.e(st[1], regs)], regs)
        elif k == "meas":
            self.env[st[1]] = self.measure(self.q(st[2], regs))
        elif k == "measr":
            self.env[st[1]] = sum(self.measure(q) << i for i, q in enumerate(self.R(st[2], regs)))
        elif k == "reset":
            q = self.q(st[1], regs)
            if self.measure(q):
                self.apply((m1("x"), q, ()))
        elif k == "resetr":
            for q in self.R(st[1], regs):
                if self.measure(q):
                    self.apply((m1("x"), q, ()))
        elif k == "call":
            f = self.p["fns"][st[1]]
            sub = [self.R(r, regs) for r in st[2]]
            env, self.env = self.env, {f"i{j}": self.e(x, regs) for j, x in enumerate(st[3])}
            self.block(f["body"], sub)
            self.env, inner = env, self.env
            if st[4] is not None:
                self.env[st[4]] = inner["out"]
        elif k == "inv":
            self.rec.append([])
            self.local(st[1], regs)
            for o in reversed(self.rec.pop()):
                self.emit(self.dagger(o))
        elif k == "ctl":
            c = [self.q(x, regs) for x in st[1]]
            self.rec.append([])
            self.local(st[2], regs)
            for m, q, ctl in self.rec.pop():
                if set(c) & ({*q} if isinstance(q, tuple) else {q}):
                    raise Stop("control qubit modified")
                self.emit((m, q, tuple(ctl) + tuple(x for x in c if x not in ctl)))
        elif k == "conj":
            self.rec.append([])
            self.local(st[1], regs)
            ops = self.rec.pop()
            for o in ops:
                self.emit(o)
            self.local(st[2], regs)
            for o in reversed(ops):
                self.emit(self.dagger(o))
        elif k == "tmp":    # temporary register of given size: block, undone, released
            t = self.alloc(self.e(st[1], regs))
            self.block(st[2], regs + [t])
        else:
            raise KeyError(k)


def outcomes(prog, args, limit=64):
    """all measurement branches: list of finished Ref objects"""
    todo, done = [[]], []
    while todo:
        r = Ref(prog, args, todo.pop()).run()
        todo += r.alts
        done.append(r)
        if len(todo) + len(done) > limit:
            raise Stop("too many branches")
    return done


def distribution(prog, args, limit=64, ints=()):
    """{(values of the data registers..., values of named integers...): probability}"""
    d = {}
    for r in outcomes(prog, args, limit):
        for k, v in r.st.items():
            key = tuple(sum((k >> q & 1) << i for i, q in enumerate(reg)) for reg in r.regs) + tuple(int(r.env[n]) for n in ints)
            d[key] = d.get(key, 0.) + r.prob * abs(v) ** 2
    return {k: v for k, v in d.items() if v > EPS}


# ------------------------------------------------------------------------------------------------- real package
def single(x):
    """is x a single qubit (of a circuit or traced)?"""
    return type(x).__name__ == "Qubit" or type(getattr(x, "aval", None)).__name__ == "AbstractQubit"


class Run:
    """executes a program through the package"""

    def __init__(self, prog, args, traced, qached=True):
        self.p, self.args, self.traced, self.qached = prog, args, traced, qached
        self.env, self.fn = {}, {}

    def regs(self):
        import qrisp
        out = []
        for k, *s in self.p["regs"]:
            if k == "bool":
                out.append(qrisp.QuantumBool())
            elif k == "float":
                out.append(qrisp.QuantumFloat(self.e(s[0], [])))
            else:
                out.append(qrisp.QuantumVariable(self.e(s[0], [])))
        return out

    def size(self, r):
        from qrisp.jasp import jlen
        return r.size if hasattr(r, "size") else jlen(r)

    def R(self, r, regs):
        if isinstance(r, int):
            return regs[r]
        if r[0] == "qb":
            return self.q(r[1], regs)
        if r[0] == "sl":
            q = self.R(r[1], regs)
            return q[slice(None if r[2] is None else self.e(r[2], regs), None if r[3] is None else self.e(r[3], regs))]
        a, b = self.R(r[1], regs), self.R(r[2], regs)
        return ([a] if single(a) else a[:]) + ([b] if single(b) else b[:])

    def e(self, x, regs):
        if isinstance(x, int):
            return x
        k = x[0]
        if k == "a":
            return self.args[x[1]]
        if k == "v":
            return self.env[x[1]]
        if k == "n":
            return self.size(self.R(x[1], regs))
        a, b = self.e(x[1], regs), self.e(x[2], regs)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b, "//": lambda: a // b, "^": lambda: a ^ b, "&": lambda: a & b}[k]()

    def c(self, x, regs):
        k = x[0]
        if k == "b":
            return self.env[x[1]]
        if k in ("not", "and", "or"):
            if not self.traced:
                return Ref.c(self, x, regs)
            import jax.numpy as jnp
            v = [jnp.asarray(self.c(y, regs)) for y in x[1:]]
            return {"not": lambda: jnp.logical_not(v[0]), "and": lambda: v[0] & v[1], "or": lambda: v[0] | v[1]}[k]()
        a, b = self.e(x[1], regs), self.e(x[2], regs)
        return {"lt": lambda: a < b, "eq": lambda: a == b, "ge": lambda: a >= b}[k]()

    def q(self, x, regs):
        r = self.R(x[1], regs)
        if single(r):
            return r
        return r[x[2]] if x[0] == "k" else r[self.e(x[2], regs) % self.size(r)]

    def scalar(self, x):
        """integer value that may change its value while tracing"""
        if not self.traced:
            return x
        import jax.numpy as jnp
        if isinstance(x, bool) or getattr(x, "dtype", None) == bool:
            return x
        return jnp.asarray(x, dtype="int64")    # also fixes weakly typed arguments

    def block(self, body, regs):
        for st in body:
            self.one(st, regs)

    def local(self, body, regs):
        keys = set(self.env)
        self.block(body, regs)
        self.env = {k: v for k, v in self.env.items() if k in keys}

    def pack(self):
        n = sorted(self.env)
        return n, tuple(self.scalar(self.env[k]) for k in n)

    def functional(self, body, n, nregs, extra=()):
        """block as a function of (extra names..., scalars, registers) returning the scalars"""
        def f(*ops):
            sub = Run(self.p, self.args, self.traced, self.qached)
            sub.fn = self.fn
            ex, sc, rg = ops[:len(extra)], ops[len(extra):len(extra) + len(n)], ops[len(extra) + len(n):]
            sub.args = self.args
            sub.env = dict(zip(n, sc))
            sub.env.update(zip(extra, ex))
            sub.block(body, list(rg))
            return tuple(sub.scalar(sub.env[k]) for k in n)
        return f

    def one(self, st, regs):
        import qrisp
        from qrisp import jrange
        k = st[0]
        if k == "g":
            a = [x if isinstance(x, float) else self.e(x, regs) * .37 for x in st[2]]
            q = [self.q(x, regs) for x in st[3]]
            name = st[1]
            if name == "ccx":
                qrisp.mcx(q[:2], q[2])
            elif name == "crx":
                with qrisp.control(q[0]):
                    qrisp.rx(a[0], q[1])
            else:
                getattr(qrisp, name)(*a, *q)
        elif k == "set":
            self.env[st[1]] = self.scalar(self.e(st[2], regs))
        elif k == "for":
            lo, hi = self.e(st[2], regs), self.e(st[3], regs)
            names = set(self.env)
            for i in (jrange(hi) if st[2] == 0 else jrange(lo, hi)):
                self.env[st[1]] = i
                self.block(st[4], regs)
                self.env = {n: v for n, v in self.env.items() if n in names}
        elif k == "fori":
            from qrisp import q_fori_loop
            n, sc = self.pack()
            f = self.functional(st[4], n, len(regs), (st[1],))
            lo, hi = self.scalar(self.e(st[2], regs)), self.scalar(self.e(st[3], regs))
            res = q_fori_loop(lo, hi, lambda i, v: (f(i, *v[0], *v[1]), v[1]), (sc, tuple(regs)))
            self.env.update(zip(n, res[0]))
        elif k == "while":
            from qrisp import q_while_loop
            n, sc = self.pack()
            f = self.functional(st[2], n, len(regs))

            def cond(v):
                sub = Run(self.p, v[2], self.traced)
                sub.env = dict(zip(n, v[0]))
                return sub.c(st[1], regs)
            res = q_while_loop(cond, lambda v: (f(*v[0], *v[1]), v[1], v[2]), (sc, tuple(regs), tuple(self.scalar(a) for a in self.args)))
            self.env.update(zip(n, res[0]))
        elif k == "if":
            from qrisp import q_cond
            n, sc = self.pack()
            res = q_cond(self.c(st[1], regs), self.functional(st[2], n, len(regs)), self.functional(st[3], n, len(regs)), *sc, *regs)
            self.env.update(zip(n, res))
        elif k == "ifc":
            c = self.c(st[1], regs)
            with qrisp.control(c):
                self.local(st[2], regs)
            if st[3]:
                with qrisp.control(c, ctrl_state=0):
                    self.local(st[3], regs)
        elif k == "switch":
            n, sc = self.pack()
            res = qrisp.q_switch(self.scalar(self.e(st[1], regs)), [self.functional(b, n, len(regs)) for b in st[2]], *sc, *regs)
            self.env.update(zip(n, res))
        elif k == "meas":
            self.env[st[1]] = qrisp.measure(self.q(st[2], regs))
        elif k == "measr":
            import jax.numpy as jnp
            self.env[st[1]] = jnp.asarray(qrisp.measure(self.R(st[2], regs)), dtype="int64")
        elif k == "reset":
            qrisp.reset(self.q(st[1], regs))
        elif k == "resetr":
            qrisp.reset(self.R(st[1], regs))
        elif k == "call":
            f = self.function(st[1], regs, st)
            out = f(*[self.R(r, regs) for r in st[2]], *[self.scalar(self.e(x, regs)) for x in st[3]])
            if st[4] is not None:
                self.env[st[4]] = out
        elif k == "inv":
            with qrisp.invert():
                self.local(st[1], regs)
        elif k == "ctl":
            c = [self.q(x, regs) for x in st[1]]
            with qrisp.control(c if len(c) > 1 else c[0]):
                self.local(st[2], regs)
        elif k == "conj":
            n, sc = self.pack()
            with qrisp.conjugate(self.functional(st[1], n, len(regs)))(*sc, *regs):
                self.local(st[2], regs)
        elif k == "tmp":
            t = qrisp.QuantumVariable(self.e(st[1], regs))
            self.block(st[2], regs + [t])
            t.delete()
        else:
            raise KeyError(k)

    def function(self, i, regs, st):
        """subroutine i; cached so that repeated calls reuse the traced function"""
        if i not in self.fn:
            d = self.p["fns"][i]

            def f(*a):
                sub = Run(self.p, (), self.traced, self.qached)
                sub.fn = self.fn
                sub.env = {f"i{j}": x for j, x in enumerate(a[d["regs"]:])}
                sub.block(d["body"], list(a[:d["regs"]]))
                return sub.env["out"] if d.get("out") else None
            f.__name__ = f"sub{i}"
            if d.get("qached", True) and self.traced:
                from qrisp import qache
                f = qache(f)
            self.fn[i] = f
        return self.fn[i]


# ------------------------------------------------------------------------------------------------- generator
class Gen:
    """random programs; self.lo[i] is a lower bound for the size of register i"""

    def __init__(self, r, nargs=2, classical=False, kinds=None, floats=True):
        self.r, self.nargs, self.cl = r, nargs, classical
        self.kinds = kinds or ["g", "g", "for", "if", "ifc", "call", "inv", "ctl", "conj", "tmp", "set", "switch", "fori"]
        self.fns, self.n, self.bits, self.ret, self.top = [], 0, [], [], None

    G1 = ["h", "x", "y", "z", "s", "t", "s_dg", "t_dg", "sx", "rx", "ry", "rz", "p"]
    C1 = ["x", "x", "x", "y", "z"]

    def name(self):
        self.n += 1
        return f"v{self.n}"

    def expr(self, names, d=1, args=True):
        r = self.r
        o = r.random()
        if d == 0 or o < .5:
            c = [["v", n] for n in names] + ([["a", i] for i in range(self.nargs)] if args else [])
            return r.choice(c) if c and r.random() < .75 else r.randrange(0, 4)
        op = r.choice("+++-*%^")
        if op == "%":
            return [op, self.expr(names, d - 1, args), r.randint(2, 4)]
        return [op, self.expr(names, d - 1, args), self.expr(names, d - 1, args)]

    def reg(self, lo, avail, need=1):
        """(register expression, its lower bound) with lower bound >= need"""
        r = self.r
        c = [i for i in avail if lo[i] >= need]
        if not c:
            return None
        i = r.choice(c)
        o = r.random()
        if lo[i] is True and (o > .15 or len(c) == 1):
            return [i, 1]
        if o < .2 and lo[i] - 1 >= need:
            return [["sl", i, 1, None], lo[i] - 1]
        if o < .3 and lo[i] - 1 >= need:
            return [["sl", i, None, ["-", ["n", i], 1]], lo[i] - 1]
        if o < .38 and len(c) > 1:
            j = r.choice([x for x in c if x != i])
            if lo[i] is True and lo[j] is True:
                return [i, 1]
            return [["cat", i, j], lo[i] + lo[j]]
        return [i, lo[i]]

    def base(self, R):
        return {R} if isinstance(R, int) else self.base(R[1][1]) if R[0] == "qb" else self.base(R[1]) | (self.base(R[2]) if R[0] == "cat" else set())

    def qubits(self, k, lo, avail, names, args=True):
        """k distinct qubit references"""
        r = self.r
        for _ in range(20):
            if k == 1 or r.random() < .5:
                t = self.reg(lo, avail, k)
                if t is None:
                    continue
                e = self.expr(names, 1, args)
                if r.random() < .25:
                    s = r.sample(range(t[1]), k)
                    if k == 1 and r.random() < .4:
                        s = [-1]
                    return [["k", t[0], x] for x in s]
                return [["q", t[0], e if i == 0 else ["+", e, i]] for i in range(k)]
            out, used = [], set()
            for _ in range(k):
                t = self.reg(lo, [i for i in avail if i not in used], 1)
                if t is None:
                    break
                used |= self.base(t[0])
                out.append(["q", t[0], self.expr(names, 1, args)])
            if len(out) == k:
                return out
        return None

    def gate(self, lo, avail, names, args=True):
        r = self.r
        o = r.random()
        if o < .5:
            g, k = r.choice(self.C1 if self.cl else self.G1), 1
        elif o < .85:
            g, k = r.choice(["cx", "cx", "swap"] if self.cl else ["cx", "cz", "cy", "cp", "crx", "swap", "rzz"]), 2
        else:
            g, k = "ccx", 3
        q = self.qubits(k, lo, avail, names, args)
        if q is None:
            q = self.qubits(1, lo, avail, names, args)
            g = "x"
        if q is None:
            return None
        a = [round(r.uniform(-3, 3), 3) if r.random() < .6 else self.expr(names, 1, args) for _ in range(NP[g])]
        return ["g", g, a, q]

    def cond(self, names, args=True, bits=()):
        r = self.r
        if bits and r.random() < .6:
            c = ["b", r.choice(list(bits))]
            return ["not", c] if r.random() < .3 else c
        a, b = self.expr(names, 1, args), self.expr(names, 1, args)
        if isinstance(a, int) and isinstance(b, int):
            a = ["a", 0] if args and self.nargs else (["v", names[0]] if names else a)
        if isinstance(a, int) and isinstance(b, int):
            return None
        return [r.choice(["lt", "eq", "ge"]), a, b]

    def block(self, d, lo, avail, names, args=True, ln=3, rec=False, kinds=None):
        """rec: block lies inside an inverted/controlled block (no measurements, no assignments)"""
        r = self.r
        out = []
        names = list(names)
        kinds = kinds or self.kinds
        nb = len(self.bits)
        for _ in range(r.randint(1, ln)):
            k = "g" if d == 0 else r.choice(kinds)
            st = None
            if k == "set" and not rec:
                if names and r.random() < .6:
                    n = r.choice([x for x in names if x[0] == "v"] or [None])
                    if n is None or n.startswith("vl"):
                        n = self.name()
                else:
                    n = self.name()
                st = ["set", n, ["%", self.expr(names, 2, args), r.randint(3, 9)]]
                if n not in names:
                    names.append(n)
            elif k in ("for", "fori") and not (rec and k == "fori"):
                n = "l" + self.name()
                t = self.reg(lo, avail)
                o = r.random()
                a, hi = 0, ["%", self.expr(names, 1, args), 4]
                if o < .15 and t and lo[t[0] if isinstance(t[0], int) else 0] is not True and isinstance(t[0], int):
                    # arbitrary slice, possibly empty
                    R = ["sl", t[0], r.choice([None, self.expr(names, 0, args), r.randint(-3, 3)]), r.choice([None, self.expr(names, 0, args), r.randint(-3, 3)])]
                    st = [k, n, 0, ["n", R], [["g", "x" if self.cl else "ry", [] if self.cl else [.71], [["q", R, ["v", n]]]]]]
                    out.append(st)
                    continue
                if o < .4 and t and not (isinstance(t[0], int) and lo[t[0]] is True):
                    hi = ["n", t[0]]
                elif o < .6:
                    a = ["%", self.expr(names, 1, args), 3]
                st = [k, n, a, hi, self.block(d - 1, lo, avail, names + [n], args, ln, rec, kinds)]
            elif k in ("if", "ifc"):
                c = self.cond(names, args, () if rec else self.bits)
                if c:
                    if rec:
                        k = "ifc"
                    b = self.block(d - 1, lo, avail, names, args, ln, rec or k == "ifc", kinds)
                    st = [k, c, b, self.block(d - 1, lo, avail, names, args, ln, rec or k == "ifc", kinds) if r.random() < .6 else []]
            elif k == "switch" and not rec:
                m = r.randint(2, 4)
                st = ["switch", ["%", self.expr(names, 1, args), m], [self.block(d - 1, lo, avail, names, args, 2, rec, kinds) for _ in range(m)]]
            elif k == "meas" and not rec:
                n = "m" + self.name()
                q = self.qubits(1, lo, avail, names, args)
                if q:
                    st = ["meas", n, q[0]]
                    self.bits.append(n)
                    if d == self.top:
                        self.ret.append(n)
            elif k == "measr" and not rec:
                t = self.reg(lo, avail)
                if t:
                    n = self.name()
                    st = ["measr", n, t[0]]
                    names.append(n)
                    if d == self.top:
                        self.ret.append(n)
            elif k == "reset" and not rec:
                q = self.qubits(1, lo, avail, names, args)
                if q:
                    st = ["reset", q[0]]
            elif k == "resetr" and not rec:
                t = self.reg(lo, avail)
                if t:
                    st = ["resetr", t[0]]
            elif k == "while" and not rec:
                n = "w" + self.name()
                out.append(["set", n, ["%", self.expr(names, 1, args), 3]])
                c = ["lt", ["v", n], r.randint(1, 4)]
                if self.bits and r.random() < .5:
                    c = ["and", c, ["b", r.choice(self.bits)]]
                body = self.block(d - 1, lo, avail, names + [n], args, ln, rec, kinds)
                if len(c) == 3 and c[0] == "and" and r.random() < .7:
                    q = self.qubits(1, lo, avail, names, args)
                    if q:
                        body.append(["meas", c[2][1], q[0]])
                st = ["while", c, body + [["set", n, ["+", ["v", n], 1]]]]
            elif k == "inv":
                st = ["inv", self.block(d - 1, lo, avail, names, args, ln, True, kinds)]
            elif k == "conj":
                st = ["conj", self.block(0, lo, avail, names, args, 2, True, kinds), self.block(d - 1, lo, avail, names, args, ln, rec, kinds)]
            elif k == "ctl" and len(avail) > 1:
                i = r.choice(avail)
                m = r.randint(1, min(2, lo[i]))
                c = [["k", i, x] for x in r.sample(range(lo[i]), m)] if r.random() < .5 else [["q", i, self.expr(names, 1, args)]]
                st = ["ctl", c, self.block(d - 1, lo, [x for x in avail if x != i], names, args, ln, True, kinds)]
            elif k == "tmp":
                j = len(lo)
                t = self.reg(lo, avail)
                if t and not rec:
                    m = r.randint(1, 2)
                    cmp = [["g", "cx", [], [["q", t[0], self.expr(names, 1, args)], ["k", j, 0]]]]
                    rest = [x for x in avail if x not in self.base(t[0])]
                    body = self.block(d - 1, lo + [m], rest, names, args, 2, True, kinds) if rest else []
                    if rest and body:
                        body = [["ctl", [["k", j, 0]], body]]
                    st = ["tmp", m, cmp + body + cmp]
            elif k == "call" and len(self.fns) < 3 or k == "call" and self.fns:
                st = self.call(d, lo, avail, names, args, rec)
                if st and st[4]:
                    names.append(st[4])
            if st is None:
                st = self.gate(lo, avail, names, args)
            if st:
                out.append(st)
                if d == self.top and st[0] == "set" and st[1] not in self.ret:
                    self.ret.append(st[1])
        if d != self.top:
            self.bits = self.bits[:nb]
        return out

    def call(self, d, lo, avail, names, args, rec):
        r = self.r
        t = [self.reg(lo, avail)]
        if t[0] is None:
            return None
        if r.random() < .4:
            u = self.reg(lo, [i for i in avail if i not in self.base(t[0][0])])
            if u:
                t.append(u)
        for j in range(len(t)):
            if r.random() < .3:
                t[j] = [["qb", ["q", t[j][0], self.expr(names, 1, args)] if r.random() < .7 else ["k", t[j][0], -1]], True]
        sig = [len(t), [x[1] for x in t]]
        fit = [i for i, f in enumerate(self.fns) if f["regs"] == len(t) and all((a is True) == (x[1] is True) and a <= x[1] for a, x in zip(f["lo"], t)) and not (rec and f.get("out")) and f["ready"]]
        if fit and r.random() < .6:
            i = r.choice(fit)
        else:
            if len(self.fns) >= 3:
                return None
            i = len(self.fns)
            f = {"regs": len(t), "ints": 1, "lo": sig[1], "qached": r.random() < .7, "ready": False}
            self.fns.append(f)
            kk = [x for x in self.kinds if x not in ("call", "set", "meas", "measr", "reset", "while", "if", "switch", "fori")]
            f["body"] = self.block(max(d - 1, 0), list(sig[1]), list(range(len(t))), ["i0"], False, 2, True, kk)
            if not rec and r.random() < .4:
                f["out"] = True
                f["body"].append(["set", "out", ["%", self.expr(["i0"], 2, False), 7]])
            f["ready"] = True
        n = None
        if self.fns[i].get("out"):
            n = self.name()
        return ["call", i, [x[0] for x in t], [self.expr(names, 1, args)], n]

    def program(self, d, ln=4):
        r = self.r
        regs, lo = [], []
        for _ in range(r.randint(1, 3)):
            k = r.choice(["float", "float", "var", "bool"])
            if k == "bool":
                regs.append(["bool"])
                lo.append(1)
            else:
                s = r.randint(1, 3)
                e = s if r.random() < .4 or not self.nargs else ["+", ["%", ["a", r.randrange(self.nargs)], 2], s]
                regs.append([k, e])
                lo.append(s)
        body = []
        if not self.cl:
            for i in range(len(regs)):
                body.append(["for", "lp%d" % i, 0, ["n", i], [["g", "ry", [["+", ["v", "lp%d" % i], 1 + i]], [["q", i, ["v", "lp%d" % i]]]], ["g", "p", [.7], [["q", i, ["v", "lp%d" % i]]]]]])
        else:
            for i in range(len(regs)):
                body.append(["g", "x", [], [["q", i, ["a", 0] if self.nargs else 0]]])
        self.top = d
        body += self.block(d, lo, list(range(len(regs))), [], True, ln)
        return {"regs": regs, "fns": self.fns, "body": body, "ret": self.ret}
