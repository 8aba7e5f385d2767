"""Deductive engine: symbolic execution of the real Python code with contracts.

* every branch on a symbolic condition forks the execution (depth-first by re-execution, solver-pruned);
* loops are cut by invariants (see vc.loops / vc.jaxshim);
* `prove` sends one obligation  (path condition => goal)  to z3 (optionally cvc5).
A verdict is 'proved' only on unsat, 'refuted' only on sat with a model; everything else is 'unknown'.
"""
import time

import z3


class Abort(Exception):
    """End of this path (loop body was checked, or assumption is inconsistent)."""


class Unsupported(Exception):
    """The code under verification left the fragment the engine handles."""


class Lemma:
    """A fact with its own machine-checked proof.

    stmt(*vars) -> z3 formula.  `proof(prover)` must establish it for fresh constants; instances are then assumed.
    """

    def __init__(self, name, stmt, sorts, proof="direct", hints=None):
        self.name, self.stmt, self.sorts, self.proof, self.hints = name, stmt, sorts, proof, hints


_LIN = {}


def linear(f):
    """no product of unknowns, no division by an unknown, no quantifier"""
    k = f.get_id()
    if k in _LIN and _LIN[k][0].eq(f):
        return _LIN[k][1]
    r = True
    if z3.is_quantifier(f):
        r = False
    elif z3.is_app(f):
        kind = f.decl().kind()
        if kind == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in f.children()) > 1:
            r = False
        elif kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(f.arg(1)):
            r = False
        else:
            r = all(linear(c) for c in f.children())
    if len(_LIN) > 200000:
        _LIN.clear()
    _LIN[k] = (f, r)
    return r


class Engine:
    cur = None

    def __init__(self, ctx=None, name="", timeout_ms=20000, max_paths=400, quiet=False, cross=False):
        self.ctx, self.name = ctx, name
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.results = []            # (label, status, time, backend, model)
        self.paths = 0
        self.completed = 0           # paths that ran to the end (vacuity guard)
        self.aborted = 0
        self.lemmas_used = {}
        self.quiet = quiet
        self.cross = cross
        self.feas_time = 0.0
        self.memo = {}
        self.vacuous = 0
        self.linear_entails = False

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        work = [[]]
        prev = Engine.cur
        Engine.cur = self
        try:
            while work:
                self.decisions = work.pop()
                self.pos = 0
                self.pc = []
                self.counter = {}
                self.work = work
                self.notes = {}
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported("too many paths")
                try:
                    fn(self)
                    if self.sat([], 3000) == z3.unsat:
                        self.vacuous += 1
                    else:
                        self.completed += 1
                except Abort:
                    self.aborted += 1
        finally:
            Engine.cur = prev
        return self

    def fresh(self, name, sort=None):
        c = self.counter.get(name, 0)
        self.counter[name] = c + 1
        n = f"{name}!{c}"
        sort = sort if sort is not None else z3.IntSort()
        return z3.Const(n, sort)

    def sat(self, extra, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or min(self.timeout_ms, 3000))
        t = time.time()
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        self.feas_time += time.time() - t
        return r

    def entails(self, f, timeout=1500):
        """Cheap entailment test used only for simplification (e.g. 'no wrap-around here')."""
        if self.linear_entails and linear(f):
            # index and width questions: the linear part of the path condition decides them (sound: fewer hypotheses)
            s = z3.Solver()
            s.set("timeout", timeout)
            t = time.time()
            s.add(*[x for x in self.pc if linear(x)])
            s.add(z3.Not(f))
            r = s.check()
            self.feas_time += time.time() - t
            return r == z3.unsat
        return self.sat([z3.Not(f)], timeout) == z3.unsat

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            can_t = self.sat([cond]) != z3.unsat
            can_f = self.sat([z3.Not(cond)]) != z3.unsat
            if not can_t and not can_f:
                raise Abort()
            if can_t and can_f:
                self.work.append(self.decisions + [False])
                d = True
            else:
                d = can_t
            self.decisions = self.decisions + [d]
        self.pos += 1
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def choose(self):
        """Demonic choice (both alternatives are explored)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            self.work.append(self.decisions + [False])
            d = True
            self.decisions = self.decisions + [True]
        self.pos += 1
        return d

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Abort()
            return
        self.pc.append(f)

    # ------------------------------------------------------------------ obligations
    def prove(self, goal, label):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        key = (label, tuple(self.decisions[:self.pos]), self.counter.setdefault("#" + label, 0))
        self.counter["#" + label] += 1
        if key in self.memo:          # same obligation met again while re-executing a common path prefix
            return self.memo[key]
        t = time.time()
        status, model, backend = self._solve(self.pc, goal)
        dt = time.time() - t
        self.results.append((label, status, dt, backend, model))
        self.memo[key] = status
        return status

    def _solve(self, pc, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", None, "z3"
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*pc)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", None, "z3"
        if r == z3.sat:
            m = s.model()
            # accept a refutation only if the model really evaluates the query to true (no quantifier/NIA surprises)
            try:
                ok = all(z3.is_true(m.eval(f, model_completion=True)) for f in list(pc) + [z3.Not(goal)])
            except z3.Z3Exception:
                ok = False
            if ok:
                return "refuted", str(m)[:2000], "z3"
            return "unknown", None, "z3"
        # second opinion
        st = cvc5_check(pc, goal, self.timeout_ms)
        if st == "unsat":
            return "proved", None, "cvc5"
        # z3 with nonlinear-oriented tactics
        for tac in ("qfnia", "smt"):
            try:
                s2 = z3.Then("simplify", "solve-eqs", "smt").solver() if tac == "smt" else z3.Tactic("qfnia").solver()
                s2.set("timeout", self.timeout_ms)
                s2.add(*pc)
                s2.add(z3.Not(goal))
                if s2.check() == z3.unsat:
                    return "proved", None, "z3"
            except z3.Z3Exception:
                pass
        return "unknown", None, "z3"

    # ------------------------------------------------------------------ lemmas
    def use(self, lemma, *args):
        self.lemmas_used[lemma.name] = lemma
        self.pc.append(lemma.stmt(*args))

    def report(self, ctx, function, assume_refuted_is_violation=True):
        """Transfer results into the task context. Returns True if everything was proved."""
        ctx.function(function)
        allok = True
        agg = {}
        for label, status, dt, backend, model in self.results:
            a = agg.setdefault((label, status, backend), [0, 0.0, None])
            a[0] += 1
            a[1] += dt
            a[2] = a[2] or model
        for (label, status, backend), (n, dt, model) in agg.items():
            for _ in range(n - 1):
                ctx.res["obligations"].append(dict(name=f"{function}: {label}", status=status, backend=backend, time=0.0))
            ctx.obligation(f"{function}: {label}", status, backend, dt, detail=dict(model=model))
            if status != "proved":
                allok = False
                if status != "refuted":
                    ctx.undecided(f"{function}: {label}: solver answered {status}")
        # vacuity guards
        if not self.results:
            raise Unsupported(f"{function}: no obligation generated")
        if self.completed == 0:
            raise Unsupported(f"{function}: no execution path reaches the postcondition")
        return allok


def cvc5_check(pc, goal, timeout_ms):
    """Discharge the same query with cvc5 through SMT-LIB; returns 'unsat' | 'sat' | 'unknown'."""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(goal))
        txt = s.to_smt2()
        if "(check-sat)" not in txt:
            txt += "\n(check-sat)\n"
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setOption("nl-ext-tplanes", "true")
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm).strip()
            if out in ("sat", "unsat", "unknown"):
                res = out
        return res
    except Exception:
        return "unknown"


def prove_lemma(ctx, lemma, timeout_ms=20000):
    """Machine-check a lemma. proof='direct': valid as it stands (hints = list of formulas builder from definitions/lemmas);
    proof=('induction', i): natural-number induction on argument i."""
    eng = Engine(timeout_ms=timeout_ms)
    eng.pc, eng.counter, eng.decisions, eng.pos, eng.work = [], {}, [], 0, []
    consts = [z3.Const(f"L{i}_{lemma.name}", s) for i, s in enumerate(lemma.sorts)]
    hints = lemma.hints or (lambda *a: [])

    def go(label, hyps, goal):
        eng.pc = list(hyps)
        t = time.time()
        st, model, be = eng._solve(eng.pc, goal)
        ctx.obligation(f"lemma {lemma.name}: {label}", st if st != "refuted" else "refuted", be, time.time() - t, detail=dict(model=model))
        return st == "proved"

    if lemma.proof == "direct":
        return go("valid", hints(*consts), lemma.stmt(*consts))
    kind, i = lemma.proof
    base = list(consts)
    base[i] = z3.IntVal(0)
    ok = go("base case", hints(*base), lemma.stmt(*base))
    nxt = list(consts)
    nxt[i] = consts[i] + 1
    hyp = [consts[i] >= 0, lemma.stmt(*consts)] + list(hints(*consts)) + list(hints(*nxt))
    ok = go("induction step", hyp, lemma.stmt(*nxt)) and ok
    return ok
