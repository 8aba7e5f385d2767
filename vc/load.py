"""Mechanical loading of the real source for verification.

`load(path, shims, ...)` parses the CURRENT file of /repo, optionally rewrites every `for`/`while` statement so that
it can be cut by an invariant (the loop body is kept verbatim), and executes it in a fresh namespace in which the
imports listed in `shims` are replaced (e.g. jax by symbolic counterparts, quantum gates by their contracts).
Dropped by extraction: docstrings/annotations (no semantics), decorators that shims turn into identity (jax.jit,
caching), numba compilation.
"""
import ast
import builtins
import importlib
import os
import types

import z3

from vlib.env import SRC

from . import sym
from .engine import Abort, Engine, Unsupported


MUTATE = None          # only set by vc.selftest: deliberately damages the loaded source


class Undef:
    def __repr__(self):
        return "<unbound>"


UNDEF = Undef()


class Shim(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"shim has no attribute {k}")


class LoopCutter(ast.NodeTransformer):
    """Rewrites loops of the functions in `targets` (qualified names) or of all functions (targets=None)."""

    def __init__(self, targets=None):
        self.targets = targets
        self.stack = []
        self.counter = {}

    def _q(self):
        return ".".join(self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _assigned(self, node):
        names = []

        def add(n):
            if n not in names and not n.startswith("_vc"):
                names.append(n)

        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                pass

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store):
                    add(n.id)

        for st in node.body:
            V().visit(st)
        return names

    def _mk(self, node, is_for):
        q = self._q()
        if not self.stack or (self.targets is not None and not any(q == t or q.startswith(t + ".") for t in self.targets)):
            return node
        idx = self.counter.get(q, 0)
        self.counter[q] = idx + 1
        lv = f"_vcL{node.lineno}_{idx}"
        names = self._assigned(node)
        if is_for:
            tn = [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]
            names = [n for n in names if n not in tn]
        vals = "(" + "".join(f"locals().get('{n}', _vc_UNDEF)," for n in names) + ")"
        tgt = "(" + "".join(f"{n}," for n in names) + ")"
        stepsrc = f"{lv}.step({names!r}, {vals}, locals())"

        class C(ast.NodeTransformer):
            def visit_For(s, n):
                return n

            visit_While = visit_For
            visit_FunctionDef = visit_For
            visit_Lambda = visit_For

            def visit_Continue(s, n):
                return [ast.parse(stepsrc).body[0], n]

        body = []
        for st in node.body:
            r = C().visit(st)
            body += r if isinstance(r, list) else [r]
        body.append(ast.parse(stepsrc).body[0])
        pre = []
        if is_for:
            pre += ast.parse(f"{lv} = _vc_loop({q!r}, {idx}, True, None)").body
            itn = ast.parse(f"{lv}.set_iter(X)").body[0]
            itn.value.args = [node.iter]
            pre.append(itn)
        else:
            pre += ast.parse(f"{lv} = _vc_loop({q!r}, {idx}, False, None)").body
        if names:
            pre += ast.parse(f"if {lv}.cut:\n    {tgt} = {lv}.enter({names!r}, {vals}, locals())").body
        else:
            pre += ast.parse(f"if {lv}.cut:\n    {lv}.enter([], (), locals())").body
        if is_for:
            new = ast.For(target=node.target, iter=ast.parse(f"{lv}.iter()", mode="eval").body, body=body, orelse=node.orelse)
        else:
            new = ast.While(test=node.test, body=body, orelse=node.orelse)
        out = pre + [new]
        for o in out:
            ast.copy_location(o, node)
            for sub in ast.walk(o):
                if not hasattr(sub, "lineno"):
                    ast.copy_location(sub, node)
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        return self._mk(node, True)

    def visit_While(self, node):
        self.generic_visit(node)
        return self._mk(node, False)


class EmptyDicts(ast.NodeTransformer):
    """`{}` creates a symbolic dictionary"""

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys:
            return node
        return ast.copy_location(ast.Call(func=ast.Name(id="_vc_dict", ctx=ast.Load()), args=[], keywords=[]), node)


class LoopSpec:
    """Contract of one loop. inv(e, k, env, iterable) -> list[(label, formula)]; havoc may be overridden."""

    def __init__(self, inv, havoc=None, variant=None, hint=None):
        self.inv, self._havoc, self.variant, self.hint = inv, havoc, variant, hint

    def havoc(self, e, k, env, names, L):
        if self._havoc is not None:
            r = self._havoc(e, k, env, L)
        else:
            r = {}
        out = []
        for n in names:
            if n in r:
                out.append(r[n])
            else:
                out.append(havoc_value(n, env.get(n, UNDEF)))
        return tuple(out)


def havoc_value(name, v):
    e = Engine.cur
    if isinstance(v, sym.W):
        return sym.fresh_w(name, v.ty)
    if isinstance(v, bool):
        return sym.B(e.fresh(name, z3.BoolSort()))
    if isinstance(v, int):
        return sym.fresh_w(name, None)
    if isinstance(v, sym.B):
        return sym.B(e.fresh(name, z3.BoolSort()))
    if isinstance(v, sym.Arr):
        return sym.Arr(v.n, e.fresh(name, sym.ARR), v.ty)
    if isinstance(v, tuple):
        return tuple(havoc_value(f"{name}_{i}", x) for i, x in enumerate(v))
    if isinstance(v, Undef):
        return v
    if hasattr(v, "vc_havoc"):
        return v.vc_havoc(e, name)
    raise Unsupported(f"cannot havoc {name} of type {type(v).__name__}")


class SymRange:
    """range(lo, hi) with symbolic bounds, step 1"""

    def __init__(self, lo, hi):
        self.lo, self.hi = sym.wrap(lo), sym.wrap(hi)
        self.len = z3.If(self.hi.t > self.lo.t, self.hi.t - self.lo.t, z3.IntVal(0))

    def elem(self, k):
        return sym.W(self.lo.t + k, None, None, None)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step == -1:
            return SymRevRange(self)
        raise Unsupported("indexing of a symbolic range")


class SymRevRange:
    def __init__(self, r):
        self.r, self.len = r, r.len

    def elem(self, k):
        return self.r.elem(self.r.len - 1 - k)


def sym_range(*a):
    if any(isinstance(x, sym.W) and x.const() is None for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(*a)
        step = a[2]
        if isinstance(step, sym.W):
            step = step.concrete()
        if step == 1:
            return SymRange(a[0], a[1])
        if step == -1:
            return SymRevRange(SymRange(sym.wrap(a[1]) + 1, sym.wrap(a[0]) + 1))
        raise Unsupported("symbolic range with step")
    return builtins.range(*[x.concrete() if isinstance(x, sym.W) else x for x in a])


def sym_reversed(x):
    if isinstance(x, SymRange):
        return SymRevRange(x)
    if hasattr(x, "vc_reversed"):
        return x.vc_reversed()
    return builtins.reversed(x)


def sym_len(x):
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return builtins.len(x)


def sym_int(x=0, *a):
    if isinstance(x, (sym.W,)):
        return x
    if isinstance(x, sym.B):
        return x.as_w()
    return builtins.int(x, *a)


def sym_bool(x=False):
    if isinstance(x, sym.B):
        return x
    return builtins.bool(x)


def sym_abs(x):
    return builtins.abs(x)


def sym_enumerate(x, start=0):
    if hasattr(x, "elem") and hasattr(x, "len"):
        return SymEnum(x, start)
    if hasattr(x, "vc_iter"):
        return SymEnum(x.vc_iter(), start)
    return builtins.enumerate(x, start)


class SymEnum:
    def __init__(self, x, start):
        self.x, self.len, self.start = x, x.len, start

    def elem(self, k):
        return (sym.W(k + self.start), self.x.elem(k))


def _prove(e, f, label):
    if hasattr(f, "at"):
        from .qheap import prove
        return prove(f, label)
    return e.prove(f, label)


def _assume(e, f):
    if hasattr(f, "at"):
        from .qheap import assume_fam
        return assume_fam(f)
    return e.assume(f)


class Loop:
    def __init__(self, env, q, idx, is_for):
        self.e = Engine.cur
        self.specs = env
        self.q, self.idx, self.is_for = q, idx, is_for
        self.spec = env.get((q, idx)) or env.get((q.split(".")[-1], idx))
        self.cut = False
        self.itobj = None
        if not is_for:
            self.cut = self.spec is not None

    def set_iter(self, it):
        if hasattr(it, "vc_iter"):
            it = it.vc_iter()
        self.itobj = it
        self.symbolic = hasattr(it, "elem") and hasattr(it, "len")
        if self.symbolic:
            if self.spec is None:
                raise Unsupported(f"loop {self.q}#{self.idx} over symbolic iterable has no contract")
            self.cut = True

    def enter(self, names, vals, loc):
        e = self.e
        env = dict(loc)
        env.update(zip(names, vals))
        env0 = dict(env)
        self.env0 = env0
        self.names = names
        for label, f in self.spec.inv(e, z3.IntVal(0), env, self):
            _prove(e, f, f"loop {self.q}#{self.idx} invariant on entry: {label}")
        k = e.fresh("k")
        e.assume(k >= 0)
        if self.is_for:
            e.assume(k <= self.itobj.len)
        self.k = k
        new = self.spec.havoc(e, k, env, names, self)
        env.update(zip(names, new))
        for label, f in self.spec.inv(e, k, env, self):
            _assume(e, f)
        self.names = names
        self.env_k = env
        if self.spec.variant is not None:
            self.v0 = self.spec.variant(e, k, env, self)
        return new

    def iter(self):
        if not self.cut:
            yield from self.itobj
            return
        if self.e.branch(self.k < self.itobj.len):
            yield self.itobj.elem(self.k)
            raise Unsupported("loop body fell through without step")
        return

    def step(self, names, vals, loc):
        if not self.cut:
            return
        e = self.e
        env = dict(loc)
        env.update(zip(names, vals))
        if self.spec.hint is not None:
            self.spec.hint(e, self.k, self.env_k, env, self)
        for label, f in self.spec.inv(e, self.k + 1, env, self):
            _prove(e, f, f"loop {self.q}#{self.idx} invariant preserved: {label}")
        if self.spec.variant is not None:
            v1 = self.spec.variant(e, self.k + 1, env, self)
            e.prove(z3.And(self.v0 >= 0, v1 < self.v0), f"loop {self.q}#{self.idx} terminates (variant decreases)")
        raise Abort()


def load(relpath, shims=None, loops=None, cut=None, extra=None, builtin_over=None, dict_literal=None):
    """Returns the namespace (dict) of the freshly executed real module source."""
    path = os.path.join(SRC, "qrisp", relpath)
    try:
        src = open(path).read()
    except OSError as ex:
        raise Unsupported(str(ex))
    tree = ast.parse(src, path)
    if MUTATE is not None:
        tree = MUTATE(tree)
    shims = shims or {}
    loops = loops if loops is not None else {}
    if dict_literal is not None:
        tree = EmptyDicts().visit(tree)
    tree = LoopCutter(cut).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, "exec")
    b = dict(vars(builtins))
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            pkg = modname.split(".")[:-level]
            full = ".".join(pkg + ([name] if name else []))
        if full in shims:
            if not fromlist and "." in full and full.split(".")[0] in shims:
                return shims[full.split(".")[0]]
            return shims[full]
        for k in shims:
            if k.endswith(".*") and (full == k[:-2] or full.startswith(k[:-1])):
                return shims[k]
        return real_import(name, globals, locals, fromlist, level)

    b["__import__"] = imp
    b["range"] = sym_range
    b["reversed"] = sym_reversed
    b["len"] = sym_len
    b["enumerate"] = sym_enumerate
    b["int"] = _IntType
    b["abs"] = sym_abs
    if builtin_over:
        b.update(builtin_over)
    modname = "qrisp." + relpath[:-3].replace("/", ".")
    if modname.endswith(".__init__"):
        modname = modname[:-9]
    ns = {"__name__": modname, "__builtins__": b, "__file__": path,
          "__package__": modname.rsplit(".", 1)[0],
          "_vc_UNDEF": UNDEF}
    ns["_vc_dict"] = dict_literal
    ns["_vc_loop"] = lambda q, i, isf, _: Loop(loops, q, i, isf)
    import sys
    m = types.ModuleType(modname)
    m.__dict__.update(ns)
    ns = m.__dict__
    saved = sys.modules.get("VCLOAD")
    exec(code, ns)
    if extra:
        ns.update(extra)
    return ns


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, sym.W) and o.ty is None)


class _IntType(metaclass=_IntMeta):
    def __new__(cls, *a):
        return sym_int(*a)
