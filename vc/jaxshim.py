"""Symbolic counterparts of jax / jax.numpy / jax.lax used while executing real code symbolically."""
import z3

from . import sym
from .engine import Abort, Engine, Unsupported
from .load import Shim, havoc_value
from .sym import Arr, B, W, cast, wrap


def E():
    return Engine.cur


class Dtype:
    def __init__(self, ty):
        self.ty = ty

    def __call__(self, x):
        return cast(x, self.ty)

    def __eq__(self, o):
        return (o.ty if isinstance(o, Dtype) else o) == self.ty

    def __hash__(self):
        return hash(self.ty)


def _ty(d, default=None):
    if d is None:
        return default
    return d.ty if isinstance(d, Dtype) else d


def zeros(n, dtype=None):
    if isinstance(n, tuple):
        n = n[0]
    return Arr(wrap(n).t, z3.K(z3.IntSort(), z3.IntVal(0)), _ty(dtype))


def full(n, v, dtype=None):
    if isinstance(n, tuple):
        n = n[0]
    v = cast(v, _ty(dtype, wrap(v).ty))
    return Arr(wrap(n).t, z3.K(z3.IntSort(), v.t), v.ty)


def array(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        t = z3.K(z3.IntSort(), z3.IntVal(0))
        ty = _ty(dtype)
        for i, v in enumerate(x):
            t = z3.Store(t, i, cast(v, ty).t if ty else wrap(v).t)
        return Arr(len(x), t, ty)
    if dtype is not None:
        return cast(x, _ty(dtype))
    return wrap(x) if not isinstance(x, B) else x


def concatenate(xs, axis=0):
    if len(xs) != 2:
        raise Unsupported("concatenate")
    a, b = xs
    i = z3.Int("cc_i")
    return Arr(a.n + b.n, z3.Lambda([i], z3.If(i < a.n, z3.Select(a.t, i), z3.Select(b.t, i - a.n))), a.ty)


def where(c, a, b):
    a, b = wrap(a), wrap(b)
    ty = sym.join(a.ty, b.ty)
    lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None
    hi = max(a.hi, b.hi) if None not in (a.hi, b.hi) else None
    return W(z3.If(sym.bt(c), a.t, b.t), ty, lo, hi)


def minimum(a, b):
    a, b = wrap(a), wrap(b)
    hi = [x for x in (a.hi, b.hi) if x is not None]
    lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None
    return W(z3.If(a.t <= b.t, a.t, b.t), sym.join(a.ty, b.ty), lo, min(hi) if hi else None)


def maximum(a, b):
    a, b = wrap(a), wrap(b)
    return W(z3.If(a.t >= b.t, a.t, b.t), sym.join(a.ty, b.ty))


def jall(m):
    if isinstance(m, sym.EqMask):
        return sym.all_mask(m)
    if isinstance(m, B):
        return m
    raise Unsupported("jnp.all")


def tree_havoc(x, name="st"):
    if isinstance(x, tuple):
        return tuple(tree_havoc(v, f"{name}{i}") for i, v in enumerate(x))
    if isinstance(x, list):
        return [tree_havoc(v, f"{name}{i}") for i, v in enumerate(x)]
    if hasattr(x, "tree_flatten"):
        ch, aux = x.tree_flatten()
        return type(x).tree_unflatten(aux, tuple(tree_havoc(c, f"{name}{i}") for i, c in enumerate(ch)))
    if isinstance(x, int) and not isinstance(x, bool):
        return sym.fresh_w(name, None)     # weakly typed carry
    return havoc_value(name, x)


class LaxLoops:
    """Loop contracts are consumed in the order in which loops are met on a path, per function under verification."""

    def __init__(self, specs, unroll=None):
        self.specs = specs         # list of dict(inv=..., hint=...) ; inv(e, k, st, info) -> [(label, formula)]
        self.unroll = unroll


def make(specs):
    """specs: callable () -> list of loop contracts in program order (fresh per path)."""
    state = {"queue": None, "path": None}

    def next_spec():
        e = E()
        if state["path"] is not e.pc:
            state["path"] = e.pc
            state["queue"] = list(specs)
        if not state["queue"]:
            raise Unsupported("loop without contract")
        return state["queue"].pop(0)

    def fori_loop(lo, hi, body, init, **kw):
        e = E()
        lo, hi = wrap(lo), wrap(hi)
        if lo.const() is not None and hi.const() is not None:
            st = init
            for i in range(lo.const(), hi.const()):
                st = body(i, st)
            return st
        sp = next_spec()
        info = dict(init=init, lo=lo.t, hi=hi.t)
        for label, f in sp["inv"](e, lo.t, init, info):
            e.prove(f, f"{sp.get('name', 'loop')} invariant on entry: {label}")
        last = z3.If(hi.t > lo.t, hi.t, lo.t)
        if e.choose():
            k = e.fresh("k")
            e.assume(z3.And(k >= lo.t, k < hi.t))
            st = (sp.get("havoc") or (lambda e, k, i, inf: tree_havoc(i)))(e, k, init, info)
            for _, f in sp["inv"](e, k, st, info):
                e.assume(f)
            kw_ = W(k, None, lo.lo if lo.lo is not None else None, None)
            st2 = body(kw_, st)
            if sp.get("hint"):
                sp["hint"](e, k, st, st2, info)
            for label, f in sp["inv"](e, k + 1, st2, info):
                e.prove(f, f"{sp.get('name', 'loop')} invariant preserved: {label}")
            raise Abort()
        st = (sp.get("havoc") or (lambda e, k, i, inf: tree_havoc(i)))(e, last, init, info)
        for _, f in sp["inv"](e, last, st, info):
            e.assume(f)
        return st

    def while_loop(cond, body, init):
        e = E()
        sp = next_spec()
        info = dict(init=init)
        for label, f in sp["inv"](e, None, init, info):
            e.prove(f, f"{sp.get('name', 'loop')} invariant on entry: {label}")
        st = tree_havoc(init)
        for _, f in sp["inv"](e, None, st, info):
            e.assume(f)
        c = cond(st)
        if e.branch(sym.bt(c)):
            st2 = body(st)
            if sp.get("hint"):
                sp["hint"](e, None, st, st2, info)
            for label, f in sp["inv"](e, None, st2, info):
                e.prove(f, f"{sp.get('name', 'loop')} invariant preserved: {label}")
            if sp.get("variant"):
                e.prove(z3.And(sp["variant"](st) >= 0, sp["variant"](st2) < sp["variant"](st)),
                        f"{sp.get('name', 'loop')} terminates (variant decreases)")
            raise Abort()
        return st

    _none = object()

    def cond(pred, tf, ff, *ops, operand=_none):
        if operand is not _none:
            ops = (operand,)
        if E().branch(sym.bt(pred)):
            return tf(*ops)
        return ff(*ops)

    lax = Shim(fori_loop=fori_loop, while_loop=while_loop, cond=cond, select=lambda c, a, b: where(c, a, b))
    ident = lambda f=None, **k: f if f is not None else (lambda g: g)
    jnp = Shim(uint32=Dtype("u32"), uint64=Dtype("u64"), int32=Dtype("i32"), int64=Dtype("i64"), uint8=Dtype("u8"),
               ndarray=Arr, zeros=zeros, zeros_like=lambda a: zeros(a.n, a.ty), full=full, array=array, asarray=array,
               concatenate=concatenate, where=where, minimum=minimum, maximum=maximum, all=jall,
               copy=lambda a: a, logical_and=lambda a, b: B(z3.And(sym.bt(a), sym.bt(b))),
               logical_or=lambda a, b: B(z3.Or(sym.bt(a), sym.bt(b))), logical_not=lambda a: B(z3.Not(sym.bt(a))),
               bool_=lambda x: B(sym.bt(x)))

    class Tracer:
        pass
    jax = Shim(jit=ident, numpy=jnp, lax=lax, core=Shim(Tracer=Tracer), Array=Arr,
               tree_util=Shim(register_pytree_node_class=lambda c: c))
    return {"jax": jax, "jax.numpy": jnp, "jax.lax": lax, "jax.tree_util": jax.tree_util, "jax.core": jax.core}
