"""Sensitivity test of the proofs: the loaded source is damaged (one emitted gate removed, the operands of one
two-qubit gate exchanged) and the contract must stop being provable. Guards against vacuous contracts."""
import ast
import copy

from . import load
from .engine import Engine


class _Drop(ast.NodeTransformer):
    def __init__(self, names, funcs, k):
        self.names, self.funcs, self.k, self.seen, self.stack, self.what = names, funcs, k, 0, [], None

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and self.stack and self.stack[0] in self.funcs:
            nm = getattr(c.func, "id", getattr(c.func, "attr", None))
            if nm in self.names:
                self.seen += 1
                if self.seen - 1 == self.k // 2:
                    if self.k % 2 == 0:
                        self.what = "removed " + ast.unparse(n)
                        return ast.copy_location(ast.Pass(), n)
                    if nm == "cx":
                        self.what = "exchanged operands of " + ast.unparse(n)
                        c.args = c.args[::-1]
        return n


def run(mk, args, funcs, names=("x", "cx", "mcx", "swap", "inpl_adder", "inv_adder"), limit=100):
    """returns (number of damaged variants, list of variants whose proof still succeeds)"""
    total, alive = 0, []
    for k in range(2 * limit):
        d = _Drop(names, funcs, k)
        load.MUTATE = lambda t, d=d: d.visit(copy.deepcopy(t))
        try:
            prog = mk(*args)
            if d.seen <= k // 2:
                break
            if d.what is None:
                continue
            total += 1
            try:
                e = Engine(timeout_ms=4000, max_paths=200).explore(prog)
                if e.results and all(r[1] == "proved" for r in e.results):
                    alive.append(d.what)
            except Exception:
                pass
        finally:
            load.MUTATE = None
    return total, alive
