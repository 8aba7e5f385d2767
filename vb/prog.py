"""helpers to turn direct and traced programs into circuits + registers"""
_J = {}


def traced(key, main, targs):
    """make_jaspr once per key"""
    if key not in _J:
        from qrisp.jasp import make_jaspr
        _J[key] = make_jaspr(main)(*targs)
    return _J[key]


def extract(jaspr, args):
    """circuit of a traced program for concrete classical arguments: (list of qubit lists of the returned variables, other returns, circuit)"""
    out = jaspr.to_qc(*args)
    if not isinstance(out, tuple):
        return [], [], out
    *rets, qc = out
    regs = [list(r) if isinstance(r, (list, tuple)) else [r] for r in rets if isinstance(r, (list, tuple)) or type(r).__name__ == "Qubit"]
    rest = [r for r in rets if not (isinstance(r, (list, tuple)) or type(r).__name__ == "Qubit")]
    return regs, rest, qc
