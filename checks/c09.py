"""C09: built-in simulator against matrix semantics."""
import numpy as np

from vlib.api import Fail, Undecided, case, check, need, task, thorough
from vb import circ, sim
from vb import expr as E

ID = "C09"
LEVEL = "exploration"
RULE = ("one evaluation = one randomly generated circuit (all library gates, nested controlled/composite/inverted gates, mid-circuit measurement, reset, "
        "classical control, overwritten bits) run on the built-in simulator and compared with the independent branch evaluator; distinct = distinct circuits")
TRUSTED = ["vb.sim branch evaluator (textbook matrices, Born rule)", "numpy"]
TECHNIQUE = "run-time contract: the outcome distribution of the real simulator equals the Born-rule distribution of an independent evaluator on generated circuits"
LEVEL_NOTE = "bounded: generated circuits up to 14 dense qubits and 80 sparse qubits; a bounded stand-in, numba kernels are outside the verifier's reach"


def reference(d, qc):
    ms = circ.measured(d)
    out = {}
    for k, p in sim.distribution(qc).items():
        s = "".join(str(k[i]) for i in reversed(ms))
        out[s] = out.get(s, 0) + p
    return out


def compare(got, want, d, what, tol=5e-4):
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k, 0), want.get(k, 0)
        check(abs(g - w) < tol, lambda: f"{what}: outcome {k!r} has probability {g} instead of {w:.6f} ({circ.show(d)})")


@case("run")
def c_run(d):
    qc = circ.build(d)
    try:
        want = reference(d, qc)
    except sim.SimError as e:
        raise Undecided(str(e))
    before = [(id(i.op), i.op.name, list(i.qubits), list(i.clbits)) for i in qc.data]
    nq, nc = len(qc.qubits), len(qc.clbits)
    got = dict(qc.run(shots=None))
    compare(got, want, d, "exact run")
    check(abs(sum(got.values()) - 1) < 1e-4, lambda: f"probabilities sum to {sum(got.values())}")
    check((nq, nc) == (len(qc.qubits), len(qc.clbits)) and before == [(id(i.op), i.op.name, list(i.qubits), list(i.clbits)) for i in qc.data],
          lambda: f"simulation changed the circuit ({circ.show(d)})")


@case("sampled")
def c_samp(d, shots, seed):
    qc = circ.build(d)
    want = reference(d, qc)
    np.random.seed(seed)
    got = dict(qc.run(shots=shots))
    for k, v in got.items():
        check(isinstance(v, (int, np.integer)) and v > 0, lambda: f"count of {k!r} is {v!r}")
        check(want.get(k, 0) > 1e-7, lambda: f"outcome {k!r} of probability zero was sampled ({circ.show(d)})")
    check(sum(got.values()) == shots, lambda: f"counts sum to {sum(got.values())} instead of {shots}")
    for k, p in want.items():
        s = max(0.0, shots * p * (1 - p)) ** .5
        check(abs(got.get(k, 0) - shots * p) <= 7 * s + 3 + shots * 1e-4, lambda: f"outcome {k!r}: {got.get(k, 0)} of {shots} samples, probability {p:.5f} ({circ.show(d)})")


def sv_ref(qc):
    n = len(qc.qubits)
    (b,) = sim.Sparse().run(qc)
    v = np.zeros(2 ** n, dtype=complex)
    for k, a in b.st.items():
        v[int(format(k, f"0{n}b")[::-1], 2)] = a
    return v


@case("statevector")
def c_sv(d):
    qc = circ.build(d)
    want = sv_ref(qc)
    got = np.asarray(qc.statevector_array()).reshape(-1)
    check(got.shape == want.shape, lambda: f"statevector has {got.shape} entries instead of {want.shape}")
    dev = float(np.max(np.abs(got - want)))
    check(dev < 5e-4, lambda: f"statevector deviates by {dev:.3g} ({circ.show(d)})")


@case("unitary")
def c_un(d):
    qc = circ.build(d)
    want = sim.unitary(qc)
    got = np.asarray(qc.get_unitary())
    check(got.shape == want.shape, lambda: f"unitary has shape {got.shape} instead of {want.shape}")
    dev = float(np.max(np.abs(got - want)))
    check(dev < 5e-4, lambda: f"unitary deviates by {dev:.3g} ({circ.show(d)})")


@case("compare_unitary")
def c_cmp(d, e, gphase):
    A, B = circ.build(d), circ.build(e)
    U, V = sim.unitary(A), sim.unitary(B)
    dev = float(np.max(np.abs(U - V)))
    same = sim.close_phase(U, V, 1e-6) if gphase else dev < 1e-6
    differ = (not sim.close_phase(U, V, 1e-2)) if gphase else dev > 1e-2
    if not same and not differ:
        return
    got = A.compare_unitary(B, ignore_gphase=gphase)
    check(bool(got) == same, lambda: f"compare_unitary(ignore_gphase={gphase}) says {got} for circuits whose unitaries are {'equal' if same else 'different'} "
          f"({circ.show(d)}) vs ({circ.show(e)})")


def small(r, **kw):
    n = r.randint(1, 6)
    return circ.random(r, n, r.randint(1, 5), r.randint(1, 18), **kw)


@task("mixed", weight=3)
def t_mixed(ctx):
    r = ctx.rng
    ctx.bound("circuits on 1-6 qubits, 1-5 clbits, up to 18 instructions")
    ctx.each(c_run, (dict(d=d) for d in (small(r) for _ in range(900 if not thorough() else 6000)) if circ.measured(d)), 60 if not thorough() else 500)


@task("overwrite", weight=2)
def t_over(ctx):
    r = ctx.rng
    ctx.each(c_run, (dict(d=d) for d in (small(r, overwrite=True, measure=.3, cond=.2, reset=.12) for _ in range(500 if not thorough() else 4000)) if circ.measured(d)), 50 if not thorough() else 400)


@task("dynamic", weight=2)
def t_dyn(ctx):
    """few qubits, many measurements/resets/conditions"""
    r = ctx.rng
    def gen():
        n = r.randint(1, 3)
        return circ.random(r, n, r.randint(2, 6), r.randint(4, 24), measure=.25, reset=.15, cond=.25, big=.05, one=["h", "x", "ry", "t", "sx"], two=["cx", "cz", "swap"])
    ctx.each(c_run, (dict(d=d) for d in (gen() for _ in range(700 if not thorough() else 5000)) if circ.measured(d)), 50 if not thorough() else 400)


@task("unitary", weight=2)
def t_unitary(ctx):
    r = ctx.rng
    for _ in range(250 if not thorough() else 2000):
        n = r.randint(1, 5)
        d = circ.random(r, n, 0, r.randint(0, 14), measure=0, reset=0, cond=0, final=False)
        ctx.run(c_un, d=d)
        ctx.run(c_sv, d=d)
        e = dict(d, ops=list(d["ops"]))
        if r.random() < .5 and e["ops"]:
            i = r.randrange(len(e["ops"]))
            e["ops"][i:i + 1] = [] if r.random() < .5 else [e["ops"][i], ["g", circ.gate(r, 1), [r.randrange(n)]]]
        else:
            e["ops"] = e["ops"] + [["g", ["gate", "gphase", [circ.angle(r)]], [0]]]
        ctx.run(c_cmp, d=d, e=e, gphase=r.random() < .5)
        if ctx.full():
            return


@task("dense", weight=3)
def t_dense(ctx):
    """more entangled qubits: gate grouping, sparse-to-dense switches, axis permutations"""
    r = ctx.rng
    ctx.bound("dense circuits on 7-12 qubits (14 in the thorough tier)")
    def gen():
        n = r.randint(7, 11 if not thorough() else 14)
        one = r.choice([None, ["h", "t", "ry"], ["x", "s", "h"]])
        return circ.random(r, n, r.randint(2, n), r.randint(20, 60), measure=.02, reset=.01, cond=.02, big=.1, one=one)
    ctx.each(c_run, (dict(d=d) for d in (gen() for _ in range(60 if not thorough() else 400)) if circ.measured(d)), 60 if not thorough() else 500)
    for _ in range(12 if not thorough() else 60):
        n = r.randint(7, 11)
        ctx.run(c_sv, d=circ.random(r, n, 0, r.randint(20, 60), measure=0, reset=0, cond=0, final=False))


@task("sparse", weight=3)
def t_sparse(ctx):
    """many qubits, few basis states: sparse representation, factorisation, >45 and >63 qubits"""
    r = ctx.rng
    ctx.bound("sparse circuits on 14-80 qubits with at most six superposing gates")
    def gen():
        n = r.choice([14, 20, 25, 30, 40, 46, 50, 62, 64, 70, 80])
        d = circ.random(r, n, r.randint(2, 12), r.randint(20, 120), measure=.02, reset=.01, cond=.02, big=0, classical=1.0, final=True)
        k = len(d["ops"])
        for _ in range(r.randint(1, 6)):
            d["ops"].insert(r.randrange(k // 2 + 1), ["g", ["gate", r.choice(["h", "ry", "sx"]), []], [r.randrange(n)]])
        for o in d["ops"]:
            if o[0] == "if":
                o[1], o[2] = ["gate", "x", []], o[2][:1]
            if o[0] == "g" and o[1][1] == "ry":
                o[1] = ["gate", "ry", [circ.angle(r)]]
        return d
    ctx.each(c_run, (dict(d=d) for d in (gen() for _ in range(120 if not thorough() else 800)) if circ.measured(d)), 60 if not thorough() else 500)
    ctx.bound("every qubit measured: 40-70 classical bits, up to six unentangled superposed qubits or pairs")
    def wide():
        n = r.choice([40, 61, 62, 63, 64, 65, 66, 70])
        ops = [["g", ["gate", "x", []], [q]] for q in range(n) if r.random() < .5]
        for q in r.sample(range(n), r.randint(1, 6)):
            ops.append(["g", ["gate", "ry", [circ.angle(r)]], [q]])
            if r.random() < .4:
                ops.append(["g", ["gate", "cx", []], [q, r.choice([p for p in range(n) if p != q])]])
        ops += [["m", q, c] for c, q in enumerate(r.sample(range(n), n))]
        return {"n": n, "c": n, "ops": ops}
    for _ in range(24 if not thorough() else 150):
        ctx.run(c_run, d=wide())


@task("sampled")
def t_samp(ctx):
    r = ctx.rng
    for _ in range(150 if not thorough() else 1000):
        d = small(r)
        if circ.measured(d):
            ctx.run(c_samp, d=d, shots=r.choice([1, 2, 7, 100, 1000, 20000]), seed=r.randrange(1 << 30))
        if ctx.full():
            return
