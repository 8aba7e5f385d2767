"""C12: jobs, batching and measurement results."""
import math
import warnings

from vlib.api import Fail, Undecided, case, check, need, task, thorough

ID = "C12"
LEVEL = "exploration"
RULE = ("one evaluation = one random history of enqueueing/dispatch/option changes/failures on a scripted backend, one job life cycle, or one raw count table "
        "under every result view; distinct = distinct histories")
TRUSTED = ["scripted stub backends of the harness"]
TECHNIQUE = "run-time contract over generated histories: routed results, shot counts, errors and life cycle compared with an abstract queue"
LEVEL_NOTE = "bounded: histories of up to 25 operations, chunk limits 1-7, failures at every job position; single-threaded as documented"


class Boom(Exception):
    pass


def iface():
    import qrisp.interface as i
    return i


def stub(limit, default_shots, faults, log):
    """backend that labels each circuit by its name and reports the shots it was given.
    faults: {job number: 'submit'|'result'|'short'|'long'}"""
    I = iface()
    J = need("qrisp.interface.job")

    class SJob(I.Job):
        def __init__(self, be, counts, fault):
            super().__init__(backend=be)
            self.counts, self.fault = counts, fault
            self._last_known_status = J.JobStatus.DONE if fault is None else J.JobStatus.ERROR

        def result(self, timeout=None):
            log["timeouts"].append(timeout)
            if self.fault == "result":
                raise Boom("result failed")
            c = self.counts
            if self.fault == "short":
                c = c[:-1] or c + c
            if self.fault == "long":
                c = c + c[:1]
            return J.JobResult(c)

        def cancel(self):
            return False

        def status(self):
            return self._last_known_status

    class SBack(I.Backend):
        @classmethod
        def _default_options(cls):
            return {"shots": default_shots, "token": ""}

        @property
        def max_circuits(self):
            return limit

        def run_async(self, circuits, shots=None):
            from qrisp import QuantumCircuit
            if isinstance(circuits, QuantumCircuit):
                circuits = [circuits]
            circuits = list(circuits)
            k = len(log["jobs"])
            if limit is not None and len(circuits) > limit:
                raise Fail(f"job of {len(circuits)} circuits submitted to a backend limited to {limit}")
            ss = list(shots) if isinstance(shots, (list, tuple)) else [shots] * len(circuits)
            if len(ss) != len(circuits):
                raise Fail(f"{len(ss)} shot counts for {len(circuits)} circuits")
            log["jobs"].append([(c.vname, s) for c, s in zip(circuits, ss)])
            f = faults.get(str(k))
            if f == "submit":
                raise Boom("submission failed")
            return SJob(self, [{"0": s if s is not None else 1.0, c.vname: c.vname} for c, s in zip(circuits, ss)], f)

    return SBack()


def circuit(name):
    from qrisp import QuantumCircuit
    qc = QuantumCircuit(1, 1)
    qc.measure(0, 0)
    qc.vname = name
    return qc


def state(r):
    """'pending' | ('error', exc) | dict"""
    try:
        return dict(r)
    except Boom as e:
        return ("error", e)
    except RuntimeError as e:
        return "pending" if "populated" in str(e) or "dispatch" in str(e) else ("error", e)


@case("batch")
def c_batch(limit, default_shots, faults, ops):
    log = dict(jobs=[], timeouts=[])
    be = stub(limit, default_shots, faults, log)
    bb = be.batched()
    cur = default_shots
    queue, final, n = [], [], 0     # queue of (name, shots, result); final of (result, expectation)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in ops:
            if op[0] == "run":
                cs = [circuit(f"c{n + i}") for i in range(op[1])]
                n += op[1]
                single = op[3]
                res = bb.run(cs[0] if single else (tuple(cs) if op[4] else cs), op[2]) if op[2] is not None else bb.run(cs[0] if single else cs)
                if single:
                    check(not isinstance(res, list), "single circuit enqueued but a list is returned")
                    res = [res]
                check(len(res) == len(cs), lambda: f"{len(res)} results for {len(cs)} enqueued circuits")
                for c, r in zip(cs, res):
                    queue.append((c.vname, op[2] if op[2] is not None else cur, r))
            elif op[0] == "opt":
                bb.update_options(shots=op[1])
                cur = op[1]
            elif op[0] == "clear":
                bb.clear()
                for name, s, r in queue:
                    final.append((r, "pending", name))
                queue = []
            elif op[0] == "dispatch":
                k0, t0 = len(log["jobs"]), len(log["timeouts"])
                size = limit or max(1, len(queue))
                chunks = [queue[i:i + size] for i in range(0, len(queue), size)]
                bad = next((i for i in range(len(chunks)) if str(k0 + i) in faults), None)
                try:
                    bb.dispatch(timeout=op[1]) if op[1] is not None else bb.dispatch()
                    raised = None
                except Fail:
                    raise
                except Exception as e:
                    raised = e
                check((raised is not None) == (bad is not None), lambda: f"dispatch {'raised ' + repr(raised) if raised else 'raised nothing'} although the backend {'failed' if bad is not None else 'did not fail'}")
                if bad is not None and faults[str(k0 + bad)] in ("submit", "result"):
                    check(isinstance(raised, Boom), lambda: f"dispatch raised {raised!r} instead of the error of the backend")
                check(all(t == op[1] for t in log["timeouts"][t0:]), lambda: f"timeout {op[1]} reached the jobs as {log['timeouts'][t0:]}")
                done = []
                for j in log["jobs"][k0:]:
                    done += j
                check(done == [(a, b) for a, b, _ in queue][:len(done)], lambda: f"submitted {done} for the queue {[(a, b) for a, b, _ in queue]}")
                if bad is None:
                    check(len(done) == len(queue), lambda: f"{len(done)} of {len(queue)} queued circuits were submitted")
                for i, ch in enumerate(chunks):
                    for name, s, r in ch:
                        ok = {"0": s if s is not None else 1.0, name: name}
                        if bad is None or i < bad:
                            final.append((r, ok, name))
                        elif i == bad:
                            final.append((r, "error", name))
                        else:
                            final.append((r, "error or " + name, (name, ok)))
                queue = []
            check(bb.pending_count == len(queue), lambda: f"pending count {bb.pending_count} with {len(queue)} circuits queued")
            for name, s, r in queue:
                check(state(r) == "pending", lambda: f"result of {name} is available before dispatch: {state(r)}")
            for r, want, name in final:
                got = state(r)
                if want == "pending":
                    check(got == "pending", lambda: f"discarded circuit {name} has the result {got}")
                elif want == "error":
                    check(isinstance(got, tuple), lambda: f"{name} belongs to a failed job but reads {got}")
                elif isinstance(want, str):
                    check(isinstance(got, tuple) or got == name[1], lambda: f"{name[0]} behind a failed job reads {got}")
                else:
                    check(got == want, lambda: f"{name} received {got} instead of {want} (jobs {log['jobs']})")


@case("direct")
def c_direct(limit, default_shots, fault, n, shots, single):
    log = dict(jobs=[], timeouts=[])
    be = stub(limit, default_shots, {"0": fault} if fault else {}, log)
    cs = [circuit(f"c{i}") for i in range(n)]
    over = limit is not None and not single and n > limit
    badshots = shots is not None and (isinstance(shots, (bool, str, float)) or shots <= 0)
    try:
        res = be.run(cs[0] if single else cs, shots)
    except Boom:
        check(fault in ("submit", "result"), "the backend did not fail but its error was raised")
        return
    except (TypeError, ValueError) as e:
        check(over or badshots, lambda: f"rejected: {e!r}")
        check(not log["jobs"], "rejected request was submitted")
        return
    check(not badshots, lambda: f"shots={shots!r} accepted")
    check(not over, lambda: f"{n} circuits accepted by a backend limited to {limit}")
    check(fault is None, "failure of the backend was swallowed")
    s = shots if shots is not None else default_shots
    res = [res] if single else res
    check(len(res) == (1 if single else n), "wrong number of results")
    for c, r in zip(cs, res):
        check(dict(r) == {"0": s if s is not None else 1.0, c.vname: c.vname}, lambda: f"{c.vname} received {dict(r)}")


# ------------------------------------------------------------------ life cycle
def lifecycle(job, ok, J, results=None):
    st = job.status()
    for _ in range(2):
        check(job.done() == (st == J.JobStatus.DONE) and job.in_final_state() and not job.running() and not job.queued() and not job.cancelled(), lambda: f"predicates disagree with status {st}")
        if ok:
            check(st == J.JobStatus.DONE, lambda: f"successful job has status {st}")
            r = job.result()
            check(r is not None, "successful job returns no result")
            if results is not None:
                check(r.all_counts == results and r.num_circuits == len(results), lambda: f"counts {r.all_counts} instead of {results}")
                for i in range(len(results)):
                    check(r.get_counts(i) == results[i], lambda: f"get_counts({i}) returns {r.get_counts(i)}")
                try:
                    r.get_counts(len(results))
                    raise Fail("get_counts beyond the last circuit returned something")
                except IndexError:
                    pass
        else:
            check(st == J.JobStatus.ERROR, lambda: f"failed job has status {st}")
            try:
                job.result()
                raise Fail("result() of a failed job returned")
            except J.JobFailureError as e:
                check("boom" in str(e) and e.__cause__ is not None, lambda: f"the cause is lost: {e!r} from {e.__cause__!r}")
        check(job.cancel() is False, "a finished job was cancelled")
        check(job.status() == st and job.last_known_status == st and job.refresh() == st, lambda: f"terminal status changed from {st} to {job.status()}")


@case("job")
def c_job(kind, n, bad, shots):
    I = iface()
    J = need("qrisp.interface.job")
    from qrisp import QuantumCircuit
    if kind == "virtual":
        calls = []

        def f(qasm, s, token):
            calls.append(s)
            if bad is not None and len(calls) == bad + 1:
                raise Boom("boom")
            return {str(len(calls)): s or 1}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            be = I.VirtualBackend(f)
        cs = []
        for i in range(n):
            qc = QuantumCircuit(1, 1)
            qc.measure(0, 0)
            cs.append(qc)
        job = be.run_async(cs, shots)
        ss = shots if isinstance(shots, list) else [shots] * n
        lifecycle(job, bad is None or bad >= n, J, [{str(i + 1): s or 1} for i, s in enumerate(ss)])
        return
    be = {"sim": lambda: need("qrisp.interface", "QrispSimulatorBackend")(), "stim": lambda: need("qrisp.interface", "StimBackend")()}[kind]()
    cs = []
    for i in range(n):
        qc = QuantumCircuit(3, 3)
        for b in range(3):
            if (i >> b) & 1:
                qc.x(b)
        for b in range(3):
            qc.measure(b, b)
        if bad == i:
            from qrisp.circuit import Operation
            qc.append(Operation("boom", num_qubits=1), [qc.qubits[0]])
            qc.measure(0, 0)
        cs.append(qc)
    job = be.run_async(cs, shots)
    ss = shots if isinstance(shots, list) else [shots] * n
    if bad is not None and bad < n:
        J2 = job.status()
        lifecycle(job, False, J)
    else:
        d = be.options["shots"]
        lifecycle(job, True, J, [{format(i, "03b"): (s if s is not None else (d or 1.0))} for i, s in enumerate(ss)])


@case("provider_job")
def c_prov(kind, script, final, polls):
    """provider jobs driven by a scripted remote job: statuses reported one after another, then the final one"""
    J = need("qrisp.interface.job")
    M = need(f"qrisp.interface.provider_backends.{kind}_backend")
    S = J.JobStatus

    class Remote:
        job_id = "j1" if kind == "iqm" else (lambda self: "j1")

        def __init__(self):
            self.left = list(script)
            self.cancelled = False

        def now(self):
            return "CANCELLED" if self.cancelled else (self.left[0] if self.left else final)

        def step(self):
            if self.left:
                self.left.pop(0)

        if kind == "iqm":
            @property
            def status(self):
                return {"QUEUED": "waiting", "RUNNING": "processing", "DONE": "completed", "ERROR": "failed", "CANCELLED": "cancelled"}[self.now()]
        else:
            def status(self):
                return self.now()

        def update(self):
            pass

        def cancel(self):
            self.cancelled = True

        def result(self, timeout=None):
            self.left = []
            if self.now() != "DONE":
                raise Boom("boom")

            class D(dict):
                pass

            class Reg:
                def get_counts(s):
                    return {"01": 3, "10": 4}

            class Data:
                c = Reg()

                def __iter__(s):
                    return iter(["c"])

            class Pub:
                data = Data()

            class R(list):
                quasi_dists = [{1: .25, 2: .75}]
            return R([Pub()])

    rem = Remote()
    if kind == "qiskit":
        job = M.QiskitJob(None, rem, 1)
        want = [{"01": 3, "10": 4}]
    elif kind == "aqt":
        job = M.AQTJob(None, rem, [2])
        want = [{"01": .25, "10": .75}]
    else:
        raise Undecided("needs the vendor client")
    job.submit()
    terminal = None
    for p in polls:
        if p == "poll":
            st = job.status()
            check(st == S[rem.now()], lambda: f"status {st} while the remote job is {rem.now()}")
            check(terminal is None or st == terminal, lambda: f"terminal status {terminal} became {st}")
            if st in J.JOB_FINAL_STATES:
                terminal = st
            check(job.done() == (st == S.DONE) and job.running() == (st == S.RUNNING) and job.queued() == (st == S.QUEUED) and job.cancelled() == (st == S.CANCELLED)
                  and job.in_final_state() == (st in (S.DONE, S.CANCELLED, S.ERROR)), lambda: f"predicates disagree with status {st}")
        elif p == "step":
            rem.step()
        elif p == "cancel":
            fin = rem.now() in ("DONE", "ERROR", "CANCELLED")
            r = job.cancel()
            check(not (fin and r), lambda: f"cancel() succeeded on a job that is {rem.now()}")
        elif p == "result":
            try:
                r = job.result()
            except J.JobCancelledError:
                check(rem.now() == "CANCELLED", lambda: f"reported as cancelled while {rem.now()}")
                check(job.last_known_status == S.CANCELLED, "status does not follow")
            except J.JobFailureError:
                check(rem.now() == "ERROR", lambda: f"reported as failed while {rem.now()}")
                check(job.last_known_status == S.ERROR, "status does not follow")
            else:
                check(rem.now() == "DONE", lambda: f"result() returned while the remote job is {rem.now()}")
                check(r is not None and r.all_counts == want, lambda: f"result() returned {r and r.all_counts} instead of {want}")
                check(job.last_known_status == S.DONE, "status does not follow")
            if rem.now() in ("DONE", "ERROR", "CANCELLED"):
                terminal = S[rem.now()]


@case("jobresult")
def c_jr(kind):
    J = need("qrisp.interface.job")
    bad = {"str": "ab", "bytes": b"ab", "empty": [], "item": [{"0": 1}, 3], "none": None, "gen": 5}[kind]
    try:
        J.JobResult(bad)
    except (TypeError, ValueError):
        return
    raise Fail(f"malformed counts {bad!r} accepted")


# ------------------------------------------------------------------ result views
def raw_result(counts):
    r = need("qrisp.interface", "MeasurementResult")()
    r._inject(dict(counts))
    return r


@case("views")
def c_views(counts, nbits, mod):
    I = iface()
    IntK = need("qrisp.interface.measurement_result", "_IntKeyedResult")
    snap = dict(counts)
    r = raw_result(counts)
    check(dict(r) == counts and len(r) == len(counts) and r == counts and all(r[k] == v for k, v in counts.items()), "raw view differs from the counts")
    tot = sum(counts.values())
    k = IntK(r, nbits)
    want = {}
    for b, c in counts.items():
        i = int(b.replace(" ", "")[:nbits], 2)
        want[i] = want.get(i, 0) + c / tot
    got = dict(k)
    check(set(got) == set(want) and all(math.isclose(got[x], want[x], abs_tol=1e-3) for x in want), lambda: f"integer view {got} instead of {want}")
    d = I.DecodedMeasurementResult(k, lambda i: i % mod)
    w2 = {}
    for i, p in want.items():
        w2[i % mod] = w2.get(i % mod, 0) + p
    g2 = dict(d)
    check(set(g2) == set(w2) and all(math.isclose(g2[x], w2[x], abs_tol=1e-3) for x in w2), lambda: f"decoded view {g2} instead of {w2}")
    check(list(g2.values()) == sorted(g2.values(), reverse=True), "decoded view is not ordered by frequency")
    check(dict(r) == snap and dict(k) == got, "reading a view changed another one")


@case("multi_view")
def c_multi(counts, regs, mods):
    I = iface()

    class V:
        def __init__(self, m):
            self.m = m

        def decoder(self, i):
            return i % self.m if self.m else i
    r = raw_result(counts)
    cl = [[object()] * w for w in regs][::-1]
    got = dict(I.MultiMeasurementResult(r, [V(m) for m in mods], cl))
    tot = sum(counts.values())
    want = {}
    for b, c in counts.items():
        o, lab = 0, []
        for w, m in zip(regs, mods):
            v = int(b[o:o + w], 2)
            lab.append(v % m if m else v)
            o += w
        want[tuple(lab)] = want.get(tuple(lab), 0) + c / tot
    check(set(got) == set(want) and all(math.isclose(got[x], want[x], abs_tol=1e-6) for x in want), lambda: f"joint view {got} instead of {want}")


@case("measure")
def c_meas(spec, shots, batched, midm):
    """variables prepared in superpositions of basis states; every way of reading them agrees with the prepared amplitudes"""
    import numpy as np
    from qrisp import QuantumBool, QuantumFloat, QuantumModulus, QuantumVariable, cx, h, multi_measurement, x
    I = iface()
    np.random.seed(5)
    vs, exp = [], []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from qrisp import QuantumSession
        qs = QuantumSession()
        if midm is not None:
            a = QuantumBool(qs=qs)
            h(a)
            qs.measure(a[0], qs.add_clbit())
        for kind, size, val, hq in spec:
            v = {"var": lambda: QuantumVariable(size, qs=qs), "float": lambda: QuantumFloat(size, -1, qs=qs), "signed": lambda: QuantumFloat(size, signed=True, qs=qs)}[kind]()
            n = v.size
            for i in range(n):
                if (val >> i) & 1:
                    x(v[i])
            vals = [val % (1 << n)]
            if hq is not None and hq < n:
                h(v[hq])
                vals = sorted({vals[0] & ~(1 << hq), vals[0] | (1 << hq)})
            vs.append(v)
            exp.append([(v.decoder(i), 1 / len(vals)) for i in vals])
        joint = {(): 1.0}
        for e in exp:
            joint = {k + (lab,): p * q for k, p in joint.items() for lab, q in e}
        be = need("qrisp.interface", "QrispSimulatorBackend")()
        b = be.batched() if batched else be
        ind = [v.get_measurement(backend=b, shots=shots) for v in vs]
        multi = multi_measurement(vs, backend=b, shots=shots)
        if batched:
            check(b.pending_count == len(vs) + 1, lambda: f"{b.pending_count} circuits queued by {len(vs) + 1} measurements")
            b.dispatch()
        tol = 1e-3 if shots is None else 6 * (0.25 / shots) ** .5
        for e, g in zip(exp, ind):
            check(set(g) <= {a for a, _ in e}, lambda: f"labels {dict(g)} instead of {e}")
            for lab, p in e:
                check(abs(g.get(lab, 0) - p) < tol, lambda: f"label {lab!r}: {g.get(lab, 0)} instead of {p}")
        check(set(multi) <= set(joint), lambda: f"joint outcomes {dict(multi)} instead of {joint}")
        for lab, p in joint.items():
            check(abs(multi.get(lab, 0) - p) < tol, lambda: f"joint outcome {lab}: {multi.get(lab, 0)} instead of {p}")


# ------------------------------------------------------------------ tasks
def history(r):
    ops = []
    for _ in range(r.randint(1, 25)):
        x = r.random()
        if x < .6:
            single = r.random() < .5
            ops.append(["run", 1 if single else r.randint(0, 6), r.choice([None, None, 1, 5, 100, 7]), single, r.random() < .3])
        elif x < .67:
            ops.append(["opt", r.choice([3, 11, 500])])
        elif x < .72:
            ops.append(["clear"])
        else:
            ops.append(["dispatch", r.choice([None, None, 1.5, 10])])
    ops.append(["dispatch", None])
    return ops


@task("batching", weight=2)
def t_batch(ctx):
    r = ctx.rng
    ctx.bound("histories of up to 25 operations")
    for i in range(700 if not thorough() else 6000):
        faults = {} if r.random() < .4 else {str(k): r.choice(["submit", "result", "short", "long"]) for k in r.sample(range(8), r.randint(1, 3))}
        ctx.run(c_batch, limit=r.choice([None, 1, 2, 3, 4, 7]), default_shots=r.choice([None, 1024, 9]), faults=faults, ops=history(r))
        if ctx.full():
            return
    # systematic: every queue length, limit and failing job
    for n in range(1, 9):
        for limit in [None, 1, 2, 3, 5]:
            for bad in [None] + list(range(-(-n // (limit or n)))):
                shots = [r.choice([None, 5, 100]) for _ in range(n)]
                ctx.run(c_batch, limit=limit, default_shots=50, faults={} if bad is None else {str(bad): r.choice(["submit", "result"])},
                        ops=[["run", 1, s, True, False] for s in shots] + [["dispatch", None], ["run", 2, None, False, False], ["dispatch", 2.0]])
    for n in range(1, 5):
        for limit in [None, 1, 2, 3]:
            for shots in [None, 1, 10, 0, -3, True, 1.5, "7"]:
                for fault in [None, "submit", "result"]:
                    for single in ([True, False] if n == 1 else [False]):
                        ctx.run(c_direct, limit=limit, default_shots=77, fault=fault, n=n, shots=shots, single=single)


@task("jobs")
def t_jobs(ctx):
    r = ctx.rng
    for n in (1, 2, 4):
        for bad in [None] + list(range(n)):
            for shots in (None, 10, [3 + i for i in range(n)]):
                ctx.run(c_job, kind="virtual", n=n, bad=bad, shots=shots)
                ctx.run(c_job, kind="sim", n=n, bad=bad, shots=shots)
            ctx.run(c_job, kind="stim", n=n, bad=None, shots=r.choice([None, 10, [3 + i for i in range(n)]]))
    for kind in ("qiskit", "aqt"):
        for _ in range(150 if not thorough() else 1500):
            script = r.choice([[], ["QUEUED"], ["QUEUED", "RUNNING"], ["RUNNING"], ["INITIALIZING", "QUEUED", "RUNNING", "RUNNING"]])
            ctx.run(c_prov, kind=kind, script=script, final=r.choice(["DONE", "DONE", "ERROR", "CANCELLED"]),
                    polls=[r.choice(["poll", "poll", "step", "step", "result", "cancel" if r.random() < .3 else "poll"]) for _ in range(r.randint(1, 8))])
    for k in ("str", "bytes", "empty", "item", "none", "gen"):
        ctx.run(c_jr, kind=k)


@task("views")
def t_views(ctx):
    r = ctx.rng
    for _ in range(800 if not thorough() else 8000):
        n = r.randint(1, 6)
        keys = r.sample([format(i, f"0{n}b") for i in range(1 << n)], r.randint(1, min(10, 1 << n)))
        if r.random() < .5:
            counts = {k: r.randint(1, 50) for k in keys}
        else:
            w = [r.random() + .01 for _ in keys]
            counts = {k: x / sum(w) for k, x in zip(keys, w)}
        ctx.run(c_views, counts=counts, nbits=r.randint(1, n), mod=r.randint(1, 9))
        regs = []
        left = n
        while left and len(regs) < 3 and r.random() < .8:
            w = r.randint(1, left)
            regs.append(w)
            left -= w
        if regs:
            ctx.run(c_multi, counts=counts, regs=regs, mods=[r.choice([0, 0, 1, 2, 3]) for _ in regs])
        if ctx.full():
            return


@task("measure", weight=2)
def t_meas(ctx):
    r = ctx.rng
    for _ in range(60 if not thorough() else 500):
        spec = [[r.choice(["var", "float", "signed"]), r.randint(1, 4), r.randrange(16), r.choice([None, 0, 1, 2])] for _ in range(r.randint(1, 3))]
        ctx.run(c_meas, spec=spec, shots=r.choice([None, None, 2000]), batched=r.random() < .6, midm=r.choice([None, None, 0]))
        if ctx.full():
            return


@case("options")
def c_opt(shots, how):
    """invalid shot counts and unknown options are refused and leave the options untouched; valid ones are used"""
    B = stub(4, 100, {}, {"timeouts": [], "jobs": []})
    be = B() if isinstance(B, type) else B
    old = dict(be.options)
    ok = shots is None or (isinstance(shots, int) and not isinstance(shots, bool) and shots > 0)
    try:
        if how == "update":
            be.update_options(shots=shots)
        elif how == "unknown":
            be.update_options(shots=5, nonsense=1)
            ok = False
        done = True
    except (TypeError, ValueError, AttributeError):
        done = False
    if how == "unknown":
        ok = False
    check(done == ok, f"option update ({how}, shots={shots!r}) is {'accepted' if done else 'refused'}")
    want = {**old, "shots": shots} if done else old
    check(dict(be.options) == want, lambda: f"options are {dict(be.options)} instead of {want}")


@task("options")
def t_opt(ctx):
    for s in (None, 1, 7, 10 ** 6, 0, -1, 2.5, "3", True):
        ctx.run(c_opt, shots=s, how="update")
    ctx.run(c_opt, shots=5, how="unknown")
