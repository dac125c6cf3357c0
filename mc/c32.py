"""C32 the compiled extension and the Python training"""
import itertools
import numpy as np
import core, lib, rustext, sched, c01, c02

PROPERTY = {
    "title": "Optimized (Rust) training agrees with the Python training",
    "statement": "Training with the compiled extension on the CPU ends with the same factor matrices, loss values, convergence flag, step count and loss history as training with the Python implementation, up to the rounding of float32, for both methods, for every dataset, start, held or delayed profiles and convergence setting, whatever the memory layout of the matrices, and also when the model has been trained before. The data, the uncertainty and the start of the caller are not modified, any model index is accepted, a custom update step is used and not ignored, and a progress callback is told at the end that the model with this index is complete, with its loss values; of a batch every model is reported under its own number and complete once, before the training returns, in parallel and one after another.",
    "quantifier": {"over": ["inputs", "configurations", "histories"],
                   "text": "all datasets, starts, layouts, training settings and sequences of trainings, on both implementations"},
    "why_tests_cant": "The tests run whichever implementation is installed and never compare the two; the extension is not even compiled where they run.",
    "anchors": {"files": ["rust/lib.rs", "esat/model/sa.py"],
                "mechanism": [{"name": "ls_nmf_update_cpu, ws_nmf_update_cpu", "where": "rust/lib.rs"}, {"name": "conversion of the matrices", "where": "ls_nmf, ws_nmf in rust/lib.rs"},
                              {"name": "optimized path", "where": "SA.train"}],
                "observe_at": ["SA.W", "SA.H", "SA.Qtrue", "SA.q_list", "SA.converge_steps"]},
}
SPEC = {"level": "exploration",
        "rule": "every run of rust/lib.rs (compiled unchanged against stand-ins of its crates) next to the Python training from the same start; non-trivial: distinct final matrices",
        "bounds": {"quick": "ls-nmf: every 3x2 dataset over {1,3,10} x 1-2 factors, and shapes 2..5 x 2..5 with 1-3 factors x 4 memory layouts x 2 starts; ws-nmf: shapes 4..6 x 3..5 with 1-2 factors, positive and negative data x 4 layouts; 1 iteration from each of 4 consecutive states plus one run of 4; all hold/delay settings to 3; convergence windows 1..5 x 5 thresholds x 3 iteration limits; sequences of 3 trainings; BatchSA, its progress in both modes and every completion order of 3 models, and resampled data",
                   "thorough": "datasets over 5 values, shapes up to 7, 10 states per run, windows to 9"},
        "assumptions": ["crates (nalgebra, ndarray, numpy, pyo3, indicatif, console, candle) are stand-ins of mine (rustshim/) that follow their documented behaviour; the GPU path is not executed",
                        "weighted semi method: runs whose normal equations have a condition number above 1000 are compared in the loss only",
                        "if rust/lib.rs cannot be compiled against the stand-ins the check gives no answer (exit 2)"]}

MOD = None


def model(rust, V, U, f, method, seed=3):
    SA = core.esat("esat.model.sa").SA
    if not rust:
        with core.NoRustLeft():
            sa = SA(V=V, U=U, factors=f, method=method, seed=seed)
        assert not sa.optimized
        return sa
    with rustext.Installed(MOD):
        sa = SA(V=V, U=U, factors=f, method=method, seed=seed)
    return sa


def layout(x, kind):
    x = np.asarray(x, dtype=float)
    if kind == "C":
        return np.ascontiguousarray(x)
    if kind == "F":
        return np.asfortranarray(x)
    if kind == "rows":                      # every second row of a larger array
        y = np.full((2 * x.shape[0], x.shape[1]), 7.5)
        y[::2] = x
        return y[::2]
    y = np.full((x.shape[0], 2 * x.shape[1]), 7.5, order="F")
    y[:, ::2] = x
    return y[:, ::2]


def condition(V, U, H):
    We = 1.0 / np.asarray(U, float) ** 2
    return max(np.linalg.cond((H * We[i]) @ H.T) for i in range(V.shape[0]))


def agree(ctx, what, a, b, V, U, method, tol=2e-4):
    """a: Python, b: optimized"""
    Wa, Ha, Wb, Hb = (np.asarray(x, float) for x in (a.W, a.H, b.W, b.H))
    if not ctx.expect(Wb.shape == Wa.shape and Hb.shape == Ha.shape, f"{what}: shapes {Wb.shape} {Hb.shape}"):
        return False
    bad = False
    if method == "ws-nmf" and (condition(V, U, Ha) > 1e3 or not np.isfinite(Wa).all()):
        bad = True
    qn = lib.q_noise(V, U, Wa, Ha) + 1e-3 * float(a.Qtrue) + 1e-9
    if not bad:
        ok = lib.close(Wb, Wa, tol, tol * 0.1 * np.abs(Wa).max()) and lib.close(Hb, Ha, tol, tol * 0.1 * np.abs(Ha).max())
        if not ctx.expect(ok, f"{what}: the optimized training ends with other matrices",
                          lambda: {"W": Wb, "expected W": Wa, "H": Hb, "expected H": Ha, "V": V, "U": U}):
            return False
        for n in ("Qtrue", "Qrobust"):
            x, y = float(getattr(a, n)), float(getattr(b, n))
            ctx.expect(abs(x - y) <= qn, f"{what}: {n} {y}, in Python {x}")
        ctx.expect(np.allclose(np.asarray(b.WH, float), Wb @ Hb, rtol=1e-4, atol=1e-6 * np.abs(V).max()), f"{what}: WH is not W times H")
    return not bad


def pair(V, U, f, method, kind, W0, H0):
    a, b = model(False, V, U, f, method), model(True, layout(V, kind), layout(U, kind), f, method)
    a.initialize(H=np.array(H0), W=np.array(W0))
    b.initialize(H=np.array(H0), W=np.array(W0))
    return a, b


def start(m, n, f, k):
    return np.abs(c01.start_h(m, f, k)), c01.start_h(f, n, k)


def one(ctx, key, V, U, f, method, kind, k, steps):
    if not ctx.case(*key):
        return
    with ctx.guard("optimized training"):
        W0, H0 = start(*V.shape, f, k)
        a, b = pair(V, U, f, method, kind, W0, H0)
        ctx.expect(b.optimized, "the model does not use the extension")
        for i in range(steps):
            sv, su = np.array(b.V), np.array(b.U)
            hold = (i + k) % 3 == 2
            for s in (a, b):
                s.train(max_iter=1, converge_n=10 ** 6, hold_h=hold)
            ctx.step()
            ctx.expect(lib.same(b.V, sv) and lib.same(b.U, su), "the optimized training modifies the data")
            if not agree(ctx, f"iteration {i + 1}", a, b, V, U, method, 1e-3 if method == "ws-nmf" else 2e-4):
                break
            if hold:
                ctx.expect(lib.close(b.H, hb, 1e-6), f"iteration {i + 1} changed held profiles")
            ctx.state(lib.key(np.asarray(a.W, float).round(3), np.asarray(a.H, float).round(3)))
            b.W, b.H = np.array(a.W), np.array(a.H)         # the next step starts from the same state
            hb = np.array(a.H)
        # one uninterrupted run
        a, b = pair(V, U, f, method, kind, W0, H0)
        if method == "ws-nmf" and condition(V, U, H0) > 1e3:
            return
        for s in (a, b):
            s.train(max_iter=min(steps, 4), converge_n=10 ** 6)
        ctx.expect(not b.converged and not a.converged, "converged without a window")
        ctx.expect(int(b.converge_steps) == int(a.converge_steps), f"{b.converge_steps} steps, in Python {a.converge_steps}")
        if method == "ls-nmf":
            agree(ctx, "run", a, b, V, U, method, 1e-3)
            qa, qb = np.asarray(a.q_list, float), np.asarray(b.q_list, float)
            ctx.expect(qa.shape == qb.shape and np.all(np.abs(qa - qb) <= 1e-3 * qa + lib.q_noise(V, U, a.W, a.H) * 5),
                       f"loss history {qb.tolist()}, in Python {qa.tolist()}")
        ctx.expect(abs(float(np.asarray(b.q_list)[-1]) - lib.q_true(V, U, b.W, b.H)) <= 1e-3 * lib.q_true(V, U, b.W, b.H) + 20 * lib.q_noise(V, U, b.W, b.H),
                   "the last loss of the history is not that of the final matrices")


def small(ctx, job):
    f, part, parts, al = job
    for k, V in enumerate(lib.matrices(3, 2, al)):
        if k % parts == part:
            kind = ("C", "F", "rows", "cols")[k % 4]
            one(ctx, ("small", f, list(al), k), V, c01.unc(V, "mixed"), f, "ls-nmf", kind, k % 2, 4)


def shapes(ctx, job):
    method, m, n, f, steps = job
    for kind, k, neg in itertools.product(("C", "F", "rows", "cols"), (0, 1), (False, True) if method == "ws-nmf" else (False,)):
        V = c02.shaped(m, n, k)
        U = c01.unc(V, "mixed")
        if neg:
            V = V - np.median(V)
        one(ctx, ("shape", method, m, n, f, kind, k, neg), V, U, f, method, kind, k, steps)


def holding(ctx, job):
    """hold and delay in one run"""
    method, kind = job
    m, n, f = (5, 4, 2)
    V = c02.shaped(m, n, 1)
    U = c01.unc(V, "mixed")
    W0, H0 = start(m, n, f, 0)
    for hold, delay, iters in itertools.product((False, True), (-1, 0, 1, 2, 3), (1, 2, 3, 4, 5)):
        if not ctx.case("hold", method, kind, hold, delay, iters):
            continue
        with ctx.guard("training with held profiles"):
            a, b = pair(V, U, f, method, kind, W0, H0)
            for s in (a, b):
                s.train(max_iter=iters, converge_n=10 ** 6, hold_h=hold, delay_h=delay)
            ctx.step(iters)
            still = lib.same(np.asarray(a.H, "float32"), H0.astype("float32"))
            ctx.expect(still == lib.same(np.asarray(b.H, "float32"), H0.astype("float32")),
                       f"profiles {'moved' if still else 'held'}, in Python {'held' if still else 'moved'}")
            if hold and (delay <= 0 or iters <= delay):
                ctx.expect(still, "profiles moved although they are held")
            if method == "ls-nmf" or hold and iters <= delay + 2:
                agree(ctx, "run", a, b, V, U, method, 2e-3)
            ctx.state(("hold", lib.key(np.asarray(a.H, float).round(3))))


def window(qs, max_iter, delta, n):
    """index of the iteration at which a loss history meets the criterion, or None"""
    for i in range(min(len(qs), max_iter)):
        if i >= n and qs[i - n + 1] - qs[i] < delta:
            return i
    return None


def converge(ctx, job):
    method, kind = job
    V = c02.shaped(6, 4, 2)
    U = c01.unc(V, "mixed")
    W0, H0 = start(6, 4, 2, 1)
    big = 9 if ctx.thorough else 5
    for n, delta, limit in itertools.product(range(1, big + 1), (-1.0, 0.0, 0.5, 5.0, 1e9), (3, 8, 25)):
        if not ctx.case("converge", method, kind, n, delta, limit):
            continue
        with ctx.guard("training until convergence"):
            b = model(True, layout(V, kind), layout(U, kind), 2, method)
            b.initialize(H=np.array(H0), W=np.array(W0))
            told = []
            b.train(max_iter=limit, converge_delta=delta, converge_n=n, model_i=5, progress_callback=lambda *x: told.append(x))
            ctx.step(len(b.q_list))
            q = np.asarray(b.q_list, dtype=np.float32)
            at = window(q, limit, np.float32(delta), n)
            want = len(q) if at is None else at
            ctx.expect(bool(b.converged) == (at is not None), f"converged {b.converged}, the history meets the criterion at {at}")
            ctx.expect(len(q) == (limit if at is None else at + 1), f"{len(q)} iterations, criterion met at {at}, limit {limit}")
            ctx.expect(int(b.converge_steps) == want, f"{b.converge_steps} steps, expected {want}")
            if ctx.expect(bool(told), "the progress callback is not called at the end"):
                t = told[-1]
                ctx.expect(t[0] == 5 and t[2] == limit and t[6] is True and t[1] == len(q) - 1, f"last progress {t}")
                ctx.expect(all(not x[6] for x in told[:-1]), "told more than once that the model is complete")
                qt, qr = lib.q_true(V, U, b.W, b.H), lib.q_robust(V, U, b.W, b.H)
                ctx.expect(lib.close([t[3], t[4], t[5]], [qt, qr, qt / V.size], 2e-3, 1e-3) or method == "ws-nmf",
                           f"progress losses {t[3:6]}, expected {qt}, {qr}")
            ctx.state(("c", n, delta, limit, len(q)))


def histories(ctx, job):
    """sequences of trainings on one model"""
    method, kind = job
    V = c02.shaped(5, 4, 3)
    U = c01.unc(V, "mixed")
    W0, H0 = start(5, 4, 2, 1)
    ops = [(1, False), (2, False), (2, True)]
    for seq in itertools.product(range(3), repeat=3):
        if not ctx.case("history", method, kind, list(seq)):
            continue
        with ctx.guard("training again"):
            a, b = pair(V, U, 2, method, kind, W0, H0)
            for o in seq:
                for s in (a, b):
                    s.train(max_iter=ops[o][0], hold_h=ops[o][1], converge_n=10 ** 6)
                ctx.step()
                if method == "ls-nmf":
                    agree(ctx, "run", a, b, V, U, method, 3e-3)
                else:
                    qa, qb = float(a.Qtrue), float(b.Qtrue)
                    ctx.expect(abs(qa - qb) <= 0.02 * qa + 20 * lib.q_noise(V, U, a.W, a.H), f"Q(true) {qb}, in Python {qa}")
            ctx.state(("h", method, lib.key(np.asarray(a.H, float).round(3))))


STEP = """
def update(self, V, We, W, H, hold_h=False):
    return W * 2.0, H if hold_h else H * 0.5
"""


def others(ctx, job):
    """model indices, a custom update step, batches, resampled data"""
    V = c02.shaped(6, 4, 0)
    U = c01.unc(V, "mixed")
    W0, H0 = start(6, 4, 2, 0)
    for i in (0, 1, 5, 127, 128, 300, 100000, -1):
        if ctx.case("index", i):
            with ctx.guard(f"model index {i}"):
                a, b = pair(V, U, 2, "ls-nmf", "C", W0, H0)
                for s in (a, b):
                    s.train(max_iter=2, model_i=i)
                agree(ctx, f"index {i}", a, b, V, U, "ls-nmf")
                ctx.expect(b.model_i == i, f"model index {b.model_i}")
    for n in (1, 2, 3):
        if ctx.case("custom step", n):
            with ctx.guard("custom update step"):
                a, b = pair(V, U, 2, "ls-nmf", "C", W0, H0)
                for s in (a, b):
                    s.train(max_iter=n, update_step=STEP)
                ctx.expect(lib.close(b.W, W0 * 2 ** n, 1e-5) and lib.close(b.H, H0 / 2 ** n, 1e-5), "the custom update step is ignored")
    for dt, (k, rows) in itertools.product(("float32", "float64"), enumerate(itertools.product(range(3), repeat=4))):
        if k % 3 or not ctx.case("resampled", dt, list(rows)):
            continue
        with ctx.guard("resampled data"):
            idx = list(rows) + [3, 4, 5]
            x, y = np.asfortranarray(V, dtype=dt)[idx], np.asfortranarray(U, dtype=dt)[idx]
            W1, _ = start(7, 4, 2, 0)
            a, b = pair(x, y, 2, "ls-nmf", "C", W1, H0)
            b.V, b.U = x.astype("float32"), y.astype("float32")
            for s in (a, b):
                s.train(max_iter=3, hold_h=k % 2 == 0)
            agree(ctx, "resampled", a, b, x, y, "ls-nmf", 1e-3)
            ctx.state(("r", tuple(rows)))
    BatchSA = core.esat("esat.model.batch_sa").BatchSA
    for method, kind, init in itertools.product(("ls-nmf", "ws-nmf"), ("C", "F"), (1, 9)):
        if not ctx.case("batch", method, kind, init):
            continue
        with ctx.guard("batch"):
            with rustext.Installed(MOD), core.quiet():
                bs = BatchSA(V=layout(V, kind), U=layout(U, kind), factors=2, models=3, method=method, seed=init,
                             max_iter=3, converge_n=50, parallel=False, verbose=False)
                bs.train()
            for i, r in enumerate(bs.results):
                if not ctx.expect(r is not None and r.optimized, f"model {i} of the batch is {r}"):
                    continue
                a = model(False, V, U, 2, method, seed=r.seed)
                a.initialize()
                a.train(max_iter=3, converge_n=50)
                if method == "ls-nmf":
                    agree(ctx, f"batch model {i}", a, r, V, U, method, 2e-3)
                q = lib.q_true(V, U, r.W, r.H)
                ctx.expect(abs(float(r.Qtrue) - q) <= 1e-3 * q + 20 * lib.q_noise(V, U, r.W, r.H), f"Q(true) {r.Qtrue} of model {i}, expected {q}")


TOLD = []


def note(*x):
    TOLD.append(x)


def progress(ctx, job):
    """the progress of the models of a batch, one after another and in every order of parallel completion"""
    BatchSA = core.esat("esat.model.batch_sa").BatchSA
    V = c02.shaped(6, 4, 0)
    U = c01.unc(V, "mixed")
    closed = []
    for method, parallel, limit, delta, cb in itertools.product(("ls-nmf", "ws-nmf"), (False, True), (2, 7), (-1.0, 1e9), (note, lambda *x: closed.append(x))):
        for order in sched.orders(3) if parallel else ((0, 1, 2),):
            if not ctx.case("progress", method, parallel, limit, delta, cb is note, list(order)):
                continue
            with ctx.guard("progress of a batch"):
                TOLD.clear()
                closed.clear()
                with rustext.Installed(MOD), core.quiet(), sched.controlled(lambda n, i: order):
                    bs = BatchSA(V=V, U=U, factors=2, models=3, method=method, seed=5, max_iter=limit, converge_n=3, converge_delta=delta,
                                 parallel=parallel, cores=2, verbose=False, progress_callback=cb)
                    out = bs.train()
                told = list(TOLD if cb is note else closed)
                if not ctx.expect(bool(out[0]) and len(bs.results) == 3, f"training with a progress callback: {out}"):
                    continue
                ctx.step(3)
                nums = [r.model_i for r in bs.results]
                ctx.expect(nums == [1, 2, 3] and {t[0] for t in told} == {1, 2, 3}, f"progress of the models {sorted({t[0] for t in told})}, trained {nums}")
                for r, i in zip(bs.results, nums):
                    mine = [t for t in told if t[0] == i]
                    if not ctx.expect(bool(mine) and [t[6] for t in mine] == [False] * (len(mine) - 1) + [True], f"model {i} is reported complete {[t[6] for t in mine]}"):
                        continue
                    ctx.expect([t[1] for t in mine] == sorted(t[1] for t in mine) and mine[-1][1] == len(r.q_list) - 1 and mine[-1][2] == limit, f"iterations of model {i}: {mine}, {len(r.q_list)} trained")
                    if method == "ls-nmf":
                        ctx.expect(lib.close([mine[-1][3], mine[-1][5]], [r.Qtrue, r.Qtrue / V.size], 2e-3, 1e-3), f"losses of model {i}: {mine[-1]}, Q(true) {r.Qtrue}")
                if not parallel:
                    ctx.expect([t[0] for t in told] == sorted(t[0] for t in told), "models are reported out of order")
                ctx.state(("progress", method, parallel, limit, delta, order))


def work(ctx, job):
    globals()[job[0]](ctx, job[1:] if len(job) > 2 else job[1])


def run(ctx):
    global MOD
    with core.scratch() as d:
        path, messages = rustext.build(d)
        if path is None:
            raise core.Undecided("rust/lib.rs cannot be compiled against the stand-ins of its crates: " + messages[-600:])
        MOD = rustext.load(path)
        al = (1.0, 2.0, 4.0, 10.0, 50.0) if ctx.thorough else (1.0, 3.0, 10.0)
        steps = 10 if ctx.thorough else 4
        jobs = [("small", f, p, 4, al) for f in (1, 2) for p in range(4)]
        big = 8 if ctx.thorough else 6
        jobs += [("shapes", "ls-nmf", m, n, f, steps) for m in range(2, big) for n in range(2, big) for f in (1, 2, 3)]
        jobs += [("shapes", "ws-nmf", m, n, f, steps) for m in range(4, big + 1) for n in range(3, big) for f in (1, 2)]
        jobs += [(w, m, k) for w in ("holding", "converge", "histories") for m in ("ls-nmf", "ws-nmf") for k in ("C", "F")]
        jobs += [("others", None), ("progress", None)]
        core.shards(ctx, work, jobs)
