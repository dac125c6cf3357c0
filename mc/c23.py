"""C23 batch training"""
import itertools
import re
import time
import numpy as np
import core, lib, sched, c01, c02

PROPERTY = {
    "title": "A batch holds, in order, exactly the models its settings describe",
    "statement": "Training a batch gives one model per requested run, in run order: each is what a single model with that run's seed and the batch's data, method, factors, start matrices (shared, or one per run), initialization, hold and delay settings and stopping rule gives. Sequential and parallel training give the same models for every completion order, and the same batch seed gives the same batch, with and without a progress callback. The best model is the one with the smallest robust loss (or true loss, when asked for); a model that fails, or exceeds the time limit in sequential mode, makes the training report failure with a message, and training again gives a complete batch whatever happened before; the arrays of the caller are not modified. The printed details name the values of these models.",
    "quantifier": {"over": ["schedules", "inputs", "configurations", "fault_sequences"],
                   "text": "all completion orders, all settings, all positions of a failing or slow model"},
    "why_tests_cant": "The tests compare one sequential with one parallel batch at default settings; a setting that only one of the two paths forwards, or results in completion order, need other settings and orders.",
    "anchors": {"files": ["esat/model/batch_sa.py", "esat/model/sa.py"],
                "state": [{"name": "results", "meaning": "trained models", "where": "BatchSA"},
                          {"name": "best_model", "meaning": "index of the best model", "where": "BatchSA"}],
                "mechanism": [{"name": "parallel and sequential training", "where": "BatchSA.train"}],
                "observe_at": ["BatchSA.results", "BatchSA.best_model", "return value of BatchSA.train"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive exploration of settings, completion orders and fault positions on the real code under a controlled pool and clock",
        "bounds": {"quick": "2 methods x start matrices {none, shared H, H per run, W per run, both per run, one profile} x hold/delay {none, hold, hold for 2 or 5 iterations, delay without hold} x loss {robust, true} x initialization {column means, k-means} for 3 runs, sequential and parallel; all completion orders of 4 runs for 6 settings; 12 runs in 3 completion orders; every fault position and every slow position of 3 runs, two time limits (durations from below the limit to more than a day); every sequence of three trainings of one batch (successful, with the other loss, failing or too slow at each model)",
                   "thorough": "as quick, 4 runs in the settings, all 120 orders of 5 runs"},
        "assumptions": ["tasks interact only through the pool (they run on pickled copies, as in separate processes)",
                        "the Python training is explored; the extension is compared with it in C32"]}

M, N, F = 6, 4, 2


def data(method):
    V = c02.shaped(M, N, 1)
    if method == "ws-nmf":
        V = V - 2.0
    return V, c01.unc(V, "mixed")


def starts(kind, runs):
    H = np.array([c01.start_h(F, N, k) for k in range(runs)])
    W = np.array([np.abs(c01.start_h(M, F, k)) for k in range(runs)])
    return {"none": (None, None), "H": (H[0], None), "Hs": (H, None), "W": (None, W), "HW": (H, W), "one": (H[0][:1], None),
            "W2": (None, W[0])}[kind]


def pick(x, i):
    return None if x is None else x[i] if x.ndim == 3 else x


def make(cfg, runs, parallel, seed=8):
    mod = core.esat("esat.model.batch_sa")
    method, start, hold, delay, robust, init = cfg
    V, U = data(method)
    H, W = starts(start, runs)
    held = [None if a is None else a.copy() for a in (V, U, H, W)]
    with core.NoRustLeft():
        b = mod.BatchSA(V=V, U=U, factors=F, models=runs, method=method, seed=seed, H=H, W=W, init_method=init, init_norm=False,
                        max_iter=9, converge_delta=1e-3, converge_n=4, best_robust=robust, parallel=parallel, cores=2,
                        hold_h=hold, delay_h=delay, verbose=False)
    return b, (V, U, H, W), held


def single(cfg, seed, i, runs):
    method, start, hold, delay, robust, init = cfg
    V, U = data(method)
    H, W = starts(start, runs)
    sa = lib.SA(V, U, F, method=method, seed=seed, verbose=False)
    sa.initialize(H=pick(H, i), W=pick(W, i), init_method=init, init_norm=False)
    sa.train(max_iter=9, converge_delta=1e-3, converge_n=4, hold_h=hold, delay_h=delay)
    return sa


def check(ctx, b, res, given, held, cfg, runs):
    ctx.expect(isinstance(res, tuple) and res[0] is True and res[1] == "", f"training returned {res}")
    if not ctx.expect(len(b.results) == runs and all(r is not None for r in b.results), f"{len(b.results)} results for {runs} runs"):
        return
    for i, r in enumerate(b.results):
        ref = single(cfg, r.seed, i, runs)
        ctx.expect(lib.close(r.W, ref.W, 1e-5, 1e-7) and lib.close(r.H, ref.H, 1e-5, 1e-7),
                   f"model {i + 1} is not what single training with its seed and settings gives")
        ctx.expect(bool(r.converged) == bool(ref.converged) and r.converge_steps == ref.converge_steps, f"model {i + 1}: convergence")
        ctx.expect(lib.close([r.Qtrue, r.Qrobust], [ref.Qtrue, ref.Qrobust], 1e-5), f"model {i + 1}: losses")
        ctx.expect(r.method == cfg[0] and r.factors == F and lib.same(r.V, ref.V) and lib.same(r.U, ref.U), f"model {i + 1}: settings or data")
    ctx.expect(len({int(r.seed) for r in b.results}) == runs, "two runs have the same seed")
    q = [float(r.Qrobust if cfg[4] else r.Qtrue) for r in b.results]
    ctx.expect(0 <= b.best_model < runs and q[b.best_model] <= min(q) * (1 + 1e-7), f"best model {b.best_model}, losses {q}")
    for a, h, name in zip(given, held, "VUHW"):
        ctx.expect(a is None or lib.same(a, h), f"{name} of the caller was modified")
    ctx.outcome([cfg, b.best_model])


def details(ctx, b):
    """the printed details name the values of every model and of the best one"""
    with lib.logged() as log:
        b.details()
    seen = []
    for line in log:
        m = re.search(r"Model\s*:\s*(\d+)", line)
        if m is None or "Q(true)" not in line:
            continue
        i = int(m.group(1)) - 1
        if not ctx.expect(0 <= i < len(b.results), f"details of a model {i + 1}"):
            continue
        r = b.results[i]
        if "Best" in line:
            ctx.expect(i == b.best_model, f"the details name model {i + 1} the best one, it is {b.best_model + 1}")
        else:
            seen.append(i)
        want = {r"Q\(true\)": r.Qtrue, r"Q\(robust\)": r.Qrobust, r"MSE\(true\)": r.Qtrue / b.V.size, r"MSE\(robust\)": r.Qrobust / b.V.size,
                "Seed": r.seed, "Steps": r.converge_steps}
        for k, v in want.items():
            for x in re.findall(k + r"\s*:\s*([-+.\deE]+)", line):
                ctx.expect(abs(float(x) - float(v)) <= 1e-4 * abs(float(v)) + 6e-5, f"details of model {i + 1}: {line}")
        for x in re.findall(r"Converged\s*:\s*(True|False)", line):
            ctx.expect(x == str(bool(r.converged)), f"details of model {i + 1}: {line}")
    ctx.expect(not seen or seen == list(range(len(b.results))), f"details of the models {seen}")


def content(b):
    return [(int(r.seed), np.asarray(r.W).tobytes(), np.asarray(r.H).tobytes(), float(r.Qtrue), int(r.converge_steps)) for r in b.results] \
        + [b.best_model]


class Patched:
    """SA.train with a scripted clock and scripted failures"""
    def __init__(self, sa_class, cost=(), fail=None):
        self.cls, self.cost, self.fail = sa_class, cost, fail
        self.clock = 1000.0
        self.n = 0

    def __enter__(self):
        self.real = self.cls.train
        self.times = (time.time, time.perf_counter, time.monotonic)
        me = self

        def train(sa, *a, **k):
            i = me.n
            me.n += 1
            if me.fail == i:
                raise FloatingPointError("injected failure")
            out = me.real(sa, *a, **k)
            if i < len(me.cost):
                me.clock += me.cost[i]
            return out
        self.cls.train = train
        if self.cost:
            time.time = time.perf_counter = time.monotonic = lambda: me.clock
        return self

    def __exit__(self, *a):
        self.cls.train = self.real
        time.time, time.perf_counter, time.monotonic = self.times


def settings(ctx, job):
    cfg, runs, orders = job
    want = None
    with core.quiet():
        if ctx.case("sequential", cfg, runs):
            with ctx.guard("sequential batch training"), sched.controlled():
                b, given, held = make(cfg, runs, False)
                res = b.train()
                check(ctx, b, res, given, held, cfg, runs)
                details(ctx, b)
                ctx.state(("seq", cfg, runs))
                ctx.step(runs)
        with sched.controlled():
            b = make(cfg, runs, False)[0]
            b.train()
            want = content(b)
        for order in orders:
            if not ctx.case("parallel", cfg, runs, list(order)):
                continue
            with ctx.guard("parallel batch training"), sched.controlled(lambda k, call: order if k == runs else range(k)):
                b, given, held = make(cfg, runs, True)
                res = b.train()
                check(ctx, b, res, given, held, cfg, runs)
                ctx.expect(content(b) == want, "parallel and sequential training give different batches")
                ctx.state(("par", cfg, order))
                ctx.step(runs)
        for parallel in (False, True):
            if ctx.case("callback", cfg, runs, parallel):
                with ctx.guard("batch training with a progress callback"), sched.controlled():
                    told = []
                    b, given, held = make(cfg, runs, parallel)
                    b.progress_callback = lambda *x: told.append(x)      # of the calling process: nothing that can be sent to another
                    res = b.train()
                    check(ctx, b, res, given, held, cfg, runs)
                    ctx.expect(content(b) == want, "training with a progress callback gives another batch")
                    ctx.step(runs)


def faults(ctx, job):
    cfg, runs = job
    sa_class = core.esat("esat.model.sa").SA
    with core.quiet():
        for parallel in (False, True):
            for fail in range(runs):
                if ctx.case("fault", cfg, parallel, fail):
                    with ctx.guard("batch training with a failing model"), sched.controlled():
                        b = make(cfg, runs, parallel)[0]
                        with Patched(sa_class, fail=fail):
                            res = b.train()
                        ctx.expect(isinstance(res, tuple) and res[0] is False and isinstance(res[1], str) and res[1],
                                   f"training with a failing model returned {res}")
                        ctx.state(("fault", parallel, fail))
                        ctx.step()
        for limit in (1, 2):
            for cost in itertools.product((0.0, 59.0, 60.5, 100.0, 150.0, 86410.0), repeat=runs):
                if ctx.case("limit", cfg, limit, cost):
                    with ctx.guard("batch training with a time limit"), sched.controlled():
                        b, given, held = make(cfg, runs, False)
                        with Patched(sa_class, cost=cost) as p:
                            res = b.train(min_limit=limit)
                        slow = [i for i, c in enumerate(cost) if c > 60 * limit]
                        ctx.step()
                        ctx.state(("limit", limit, cost))
                        if slow:
                            ctx.expect(res[0] is False and bool(res[1]), f"costs {cost}, limit {limit} min: returned {res}")
                            ctx.expect(p.n == slow[0] + 1, f"{p.n} models were trained, the limit was exceeded by model {slow[0] + 1}")
                        else:
                            ctx.expect(res[0] is True, f"costs {cost}, limit {limit} min: returned {res}")
        seeds = (0, 1, 3, 4, 42, 100042)
        if ctx.case("seed", cfg):
            with ctx.guard("batch training"), sched.controlled():
                got = {}
                for s in seeds:
                    a, b_ = (make(cfg, runs, False, seed=s)[0] for _ in range(2))
                    a.train(), b_.train()
                    ctx.expect(content(a) == content(b_), f"the batch seed {s} gives different batches")
                    got[s] = [x[0] for x in content(a)[:-1]]
                for s, t in itertools.combinations(seeds, 2):
                    ctx.expect(got[s] != got[t], f"the batch seeds {s} and {t} give the same seeds")


def history(ctx, job):
    """one batch trained again: after a success, a failing model, a model over the time limit; every sequence"""
    cfg, runs, parallel = job
    sa_class = core.esat("esat.model.sa").SA
    acts = ["train", "best"] + ([("slow", k) for k in range(runs)] if not parallel else []) + [("fail", k) for k in range(runs)]
    with core.quiet():
        for seq in itertools.product(acts, repeat=2):
            if not ctx.case("history", cfg, parallel, list(seq)):
                continue
            with ctx.guard("training a batch again"), sched.controlled():
                b, given, held = make(cfg, runs, parallel)
                for act in seq + ("train",):
                    if act == "train":
                        check(ctx, b, b.train(), given, held, cfg, runs)
                        details(ctx, b)
                    elif act == "best":                     # the other loss decides
                        b.best_robust = not b.best_robust
                        c = cfg[:4] + (b.best_robust,) + cfg[5:]
                        check(ctx, b, b.train(), given, held, c, runs)
                        b.best_robust = cfg[4]
                    elif act[0] == "slow":
                        with Patched(sa_class, cost=tuple(200.0 * (i == act[1]) for i in range(runs))):
                            res = b.train(min_limit=1)
                        ctx.expect(res[0] is False and bool(res[1]), f"{act}: returned {res}")
                    else:
                        with Patched(sa_class, fail=act[1]):
                            res = b.train()
                        ctx.expect(res[0] is False and bool(res[1]), f"{act}: returned {res}")
                    ctx.step(runs)
                ctx.state(("history", cfg, parallel, seq))


def run(ctx):
    runs = 4 if ctx.thorough else 3
    jobs = []
    for method in ("ls-nmf", "ws-nmf"):
        for start in ("none", "H", "Hs", "W", "HW", "one", "W2"):
            for hold, delay in ((False, -1), (True, -1), (True, 2), (True, 5), (False, 2)):
                for robust in (True, False):
                    for init in ("column_mean", "kmeans"):
                        if method == "ws-nmf" and start not in ("H", "Hs", "HW"):
                            continue
                        if init == "kmeans" and start != "none":
                            continue
                        jobs.append(((method, start, hold, delay, robust, init), runs, [tuple(range(runs)), tuple(reversed(range(runs)))]))
    core.shards(ctx, history, [(c, 3, p) for c in (("ls-nmf", "none", False, -1, True, "column_mean"), ("ls-nmf", "Hs", False, -1, False, "column_mean"),
                                                   ("ws-nmf", "HW", False, -1, True, "column_mean")) for p in (False, True)])
    n = 5 if ctx.thorough else 4
    for cfg in (("ls-nmf", "none", False, -1, True, "column_mean"), ("ls-nmf", "Hs", True, 2, True, "column_mean"),
                ("ws-nmf", "HW", False, -1, False, "column_mean"), ("ls-nmf", "HW", True, -1, False, "column_mean"),
                ("ws-nmf", "H", False, 0, True, "column_mean"), ("ls-nmf", "W", False, -1, False, "column_mean")):
        jobs.append((cfg, n, list(sched.orders(n))))
    # more than nine models
    back = tuple(reversed(range(12)))
    for cfg in (("ls-nmf", "none", False, -1, True, "column_mean"), ("ls-nmf", "Hs", True, 2, True, "column_mean"),
                ("ls-nmf", "HW", False, -1, False, "column_mean")):
        jobs.append((cfg, 12, [tuple(range(12)), back, back[::2] + back[1::2]]))
    jobs.sort(key=lambda j: -len(j[2]))
    core.shards(ctx, settings, jobs)
    core.shards(ctx, faults, [(("ls-nmf", "none", False, -1, True, "column_mean"), 3), (("ls-nmf", "Hs", True, 2, False, "column_mean"), 3)])
