"""C19 bootstrap-displacement: aggregation over the runs, for every completion order"""
import itertools
import numpy as np
import core, lib, sched, errlib, c17, c18

PROPERTY = {
    "title": "BS-DISP aggregates the displacement of every bootstrap run",
    "statement": "BS-DISP displaces every bootstrap model (dQ levels 4, 2, 1, 0.5) exactly as a displacement of that model alone would; without a given bootstrap it makes the one its settings describe. Its table holds, per level, factor and feature, the mean over the runs of the base profile and concentration, the largest maximum, the smallest minimum and the lowest dQ; its swap and count tables are the sums over the runs, and it reports the numbers of runs with a Q drop, of runs with a swap, and of factors not always mapped to themselves. All of this is the same for every completion order, with either level run in parallel, and when the analysis is run again.",
    "quantifier": {"over": ["schedules", "inputs", "configurations"],
                   "text": "all completion orders, numbers of bootstrap runs, base models, feature selections and modes"},
    "why_tests_cant": "The tests that run BS-DISP are too slow to be run reliably and only look at the existence of a result; an aggregate that skips one run looks the same.",
    "anchors": {"files": ["esat/error/bs_disp.py", "esat/error/displacement.py", "esat/error/bootstrap.py"],
                "state": [{"name": "disp_results", "meaning": "displacement of each bootstrap run", "where": "BSDISP"},
                          {"name": "compiled_results, swap_table, count_table, n_drops, disp_swap, fit_swaps", "meaning": "aggregates", "where": "BSDISP"}],
                "mechanism": [{"name": "aggregation", "where": "BSDISP.run"}],
                "observe_at": ["BSDISP.compiled_results", "BSDISP.swap_table"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive exploration of all completion orders of the real code under a controlled pool",
        "bounds": {"quick": "7 configurations (1-3 factors, 1-3 features selected, 1-4 runs, given or own bootstrap, both methods): all completion orders of the parallel displacement stage (3 runs: 6, 4 runs: 24) times those of the parallel bootstrap; with the inner level in parallel every order of every one of its pool calls while the others complete in order; every displacement checked as in C17; run twice",
                   "thorough": "12 configurations with up to 4 runs (24 orders)"},
        "assumptions": ["tasks interact only through the pool (they run on pickled copies, as in separate processes)"]}

LEVELS = (4, 2, 1, 0.5)
# model, features or None, runs, given bootstrap, keep_H, reuse_seed, block
CONFIGS = [((6, 2, 2, "ls-nmf", 0, 3), [0], 4, True, True, False, False),
           ((6, 3, 2, "ls-nmf", 1, 8), [0], 3, True, True, True, True), ((6, 4, 2, "ls-nmf", 0, 40), [1, 3], 2, False, True, True, True),
           ((6, 4, 1, "ls-nmf", 2, 8), None, 2, True, False, False, False), ((6, 4, 2, "ws-nmf", 0, 8), [2], 3, False, True, True, True),
           ((6, 4, 3, "ls-nmf", 1, 3), [0], 3, True, False, False, True), ((6, 3, 2, "ls-nmf", 2, 8), [0, 2], 1, False, True, False, False),
           ((6, 3, 2, "ls-nmf", 0, 4), [1], 4, True, False, False, False), ((6, 4, 2, "ws-nmf", 1, 8), [1], 3, True, True, True, False),
           ((6, 4, 3, "ls-nmf", 2, 20), [1], 3, False, True, False, True), ((6, 2, 2, "ls-nmf", 1, 8), None, 3, True, True, True, True),
           ((6, 4, 3, "ls-nmf", 0, 2), [2], 4, False, False, True, False), ((6, 3, 1, "ls-nmf", 1, 8), None, 3, False, True, True, True)]


def seed_of(cfg):
    return 0 if cfg[2] == 2 else 5


def make(cfg, boot_parallel=False):
    model, features, runs, given, keep, reuse, block = cfg
    sa = c17.build(model)
    labels = [f"s{j}" for j in range(model[1])]
    bm, bd = core.esat("esat.error.bootstrap"), core.esat("esat.error.bs_disp")
    kw = dict(keep_H=keep, reuse_seed=reuse, block=block, overlapping=block and not given)
    bs = None
    seed = seed_of(cfg)
    if given:
        bs = bm.Bootstrap(sa=sa, feature_labels=labels, bootstrap_n=runs, block_size=2, threshold=0.6, parallel=boot_parallel,
                          cpus=2, seed=seed)
        bs.run(**kw)
    obj = bd.BSDISP(sa=sa, feature_labels=labels, model_selected=0, bootstrap=bs, bootstrap_n=runs, block_size=2,
                    threshold=0.97, threshold_dQ=0.05, features=None if features is None else list(features), seed=seed, cores=2)
    return sa, labels, obj, kw


def check(ctx, obj, sa, labels, cfg, kw):
    model, features, runs = cfg[:3]
    f, n = model[2], model[1]
    feats = list(range(n)) if features is None else features
    ctx.expect(sorted(obj.bootstrap.bs_results) == list(range(1, runs + 1)), "bootstrap runs")
    if not ctx.expect(list(obj.disp_results) == list(range(1, runs + 1)), f"displaced runs {list(obj.disp_results)}"):
        return
    if not cfg[3]:                                      # the bootstrap that the settings describe
        bs = core.esat("esat.error.bootstrap").Bootstrap(sa=sa, feature_labels=labels, bootstrap_n=runs, block_size=2, threshold=0.97,
                                                         parallel=False, seed=seed_of(cfg))
        bs.run(**kw)
        for k, r in bs.bs_results.items():
            o = obj.bootstrap.bs_results[k]
            ctx.expect([int(i) for i in o["index"]] == [int(i) for i in r["index"]] and lib.same(o["model"].W, r["model"].W)
                       and lib.same(o["model"].H, r["model"].H), f"run {k} is not that of a bootstrap with the same settings")
            ctx.expect({i: (x["match"], x["mapped"]) for i, x in o["mapping"].items()} ==
                       {i: (x["match"], x["mapped"]) for i, x in r["mapping"].items()}, f"mapping of run {k}")
    tables = []
    for k in range(1, runs + 1):
        d, m = obj.disp_results[k], obj.bootstrap.bs_results[k]["model"]
        c17.check_all(ctx, d, m, feats, 0.05, labels, LEVELS)
        c18.check_swaps(ctx, d, f, LEVELS, len(feats))
        tables.append(d.compiled_results.sort_values(["dQ", "factor", "feature"]).reset_index(drop=True))
    df = obj.compiled_results.sort_values(["dQ", "factor", "feature"]).reset_index(drop=True)
    if not ctx.expect(len(df) == len(LEVELS) * f * n and all(list(df[c]) == list(tables[0][c]) for c in ("dQ", "factor", "feature")),
                      "rows of the aggregated table"):
        return
    for col, op in (("profile", np.mean), ("conc", np.mean), ("profile_max", np.max), ("conc_max", np.max),
                    ("profile_min", np.min), ("conc_min", np.min), ("dQ_drop", np.min)):
        want = op(np.array([t[col].values.astype(float) for t in tables]), axis=0)
        ctx.expect(lib.close(df[col], want, 1e-5, 1e-7), f"column {col} of the aggregated table",
                   lambda: {"got": df[col].values[:12], "want": want[:12]})
    ds = [obj.disp_results[k] for k in range(1, runs + 1)]
    ctx.expect(np.array_equal(obj.swap_table, sum(np.asarray(d.swap_table) for d in ds)), "swap table")
    ctx.expect(np.array_equal(obj.count_table, sum(np.asarray(d.count_table) for d in ds)), "count table")
    ctx.expect(np.all(np.asarray(obj.count_table) == 2 * runs * len(feats)), "count table does not count every displacement")
    ctx.expect(obj.n_drops == sum(bool((t["dQ_drop"] < 0).any()) for t in tables), f"number of Q drops {obj.n_drops}")
    ctx.expect(obj.disp_swap == sum(bool(np.any(np.asarray(d.swap_table))) for d in ds), f"number of runs with swaps {obj.disp_swap}")
    own = [sum(1 for k in range(1, runs + 1) for m in [obj.bootstrap.bs_results[k]["mapping"][i]] if m["mapped"] and m["match"] == i)
           for i in range(f)]
    ctx.expect(obj.fit_swaps == sum(o < runs for o in own), f"number of best fit swaps {obj.fit_swaps}, own matches {own}")
    ctx.outcome([cfg, np.asarray(obj.swap_table).tolist(), obj.n_drops, obj.disp_swap, obj.fit_swaps])


def content(obj):
    return {k: c18.content(d) for k, d in obj.disp_results.items()}


def same(ctx, obj, want, what):
    got = content(obj)
    ctx.expect(list(got) == list(want) and all(c18.alike(got[k], want[k]) for k in want), f"{what}: results differ from those of completion in order")


def work(ctx, job):
    ci, part, parts = job
    cfg = CONFIGS[ci]
    model, features, runs, given = cfg[:4]
    feats = model[1] if features is None else len(features)
    tasks = model[2] * feats
    with core.quiet():
        with sched.controlled() as log:
            sa, labels, ref, kw = make(cfg)
            ref.run(parallel=True, **kw)
        want = content(ref)
        with sched.controlled() as log2:
            ref2 = make(cfg)[2]
            ref2.run(parallel=False, **kw)
        calls = list(log2.batches)
    plans = []
    if part == 0:
        plans.append(("twice", True))
        plans.append(("twice", False))
    for o in sched.orders(runs):
        plans.append(("outer", o, tuple(range(runs))))
        if runs > 1:
            plans.append(("outer", tuple(range(runs)), o))
            plans.append(("outer", o, o))
    for c, size in enumerate(calls):
        if size <= 4:
            for o in sched.orders(size):
                plans.append(("inner", c, o))
        else:
            for o in (tuple(reversed(range(size))), tuple(range(1, size)) + (0,)):
                plans.append(("inner", c, o))
    for n, plan in enumerate(plans):
        if n % parts != part or not ctx.case(ci, *plan):
            continue
        with ctx.guard("BS-DISP"), core.quiet():
            if plan[0] == "twice":
                with sched.controlled():
                    sa, labels, obj, kw = make(cfg)
                    snap = errlib.snapshot(sa)
                    obj.run(parallel=plan[1], **kw)
                    check(ctx, obj, sa, labels, cfg, kw)
                    same(ctx, obj, want, "first run")
                    obj.run(parallel=plan[1], **kw)
                    check(ctx, obj, sa, labels, cfg, kw)
                    same(ctx, obj, want, "second run")
                    ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
            elif plan[0] == "outer":
                orders = (plan[2], plan[1]) if not given else (plan[2], plan[1])
                with sched.controlled(lambda k, call: orders[min(call, 1)] if k == runs else range(k)):
                    sa, labels, obj, kw = make(cfg, boot_parallel=True)
                    obj.run(parallel=True, **kw)
                same(ctx, obj, want, "parallel runs")
                if n % 3 == 0:
                    check(ctx, obj, sa, labels, cfg, kw)
            else:
                with sched.controlled(lambda k, call: plan[2] if call == plan[1] and k == len(plan[2]) else range(k)):
                    sa, labels, obj, kw = make(cfg)
                    obj.run(parallel=False, **kw)
                same(ctx, obj, want, "parallel searches")
                if n % 3 == 0:
                    check(ctx, obj, sa, labels, cfg, kw)
            ctx.state((ci, plan))
            ctx.step(tasks * runs)


def run(ctx):
    core.shards(ctx, work, [(ci, p, 8) for p in range(8) for ci in range(len(CONFIGS) if ctx.thorough else 7)])
