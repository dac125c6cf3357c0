"""C18 displacement in parallel: every completion order; swap tables"""
import itertools
import numpy as np
import core, lib, sched, errlib, c17

PROPERTY = {
    "title": "Parallel displacement gives the sequential results in every completion order",
    "statement": "Displacement with parallel workers gives, for every order in which the tasks of the increasing and of the decreasing search complete, the same values for the same factor, feature and dQ level as the sequential search, and the same compiled table. The swap table counts, for each dQ level and factor, exactly those displacements of that factor after which the retrained factors swapped, and the count table the number of displacements made; running the analysis again does not add to the earlier counts.",
    "quantifier": {"over": ["schedules", "inputs"], "text": "all completion orders of the tasks, all base models and feature selections"},
    "why_tests_cant": "A test sees one completion order; results filed under another factor only show up when tasks overtake each other.",
    "anchors": {"files": ["esat/error/displacement.py"],
                "state": [{"name": "swap_table, count_table", "meaning": "factor swaps per dQ level and factor", "where": "Displacement"}],
                "mechanism": [{"name": "pool results", "where": "Displacement parallel search"},
                              {"name": "compilation", "where": "Displacement.run"}],
                "observe_at": ["Displacement.increase_results", "Displacement.swap_table", "Displacement.compiled_results"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive exploration of all completion orders of the real code under a controlled pool",
        "bounds": {"quick": "9 configurations of 2..4 tasks (up to 3 factors): all pairs of completion orders of the two searches for 2 and 3 tasks, for 4 tasks every order of one search with two orders of the other; one configuration with 6 tasks and the 24 orders of which the last two tasks are fixed; run twice on one instance",
                   "thorough": "all 576 pairs of orders of 4 tasks, all 720 orders of 6 tasks"},
        "assumptions": ["tasks interact only through the pool (they run on pickled copies, as in separate processes)"]}

# model (samples, features, factors, method, k, iterations), selected features
CONFIGS = [((6, 3, 2, "ls-nmf", 1, 8), [0]), ((6, 3, 3, "ls-nmf", 0, 3), [1]), ((6, 2, 2, "ls-nmf", 2, 8), [0, 1]),
           ((6, 4, 3, "ls-nmf", 1, 2), [3]), ((6, 4, 2, "ws-nmf", 0, 4), [1]), ((6, 4, 1, "ls-nmf", 0, 5), [0, 2]),
           ((6, 4, 2, "ls-nmf", 2, 4), [1, 3]), ((6, 4, 1, "ls-nmf", 1, 8), [0, 1, 3]), ((6, 4, 2, "ls-nmf", 1, 1), [0, 3]),
           ((6, 4, 3, "ls-nmf", 2, 2), [0, 2])]


def content(disp):
    return {name: {fk: {k: {lv: tuple(float(r[x]) for x in ("dQ", "value", "percent", "conc", "Q_drop")) + (bool(r["swap"]),)
                            for lv, r in c.items()} for k, c in fv.items()} for fk, fv in res.items()}
            for name, res in (("increase", disp.increase_results), ("decrease", disp.decrease_results))}


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    return all(x == y or abs(x - y) <= 1e-6 * max(abs(x), abs(y)) for x, y in zip(a, b))


def check_swaps(ctx, disp, f, levels, n_feat):
    want, count = np.zeros((len(levels), f)), np.zeros((len(levels), f))
    for res in (disp.increase_results, disp.decrease_results):
        for i in range(f):
            for cell in res[f"factor-{i + 1}"].values():
                for k, lv in enumerate(levels):
                    count[k, i] += 1
                    want[k, i] += bool(cell[lv]["swap"])
    ctx.expect(np.array_equal(np.asarray(disp.swap_table), want), "swap table", lambda: {"got": disp.swap_table, "want": want})
    ctx.expect(np.array_equal(np.asarray(disp.count_table), count) and np.all(count == 2 * n_feat), "count table",
               lambda: {"got": disp.count_table, "want": count})
    return want


def make(cfg, parallel):
    dm = core.esat("esat.error.displacement")
    model, features = cfg
    sa = c17.build(model)
    labels = [f"s{j}" for j in range(model[1])]
    return sa, labels, dm.Displacement(sa=sa, feature_labels=labels, model_selected=1, features=list(features),
                                       parallel=parallel, cores=2)


def table(disp):
    df = disp.compiled_results
    return sorted((float(a), int(b), str(c)) + tuple(round(float(x), 5) for x in rest)
                  for a, b, c, *rest in df[["dQ", "factor", "feature", "profile", "profile_max", "profile_min", "conc",
                                            "conc_max", "conc_min", "dQ_drop"]].values.tolist())


def work(ctx, job):
    ci, part, parts = job
    cfg = CONFIGS[ci]
    model, features = cfg
    f, k = model[2], model[2] * len(features)
    with core.quiet():
        sa, labels, ref = make(cfg, False)
        ref.run()
    want, want_table = content(ref), table(ref)
    if part == 0 and ctx.case("sequential", ci):
        with ctx.guard("displacement"), core.quiet():
            swaps = check_swaps(ctx, ref, f, c17.LEVELS, len(features))
            ref.run()
            check_swaps(ctx, ref, f, c17.LEVELS, len(features))
            ctx.expect(alike(content(ref), want), "a second run gives other results")
            ctx.outcome(["swaps", ci, swaps.tolist()])
    orders = list(sched.orders(k))
    if k <= 3 or (k == 4 and ctx.thorough):
        pairs = list(itertools.product(orders, orders))
    elif k == 4:
        pairs = [(a, b) for a in orders for b in (orders[0], orders[-1])] + [(b, a) for a in orders for b in (orders[0], orders[7])]
    else:
        if not ctx.thorough:
            orders = [o for o in orders if o[-2:] == (1, 0)]
        pairs = [(a, tuple(reversed(a))) for a in orders]
    for n, (a, b) in enumerate(pairs):
        if n % parts != part or not ctx.case("parallel", ci, list(a), list(b)):
            continue
        with ctx.guard("parallel displacement"), core.quiet():
            sa, labels, disp = make(cfg, True)
            with sched.controlled(lambda n_, call: (a, b)[call % 2] if n_ == k else range(n_)):
                disp.run()
            got = content(disp)
            ctx.expect(alike(got, want), f"results differ from the sequential search for completion orders {a} and {b}",
                       lambda: diff(got, want))
            ctx.expect(all(abs(x - y) <= 2e-5 * max(1, abs(x)) if isinstance(x, float) else x == y
                           for r, s in zip(table(disp), want_table) for x, y in zip(r, s)), "the compiled table differs")
            check_swaps(ctx, disp, f, c17.LEVELS, len(features))
            ctx.state((ci, a, b))
            ctx.step(2 * k)


def diff(a, b):
    return [[n, fk, k, lv, a[n].get(fk, {}).get(k, {}).get(lv), v] for n in b for fk in b[n] for k in b[n][fk]
            for lv, v in b[n][fk][k].items() if a[n].get(fk, {}).get(k, {}).get(lv) != v][:4]


def run(ctx):
    jobs = []
    for ci in range(len(CONFIGS)):
        k = CONFIGS[ci][0][2] * len(CONFIGS[ci][1])
        parts = 8 if k >= 4 else 2
        jobs += [(ci, p, parts) for p in range(parts)]
    core.shards(ctx, work, jobs)
