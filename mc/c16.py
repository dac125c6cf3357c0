"""C16 bootstrap mapping and tables, for every completion order of the parallel runs"""
import itertools
import numpy as np
import core, lib, sched, errlib

PROPERTY = {
    "title": "Bootstrap mapping and result tables describe the bootstrap models",
    "statement": "Every factor of a bootstrap model is matched to the base factor whose contribution correlates best with it (squared correlation) and counts as mapped when that correlation reaches the threshold; the mapping table counts these matches over all runs, each row adding up to the number of runs with the unmapped ones. The loss table, factor tables, profile percentages and contributions list, run by run, the values of the bootstrap models (negative contributions as 0). Running in parallel gives exactly the results of running sequentially, for every order in which the runs complete.",
    "quantifier": {"over": ["schedules", "inputs", "configurations"],
                   "text": "all completion orders of the parallel runs, all models, thresholds and resampling modes"},
    "why_tests_cant": "A parallel test sees one completion order and cannot force another; results that are attributed to the wrong run or factor are still plausible numbers.",
    "anchors": {"files": ["esat/error/bootstrap.py"],
                "state": [{"name": "mapping_df, q_results, factor_tables, bs_profiles, bs_factor_contributions",
                           "meaning": "compiled results", "where": "Bootstrap"}],
                "mechanism": [{"name": "factor mapping", "where": "Bootstrap.map_contributions, map_factors"},
                              {"name": "parallel runs", "where": "Bootstrap.run"}],
                "observe_at": ["Bootstrap.bs_results", "Bootstrap.mapping_df"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive exploration of all completion orders of the real code under a controlled pool, and of all matrices of a small alphabet for the mapping",
        "bounds": {"quick": "4 runs: all 24 completion orders for 10 configurations (methods, 1-3 factors, resampling modes, thresholds), 3 thresholds more sequentially; mapping: every pair of 2x3 profiles over {1,2,5} without constant rows with 3 thresholds (every third pair), 3x3 family",
                   "thorough": "5 runs: all 120 orders for 16 configurations; every pair of profiles"},
        "assumptions": ["tasks interact only through the pool (they run on pickled copies, as in separate processes)",
                        "correlations closer than 1e-6 to the threshold or to each other may be decided either way"]}


def r2(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    a, b = a - a.mean(), b - b.mean()
    d = (a @ a) * (b @ b)
    return (a @ b) ** 2 / d if d > 0 else np.nan


def check_map(ctx, mapping, A, B, threshold, what):
    """mapping of the rows of A to the rows of B"""
    f = A.shape[0]
    if not ctx.expect(sorted(mapping) == list(range(f)), f"{what}: keys {sorted(mapping)}"):
        return
    for i in range(f):
        r = np.array([r2(A[i], B[j]) for j in range(f)])
        if not np.isfinite(r).all() or min(np.ptp(A[i]) / np.abs(A[i]).max(), 1) < 1e-4:
            continue
        m = mapping[i]
        ctx.expect(r[m["match"]] >= r.max() - 1e-6, f"{what}: factor {i} is matched to {m['match']}, correlations {r}")
        ctx.expect(abs(m["r2"] - r.max()) <= 1e-5, f"{what}: r2 {m['r2']} is not the best correlation {r.max()}")
        if abs(r.max() - threshold) > 1e-6:
            ctx.expect(bool(m["mapped"]) == bool(r.max() >= threshold),
                       f"{what}: mapped={m['mapped']} with correlation {r.max()} and threshold {threshold}")


def contributions(W, H):
    """column sums of W_i H_i for every factor"""
    W, H = np.asarray(W, float), np.asarray(H, float)
    return W.sum(axis=0)[:, None] * H


def check_results(ctx, bs, sa, n, threshold):
    f, feats = sa.H.shape
    if not ctx.expect(list(bs.bs_results) == list(range(1, n + 1)), f"runs {list(bs.bs_results)}"):
        return
    runs = [bs.bs_results[i] for i in range(1, n + 1)]
    base = contributions(sa.W, sa.H)
    count = np.zeros((f, f + 1))
    for r in runs:
        check_map(ctx, r["mapping"], contributions(r["model"].W, r["model"].H), base, threshold, "mapping")
        for i, m in r["mapping"].items():
            count[i, m["match"] if m["mapped"] else f] += 1
    df = bs.mapping_df
    ctx.expect(list(df["Boot Factors"]) == [f"Boot Factor {i + 1}" for i in range(f)], "labels of the mapping table")
    got = np.array([[df[f"Base Factor {j + 1}"].iloc[i] for j in range(f)] + [df["Unmapped"].iloc[i]] for i in range(f)], float)
    ctx.expect(np.array_equal(got, count), "the mapping table does not count the matches", lambda: {"got": got, "want": count})
    ctx.expect(np.all(got.sum(axis=1) == n), "a row of the mapping table does not add up to the number of runs", lambda: got)
    ctx.expect(lib.close(bs.q_results["Q(robust)"], [r["model"].Qrobust for r in runs], 1e-6), "Q(robust) of the runs")
    for r in runs:
        m = r["model"]
        ctx.expect(lib.close(m.Qrobust, lib.q_robust(m.V, m.U, m.W, m.H), 1e-3, 1e-3), "Q(robust) of a bootstrap model")
    for i in range(f):
        for k, r in enumerate(runs):
            W, H = np.asarray(r["model"].W, float), np.asarray(r["model"].H, float)
            ctx.expect(lib.close(bs.factor_tables[i][k], H[i], 1e-4, 6e-5), f"factor table of factor {i + 1}, run {k + 1}")
            ctx.expect(lib.close(bs.bs_profiles[i][k], H[i] / H.sum(axis=0), 1e-4, 6e-5), f"profile of factor {i + 1}, run {k + 1}")
            ctx.expect(lib.close(bs.bs_factor_contributions[i][k], np.maximum(contributions(W, H)[i], 0), 1e-4, 6e-5),
                       f"contributions of factor {i + 1}, run {k + 1}")
        ctx.expect(len(bs.factor_tables[i]) == len(bs.bs_profiles[i]) == len(bs.bs_factor_contributions[i]) == n,
                   "number of rows of the tables")
    ctx.outcome(got.tolist())


def content(bs):
    out = [tuple(bs.bs_results), repr(bs.mapping_df.values.tolist()), bs.q_results.values.tobytes(),
           repr(bs.factor_tables), repr(bs.bs_profiles), repr(bs.bs_factor_contributions)]
    for k, r in bs.bs_results.items():
        out += [k, np.asarray(r["model"].W).tobytes(), np.asarray(r["model"].H).tobytes(),
                [int(i) for i in r["index"]], repr(sorted(r["mapping"].items()))]
    return out


def build(cfg, n, parallel, threshold=None):
    f, method, keep, reuse, block, overlap, th = cfg
    bsm = core.esat("esat.error.bootstrap")
    sa = errlib.base_model(6, 4, f, method=method, k=f, iters=12)
    bs = bsm.Bootstrap(sa=sa, bootstrap_n=n, block_size=2, threshold=th if threshold is None else threshold,
                       parallel=parallel, cpus=3, seed=11)
    return sa, bs, dict(keep_H=keep, reuse_seed=reuse, block=block, overlapping=overlap)


CONFIGS = [(3, "ls-nmf", True, True, True, False, 0.6), (2, "ls-nmf", False, True, True, False, 0.9),
           (2, "ls-nmf", True, False, False, False, 0.99), (3, "ls-nmf", False, False, True, True, 0.3),
           (2, "ws-nmf", True, True, True, False, 0.6), (1, "ls-nmf", True, True, True, False, 0.6),
           (3, "ls-nmf", True, False, True, False, 0.97), (3, "ls-nmf", False, True, False, False, 0.8),
           (3, "ws-nmf", True, True, False, False, 0.95), (2, "ls-nmf", False, False, False, False, 0.6),
           (2, "ls-nmf", True, True, True, True, 0.999), (3, "ls-nmf", False, False, False, False, 0.5),
           (2, "ws-nmf", True, False, True, True, 0.9), (2, "ls-nmf", False, False, True, True, 0.95),
           (3, "ls-nmf", True, True, False, False, 0.999), (3, "ls-nmf", False, True, True, False, 0.7)]


def work(ctx, job):
    ci, n = job
    cfg = CONFIGS[ci]
    for th in (cfg[-1], 0.05, 0.995, 0.9999):
        if ctx.case("sequential", ci, n, th):
            with ctx.guard("bootstrap"), core.quiet():
                sa, bs, kw = build(cfg, n, False, th)
                snap = errlib.snapshot(sa)
                bs.run(**kw)
                check_results(ctx, bs, sa, n, th)
                ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
                ctx.state(("seq", ci, th))
                if th == cfg[-1]:                      # again: the tables are those of the later runs
                    bs.run(**kw)
                    check_results(ctx, bs, sa, n, th)
                ctx.step(n)
    with core.quiet():
        sa, bs, kw = build(cfg, n, False)
        bs.run(**kw)
        want = content(bs)
    for order in sched.orders(n):
        if not ctx.case("parallel", ci, n, list(order)):
            continue
        with ctx.guard("parallel bootstrap"), core.quiet():
            sa, bs, kw = build(cfg, n, True)
            snap = errlib.snapshot(sa)
            with sched.controlled(lambda k, call: order if k == n else range(k)) as log:
                bs.run(**kw)
            check_results(ctx, bs, sa, n, cfg[-1])
            ctx.expect(content(bs) == want, f"results differ from the sequential run when the runs complete in the order {order}")
            ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
            ctx.step(n)
            ctx.state(("par", ci, order))


def reaches(ctx, call, i, r, what):
    """a factor is mapped when its correlation is the threshold itself, and not when it is below it"""
    if r is None:
        r = call(0.5)[i]["r2"]
    if np.isfinite(r):
        ctx.expect(call(r)[i]["mapped"], f"{what}: not mapped with a threshold equal to the correlation {r}")
        ctx.expect(not call(np.nextafter(r, 2))[i]["mapped"], f"{what}: mapped with a threshold just above the correlation {r}")


def many(ctx, job):
    """more runs than digits: the order of the runs is that of their numbers"""
    k, n = job
    cfg = CONFIGS[k]
    with core.quiet():
        sa, bs, kw = build(cfg, n, False)
        bs.run(**kw)
        want = content(bs)
    base = list(range(n))
    for order in (base, base[::-1], base[5:] + base[:5], base[1::2] + base[::2], sorted(base, key=str)):
        if not ctx.case("many", k, n, order):
            continue
        with ctx.guard("parallel bootstrap"), core.quiet():
            sa, bs, kw = build(cfg, n, True)
            with sched.controlled(lambda c, call: tuple(order) if c == n else range(c)):
                bs.run(**kw)
            check_results(ctx, bs, sa, n, cfg[-1])
            ctx.expect(content(bs) == want, f"results differ from the sequential run when the runs complete in the order {order}")
            ctx.state(("many", k, n, tuple(order)))


def rows(n, alphabet):
    return [r for r in itertools.product(alphabet, repeat=n) if len(set(r)) > 1]


def mapping(ctx, job):
    lo, step, thorough = job
    bsm = core.esat("esat.error.bootstrap")
    with core.quiet():
        sa = errlib.base_model(4, 3, 2, iters=2)
        bs = bsm.Bootstrap(sa=sa, bootstrap_n=1, block_size=1, parallel=False, seed=1)
    R = rows(3, (1.0, 2.0, 5.0))
    pairs = list(itertools.combinations(range(len(R)), 2))
    k = 0
    W1, W2 = np.array([[1.0, 4.0], [2.0, 1.0]]), np.array([[3.0, 1.0], [0.5, 0.25]])
    for a, b in itertools.product(pairs, pairs):
        k += 1
        if k % step != lo or (not thorough and (k // step) % 3):
            continue
        A, B = np.array([R[a[0]], R[a[1]]]), np.array([R[b[1]], R[b[0]]])
        for th in (0.3, 0.6, 0.95):
            if not ctx.case("map", A, B, th):
                continue
            with ctx.guard("mapping"):
                got = bs.map_factors(A.copy(), B.copy(), threshold=th)
                check_map(ctx, got, A, B, th, "map_factors")
                for i in range(2):
                    reaches(ctx, lambda t: bs.map_factors(A.copy(), B.copy(), threshold=t), i, got[i]["r2"], "map_factors")
                    reaches(ctx, lambda t: bs.map_contributions(W1.copy(), A.copy(), W2.copy(), B.copy(), threshold=t), i, None,
                            "map_contributions")
                check_map(ctx, bs.map_contributions(W1.copy(), A.copy(), W2.copy(), B.copy(), threshold=th),
                          contributions(W1, A), contributions(W2, B), th, "map_contributions")
                ctx.step(2)
        ctx.state((a, b))
    # three factors
    k = 0
    for p in itertools.permutations(range(0, 24, 3), 3):
        k += 1
        if k % step != lo:
            continue
        A = np.array([R[i] for i in p])
        B = np.array([R[(p[0] + k) % 24], R[(p[1] * 5 + k) % 24], R[(p[2] * 7 + k + 1) % 24]])
        for th in (0.5, 0.9):
            if ctx.case("map3", A, B, th):
                with ctx.guard("mapping"):
                    check_map(ctx, bs.map_factors(A.copy(), B.copy(), threshold=th), A, B, th, "map_factors")
                    ctx.step()


def run(ctx):
    n = 5 if ctx.thorough else 4
    configs = range(len(CONFIGS) if ctx.thorough else 10)
    core.shards(ctx, work, [(c, n) for c in configs])
    core.shards(ctx, many, [(c, 12) for c in (0, 3, 4)])
    core.shards(ctx, mapping, [(i, 16, ctx.thorough) for i in range(16)])
