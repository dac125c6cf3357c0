"""C24 factor estimation"""
import itertools
import numpy as np
import core, lib, sched, c01, c02

PROPERTY = {
    "title": "The factor estimate summarises every sampled model under its factor count",
    "statement": "The factor estimation trains one model per sample and files it under that model's factor count, for every order in which the samples complete. Per factor count the result table holds the mean over its samples of the training error (mean squared residual over the mask cells), of the test error (over exactly the remaining cells), Q(true) and Q(robust); the change of the test error from one count to the next, the ratio of successive changes, and the K estimate follow from these means, and the estimated count is the sampled count with the largest K estimate. Counts that were never sampled are empty and do not prevent the estimate.",
    "quantifier": {"over": ["schedules", "inputs", "configurations"],
                   "text": "all random draws of factor counts and masks, completion orders and ranges of factor counts"},
    "why_tests_cant": "The tests run one random sampling and look at the type of the result; errors over the wrong cells or filed under a neighbouring count are still plausible numbers.",
    "anchors": {"files": ["esat/estimator.py"],
                "state": [{"name": "results_df, estimated_factor", "meaning": "result", "where": "FactorEstimator"}],
                "mechanism": [{"name": "sampling and aggregation", "where": "FactorEstimator.run"}],
                "observe_at": ["FactorEstimator.results_df", "FactorEstimator.estimated_factor"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of the random draws and completion orders on the real code under a controlled generator and pool",
        "bounds": {"quick": "every assignment of factor counts to 3 samples over ranges of 2, 3 and 4 counts (starting at 1, 2), with 5 mask patterns, 2 test percentages and 2 K coefficients; a second run of the same estimator with other ranges and samples; every completion order of 3 samples for all of them and of 4 samples for 12 assignments",
                   "thorough": "every assignment of 4 samples over 3 counts with all 24 orders, 5 samples over 2 counts with 20 orders"},
        "assumptions": ["randomness reaches the code through numpy.random.default_rng: small integer draws are factor counts, large ones seeds, random() the mask",
                        "tasks interact only through the pool"]}

M, N = 5, 6


class Gen(np.random.Generator):
    """integers over few alternatives: scripted factor counts; random(): scripted mask values; both recorded"""
    counts = masks = seeds = values = None

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        hi = hi + 1 if endpoint else hi
        if hi - lo <= 50:
            v = self.counts.pop(0)
            if not lo <= v < hi:
                raise RuntimeError(f"factor counts are drawn from [{lo}, {hi})")
            self.values.append((int(lo), int(hi)))
            return np.int64(v) if size is None else np.full(size, v, dtype=dtype)
        out = super().integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        self.seeds.append(int(np.ravel(out)[0]))
        return out

    def random(self, size=None, dtype=np.float64, out=None):
        n = 1 if size is None else int(np.prod(size))
        r = np.array([self.masks.pop(0) for _ in range(n)])
        return float(r[0]) if size is None else r.reshape(size)


def pattern(k, s):
    """test cells of sample s in pattern k"""
    t = np.zeros((M, N), bool)
    if k == 0:
        t[(s + 1) % M, s % N] = True
    elif k == 1:
        t[:, (s + 2) % N] = True
    elif k == 2:
        t[s % M, :] = True
    elif k == 3:
        t[np.add.outer(np.arange(M), np.arange(N)) % 3 == s % 3] = True
    else:
        t[:] = True
        t[s % M, (s * 2) % N] = False
    return t


def data():
    V = c02.shaped(M, N, 1)
    return V, c01.unc(V, "mixed")


_models = {}


def model(seed, f, delta):
    if (seed, f, delta) not in _models:
        V, U = data()
        sa = lib.SA(V, U, f, method="ls-nmf", seed=seed, verbose=False)
        sa.initialize()
        sa.train(max_iter=8, converge_delta=delta, converge_n=3)
        _models[seed, f, delta] = ((np.asarray(V, float) - np.asarray(sa.WH, float)) ** 2, float(sa.Qtrue), float(sa.Qrobust))
    return _models[seed, f, delta]


def nan_close(a, b, rel, ab):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.array_equal(np.isnan(a), np.isnan(b)) and lib.close(a[~np.isnan(a)], b[~np.isnan(b)], rel, ab))


def one(ctx, counts, lo, hi, pat, percent, coef, order):
    n = len(counts)
    delta = 1e6 if sum(counts) % 2 else 1.0        # stops after the fourth iteration, or never
    if not ctx.case(list(counts), lo, hi, pat, percent, coef, list(order)):
        return
    mod = core.esat("esat.estimator")
    V, U = data()
    tests = [pattern(pat, s) for s in range(n)]

    class G(Gen):
        pass
    G.counts = list(counts)
    G.seeds, G.values = [], []
    G.masks = [x for t in tests for x in np.where(t, percent * 0.5, percent + (1 - percent) * 0.5).ravel()]
    real = np.random.default_rng
    with ctx.guard("factor estimation"), core.quiet():
        np.random.default_rng = lambda seed=None: G(real(seed).bit_generator)
        try:
            est = mod.FactorEstimator(V=V, U=U, seed=3, test_percent=percent, k_coef=coef)
        finally:
            np.random.default_rng = real
        check(ctx, est, G, tests, counts, lo, hi, delta, coef, order)
        # the same estimator again, with fewer samples, another range and the drawn counts shifted
        lo2, hi2 = (lo, hi + 1) if order[0] else (lo + 1, hi + 1)
        counts2 = [lo2 + (c - lo + 1) % (hi2 - lo2 + 1) for c in counts[1:]]
        if len(set(counts2)) > 1:
            G.counts = list(counts2)
            G.seeds, G.values = [], []
            G.masks = [x for t in tests[1:] for x in np.where(t, percent * 0.5, percent + (1 - percent) * 0.5).ravel()]
            check(ctx, est, G, tests[1:], counts2, lo2, hi2, delta, coef, list(range(n - 1))[::-1])
        ctx.state((counts, lo, hi, pat, percent, coef, order))


def check(ctx, est, G, tests, counts, lo, hi, delta, coef, order):
    n = len(counts)
    with sched.controlled(lambda k, call: order if k == n else range(k)):
        df = est.run(samples=n, min_factors=lo, max_factors=hi, max_iterations=8, converge_delta=delta, converge_n=3)
    ctx.expect(G.counts == [] and G.masks == [], "not every cell or sample was drawn")
    ctx.expect(set(G.values) == {(lo, hi + 1)}, f"factor counts are drawn from {set(G.values)}")
    if not ctx.expect(len(G.seeds) == n, f"{len(G.seeds)} seeds for {n} samples"):
        return
    K = list(range(lo, hi + 1))
    rows = {k: [] for k in K}
    for s in range(n):
        sq, qt, qr = model(G.seeds[s], counts[s], delta)
        rows[counts[s]].append((sq[tests[s]].mean(), sq[~tests[s]].mean(), qt, qr))
    mean = np.array([np.mean(rows[k], axis=0) if rows[k] else [np.nan] * 4 for k in K])
    test, train = mean[:, 0], mean[:, 1]
    ctx.expect(list(df["Factors"]) == K, f"factor counts {list(df['Factors'])}")
    for name, want in (("Test MSE", test), ("Train MSE", train), ("Q(True)", mean[:, 2]), ("Q(Robust)", mean[:, 3])):
        ctx.expect(nan_close(df[name], want, 1e-4, 2e-5), f"{name}: {list(df[name])}, not {list(want)}")
    got = np.asarray(df["Test MSE"], float)
    change = np.concatenate([[np.nan], got[:-1] - got[1:]])
    ctx.expect(nan_close(df["Delta MSE"], change, 1e-6, 1e-9), f"Delta MSE {list(df['Delta MSE'])}")
    kest = np.nanmin(got) / (got * np.array(K, float) ** coef)
    ctx.expect(nan_close(df["K Estimate"], kest, 1e-6, 1e-9), f"K estimate {list(df['K Estimate'])}, not {list(kest)}")
    best = est.estimated_factor
    ctx.expect(best in K and kest[best - lo] >= np.nanmax(kest) * (1 - 1e-9), f"estimated factor count {best}, K estimates {kest}")
    if len(K) > 2 and np.isfinite(change[1:]).any():
        c = 1.01 * np.nanmax(change[1:])
        with np.errstate(all="ignore"):
            ratio = np.concatenate([[np.nan], c * change[1:-1] / change[2:], [np.nan]])
        if np.all(np.abs(change[2:]) > 1e-6):
            ctx.expect(nan_close(df["Delta Ratio"], ratio, 1e-6, 1e-9), f"delta ratio {list(df['Delta Ratio'])}, not {list(ratio)}")
    ctx.expect(df is est.results_df or df.equals(est.results_df), "the returned table is not the stored one")
    ctx.outcome([K, best, np.isnan(got).tolist()])
    ctx.step(n)


def work(ctx, job):
    counts, lo, hi, pats, orders = job
    for j, pat in enumerate(pats):
        for percent, coef in ((0.1, 1.0), (0.4, 0.5)) if j % 2 == 0 else ((0.25, 2.0),):
            for order in orders:
                one(ctx, counts, lo, hi, pat, percent, coef, order)


def run(ctx):
    jobs = []
    for lo, hi in ((1, 2), (2, 4), (1, 4)):
        for counts in itertools.product(range(lo, hi + 1), repeat=3):
            k = sum(c * 7 ** i for i, c in enumerate(counts))
            orders = list(sched.orders(3))
            jobs.append((counts, lo, hi, [k % 5, (k + 2) % 5, (k + 3) % 5], orders))
    four = list(itertools.product((2, 3, 4), repeat=4))
    for k, counts in enumerate(four if ctx.thorough else four[::7]):
        jobs.append((counts, 2, 4, [k % 5], list(sched.orders(4))))
    if ctx.thorough:
        for k, counts in enumerate(itertools.product((2, 3), repeat=5)):
            jobs.append((counts, 2, 3, [k % 5], list(sched.orders(5))[::6]))
    core.shards(ctx, work, jobs)
