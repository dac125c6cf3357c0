"""C08 contract of initialize and of the refusal of invalid input"""
import itertools
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "Initialization keeps given matrices, fills the rest; invalid input is refused",
    "statement": "Initializing gives matrices of the right shape with positive profiles: given profiles and contributions are used as they are (values of zero or below replaced by a tiny positive number in the profiles), given profiles for only some factors become the first factors with the proportions between them preserved, and missing parts are drawn from the model's generator, positive contributions included for the least-squares method. A model whose data, uncertainties or given matrices are invalid (missing values, uncertainties or contributions of the wrong shape) refuses to train, reports that, and keeps its matrices and results. Training without initialization behaves like training after a default initialization.",
    "quantifier": {"over": ["inputs", "configurations", "histories"],
                   "text": "all shapes, all ways to give or omit profiles and contributions, all start methods, valid or not, repeated on one model"},
    "why_tests_cant": "The tests initialize once per method and check shapes; combinations (partly given profiles, negative means, repeated initialization, invalid matrices) are not reached.",
    "anchors": {"files": ["esat/model/sa.py"],
                "mechanism": [{"name": "initialize", "where": "SA.initialize"}, {"name": "validation", "where": "SA.train"}],
                "observe_at": ["SA.W", "SA.H", "return value of SA.train"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "shapes 2..6 x 2..5, 1..4 factors, 2 methods, datasets {positive, some negative means}, every combination of profiles {none, full, full with zeros and negatives, first rows only} and contributions {none, full}, each on a fresh model, on one initialized before and on one trained before; k-means on well conditioned shapes; 10 kinds of invalid input before or after a valid training",
                   "thorough": "the same with 5 seeds"},
        "assumptions": ["k-means starts are explored only where the covariance of the data is regular, as scipy requires"]}


def data(m, n, neg):
    V = c02.shaped(m, n, 1)
    if neg:
        V[:, 0] -= 30.0
        V[0] -= 25.0
    return V, c01.unc(V, "mixed")


def shape_job(ctx, job):
    m, n, f, method, seeds = job
    for neg in (False, True):
        if neg and method == "ls-nmf":
            pass        # allowed: the model then uses the weighted semi update
        V, U = data(m, n, neg)
        for hk, wk, before, seed in itertools.product(("none", "full", "zeros", "partial"), ("none", "full"),
                                                      ("fresh", "initialized", "trained"), seeds):
            if hk == "partial" and f < 2:
                continue
            if not ctx.case(m, n, f, method, neg, hk, wk, before, seed):
                continue
            with ctx.guard("initialize"):
                sa = lib.SA(V, U, f, method=method, seed=seed)
                if before != "fresh":
                    sa.initialize()
                if before == "trained":
                    sa.train(max_iter=2)
                H = c01.start_h(f, n, 1)
                if hk == "zeros":
                    H[0, 0], H[-1, -1] = 0.0, -2.0
                if hk == "partial":
                    H = H[:f - 1] if f > 2 else H[:1]
                H = None if hk == "none" else H
                W = None if wk == "none" else np.abs(c01.start_h(m, f, 2))
                keep = [None if a is None else a.copy() for a in (H, W)]
                sa.initialize(H=H, W=W)
                ctx.step()
                ctx.expect(sa.H.shape == (f, n) and sa.W.shape == (m, f), "wrong shapes")
                ctx.expect(np.isfinite(sa.H).all() and (sa.H > 0).all(), "profiles are not all positive", lambda: sa.H)
                ctx.expect(np.isfinite(sa.W).all(), "contributions are not finite")
                if method == "ls-nmf":
                    ctx.expect((sa.W > 0).all(), "contributions are not all positive", lambda: sa.W)
                if hk in ("full", "zeros"):
                    want = np.where(keep[0] <= 0, 1e-12, keep[0])
                    ctx.expect(lib.close(sa.H, want, 1e-6, 1e-13), "given profiles were changed", lambda: {"H": sa.H, "given": want})
                if hk == "partial":
                    k = len(keep[0])
                    got = np.asarray(sa.H, dtype=float)
                    for i in range(k):
                        ctx.expect(lib.close(got[i] / got[0], keep[0][i] / keep[0][0], 1e-5),
                                   "the proportions of the partly given profiles changed")
                    if f - k:
                        ctx.expect(lib.close(got.sum(axis=0), np.ones(n), 1e-5), "the features of partly given profiles do not add up to 1")
                    # the scale of the given rows against the drawn rows is that of the generator
                    ref = lib.SA(V, U, f, method=method, seed=seed)
                    if before == "fresh":
                        ref.initialize()
                        full = np.array(ref.H, dtype=float)
                        full[:k] = keep[0]
                        ctx.expect(lib.close(got, full / full.sum(axis=0), 1e-5, 1e-9), "the remaining rows are not the drawn ones")
                if wk == "full":
                    ctx.expect(lib.close(sa.W, keep[1], 1e-6, 1e-13), "given contributions were changed")
                ctx.expect((H is None or lib.same(H, keep[0])) and (W is None or lib.same(W, keep[1])), "an argument was modified")
                ctx.state((m, n, f, method, neg, lib.key(sa.W, sa.H)))
                r = sa.train(max_iter=1)
                ctx.expect(r != -1 and r is not False, "a valid model refused to train")
                ctx.outcome([hk, wk, before, r == -1, bool((np.asarray(sa.W) < 0).any())])
        for seed in seeds:
            if not neg and ctx.case(m, n, f, method, "uninitialized", seed):
                with ctx.guard("train without initialize"):
                    a, b = lib.SA(V, U, f, method=method, seed=seed), lib.SA(V, U, f, method=method, seed=seed)
                    a.train(max_iter=3, converge_n=50)
                    b.initialize()
                    b.train(max_iter=3, converge_n=50)
                    ctx.expect(lib.same(a.W, b.W) and lib.same(a.H, b.H), "differs from training after a default initialization")
            if m >= n + 3 and f <= 3 and not neg:
                for norm in (True, False):
                    for init in ("kmeans", "KMEANS"):
                        if not ctx.case(m, n, f, method, "kmeans", norm, init, seed):
                            continue
                        with ctx.guard("k-means start"):
                            sa = lib.SA(V, U, f, method=method, seed=seed)
                            sa.initialize(init_method=init, init_norm=norm)
                            ctx.expect(sa.H.shape == (f, n) and sa.W.shape == (m, f), "wrong shapes")
                            ctx.expect(np.isfinite(sa.H).all() and (sa.H > 0).all(), "profiles are not all positive")
                            ctx.expect(np.isfinite(sa.W).all() and (sa.W > 0).all(), "contributions are not all positive")
                            ctx.state((m, n, f, method, norm, lib.key(sa.W, sa.H)))
                            ctx.expect(sa.train(max_iter=2) != -1, "a valid model refused to train")


BAD = ["V nan", "U nan", "U rows", "U columns", "W shape", "W nan", "H nan", "W rows", "W columns", "H full nan"]


def invalid(ctx, job):
    method, bad = job
    for first in ("invalid", "valid"):
        if first == "valid" and bad[0] in "VU":
            continue
        if not ctx.case("bad", method, bad, first):
            continue
        with ctx.guard("invalid input"):
            V, U = data(5, 3, False)
            if bad == "V nan":
                V[1, 1] = np.nan
            if bad == "U nan":
                U[1, 1] = np.nan
            if bad == "U rows":
                U = U[:4].copy()
            if bad == "U columns":
                U = U[:, :2].copy()
            sa = lib.SA(V, U, 2, method=method, seed=1)
            if first == "valid":
                sa.initialize()
                sa.train(max_iter=2)
                ctx.step()
            q = (sa.Qtrue, sa.Qrobust)
            H, W = c01.start_h(2, 3, 1), np.abs(c01.start_h(5, 2, 1))
            if bad == "H nan" or bad == "H full nan":
                H[0, 1] = np.nan
                if bad == "H full nan":
                    H[:] = np.nan
            elif bad == "W nan":
                W[0, 1] = np.nan
            elif bad == "W shape":
                W = W.T.copy()
            elif bad == "W rows":
                W = W[:4]
            elif bad == "W columns":
                W = W[:, :1]
            sa.initialize(H=H, W=W, init_norm=bad != "V nan")
            W0, H0 = np.array(sa.W), np.array(sa.H)
            r = sa.train(max_iter=3)
            ctx.step()
            ctx.state((method, bad, first, r))
            ctx.expect(r == -1, f"train returned {r!r} for invalid input ({bad})")
            ctx.expect(lib.same(W0, sa.W) and lib.same(H0, sa.H), "matrices changed although training was refused")
            ctx.expect((sa.Qtrue, sa.Qrobust) == q, "results changed although training was refused")
            # a valid start makes the same model trainable again
            if bad[0] not in "VU":
                sa.initialize()
                ctx.expect(sa.train(max_iter=1) != -1, "still refused after a valid initialization")
            ctx.outcome([bad, first, r])


def run(ctx):
    seeds = (1, 2, 3, 4, 5) if ctx.thorough else (1,)
    jobs = [(m, n, f, mt, seeds) for m in range(2, 9) for n in range(2, 6) for f in range(1, 5) for mt in ("ls-nmf", "ws-nmf")
            if m <= 6 or m >= n + 3]
    core.shards(ctx, shape_job, jobs)
    core.shards(ctx, invalid, [(mt, b) for mt in ("ls-nmf", "ws-nmf") for b in BAD])
