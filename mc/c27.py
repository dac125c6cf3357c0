"""C27 simulator"""
import itertools
import numpy as np
import core, lib, c25

PROPERTY = {
    "title": "The simulator makes the dataset it describes",
    "statement": "A simulated dataset has the requested shape and is positive everywhere. Each value is the product of the synthetic contributions and profiles, changed up or down by a noise share drawn per feature from the given range, and the given share of the values is an outlier, half of them multiplied and half divided by the given magnitude; each uncertainty is the value times a share from its range. The tables, the arrays and the simulated model with its losses agree after every get_data, whatever was changed before. Custom profiles replace the random ones, fully or from the first factor on, and an updated contribution follows the selected curve between its minimum and maximum over all samples and changes no other factor. The same seed and history always give the same data. The comparison with a batch is that of the synthetic matrices.",
    "quantifier": {"over": ["configurations", "histories", "inputs"],
                   "text": "all sizes, settings, seeds and sequences of updates"},
    "why_tests_cant": "The only test of the simulator builds one and compares shapes.",
    "anchors": {"files": ["eval/simulator.py"],
                "mechanism": [{"name": "generate_profiles, update_contribution, get_data, compare", "where": "Simulator"}],
                "observe_at": ["Simulator.syn_data_df", "Simulator.syn_sa", "Simulator.syn_profiles", "Simulator.syn_contributions"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one simulator taken through one sequence of operations; distinct by settings, seed and sequence",
        "bounds": {"quick": "sizes 1-4 factors x 1-4 features x 1-12 samples x 2 seeds; noise (5 ranges) x outliers (off and 4 shares x 3 magnitudes) x uncertainty (5 ranges) with zero spread so that every value is decided, and 3 spreads with bounds; 5 curves x 12 frequencies x 6 (minimum, maximum) x 4 sizes x 2 spreads; every sequence of up to 3 operations out of {get data, 4 contribution updates, full, partial and no custom profiles}; comparison with batches",
                   "thorough": "sequences of up to 4 operations, samples up to 40, 6 seeds"},
        "assumptions": ["shares of randomly placed outliers are required to be within 6 standard deviations"]}

TINY = 1e-12


def make(mod, seed=1, k=2, n=3, m=6, **kw):
    kw.setdefault("verbose", False)
    return mod.Simulator(seed=seed, factors_n=k, features_n=n, samples_n=m, **kw)


def consistent(ctx, s, data=None):
    k, n, m = s.factors_n, s.features_n, s.samples_n
    W, H = np.asarray(s.syn_contributions), np.asarray(s.syn_profiles)
    ctx.expect(W.shape == (m, k) and H.shape == (k, n), "shapes of the matrices")
    ctx.expect(np.all(W >= 0) and np.all(H > 0) and np.all(np.isfinite(W)) and np.all(np.isfinite(H)), "signs of the matrices")
    D, U = np.asarray(s.syn_data), np.asarray(s.syn_uncertainty)
    ctx.expect(D.shape == U.shape == (m, n) and np.all(D > 0) and np.all(U > 0) and np.all(np.isfinite(D)) and np.all(np.isfinite(U)), "data are not positive")
    ctx.expect(lib.same(s.syn_data_df.values, D) and lib.same(s.syn_uncertainty_df.values, U), "tables of the data")
    if data is not None:
        ctx.expect(lib.same(data[0].values, D) and lib.same(data[1].values, U), "returned tables")
    ctx.expect(lib.same(s.syn_profiles_df.values, H.T) and lib.same(s.syn_contributions_df.values, W), "tables of the factors")
    ctx.expect(list(s.syn_data_df.columns) == [f"Feature {i+1}" for i in range(n)] == list(s.syn_uncertainty_df.columns), "feature names")
    ctx.expect(list(s.syn_profiles_df.columns) == [f"Factor {i+1}" for i in range(k)] == list(s.syn_contributions_df.columns), "factor names")
    t = s.syn_data_df.index
    ctx.expect(t.name == "Date" and t.is_unique and t.is_monotonic_increasing and t.equals(s.syn_uncertainty_df.index), "dates")
    a = s.syn_sa
    ctx.expect(lib.close(a.V, D, 1e-5) and lib.close(a.U, U, 1e-5) and lib.close(a.H, H, 1e-6) and lib.close(a.W, W, 1e-6)
               and lib.close(a.WH, W @ H, 1e-6), "matrices of the simulated model")
    ctx.expect(a.factors == k, "factors of the simulated model")
    D, U = np.asarray(a.V), np.asarray(a.U)
    noise = lib.q_noise(D, U, W, H)
    q, r = lib.q_true(D, U, W, H), lib.q_robust(D, U, W, H)
    ctx.expect(abs(a.Qtrue - q) <= 1e-5 * q + 10 * noise + 1e-9, f"Q(true) {a.Qtrue}, not {q}")
    ctx.expect(abs(a.Qrobust - r) <= 1e-5 * r + 10 * noise + 1e-9, f"Q(robust) {a.Qrobust}, not {r}")


def sizes(ctx, seed, k, n, m):
    if not ctx.case("size", seed, k, n, m):
        return
    mod = core.esat("esat_eval.simulator")
    with ctx.guard("simulating"), core.quiet():
        s = make(mod, seed, k, n, m, contribution_max=7)
        d = s.get_data()
        ctx.step()
        consistent(ctx, s, d)
        W, H = s.syn_contributions, s.syn_profiles
        ctx.expect(np.all(W < 7), "contributions above the maximum")
        ctx.expect(np.all(H < 1) and np.all((H > TINY).sum(axis=0) >= 1), "a feature has no source")
        if k > 1:
            ctx.expect(np.all((H > TINY).sum(axis=0) <= k - 1), "features of all factors")
        s2 = make(mod, seed, k, n, m, contribution_max=7)
        d2 = s2.get_data()
        ctx.expect(lib.same(d[0].values, d2[0].values) and lib.same(d[1].values, d2[1].values) and lib.same(H, s2.syn_profiles) and lib.same(W, s2.syn_contributions),
                   "same seed, other data")
        s3 = make(mod, seed + 1, k, n, m, contribution_max=7)
        ctx.expect(not lib.same(W, s3.syn_contributions), "other seed, same contributions")
        s4 = make(mod, seed, k, n, m, contribution_max=14)
        ctx.expect(lib.close(s4.syn_contributions, 2 * W, 1e-9), "contributions do not scale with the maximum")
        ctx.state((k, n, m, seed))
        ctx.outcome([k, n, m])


def content(ctx, noise, out, unc, scale):
    """noise = (low, high), out = None or (share, magnitude), unc = (low, high), scale = (noise, uncertainty)"""
    if not ctx.case("content", noise, out, unc, scale):
        return
    mod = core.esat("esat_eval.simulator")
    with ctx.guard("simulating"), core.quiet():
        m, n = 400, 5
        kw = dict(outliers=False) if out is None else dict(outliers=True, outlier_p=out[0], outlier_mag=out[1])
        s = make(mod, 5, 3, n, m, noise_mean_min=noise[0], noise_mean_max=noise[1], noise_scale=scale[0],
                 uncertainty_mean_min=unc[0], uncertainty_mean_max=unc[1], uncertainty_scale=scale[1], **kw)
        d = s.get_data()
        ctx.step()
        consistent(ctx, s, d)
        B = s.syn_contributions @ s.syn_profiles
        R = s.syn_data / B
        lo, hi = noise[0] - 7 * scale[0], noise[1] + 7 * scale[0]
        p, mag = out or (0.0, 2.0)
        eps = 1e-9
        if hi < 0.9:
            def inside(x):
                a = np.abs(x - 1)
                return (a <= hi + eps) & (a >= lo - eps)
            kind = np.full(R.shape, -1)
            for c, f in ((2, 1 / mag), (1, mag), (0, 1.0)):
                kind[inside(R / f)] = c
            ctx.expect(np.all(kind >= 0), f"ratio of data to product {R[kind < 0][:3]}: outside of the noise and outlier range")
            # which kinds are told apart by the noise range?
            bands = [(f * (1 - hi), f * (1 + hi)) for f in (1.0, mag, 1 / mag)]
            apart = all(x[1] + 1e-6 < y[0] or y[1] + 1e-6 < x[0] for x, y in itertools.combinations(bands, 2))
            if apart:
                N = R.size
                for c in (1, 2):
                    e = N * p / 2
                    sd = np.sqrt(max(N * p / 2 * (1 - p / 2), 0))
                    ctx.expect(abs((kind == c).sum() - e) <= 6 * sd, f"{(kind == c).sum()} outliers of kind {c}, expected {e}")
                base = R / np.choose(kind, [1.0, mag, 1 / mag])
                if noise[0] > 7 * scale[0] and noise[0] > 0:
                    up = (base > 1).sum()
                    ctx.expect(abs(up - N / 2) <= 3 * np.sqrt(N), f"{up} of {N} values went up")
                if scale[0] == 0:
                    a = np.abs(base - 1)
                    ctx.expect(np.all(a.max(axis=0) - a.min(axis=0) <= 1e-9), "the noise share of a feature varies without spread")
                    if noise[1] > noise[0]:
                        ctx.expect(len(np.unique(np.round(a[0], 9))) == n, "all features have the same noise share")
                else:
                    a = np.abs(base - 1)
                    if noise[0] > 7 * scale[0]:
                        sd = a.std(axis=0)
                        ctx.expect(np.all((sd > scale[0] * 0.7) & (sd < scale[0] * 1.3)), f"spread of the noise {sd}, not {scale[0]}")
        Ru = s.syn_uncertainty / s.syn_data
        fl = np.isclose(s.syn_uncertainty, 1e-4)
        ulo, uhi = unc[0] - 7 * scale[1], unc[1] + 7 * scale[1]
        ctx.expect(np.all(fl | ((Ru >= ulo - eps) & (Ru <= uhi + eps))), "share of the uncertainty")
        if scale[1] == 0 and unc[0] > 0:
            ctx.expect(np.all(Ru.max(axis=0) - Ru.min(axis=0) <= 1e-9), "the uncertainty share of a feature varies without spread")
            if unc[1] > unc[0]:
                ctx.expect(len(np.unique(np.round(Ru[0], 9))) == n, "all features have the same uncertainty share")
        elif unc[0] > 7 * scale[1]:
            sd = Ru.std(axis=0)
            ctx.expect(np.all((sd > scale[1] * 0.7) & (sd < scale[1] * 1.3)), f"spread of the uncertainty {sd}, not {scale[1]}")
        if unc == (0.0, 0.0) and scale[1] == 0:
            ctx.expect(np.all(s.syn_uncertainty == 1e-4), "floor of the uncertainty")
        ctx.state((noise, out, unc, scale))
        ctx.outcome([noise, out, unc, scale])


def curve(ctx, kind, freq, lim, m, scale):
    if not ctx.case("curve", kind, freq, lim, m, scale):
        return
    mod = core.esat("esat_eval.simulator")
    with ctx.guard("updating a contribution"), core.quiet():
        s = make(mod, 2, 3, 3, m)
        before = s.syn_contributions.copy()
        H = s.syn_profiles.copy()
        s.update_contribution(1, kind, scale=scale, frequency=freq, maximum=lim[1], minimum=lim[0])
        ctx.step()
        y = s.syn_contributions[:, 1]
        ctx.expect(s.syn_contributions.shape == (m, 3) and lib.same(s.syn_contributions[:, [0, 2]], before[:, [0, 2]]) and lib.same(s.syn_profiles, H),
                   "the update changed another factor")
        lo, hi = min(lim), max(lim)
        if lo == hi:
            hi = hi * 2
        w = 7 * scale + 1e-9
        ctx.expect(np.all(y >= max(lo - w, 0)) and np.all(y <= hi + w) and np.all(y > 0), f"values from {y.min()} to {y.max()}, curve from {lo} to {hi}")
        pos = lo > 0
        if scale == 0:
            if kind == "increasing":
                ctx.expect(lib.close(y, np.maximum(np.linspace(lo, hi, m), TINY), 1e-9), "increasing curve")
            elif kind == "decreasing":
                ctx.expect(lib.close(y, np.maximum(np.linspace(hi, lo, m), TINY), 1e-9), "decreasing curve")
            elif kind == "logistic" and m >= 12 and pos:
                per = int(1.0 / freq) + 1
                if m // per >= 2:
                    ctx.expect(abs(y.min() - lo) < 1e-6 and abs(y.max() - hi) < 1e-6, "the logistic curve does not reach its limits")
                    ctx.expect(abs(y[0] - lo) < 1e-6, "the logistic curve does not start at the minimum")
                    steps = m // per
                    for i in range(per):
                        seg = y[i * steps:(i + 1) * steps]
                        ctx.expect(np.all(np.diff(seg) >= -1e-12) if i % 2 == 0 else np.all(np.diff(seg) <= 1e-12), f"period {i} of the logistic curve")
            elif kind == "periodic" and m >= 12 and pos:
                per = int(1.0 / freq) + 1
                length = max(m // per, 2) - 1
                ctx.expect(lib.close(y[:m - length], y[length:], 1e-6, 1e-9), "the periodic curve does not repeat")
                ctx.expect(abs(y.min() - lo) < 1e-6, "the periodic curve does not reach its minimum")
                if length >= 8:
                    ctx.expect(y.max() > lo + 0.85 * (hi - lo), "the periodic curve does not reach its maximum")
            elif kind == "uniform" and m >= 12:
                ctx.expect(len(np.unique(y)) == m or lo < 0, "uniform values repeat")
                if m >= 40 and pos:
                    ctx.expect(y.max() > lo + 0.7 * (hi - lo) and y.min() < lo + 0.3 * (hi - lo), "uniform values do not fill the range")
        elif m >= 40 and kind in ("increasing", "decreasing") and lo - w > 0:
            c = np.linspace(lo, hi, m)
            r = y - (c if kind == "increasing" else c[::-1])
            ctx.expect(0.6 * scale < r.std() < 1.4 * scale and abs(r.mean()) < 6 * scale / np.sqrt(m), f"spread around the curve {r.std()}")
        d = s.get_data()
        consistent(ctx, s, d)
        ctx.state((kind, freq, lim, m, scale))
        ctx.outcome([kind, lim, scale > 0])


FULL = np.array([[1.0, 0, 3], [0.5, 2, -1]])
PART = np.array([[9.0, 0, 7]])
OPS = {"get": lambda s: s.get_data(), "inc": lambda s: s.update_contribution(0, "increasing", minimum=1, maximum=3),
       "per": lambda s: s.update_contribution(1, "periodic", scale=0.0), "uni": lambda s: s.update_contribution(1, "uniform", maximum=4),
       "dec": lambda s: s.update_contribution(0, "decreasing", scale=2.0), "full": lambda s: s.generate_profiles(FULL),
       "part": lambda s: s.generate_profiles(PART), "new": lambda s: s.generate_profiles()}


def history(ctx, seed, seq):
    if not ctx.case("history", seed, list(seq)):
        return
    mod = core.esat("esat_eval.simulator")
    with ctx.guard("updates"), core.quiet():
        a, b = make(mod, seed), make(mod, seed)
        full, part = FULL.copy(), PART.copy()
        for op in seq:
            W0, H0 = a.syn_contributions.copy(), a.syn_profiles.copy()
            out = OPS[op](a)
            OPS[op](b)
            ctx.step()
            if op == "get":
                consistent(ctx, a, out)
                ctx.expect(lib.same(a.syn_contributions, W0) and lib.same(a.syn_profiles, H0), "get_data changed a factor")
            elif op in ("full", "part", "new"):
                ctx.expect(lib.same(a.syn_contributions, W0), "new profiles changed the contributions")
                if op == "full":
                    ctx.expect(lib.same(a.syn_profiles, np.where(FULL <= 0, TINY, FULL)), "custom profiles")
                if op == "part":
                    ctx.expect(lib.same(a.syn_profiles[0], np.where(PART[0] <= 0, TINY, PART[0])) and np.all(a.syn_profiles[1] < 1), "custom profile of the first factor")
                if op == "new":
                    ctx.expect(np.all(a.syn_profiles < 1) and not lib.same(a.syn_profiles, H0), "new profiles")
            else:
                i = 0 if op in ("inc", "dec") else 1
                ctx.expect(lib.same(a.syn_contributions[:, 1 - i], W0[:, 1 - i]) and lib.same(a.syn_profiles, H0) and (op == "per" or not lib.same(a.syn_contributions[:, i], W0[:, i])),
                           "the update of a contribution")
            ctx.expect(lib.same(a.syn_contributions, b.syn_contributions) and lib.same(a.syn_profiles, b.syn_profiles), "same seed and history, other factors")
            if a.syn_data is not None:
                ctx.expect(lib.same(a.syn_data, b.syn_data) and lib.same(a.syn_uncertainty, b.syn_uncertainty), "same seed and history, other data")
            ctx.state((seed, list(seq), op))
        ctx.expect(lib.same(full, FULL) and lib.same(part, PART), "the custom profiles were modified")
        OPS["get"](a)
        consistent(ctx, a)
        ctx.outcome(list(seq))


def compare(ctx, k, ks, order):
    if not ctx.case("compare", k, ks, order):
        return
    mod, fmod = core.esat("esat_eval.simulator"), core.esat("esat_eval.factor_comparison")
    with ctx.guard("comparing"), core.quiet():
        s = make(mod, next(x for x in range(1, 99) if np.all(make(mod, x, k, 4, 7).syn_profiles.std(axis=1) > 0.01)), k, 4, 7)
        s.get_data()
        models = []
        for j, kk in enumerate(ks):
            H, W = c25.family(kk, 7, 4, 3 + j)
            if kk == k and j == order:
                H = np.asarray(s.syn_profiles)[::-1] + 0.01 * H
                W = np.asarray(s.syn_contributions)[:, ::-1] + 0.01 * W
            models.append(c25.make_sa(H, W))
        for i, m in enumerate(models):
            m.Qtrue = m.Qrobust = 10.0 + (i * 7) % 3
        b = c25.make_batch(models, ks[0])
        b.best_model = (order + 1) % len(ks)
        W0, H0, D0 = s.syn_contributions.copy(), s.syn_profiles.copy(), s.syn_data.copy()
        s.compare(b)
        ctx.step()
        f = fmod.FactorCompare(input_df=s.syn_data_df, uncertainty_df=s.syn_uncertainty_df, base_profile_df=s.syn_profiles_df,
                               base_contribution_df=s.syn_contributions_df, batch_sa=b)
        f.compare()
        g = s.factor_compare
        ctx.expect(g.best_model == f.best_model and g.best_factor_r_avg == f.best_factor_r_avg, f"best model {g.best_model}, not {f.best_model}")
        for i in range(len(ks)):
            ctx.expect(list(g.model_results[i]["factor_map"]) == list(f.model_results[i]["factor_map"]), f"map of model {i}")
            p = np.array([c25.r2(H0[x], models[i].H[y]) for x in range(k) for y in range(models[i].factors)]).reshape(k, -1)
        if ks[order] == k:
            ctx.expect(g.best_model == order, f"best model {g.best_model}, the planted one is {order}")
        for i in range(len(ks)):
            s.compare(b, selected_model=i)
        ctx.expect(s.factor_compare is g, "selecting a model compares again")
        ctx.expect(lib.same(W0, s.syn_contributions) and lib.same(H0, s.syn_profiles) and lib.same(D0, s.syn_data), "the comparison changed the simulator")
        ctx.state((k, ks, order))
        ctx.outcome([k, ks, order, g.best_model])


CURVES = ("increasing", "decreasing", "logistic", "periodic", "uniform")
FREQ = (0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.9, 1.0, 1.5, 3.0)
LIMS = ((0.1, 1.0), (1.0, 3.0), (3.0, 1.0), (2.0, 2.0), (0.0, 1.0), (-1.0, 1.0))


def work(ctx, job):
    t = ctx.thorough
    if job[0] == "size":
        for n in range(1, 5):
            for m in list(range(1, 13)) + ([20, 40] if t else []):
                for seed in range(1, 7 if t else 3):
                    sizes(ctx, seed, job[1], n, m)
    elif job[0] == "content":
        outs = [None] + [(p, g) for p in (0.0, 0.1, 0.5, 1.0) for g in (2.0, 3.0, 1.5)]
        for out in outs:
            for unc in ((0.05, 0.05), (0.05, 0.2), (0.0, 0.0), (0.3, 0.3), (0.1, 0.9)):
                content(ctx, job[1], out, unc, (0.0, 0.0))
            for sc in ((0.005, 0.005), (0.02, 0.01), (0.0, 0.2)):
                content(ctx, job[1], out, (0.05, 0.05), sc)
    elif job[0] == "curve":
        for freq in FREQ:
            for lim in LIMS:
                for m in (1, 2, 3, 5, 12, 40, 61) + (tuple(range(4, 40)) if t else ()):
                    for sc in (0.0, 0.1):
                        curve(ctx, job[1], freq, lim, m, sc)
    elif job[0] == "history":
        for n in range(0, 4 if t else 3):
            for rest in itertools.product(OPS, repeat=n):
                for seed in (1, 8):
                    history(ctx, seed, (job[1],) + rest)
    else:
        for ks in [(c,) * b for c in (1, 2, 3) for b in (1, 2, 3)]:
            for o in range(len(ks)):
                compare(ctx, job[1], ks, o)


def run(ctx):
    jobs = [("size", k) for k in range(1, 5)]
    jobs += [("content", x) for x in ((0.1, 0.1), (0.1, 0.12), (0.0, 0.0), (0.05, 0.15), (0.2, 0.2))]
    jobs += [("curve", c) for c in CURVES] + [("history", o) for o in OPS] + [("compare", k) for k in (1, 2, 3)]
    core.shards(ctx, work, jobs)
