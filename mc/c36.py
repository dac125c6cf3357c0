"""C36 figures of the model and batch analysis"""
import itertools
import os
import numpy as np
import pandas as pd
import core, lib, errlib, c01, c02, c34, c35
from c33 import same, strs
from c34 import show, at_samples
from c35 import title, alike

PROPERTY = {
    "title": "Model and batch analysis figures show the model, factor and feature they name",
    "statement": "Every figure of the model analysis shows, for the factor or feature it names, the present values of that model, trained again or not, at the modelled samples and features: scaled residuals (with their normal and kernel densities and the list of those beyond the threshold), observed against estimated concentrations with their regression, observed and estimated time series and their difference, profiles as percentages of the feature totals and concentrations, contributions with an average of one, fingerprints, compositions, shares of every factor in a feature, and concentration surfaces. Given matrices replace those of the model. The batch figures show loss, losses and residuals of every completed model under its own number. Datasets of any size are shown by their samples, what does not exist shows nothing, the figure that is returned is the one that is shown, and showing results changes nothing.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all models, factors, features, thresholds, left out samples and features, dataset sizes and patterns of failed models in a batch"},
    "why_tests_cant": "No reliable test looks at a figure; values of another factor, feature, model or sample are as plausible as the right ones.",
    "anchors": {"files": ["esat/data/analysis.py"],
                "mechanism": [{"name": "plot_*", "where": "ModelAnalysis"}, {"name": "plot_*", "where": "BatchAnalysis"}],
                "observe_at": ["figures shown and returned"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one figure of one model or batch; distinct by model, figure and arguments; non-trivial: a figure was shown",
        "bounds": {"quick": "13 models (1-4 and 11 factors, both methods) on 5 datasets (daily, hourly with left out samples, every third day unsorted, 15 minutes with an excluded feature, larger than the plotting limit); every factor, pair of factors, feature, list of factors, 3 thresholds, given matrices; batches of 3 models with every pattern of failed models and every best model; the figures again after the model or batch was trained again or replaced",
                   "thorough": "every dataset with every factor count and method (40 models)"},
        "assumptions": ["samples lie on a regular grid with gaps", "figures are compared by their data, labels and axis titles"]}


def dataset(kind, n, method, d):
    if kind != "large":
        return c34.dataset(kind, n, method)
    m = 14
    i = pd.date_range("2021-03-01", periods=m, freq="1D")
    V = pd.DataFrame(c02.shaped(m, n, 1), columns=[f"sp{j}" for j in range(n)], index=i)
    U = pd.DataFrame(c01.unc(V.values, "mixed"), columns=V.columns, index=i)
    V.iloc[4, 1] = np.nan
    dh = c35.handler(V, U, "file", d, 5)
    Vp, Up = dh.get_data()
    return dh, np.array(Vp), np.array(Up), [t for k, t in enumerate(i) if k != 4], list(V.columns)


def figures(ctx, call, args, where, n=1, returns=True):
    """the figures, shown and returned"""
    ctx.step()
    figs, _ = show(call, **args)
    if not ctx.expect(len(figs) == n, f"{where}: {len(figs)} figures"):
        return None
    if returns:
        with lib.shown() as none, lib.logged():
            got = call(**args, show=False)
        got = list(got) if isinstance(got, (tuple, list)) else [got]
        more = [g for g in got if not hasattr(g, "to_plotly_json")]
        got = [g for g in got if hasattr(g, "to_plotly_json")]
        ctx.expect(not none and len(got) == n and all(alike(a, b) for a, b in zip(figs, got)), f"{where}: the figure that is returned differs from the one that is shown")
        figs = figs + more
    ctx.outcome(where)
    return figs


def close(a, b, rel=1e-4, abs_=1e-5):
    return same(a, b, abs_, rel)


def line(x, y):
    """least squares line, also when x is constant"""
    A = np.vstack([x, np.ones(len(x))]).T
    return np.linalg.lstsq(A, y, rcond=None)[0]


def check(ctx, ma, sa, times, feats, index, number, what):
    f, n = np.asarray(sa.H).shape
    V, U, W, H = (np.asarray(x, float) for x in (sa.V, sa.U, sa.W, sa.H))
    WH = W @ H
    model = f"Model {number}"
    other = (np.abs(c01.start_h(f, n, 3)) + 0.3, np.abs(c01.start_h(len(V), f, 2)) + 0.1)
    # features
    for j in range(n):
        for args in (dict(feature_idx=j), dict(feature_name=feats[j])):
            key = next(iter(args))
            for est in (None, WH[::-1] * 1.25):
                for th in (3.0, 0.5, -1):
                    where = f"{what}: residuals of {args}, threshold {th}, given estimate {est is not None}"
                    a = dict(args, abs_threshold=th)
                    if est is not None:
                        a["est_V"] = est
                    figs = figures(ctx, ma.plot_residual_histogram, a, where)
                    if figs is None or not ctx.expect(len(figs) == 2, f"{where}: no list of residuals"):
                        continue
                    fig, left = figs
                    E = WH if est is None else est
                    r = (V[:, j] - E[:, j]) / U[:, j]
                    tr = {t.name: t for t in fig.data}
                    tol = 1e-4 + 1e-5 * float(np.abs(E[:, j] / U[:, j]).max())
                    for name in ("Histogram", "Dist"):
                        ctx.expect(name in tr and close(lib.arr(tr[name].x), r, 1e-4, tol), f"{where}: {name}", lambda: {"got": tr[name].x, "want": r})
                    if est is None and th == 3.0:
                        x = lib.arr(tr["Normal"].x)
                        s = r.std()
                        ctx.expect(close(lib.arr(tr["Normal"].y), np.exp(-0.5 * ((x - r.mean()) / s) ** 2) / (s * np.sqrt(2 * np.pi)), 1e-2, 1e-3), f"{where}: normal density")
                        x = lib.arr(tr["KDE"].x)
                        h = r.std(ddof=1) * len(r) ** -0.2
                        ctx.expect(close(lib.arr(tr["KDE"].y), np.exp(-0.5 * ((x[:, None] - r[None, :]) / h) ** 2).sum(axis=1) / (len(r) * h * np.sqrt(2 * np.pi)), 1e-2, 1e-3),
                                   f"{where}: kernel density")
                    ctx.expect(title(fig).endswith(feats[j]), f"{where}: title {title(fig)}")
                    want = [(t, v) for t, v in zip(times, r) if th == -1 or abs(v) > th]
                    near = {t for t, v in zip(times, r) if th != -1 and abs(abs(v) - th) < 2 * tol}
                    got = [(pd.Timestamp(t), float(v)) for t, v in zip(left.index, left[left.columns[0]])]
                    ctx.expect(list(left.columns) == [feats[j]] and [t for t, _ in got if t not in near] == [t for t, _ in want if t not in near]
                               and all(abs(v - dict(want)[t]) <= tol + 1e-4 * abs(v) for t, v in got if t not in near), f"{where}: list of residuals",
                               lambda: {"got": got, "want": want})
            where = f"{what}: estimated and observed {args}"
            figs = figures(ctx, ma.plot_estimated_observed, args, where)
            if figs:
                tr = {t.name: t for t in figs[0].data}
                x, y = V[:, j], WH[:, j]
                ok = close(lib.arr(tr["Data"].x), x, 1e-5, 1e-6) and close(lib.arr(tr["Data"].y), y)
                ctx.expect(ok, f"{where}: samples", lambda: {"got": [tr["Data"].x, tr["Data"].y], "want": [x, y]})
                m, c = line(x, y)
                ctx.expect(close(lib.arr(tr["Regression"].x), x) and close(lib.arr(tr["Regression"].y), m * x + c, 1e-3, 1e-3), f"{where}: regression")
                ctx.expect(close(lib.arr(tr["One-to-One"].x), x) and close(lib.arr(tr["One-to-One"].y), x, 1e-4, 1e-4), f"{where}: one to one line")
                ctx.expect(title(figs[0]).endswith(feats[j]) and "Observed" in figs[0].layout.xaxis.title.text and "Predicted" in figs[0].layout.yaxis.title.text, f"{where}: titles")
            where = f"{what}: time series of {args}"
            figs = figures(ctx, ma.plot_estimated_timeseries, args, where)
            if figs:
                tr = {t.name: t for t in figs[0].data}
                for name, want in (("Observed Concentrations", V[:, j]), ("Predicted Concentrations", WH[:, j]), ("Residuals", V[:, j] - WH[:, j])):
                    if ctx.expect(name in tr, f"{where}: {list(tr)}"):
                        t = tr[name]
                        y = lib.arr(t.y)
                        have = dict(zip([pd.Timestamp(v) for v in t.x], y))
                        tol = 1e-5 * (1 + float(WH[:, j].max()))
                        ctx.expect(set(times) <= set(have) and close([have.get(s, np.nan) for s in times], want, 1e-4, tol), f"{where}: {name}",
                                   lambda: {"got": have, "want": want})
                        ctx.expect(all(np.isnan(v) for s, v in have.items() if s not in set(times)), f"{where}: {name} where there is no sample")
                ctx.expect(feats[j] in title(figs[0]) and title(figs[0]).endswith(model), f"{where}: title {title(figs[0])}")
    for call in (ma.plot_residual_histogram, ma.plot_estimated_observed, ma.plot_estimated_timeseries):
        for bad in (dict(feature_idx=-1), dict(feature_idx=n), dict(feature_name="missing"), {}):
            ctx.expect(not show(call, **bad)[0], f"{what}: {call.__name__} shows {bad}")
    # factors
    for i in range(f):
        for h, w in itertools.product((None, other[0]), (None, other[1])):
            A, B = H if h is None else h, W if w is None else w
            args = dict(factor_idx=i + 1)
            if h is not None:
                args["H"] = h.copy()
            if w is not None:
                args["W"] = w.copy()
            where = f"{what}: profile of factor {i + 1}, given H {h is not None}, W {w is not None}"
            figs = figures(ctx, ma.plot_factor_profile, args, where, 2)
            if not figs:
                continue
            tr = {t.name: t for t in figs[0].data}
            for name, want in (("% of Features", 100 * A[i] / A.sum(axis=0)), ("Conc. of Features", B[:, i].sum() * A[i])):
                ctx.expect(name in tr and strs(tr[name].x) == feats and close(lib.arr(tr[name].y), want), f"{where}: {name}", lambda: {"got": tr[name].y, "want": want})
            at_samples(ctx, figs[1].data[0], times, B[:, i] / B[:, i].mean(), where)
            ctx.expect(all(title(g).endswith(f"{model} - Factor {i + 1}") for g in figs), f"{where}: titles {[title(g) for g in figs]}")
        for j in range(f):
            where = f"{what}: G-space of factors {i + 1} and {j + 1}"
            figs = figures(ctx, ma.plot_g_space, dict(factor_1=i + 1, factor_2=j + 1), where)
            if figs:
                t, N = figs[0].data[0], W / W.mean(axis=0)
                ctx.expect(close(lib.arr(t.x), N[:, i]) and close(lib.arr(t.y), N[:, j]), f"{where}: values")
                ctx.expect(f"Factor {i + 1} " in figs[0].layout.xaxis.title.text and f"Factor {j + 1} " in figs[0].layout.yaxis.title.text and title(figs[0]).endswith(model), f"{where}: titles")
    for bad in (0, -1, f + 1):
        for call, args in ((ma.plot_factor_profile, (bad,)), (ma.plot_g_space, (bad, 1)), (ma.plot_g_space, (1, bad)), (ma.plot_factor_surface, (bad,))):
            ctx.expect(not show(call, *args)[0], f"{what}: {call.__name__} shows factor {bad}")
    P = 100 * H / H.sum(axis=0)
    for grouped in (False, True):
        figs = figures(ctx, ma.plot_factor_fingerprints, dict(grouped=grouped), f"{what}: fingerprints")
        if figs:
            tr = {t.name: t for t in figs[0].data}
            ctx.expect(set(tr) == {f"Factor {i + 1}" for i in range(f)} and all(strs(tr[f"Factor {i + 1}"].x) == feats and close(lib.arr(tr[f"Factor {i + 1}"].y), P[i]) for i in range(f))
                       and figs[0].layout.barmode == ("group" if grouped else "stack") and title(figs[0]).endswith(model), f"{what}: fingerprints")
    figs = figures(ctx, ma.plot_factor_composition, {}, f"{what}: composition", returns=False)
    if figs:
        tr = {t.name: t for t in figs[0].data}
        ctx.expect(set(tr) == {f"Factor {i + 1}" for i in range(f)} and all(strs(tr[f"Factor {i + 1}"].theta) == feats and close(lib.arr(tr[f"Factor {i + 1}"].r), P[i] / 100) for i in range(f)),
                   f"{what}: composition")
    lists = [None] + [list(c) for k in range(1, min(f, 3) + 1) for c in itertools.combinations(range(min(f, 4)), k)]
    for lst, (h, w) in itertools.product(lists, ((None, None), other)):
        A, B = (H, W) if h is None else (h, w)
        args = {} if lst is None else dict(factor_list=lst)
        if h is not None:
            args.update(H=h.copy(), W=w.copy())
        where = f"{what}: all factors {lst}, given {h is not None}"
        figs = figures(ctx, ma.plot_all_factors, args, where)
        if figs:
            rows = [a.text for a in figs[0].layout.annotations]
            got = {}
            for t in figs[0].data:
                k = int((t.yaxis or "y1")[1:] or 1)
                got[((k - 1) // 2, "conc" if t.type == "bar" else "%")] = t
            want = range(f) if lst is None else lst
            ctx.expect(rows == [f"Factor {i + 1}" for i in range(f)] and set(got) == {(i, k) for i in want for k in ("conc", "%")}, f"{where}: {sorted(got)}")
            for (i, k), t in got.items():
                y = B[:, i].sum() * A[i] if k == "conc" else 100 * A[i] / A.sum(axis=0)
                ctx.expect(strs(t.x) == feats and close(lib.arr(t.y), y), f"{where}: {k} of factor {i + 1}", lambda: {"got": t.y, "want": y})
    for kind, (h, w) in itertools.product(("profile", "conc", "both"), ((None, None), other)):
        A, B = (H, W) if h is None else (h, w)
        args = dict(plot_type=kind)
        if h is not None:
            args.update(H=h.copy(), W=w.copy())
        where = f"{what}: 3d {kind}, given {h is not None}"
        figs = figures(ctx, ma.plot_all_factors_3d, args, where)
        if figs:
            want = [np.log10(B.sum(axis=0)[:, None] * A + 1)] if kind != "profile" else []
            want += [100 * A / A.sum(axis=0)] if kind != "conc" else []
            if ctx.expect(len(figs[0].data) == len(want), f"{where}: {len(figs[0].data)} sets of bars"):
                for t, z in zip(figs[0].data, want):
                    x, y, h_ = (lib.arr(v).reshape(-1, 8) for v in (t.x, t.y, t.z))
                    got = {(round(y[k].mean()), round(x[k].mean())): next((v for v in h_[k] if v != 0), 0.0) for k in range(len(x))}
                    ctx.expect(len(got) == f * n and close([[got.get((i, j), np.nan) for j in range(n)] for i in range(f)], z), f"{where}: heights", lambda: {"got": got, "want": z})
                    names = [str(s) for s in t.text][::8]
                    ctx.expect(len(names) == f * n and all(f"Factor: {i + 1}<" in names[i * n + j] and f"Feature: {feats[j]}<" in names[i * n + j] for i in range(f) for j in range(n)),
                               f"{where}: labels")
                    # every bar is a box without holes: each edge of its triangles belongs to two of them
                    edges = {}
                    for tri in zip(t.i, t.j, t.k):
                        for a, b in itertools.combinations(sorted(map(int, tri)), 2):
                            edges[a, b] = edges.get((a, b), 0) + 1
                    ctx.expect(set(edges.values()) == {2} and all(a // 8 == b // 8 for a, b in edges), f"{where}: the bars have holes")
                if kind == "both":
                    ctx.expect([t.visible in (None, True) for t in figs[0].data] == [True, False], f"{where}: sets shown at first")
                    seen = {b.label: list(b.args[0]["visible"]) for m in figs[0].layout.updatemenus for b in m.buttons}
                    ctx.expect(seen == {"Conc. of Features": [True, False], "% of Features": [False, True]}, f"{where}: buttons {seen}")
    for j in range(n):
        for th in (0.05, 15.0, 45.0):
            where = f"{what}: contributions to feature {j} above {th}"
            figs = figures(ctx, ma.plot_factor_contributions, dict(feature_idx=j, contribution_threshold=th), where, 2)
            if not figs:
                continue
            pie = figs[0].data[0]
            got = dict(zip(list(pie.labels or []), lib.arr(pie.values) if pie.values is not None else []))
            want = {f"Factor {i + 1}": P[i, j] for i in range(f) if P[i, j] > th}
            near = {f"Factor {i + 1}" for i in range(f) if abs(P[i, j] - th) < 1e-3}
            ctx.expect(set(got) - near == set(want) - near and all(close([got[k]], [want[k]]) for k in got if k in want), f"{where}: shares", lambda: {"got": got, "want": want})
            ctx.expect(f"Feature: {feats[j]} - {model}" in title(figs[0]), f"{where}: title {title(figs[0])}")
            tr = {t.name: t for t in figs[1].data}
            if ctx.expect(list(tr) == [f"Factor {i + 1}" for i in range(f)], f"{where}: lines {list(tr)}"):
                for i in range(f):
                    at_samples(ctx, tr[f"Factor {i + 1}"], times, W[:, i] / W[:, i].mean(), f"{where}, factor {i + 1}")
            ctx.expect(f"#{number} (" in title(figs[1]) and ("Unconverged" not in title(figs[1])) == bool(sa.converged), f"{where}: title {title(figs[1])}")
    for bad in (dict(feature_idx=-1), dict(feature_idx=n), dict(feature_idx=0, contribution_threshold=-1.0), dict(feature_idx=0, contribution_threshold=50.5)):
        ctx.expect(not show(ma.plot_factor_contributions, **bad)[0], f"{what}: contributions of {bad} are shown")
    parts = np.array([np.outer(W[:, i], H[i]) for i in range(f)])
    share = 100 * parts / WH
    for pct in (True, False):
        M = share if pct else parts
        for i in range(f):
            figs = figures(ctx, ma.plot_factor_surface, dict(factor_idx=i + 1, percentage=pct), f"{what}: surface of factor {i + 1}", returns=False)
            if figs:
                t = figs[0].data[0]
                z = np.asarray(t.z, float)
                ok = z.shape == M[i].shape and np.all(np.where(np.isnan(z), M[i] < 1.1e-4, np.abs(z - M[i]) <= 1e-3 * np.abs(M[i]) + 1e-5))
                ctx.expect(ok and strs(t.x) == feats and [pd.Timestamp(v) for v in t.y] == times and title(figs[0]).endswith(f"Factor {i + 1}")
                           and ("%" in figs[0].layout.scene.zaxis.title.text) == pct, f"{what}: surface of factor {i + 1}, percentage {pct}", lambda: {"got": z, "want": M[i]})
        for j in range(n):
            figs = figures(ctx, ma.plot_factor_surface, dict(factor_idx=None, feature_idx=j + 1, percentage=pct), f"{what}: surface of feature {j + 1}", returns=False)
            if figs:
                t = figs[0].data[0]
                z = np.asarray(t.z, float)
                ok = z.shape == (len(V), f) and np.all(np.where(np.isnan(z), M[:, :, j].T < 1.1e-4, np.abs(z - M[:, :, j].T) <= 1e-3 * np.abs(M[:, :, j].T) + 1e-5))
                ctx.expect(ok and strs(t.x) == [f"Factor {i + 1}" for i in range(f)] and [pd.Timestamp(v) for v in t.y] == times and feats[j] in title(figs[0]),
                           f"{what}: surface of feature {j + 1}, percentage {pct}", lambda: {"got": z, "want": M[:, :, j].T})
    for bad in (dict(factor_idx=None), dict(factor_idx=None, feature_idx=0), dict(factor_idx=None, feature_idx=n + 1)):
        ctx.expect(not show(ma.plot_factor_surface, **bad)[0], f"{what}: a surface of {bad} is shown")


def trained(V, U, f, method, k, iters):
    sa = lib.SA(V, U, f, method=method, seed=4 + k)
    sa.initialize(H=c01.start_h(f, V.shape[1], k), W=np.abs(c01.start_h(V.shape[0], f, k)))
    sa.train(max_iter=iters, converge_delta=1e-3 if k % 2 else 1e-9, converge_n=3 if k % 2 else 500)
    return sa


def one(ctx, job):
    kind, f, method, k = job
    what = f"{kind}, {f} factors, {method}"
    if not ctx.case(what):
        return
    mod = core.esat("esat.data.analysis")
    with ctx.guard("model analysis"), core.quiet(), core.scratch() as d:
        dh, V, U, times, feats = dataset(kind, 5 if kind == "quarter" else 4, method, d)
        sa = trained(V, U, f, method, k, 25)
        snap = errlib.snapshot(sa)
        was = [x.copy(deep=True) for x in (dh.input_data, dh.uncertainty_data, dh.input_data_df, dh.uncertainty_data_df)]
        selected = (None, 0, 3)[k % 3]
        ma = mod.ModelAnalysis(datahandler=dh, model=sa) if selected is None else mod.ModelAnalysis(datahandler=dh, model=sa, selected_model=selected)
        check(ctx, ma, sa, times, feats, list(dh.input_data_df.index), 1 if selected is None else selected + 1, what)
        if f <= 2:                                  # the model trained again, and another model in its place
            sa.train(max_iter=40, converge_delta=1e-9, converge_n=500)
            snap = errlib.snapshot(sa)
            check(ctx, ma, sa, times, feats, list(dh.input_data_df.index), 1 if selected is None else selected + 1, f"{what}, trained again")
            ma.model = trained(V, U, f, method, k + 1, 9)
            check(ctx, ma, ma.model, times, feats, list(dh.input_data_df.index), 1 if selected is None else selected + 1, f"{what}, another model")
        ctx.expect(errlib.unchanged(sa, snap), f"{what}: showing results modified the model")
        ctx.expect(all(a.equals(b) for a, b in zip(was, (dh.input_data, dh.uncertainty_data, dh.input_data_df, dh.uncertainty_data_df))), f"{what}: showing results modified the dataset")
        ctx.state(what)


def batch(ctx, job):
    kind, method, n_models = job
    mod, bm = core.esat("esat.data.analysis"), core.esat("esat.model.batch_sa")
    with core.quiet(), core.scratch() as d:
        dh, V, U, times, feats = dataset(kind, 5 if kind == "quarter" else 4, method, d)
        models = [trained(V, U, 2, method, k, 5 + 7 * k) for k in range(n_models)]
        for pattern in itertools.product((True, False), repeat=n_models):
            for best in [i for i in range(n_models) if pattern[i]]:
                for use in (True, False):
                    what = f"batch, {kind}, {method}, {pattern}, best {best}, handler {use}"
                    if not ctx.case(what):
                        continue
                    with ctx.guard("batch analysis"):
                        with core.NoRustLeft():
                            b = bm.BatchSA(V=V, U=U, factors=2, models=n_models, method=method, seed=1, max_iter=77, parallel=False, verbose=False)
                        b.results = [m if p else None for m, p in zip(models, pattern)]
                        b.best_model = best
                        ba = mod.BatchAnalysis(b, dh) if use else mod.BatchAnalysis(b)
                        check_batch(ctx, ba, b, models, pattern, best, times if use else None, feats, what)
                        # the batch trained again
                        turned, pat = models[1:] + models[:1], pattern[::-1]
                        b.results = [m if p else None for m, p in zip(turned, pat)]
                        b.best_model = n_models - 1 - best
                        check_batch(ctx, ba, b, turned, pat, n_models - 1 - best, times if use else None, feats, f"{what}, trained again")
                        ctx.state(what)


def check_batch(ctx, ba, b, models, pattern, best, times, feats, what):
    done = [i for i, p in enumerate(pattern) if p]
    figs = figures(ctx, ba.plot_loss, {}, f"{what}: loss")
    if figs:
        tr = {t.name: t for t in figs[0].data}
        ctx.expect(set(tr) == {f"Model {i + 1}" for i in done} and len(figs[0].data) == len(done), f"{what}: losses of {list(tr)}")
        for i in done:
            q = [float(v) for v in models[i].q_list]
            t = tr.get(f"Model {i + 1}")
            ctx.expect(t is not None and list(t.x) == list(range(len(q))) and same(lib.arr(t.y), q), f"{what}: loss of model {i + 1}")
        ctx.expect("77" in title(figs[0]), f"{what}: title {title(figs[0])}")
    figs = figures(ctx, ba.plot_loss_distribution, {}, f"{what}: loss distribution")
    if figs:
        tr = {t.name: t for t in figs[0].data}
        for name, fun in (("Q(True)", lib.q_true), ("Q(Robust)", lib.q_robust)):
            want = [fun(models[i].V, models[i].U, models[i].W, models[i].H) for i in done]
            ctx.expect(name in tr and close(lib.arr(tr[name].y), want, 1e-3, 1e-3) and [int(v) for v in tr[name].text] == done, f"{what}: distribution of {name}")
    V = np.asarray(models[0].V, float)
    for j in range(V.shape[1]):
        where = f"{what}: residuals of feature {j}"
        figs = figures(ctx, ba.plot_temporal_residuals, dict(feature_idx=j), where)
        if not figs:
            continue
        tr = {t.name: t for t in figs[0].data}
        ctx.expect(set(tr) == {"Input"} | {f"Model {i + 1}" for i in done} and len(figs[0].data) == 1 + len(done), f"{where}: {list(tr)}")
        for name, t in tr.items():
            i = None if name == "Input" else int(name.split()[1]) - 1
            want = V[:, j] if i is None else V[:, j] - (np.asarray(models[i].W, float) @ np.asarray(models[i].H, float))[:, j]
            ctx.expect(close(lib.arr(t.y), want, 1e-4, 1e-5 * (1 + np.abs(V[:, j]).max())), f"{where}: {name}", lambda: {"got": t.y, "want": want})
            x = [pd.Timestamp(v) for v in t.x] if times is not None else list(t.x)
            ctx.expect(x == (times if times is not None else list(range(1, len(V) + 1))), f"{where}: samples {x[:4]}")
            ctx.expect((t.visible is True or t.visible is None) == (i is None or i == best), f"{where}: {name} visible {t.visible}")
        ctx.expect(title(figs[0]).endswith(feats[j] if times is not None else f"Feature {j + 1}"), f"{where}: title {title(figs[0])}")


def work(ctx, job):
    (batch if job[0] == "batch" else one)(ctx, job[1:])


def run(ctx):
    kinds = ("days", "hours", "third", "quarter", "large")
    jobs = [("one", k, f, me, i) for i, (k, f, me) in enumerate(itertools.product(kinds, (2, 3, 1, 4), ("ls-nmf", "ws-nmf")))]
    if not ctx.thorough:
        jobs = [j for i, j in enumerate(jobs) if i % 3 == (i // 9) % 3 or j[1:4] == ("large", 2, "ls-nmf")]
    jobs += [("one", "days", 11, "ls-nmf", 2)]
    jobs += [("batch", k, me, 3) for k in kinds for me in ("ls-nmf", "ws-nmf") if ctx.thorough or (me == "ls-nmf") == (k != "hours")]
    core.shards(ctx, work, jobs)
