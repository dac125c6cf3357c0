"""C35 plots of the dataset"""
import itertools
import os
import numpy as np
import pandas as pd
import core, lib, c01, c02
from c33 import same, strs
from c34 import show, at_samples

PROPERTY = {
    "title": "Dataset plots show the samples of the feature they name",
    "statement": "Every dataset figure shows the values of the features it names, sample by sample: concentrations against their own uncertainties (with a menu that selects exactly one feature), one feature against another for the samples that have both (with the least squares line and the one to one line), time series at the times of the complete samples, the pairwise correlation of the chosen kind, histograms of all present values, and density curves of the values. A merged dataset shows the samples of all its parts and has their metrics. Selecting by index, list or label gives the same feature, an index out of range shows nothing where one is required, asking for the figure instead of showing it returns the same figure, and when a dataset is too large its concentrations and uncertainties are averaged over the same quantile bins. Datasets from files and from dataframes are shown alike, and showing a dataset does not change it.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all datasets, missing values, sample orders, plotting limits, features and pairs of features"},
    "why_tests_cant": "No test looks at a figure; values of another feature or sample are as plausible as the right ones.",
    "anchors": {"files": ["esat/data/datahandler.py"],
                "mechanism": [{"name": "plot_*, _aggregate_data", "where": "DataHandler"}],
                "observe_at": ["figures shown and returned", "DataHandler.input_data_plot, uncertainty_data_plot"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one figure of one dataset; distinct by dataset, figure and arguments; non-trivial: a figure was shown",
        "bounds": {"quick": "24 datasets (daily, hourly, every third day unsorted, 15 minutes; no, one and several missing values; 2-4 features, one with repeated values; from files and dataframes), every feature, pair, list of up to 3 features, method and option; merged datasets of 2 and 3 parts with and without gaps, aggregated and not; aggregation of 9..40 samples to 3..20 bins with repeated and missing values",
                   "thorough": "all 96 combinations"},
        "assumptions": ["samples lie on a regular grid with gaps", "no feature is constant", "figures are compared by their data, labels and axis titles"]}


def grid(kind, m):
    step = {"days": "1D", "hours": "1h", "third": "3D", "quarter": "15min"}[kind]
    idx = pd.date_range("2021-03-01", periods=m + 2, freq=step)
    keep = [i for i in range(m + 2) if i not in (3, m)]      # a gap in the samples
    idx = idx[keep]
    if kind == "third":
        idx = idx[[(5 * i + 2) % m for i in range(m)]] if m % 5 else idx[::-1]
    return idx


def data(kind, m, n, gaps, k):
    V = c02.shaped(m, n, k) + 0.01 * np.arange(m)[:, None]
    V[:, n - 1] = np.round(V[:, n - 1] / 4) + 1               # repeated values
    U = 0.1 * V + 0.05 * (1 + (np.arange(m)[:, None] * 3 + np.arange(n)) % 4)
    for r, c in ((), ((1, 0),), ((1, 0), (4, n - 1), (2, 0), (5, 1)))[gaps]:
        V[r, c] = np.nan
    if gaps == 2:
        U[6, 0] = np.nan
    labels = [f"sp {j}" for j in range(n)]
    idx = grid(kind, m)
    return pd.DataFrame(V, columns=labels, index=idx), pd.DataFrame(U, columns=labels, index=idx)


def handler(V, U, source, d, limit=10000):
    dhm = core.esat("esat.data.datahandler")
    if source == "frame":
        return dhm.DataHandler.load_dataframe(V, U)
    pv, pu = os.path.join(d, "v.csv"), os.path.join(d, "u.csv")
    V.to_csv(pv, index_label="Date")
    U.to_csv(pu, index_label="Date")
    return dhm.DataHandler(pv, pu, index_col="Date", max_plotting_n=limit)


def rank(x):
    order = np.sort(x)
    return np.array([(np.searchsorted(order, v, "left") + np.searchsorted(order, v, "right") + 1) / 2 for v in x])


def correlation(x, y, method):
    ok = ~np.isnan(x) & ~np.isnan(y)
    x, y = x[ok], y[ok]
    if method == "kendall":
        s = [np.sign(x[i] - x[j]) * np.sign(y[i] - y[j]) for i in range(len(x)) for j in range(i)]
        tx = sum(x[i] != x[j] for i in range(len(x)) for j in range(i))
        ty = sum(y[i] != y[j] for i in range(len(x)) for j in range(i))
        return sum(s) / np.sqrt(tx * ty)
    if method == "spearman":
        x, y = rank(x), rank(y)
    return np.corrcoef(x, y)[0, 1]


def alike(a, b):
    return a.to_plotly_json() is not None and _plain(a.to_plotly_json()) == _plain(b.to_plotly_json())


def _plain(o):
    if isinstance(o, dict):
        return {k: _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)) or hasattr(o, "tolist"):
        return [repr(v) for v in np.asarray(o, dtype=object).ravel()]
    return repr(o)


def figure(ctx, dh, name, args, where):
    """the figure, both shown and returned"""
    ctx.step()
    call = getattr(dh, name)
    figs, _ = show(call, **args)
    with lib.shown() as none, lib.logged():
        fig = call(**args, show=False)
    if not ctx.expect(len(figs) == 1 and fig is not None and not none, f"{where}: {len(figs)} figures shown, {fig is not None} returned, {len(none)} shown when returned"):
        return None
    ctx.expect(alike(figs[0], fig), f"{where}: the figure that is returned differs from the one that is shown")
    ctx.outcome(where)
    return fig


def title(fig):
    return str(fig.layout.title.text)


def check(ctx, dh, V, U, what, timed=True):
    labels, n = list(V.columns), V.shape[1]
    A, B = V.values.astype(float), U.values.astype(float)
    times = [pd.Timestamp(t) for t in V.index]
    # concentrations and uncertainties
    fig = figure(ctx, dh, "plot_data_uncertainty", {}, f"{what}: uncertainties")
    if fig is not None:
        ctx.expect([t.name for t in fig.data] == labels, f"{what}: uncertainties of {[t.name for t in fig.data]}")
        for j, t in enumerate(fig.data):
            ctx.expect(same(lib.arr(t.x), A[:, j]) and same(lib.arr(t.y), B[:, j]), f"{what}: uncertainties of {labels[j]}", lambda: {"got": [t.x, t.y], "want": [A[:, j], B[:, j]]})
            ctx.expect((t.visible is not False) == (j == 0), f"{what}: visible {t.visible} of {labels[j]}")
        ctx.expect(title(fig).endswith(labels[0]), f"{what}: title {title(fig)}")
        menu = fig.layout.updatemenus
        if ctx.expect(len(menu) == 1 and [b.label for b in menu[0].buttons] == labels, f"{what}: menu"):
            for j, b in enumerate(menu[0].buttons):
                ctx.expect(list(b.args[0]["visible"]) == [i == j for i in range(n)] and str(b.args[1]["title.text"]).endswith(labels[j]), f"{what}: menu entry {b.label}")
    for j in range(n):
        fig = figure(ctx, dh, "plot_data_uncertainty", dict(feature_idx=j), f"{what}: uncertainties, first of {labels[j]}")
        if fig is not None:
            ctx.expect([t.name for t in fig.data if t.visible is not False] == [labels[j]] and title(fig).endswith(labels[j]), f"{what}: feature {j} is not the one that is shown first")
            menu = fig.layout.updatemenus
            ctx.expect(len(menu) == 1 and [b.label for b in menu[0].buttons] == labels and (menu[0].active or 0) == j, f"{what}: menu, first of {labels[j]}")
        fig = figure(ctx, dh, "plot_data_uncertainty", dict(include_menu=False, feature_idx=j), f"{what}: uncertainty of feature {j}")
        if fig is not None:
            t = fig.data[0]
            ctx.expect(len(fig.data) == 1 and t.name == labels[j] and same(lib.arr(t.x), A[:, j]) and same(lib.arr(t.y), B[:, j]) and t.visible is not False
                       and title(fig).endswith(labels[j]) and not fig.layout.updatemenus, f"{what}: uncertainty of feature {j} without a menu")
    # feature against feature
    for a, b in itertools.product(range(n), repeat=2):
        where = f"{what}: feature {b} against {a}"
        fig = figure(ctx, dh, "plot_feature_data", dict(x_idx=a, y_idx=b), where)
        if fig is None:
            continue
        ok = ~np.isnan(A[:, a]) & ~np.isnan(A[:, b])
        x, y = A[ok, a], A[ok, b]
        tr = {t.name: t for t in fig.data}
        if not ctx.expect(set(tr) == {"Data", "Regression", "One-to-One"}, f"{where}: {list(tr)}"):
            continue
        ctx.expect(same(lib.arr(tr["Data"].x), x) and same(lib.arr(tr["Data"].y), y), f"{where}: samples", lambda: {"got": [tr["Data"].x, tr["Data"].y], "want": [x, y]})
        when = [pd.Timestamp(np.ravel(np.asarray(c, dtype=object))[0]) for c in tr["Data"].customdata]
        ctx.expect(when == [t for t, o in zip(times, ok) if o], f"{where}: dates {when[:3]}")
        m, c = np.polyfit(x, y, 1)
        ctx.expect(same(lib.arr(tr["Regression"].x), x) and same(lib.arr(tr["Regression"].y), m * x + c, 1e-6), f"{where}: regression")
        ctx.expect(same(lib.arr(tr["One-to-One"].x), x) and same(lib.arr(tr["One-to-One"].y), x, 1e-6), f"{where}: one to one line")
        ctx.expect(fig.layout.xaxis.title.text == labels[a] and fig.layout.yaxis.title.text == labels[b] and title(fig).endswith(f"{labels[b]}/{labels[a]}"), f"{where}: titles")
        ctx.expect(fig.layout.xaxis.range[0] <= min(0, x.min()) and fig.layout.xaxis.range[1] >= x.max() and fig.layout.yaxis.range[1] >= y.max(), f"{where}: range of the axes")
    for a, b in ((n, 0), (-1, 0), (0, n), (0, -1)):
        figs, _ = show(dh.plot_feature_data, a, b)
        ctx.expect(not figs, f"{what}: feature {b} against {a} is shown")
    # time series (merged datasets have no times)
    full = ~np.isnan(A).any(axis=1)
    tf = [t for t, o in zip(times, full) if o]
    picks = [(j, [j % n]) for j in range(n + 2)] + [(labels[j], [j]) for j in range(n)]
    picks += [(list(p), list(p)) for k in (1, 2, 3) for p in itertools.permutations(range(n), k) if k <= n]
    for sel, want in picks if timed else ():
        where = f"{what}: time series of {sel}"
        fig = figure(ctx, dh, "plot_feature_timeseries", dict(feature_selection=sel), where)
        if fig is not None and ctx.expect([t.name for t in fig.data] == [labels[j] for j in want], f"{where}: {[t.name for t in fig.data]}"):
            for t, j in zip(fig.data, want):
                at_samples(ctx, t, tf, A[full, j], f"{where}, {labels[j]}")
    # correlation
    for method in ("pearson", "spearman", "kendall"):
        fig = figure(ctx, dh, "plot_feature_correlation_heatmap", dict(method=method), f"{what}: {method} correlation")
        if fig is not None:
            t = fig.data[0]
            want = np.array([[correlation(A[:, i], A[:, j], method) for j in range(n)] for i in range(n)])
            ctx.expect(strs(t.x) == labels and strs(t.y) == labels and same(np.asarray(t.z, float), want, 1e-9), f"{what}: {method} correlation",
                       lambda: {"got": t.z, "want": want})
            ctx.expect((t.zmin, t.zmax) == (-1, 1) and method in title(fig).lower(), f"{what}: scale or title of the {method} correlation")
    # histograms
    for bins in (50, 7):
        fig = figure(ctx, dh, "plot_superimposed_histograms", dict(nbins=bins), f"{what}: histograms")
        if fig is not None:
            ctx.expect([t.name for t in fig.data] == labels and all(t.nbinsx == bins and same(np.sort(lib.arr(t.x)), np.sort(A[:, j])) for j, t in enumerate(fig.data)),
                       f"{what}: histograms")
    for a, b in itertools.permutations(range(n), 2):
        fig = figure(ctx, dh, "plot_2d_histogram", dict(x_col=labels[a], y_col=labels[b], nbins=9), f"{what}: 2d histogram {a} {b}")
        if fig is not None:
            t = fig.data[0]
            ctx.expect(same(lib.arr(t.x), A[:, a]) and same(lib.arr(t.y), A[:, b]) and t.nbinsx == t.nbinsy == 9 and fig.layout.xaxis.title.text == labels[a]
                       and fig.layout.yaxis.title.text == labels[b], f"{what}: 2d histogram of {a} and {b}")
    # densities
    for log, fill, bins in itertools.product((True, False), (True, False), (500, 20)):
        where = f"{what}: densities, log {log}, fill {fill}, {bins} points"
        fig = figure(ctx, dh, "plot_ridgeline", dict(log_x=log, fill=fill, nbins=bins), where)
        if fig is None or not ctx.expect([t.name for t in fig.data] == labels, f"{where}: {[t.name for t in fig.data]}"):
            continue
        ticks = list(fig.layout.yaxis.tickvals)
        ctx.expect(list(fig.layout.yaxis.ticktext) == labels and len(ticks) == n and all(0.5 <= b - a <= 1.5 for a, b in zip(ticks, ticks[1:])), f"{where}: ticks {ticks}")
        ctx.expect(("log" in str(fig.layout.xaxis.title.text)) == log, f"{where}: axis title")
        for j, t in enumerate(fig.data):
            x = A[~np.isnan(A[:, j]), j]
            x = np.log10(x[x > 0]) if log else x
            g = np.linspace(x.min(), x.max(), bins)
            h = x.std(ddof=1) * len(x) ** -0.2
            y = np.exp(-0.5 * ((g[:, None] - x[None, :]) / h) ** 2).sum(axis=1) / (len(x) * h * np.sqrt(2 * np.pi))
            ctx.expect(same(lib.arr(t.x), g, 1e-6) and same(lib.arr(t.y) - ticks[j], y, 1e-6), f"{where}: density of {labels[j]}",
                       lambda: {"got": (lib.arr(t.y) - ticks[j])[:5], "want": y[:5]})
            ctx.expect((t.fill is not None) == fill, f"{where}: fill {t.fill}")


def plots(ctx, job):
    kind, gaps, n, source, m = job
    what = f"{kind}, {gaps}, {n} features, {source}, {m} samples"
    if not ctx.case(what):
        return
    with ctx.guard("dataset plots"), core.quiet(), core.scratch() as d:
        V, U = data(kind, m, n, gaps, n + gaps)
        dh = handler(V, U, source, d)
        was = (V.copy(deep=True), U.copy(deep=True), dh.input_data.copy(deep=True), dh.uncertainty_data.copy(deep=True), dh.metrics.copy(deep=True))
        check(ctx, dh, V, U, what)
        dh.get_data()
        check(ctx, dh, V, U, what + ", after use")
        ctx.expect(all(a.equals(b) for a, b in zip(was, (V, U, dh.input_data, dh.uncertainty_data, dh.metrics))), f"{what}: showing the dataset modified it")
        ctx.state(what)


def quantile_bins(x, u, limit):
    """means of the present values and of their uncertainties in every non-empty bin between quantiles"""
    ok = ~np.isnan(x)
    xs, us = x[ok], u[ok]
    q = np.unique(pd.Series(x).quantile(np.linspace(0, 1, limit + 1)).values)     # rounded as in pandas
    out = []
    for i in range(1, len(q)):
        b = (xs > q[i - 1]) & (xs <= q[i]) if i > 1 else (xs >= q[0]) & (xs <= q[1])
        if b.any():
            out.append((xs[b].mean(), np.nanmean(us[b]) if not np.isnan(us[b]).all() else np.nan))
    return np.array(out)


def aggregated(ctx, job):
    m, limit, gaps, kind = job
    what = f"{m} samples, at most {limit}, {gaps}, {kind}"
    if not ctx.case("aggregated", what):
        return
    with ctx.guard("aggregation"), core.quiet(), core.scratch() as d:
        V, U = data(kind, m, 3, gaps, m % 3)
        dh = handler(V, U, "file", d, limit)
        A, B = V.values.astype(float), U.values.astype(float)
        P, Q = dh.input_data_plot, dh.uncertainty_data_plot
        if m <= limit:
            ctx.expect(same(P.values.astype(float), A) and same(Q.values.astype(float), B), f"{what}: a dataset that is small enough is aggregated")
        else:
            ctx.expect(list(P.columns) == list(Q.columns) == list(V.columns) and len(P) <= limit, f"{what}: shape {P.shape} of the aggregated data")
            with lib.logged():
                again = dh.aggregate_output(np.array(dh.input_data[list(V.columns)].values, float))
            for name in V.columns:
                x, y = (lib.arr(t[name]) for t in (again, P))
                ctx.expect(same(x[~np.isnan(x)], y[~np.isnan(y)], 1e-9), f"{what}: aggregating the data as an output does not give the aggregated data")
            for j, name in enumerate(V.columns):
                want = quantile_bins(A[:, j], B[:, j], limit)
                p, q = lib.arr(P[name]), lib.arr(Q[name])
                q, p = q[~np.isnan(p)], p[~np.isnan(p)]
                ctx.expect(len(p) == len(want) and same(p, want[:, 0], 1e-9) and same(q, want[:, 1], 1e-9), f"{what}: aggregated values of feature {j}",
                           lambda: {"got": [p, q], "want": want})
            fig = figure(ctx, dh, "plot_data_uncertainty", {}, f"{what}: uncertainties")
            for j, t in enumerate(fig.data):
                want = quantile_bins(A[:, j], B[:, j], limit)
                x, y = lib.arr(t.x), lib.arr(t.y)
                ctx.expect(same(x[~np.isnan(x)], want[:, 0], 1e-9) and same(y[~np.isnan(x)], want[:, 1], 1e-9), f"{what}: aggregated uncertainties of feature {j}")
            for method in ("pearson", "spearman", "kendall"):
                fig = figure(ctx, dh, "plot_feature_correlation_heatmap", dict(method=method), f"{what}: {method} correlation")
                want = np.array([[correlation(A[:, i], A[:, j], method) for j in range(3)] for i in range(3)])
                ctx.expect(same(np.asarray(fig.data[0].z, float), want, 1e-9), f"{what}: {method} correlation of a large dataset",
                           lambda: {"got": fig.data[0].z, "want": want})
            full = ~np.isnan(A).any(axis=1)
            times = [pd.Timestamp(t) for t, o in zip(V.index, full) if o]
            for j in range(3):
                fig = figure(ctx, dh, "plot_feature_timeseries", dict(feature_selection=j), f"{what}: time series of {j}")
                at_samples(ctx, fig.data[0], times, A[full, j], f"{what}: time series of feature {j} of a large dataset")
            for a, b in itertools.permutations(range(3), 2):
                ok = ~np.isnan(A[:, a]) & ~np.isnan(A[:, b])
                fig = figure(ctx, dh, "plot_feature_data", dict(x_idx=a, y_idx=b), f"{what}: feature {b} against {a}")
                ctx.expect(same(lib.arr(fig.data[0].x), A[ok, a]) and same(lib.arr(fig.data[0].y), A[ok, b]), f"{what}: feature {b} against {a} of a large dataset")
                fig = figure(ctx, dh, "plot_2d_histogram", dict(x_col=V.columns[a], y_col=V.columns[b]), f"{what}: 2d histogram {a} {b}")
                ctx.expect(same(lib.arr(fig.data[0].x), A[:, a]) and same(lib.arr(fig.data[0].y), A[:, b]), f"{what}: 2d histogram of {a} and {b} of a large dataset")
        ctx.state(("aggregated", what))


def merged(ctx, job):
    """a merged dataset shows the samples of all its parts, also after the parts were shown"""
    gaps, n, m, parts, shown, limit = job
    what = f"{parts} merged datasets, {gaps}, {n} features, {m} samples, shown before {shown}, at most {limit}"
    if not ctx.case("merged", what):
        return
    with ctx.guard("plots of merged data"), core.quiet(), core.scratch() as d:
        dhm = core.esat("esat.data.datahandler")
        frames = [data(("days", "third", "hours")[i % 3], m + i, n, (gaps + i) % 3, i) for i in range(parts)]
        dhs = [handler(V, U, "file", d, limit) for V, U in frames]
        held = [(dh.input_data.copy(), dh.uncertainty_data.copy(), dh.metrics.copy()) for dh in dhs]
        if shown:
            for dh, (V, U) in zip(dhs, frames):
                figure(ctx, dh, "plot_data_uncertainty", {}, f"{what}: uncertainties of a part")
                figure(ctx, dh, "plot_superimposed_histograms", {}, f"{what}: histograms of a part")
        cats = {c: ("weak", "bad", "strong")[j % 3] for j, c in enumerate(frames[0][0].columns)}
        for c, k in cats.items():
            dhs[0].set_category(c, k)
        ctx.expect(dhs[0].merge(dhs[1:], [f"part {i}" for i in range(1, parts)]), f"{what}: merge refused")
        labels = list(frames[0][0].columns)
        V, U = (pd.DataFrame(x[labels].to_numpy(float), columns=labels) for x in (dhs[0].input_data, dhs[0].uncertainty_data))
        rows = lambda x: sorted(map(repr, np.round(np.nan_to_num(np.concatenate([np.asarray(y[labels], float) for y in x]), nan=-1), 8).tolist()))
        ctx.expect(rows([V]) == rows([f[0] for f in frames]) and rows([U]) == rows([f[1] for f in frames]), f"{what}: samples of the merged dataset")
        if len(V) <= limit:
            check(ctx, dhs[0], V, U, what, timed=False)
        else:
            for j, t in enumerate(figure(ctx, dhs[0], "plot_data_uncertainty", {}, f"{what}: uncertainties").data):
                want = quantile_bins(V.values[:, j], U.values[:, j], limit)
                x, y = lib.arr(t.x), lib.arr(t.y)
                ctx.expect(same(x[~np.isnan(x)], want[:, 0], 1e-9) and same(y[~np.isnan(x)], want[:, 1], 1e-9), f"{what}: aggregated uncertainties of feature {j}")
        M = dhs[0].metrics
        for j, c in enumerate(labels):
            v, u = V[c].to_numpy(), U[c].to_numpy()
            with np.errstate(all="ignore"):
                sn = np.nansum(np.where(v > u, (v - u) / u, 0.0)) / len(v)
            ok = np.isnan(u) & ~np.isnan(v)
            ctx.expect(M.loc[c, "Category"] == cats[c], f"{what}: category of {c}")
            if not ok.any():
                ctx.expect(abs(M.loc[c, "S/N"] - sn) <= 1e-9 * max(1, sn), f"{what}: signal to noise of {c} {M.loc[c, 'S/N']}, expected {sn}")
            q = np.nanquantile(v, [0, 0.25, 0.5, 0.75, 1])
            ctx.expect(lib.close([M.loc[c, x] for x in ("Min", "25th", "50th", "75th", "Max")], q, 1e-9), f"{what}: quantiles of {c}")
        for dh, h in list(zip(dhs, held))[1:]:
            ctx.expect(dh.input_data.equals(h[0]) and dh.uncertainty_data.equals(h[1]) and dh.metrics.equals(h[2]), f"{what}: a merged part changed")
        ctx.state(("merged", what))


def odd(ctx, job):
    """features without two positive values are left out of the densities"""
    if not ctx.case("odd"):
        return
    with ctx.guard("densities"), core.quiet():
        V, U = data("days", 8, 3, 0, 0)
        V.iloc[:, 1] = [0.0, -1.0, 0.0, -0.5, 0.0, -2.0, 0.0, 0.0]
        dh = handler(V, U, "frame", None)
        fig = figure(ctx, dh, "plot_ridgeline", dict(log_x=True), "densities")
        ctx.expect([t.name for t in fig.data] == [V.columns[0], V.columns[2]] and list(fig.layout.yaxis.ticktext) == [V.columns[0], V.columns[2]],
                   "a feature without positive values is shown on a logarithmic axis")
        A, B, labels = V.values.astype(float), U.values.astype(float), list(V.columns)
        fig = figure(ctx, dh, "plot_superimposed_histograms", {}, "histograms of negative values")
        ctx.expect([t.name for t in fig.data] == labels and all(same(np.sort(lib.arr(t.x)), np.sort(A[:, j])) for j, t in enumerate(fig.data)), "histograms of negative values")
        fig = figure(ctx, dh, "plot_data_uncertainty", dict(include_menu=False), "uncertainties of all features")
        ctx.expect([t.name for t in fig.data] == labels and all(t.visible is not False and same(lib.arr(t.x), A[:, j]) and same(lib.arr(t.y), B[:, j]) for j, t in enumerate(fig.data)),
                   "uncertainties of all features without a menu")
        for a, b in ((0, 1), (1, 2)):
            fig = figure(ctx, dh, "plot_2d_histogram", dict(x_col=labels[a], y_col=labels[b]), "2d histogram of negative values")
            ctx.expect(same(lib.arr(fig.data[0].x), A[:, a]) and same(lib.arr(fig.data[0].y), A[:, b]), "2d histogram of negative values")
            fig = figure(ctx, dh, "plot_feature_data", dict(x_idx=a, y_idx=b), "negative values")
            ctx.expect(same(lib.arr(fig.data[0].x), A[:, a]) and same(lib.arr(fig.data[0].y), A[:, b]), "features with negative values")
        for j in range(-3, 0):
            fig = figure(ctx, dh, "plot_feature_timeseries", dict(feature_selection=j), "time series counted from the end")
            ctx.expect([t.name for t in fig.data] == [labels[j]], "time series of a feature counted from the end")
        ctx.state("odd")


def work(ctx, job):
    {"plots": plots, "aggregated": aggregated, "merged": merged, "odd": odd}[job[0]](ctx, job[1:])


def run(ctx):
    every = list(itertools.product(("days", "hours", "third", "quarter"), (0, 1, 2), (2, 3, 4), ("frame", "file"), (9, 12)))
    jobs = [("plots",) + j for i, j in enumerate(every) if ctx.thorough or i % 6 == (i // 24) % 6]
    jobs += [("aggregated", m, l, g, k) for m, l in ((9, 9), (9, 8), (12, 5), (14, 3), (24, 10), (40, 20)) for g in (0, 1, 2) for k in ("days", "third")]
    jobs += [("merged", g, n, m, p, s, l) for g in (0, 1, 2) for n in (2, 3) for m in (8, 11) for p in (2, 3) for s in (False, True) for l in (10000, 15, 10)]
    jobs += [("odd",)]
    core.shards(ctx, work, jobs)
