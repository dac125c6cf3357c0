"""C37 figures of the evaluation tools"""
import itertools
import numpy as np
import pandas as pd
import core, lib, sched, c01, c02, c24, c25, c27, c28
from c33 import same, strs
from c34 import show
from c35 import title, alike

PROPERTY = {
    "title": "Evaluation figures show the models, factors and features they name",
    "statement": "The figures of the simulator show the synthetic contributions, and for the selected model of the last compared batch (the best mapped one when none is selected) every pair of mapped factors with the profiles, contributions, their differences and the agreement of that pair. The perturbation figures show the base model and the matched factors of all perturbed models of the last comparison: mean contributions, the spread of contributions, agreement and profiles of each factor. The figure of the factor estimation shows the table of the last search at its factor counts, the estimate and the known count. The comparison of two algorithms with PMF5 shows every factor next to those it is mapped to, and sums, daily means and residuals over all factors of each model. Nothing is shown before there is something to show, and showing changes nothing.",
    "quantifier": {"over": ["inputs", "configurations", "histories"],
                   "text": "all models, factors, features, mappings and sequences of comparisons and searches"},
    "why_tests_cant": "No test looks at a figure; a pair of factors that are not mapped to each other is as plausible as one that is.",
    "anchors": {"files": ["eval/simulator.py", "eval/perturbation.py", "esat/estimator.py", "esat/data/test_tools.py"],
                "mechanism": [{"name": "plot_synthetic_contributions, plot_comparison, plot_profile_comparison", "where": "Simulator"},
                              {"name": "plot_*", "where": "Perturbation"}, {"name": "plot", "where": "FactorEstimator"},
                              {"name": "CompareAnalyzer", "where": "esat/data/test_tools.py"}],
                "observe_at": ["figures shown and returned"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one figure of one object; distinct by object, figure and arguments; non-trivial: a figure was shown",
        "bounds": {"quick": "simulators with 1-3 factors compared with batches whose models are every permutation of the synthetic factors or have other factor counts (1-3), each batch compared after another one; perturbed models that are every permutation of 1-3 factors, all pairs of methods compared one after the other; all sequences of up to 2 searches over 6 ranges of factor counts x 4 known counts; every pair of mappings of 1-3 factors (and 7 factors) x all factors x features, with samples and cells left out",
                   "thorough": "4 factors; sequences of 3 searches"},
        "assumptions": ["no constant factors (no correlation)"]}


def pct(x, axis):
    x = np.asarray(x, float)
    return 100 * x / x.sum(axis=axis, keepdims=True)


def trace(ctx, t, x, y, where, rel=1e-5, abs_=1e-6):
    when = len(x) and isinstance(x[0], pd.Timestamp)
    ok = (strs([pd.Timestamp(v) for v in t.x]) if when else strs(t.x)) == strs(x) and same(lib.arr(t.y), y, abs_, rel)
    ctx.expect(ok, where, lambda: {"got": [list(t.x), list(t.y)], "want": [list(x), list(y)]})


# ---------------------------------------------------------------------------------------------------------------
def sim_figures(ctx, s, batch, g, expected, what):
    k, H, W = s.factors_n, np.asarray(s.syn_profiles, float), np.asarray(s.syn_contributions, float)
    feats, times = list(s.syn_columns), list(s.syn_data_df.index)
    for i in (None,) + tuple(range(len(batch.results))):
        mi = g.best_model if i is None else i
        m = batch.results[mi]
        h, w = np.asarray(m.H, float), np.asarray(m.W, float)
        res = g.model_results[mi]
        maps = [int(str(x).split(" ")[1]) - 1 for x in res["factor_map"]]
        pairs = c25.pairs(maps, g.base_k)
        if expected.get(mi) is not None:
            ctx.expect(sorted(pairs) == sorted(expected[mi]), f"{what}, model {mi}: map {pairs}, not {expected[mi]}")
        n = min(k, h.shape[0])
        a, b, c, d = pct(H, 0), pct(h, 0), pct(W, 0), pct(w, 0)
        arg = () if i is None else (i,)
        for call in (s.plot_comparison, s.plot_profile_comparison):
            ctx.step()
            figs, _ = show(call, *arg)
            where = f"{what}, {call.__name__}{arg}"
            if not ctx.expect(len(figs) == n == len(pairs), f"{where}: {len(figs)} figures for {n} pairs"):
                continue
            ctx.outcome(where)
            for fig, (p, q) in zip(figs, pairs):
                names = [t.text for t in fig.layout.annotations]
                at = f"{where}, synthetic factor {p+1} and model factor {q+1}"
                first = f"Modelled Factor {q+1} : Synthetic Factor {p+1}" if g.base_k else f"Synthetic Factor {p+1} : Modelled Factor {q+1}"
                ctx.expect(title(fig).endswith(f"Model: {mi + 1}"), f"{at}: title {title(fig)}")
                axes = {}
                for t in fig.data:
                    axes.setdefault(t.yaxis or "y", []).append(t)
                if call == s.plot_comparison:
                    r, rw = c25.r2(H[p], h[q]), c25.r2(W[:, p], w[:, q])
                    ctx.expect(len(names) == 2 and all(x.startswith(first + " - R2: ") for x in names), f"{at}: {names}")
                    ctx.expect(all(abs(float(x.split("R2: ")[1]) - v) < 6e-5 for x, v in zip(names, (r, rw))), f"{at}: {names}, agreement {r}, {rw}")
                    if not ctx.expect([len(axes.get(y, [])) for y in ("y", "y2", "y3", "y4")] == [2, 2, 1, 1], f"{at}: traces"):
                        continue
                    trace(ctx, axes["y"][0], feats, a[p], f"{at}: synthetic profile")
                    trace(ctx, axes["y"][1], feats, b[q], f"{at}: model profile")
                    trace(ctx, axes["y3"][0], feats, a[p] - b[q], f"{at}: difference of the profiles", abs_=1e-4)
                    trace(ctx, axes["y2"][0], times, c[:, p], f"{at}: synthetic contributions")
                    trace(ctx, axes["y2"][1], times, d[:, q], f"{at}: model contributions")
                    trace(ctx, axes["y4"][0], times, c[:, p] - d[:, q], f"{at}: difference of the contributions", abs_=1e-4)
                    both = (("y", ("Synthetic Profile f%d", "Modelled Profile f%d")), ("y2", ("Synthetic Contribution f%d", "Model Contribution f%d")))
                else:
                    left = np.abs(a[p] - b[q]).sum()
                    ctx.expect(len(names) == 1 and names[0].startswith(first + " - Residual: ") and abs(float(names[0].split("Residual: ")[1]) - left) < 6e-3 + 1e-5 * left,
                               f"{at}: {names}, residual {left}")
                    if not ctx.expect([len(axes.get(y, [])) for y in ("y", "y2", "y3")] == [2, 1, 1], f"{at}: traces"):
                        continue
                    trace(ctx, axes["y"][0], feats, a[p], f"{at}: synthetic profile")
                    trace(ctx, axes["y"][1], feats, b[q], f"{at}: model profile")
                    trace(ctx, axes["y3"][0], feats, a[p] - b[q], f"{at}: difference of the profiles", abs_=1e-4)
                    t = axes["y2"][0]
                    r = c25.r2(H[p], h[q])
                    ctx.expect(t.orientation == "h" and same(lib.arr(t.x), [r], 1e-6, 1e-6), f"{at}: agreement {t.x}, not {r}")
                    both = (("y", ("Syn Factor %d", "Modelled Factor %d")),)
                for y, (x1, x2) in both:
                    ctx.expect([t.name for t in axes[y]] == [x1 % (p + 1), x2 % (q + 1)], f"{at}: names {[t.name for t in axes[y]]}")
    # contributions
    figs, _ = show(s.plot_synthetic_contributions)
    if ctx.expect(len(figs) == 1 and len(figs[0].data) == k, f"{what}: synthetic contributions"):
        for i, t in enumerate(figs[0].data):
            ctx.expect(t.name == f"Factor {i+1}", f"{what}: name {t.name} of contribution {i}")
            trace(ctx, t, list(s.time_steps), W[:, i], f"{what}: synthetic contribution {i}")


def simulated(ctx, k, group):
    """group: models as permutations of the synthetic factors or (factor count, number)"""
    if not ctx.case("simulated", k, group):
        return
    mod = core.esat("esat_eval.simulator")
    with ctx.guard("figures of the simulator"), core.quiet():
        s = c27.make(mod, next(x for x in range(1, 99) if np.all(c27.make(mod, x, k, 4, 7).syn_profiles.std(axis=1) > 0.01)), k, 4, 7)
        for call in (s.plot_comparison, s.plot_profile_comparison):
            ctx.expect(not show(call)[0], "a comparison is shown before there is one")
        s.get_data()

        def batch(spec):
            models = []
            for j, x in enumerate(spec):
                H, W = c25.family(x[0] if x[0] == "n" else len(x), 7, 4, 3 + j) if x[0] != "n" else c25.family(x[1], 7, 4, x[2])
                if x[0] != "n":
                    e = 0.01 * (1 + (j * 2 + len(spec)) % 3)
                    H = (np.asarray(s.syn_profiles) + e * H)[list(x)]
                    W = (np.asarray(s.syn_contributions) * 3 + e * W)[:, list(x)]
                models.append(c25.make_sa(H, W))
            for i, m in enumerate(models):
                m.Qtrue = m.Qrobust = 10.0 + (i * 7) % 3
            b = c25.make_batch(models, len(models[0].H))
            b.best_model = len(models) - 1
            return b
        for n, spec in enumerate((group, group[::-1])):
            b = batch(spec)
            keep = [s.syn_profiles.copy(), s.syn_contributions.copy(), s.syn_data.copy()] + [np.array(x) for m in b.results for x in (m.H, m.W)]
            s.compare(b)
            expected = {i: [(f, x.index(f)) for f in range(k)] for i, x in enumerate(spec) if x[0] != "n"}
            sim_figures(ctx, s, b, s.factor_compare, expected, f"comparison {n + 1}")
            s.compare(b, selected_model=0)
            sim_figures(ctx, s, b, s.factor_compare, expected, f"comparison {n + 1} with selected model")
            now = [s.syn_profiles, s.syn_contributions, s.syn_data] + [np.array(x) for m in b.results for x in (m.H, m.W)]
            ctx.expect(all(lib.same(x, y) for x, y in zip(keep, now)), "the figures changed what they show")
        ctx.state((k, group))


# ---------------------------------------------------------------------------------------------------------------
def perturbed(ctx, k, perms, methods):
    if not ctx.case("perturbed", k, perms, methods):
        return
    with ctx.guard("figures of the perturbation"), core.quiet(), core.NoRustLeft():
        H, W = c25.family(k, 6, 4, 2)
        b = c25.make_sa(H, W)
        p = c28.make(k, b, models=len(perms))
        calls = [(p.plot_norm_perturb_contributions, ()), (p.plot_average_source_contributions, ()), (p.plot_correlation_metrics, ())] \
            + [(p.plot_perturbed_factor, (i,)) for i in range(k)]
        for call, a in calls:
            ctx.expect(not show(call, *a)[0] and call(*a, return_figure=True) is None, f"{call.__name__} shows a comparison before there is one")
        p.perturbed_models = []
        for i, q in enumerate(perms):
            bump = 1 + 0.02 * ((np.arange(k)[:, None] * 3 + np.arange(4) * (i + 1)) % 5)
            bw = 1 + 0.02 * ((np.arange(6)[:, None] * (i + 2) + np.arange(k) * 5) % 7)
            p.perturbed_models.append(c25.make_sa((H * bump)[list(q)], (W * bw)[:, list(q)]))
        p.perturbed_multipliers = [1.0 + 0.1 * i + 0.01 * np.arange(24).reshape(6, 4) for i in range(len(perms))]
        fmod = core.esat("esat_eval.factor_comparison")
        for cm in methods:
            p.compare(cm)
            maps, vals = fmod.FactorCompareV2(b, p.perturbed_models).determine_map(cm)
            h0 = np.asarray(b.H, float) / np.asarray(b.H, float).sum(axis=0)
            w0 = np.asarray(b.W, float) / np.asarray(b.W, float).sum(axis=1, keepdims=True)
            hs, ws = [], []
            for i, m in enumerate(p.perturbed_models):
                q = [int(x) for x in maps[i]]
                ctx.expect(q == [perms[i].index(f) for f in range(k)], f"{cm}: mapping of model {i}")
                hs.append((np.asarray(m.H, float) / np.asarray(m.H, float).sum(axis=0))[q])
                ws.append((np.asarray(m.W, float) / np.asarray(m.W, float).sum(axis=1, keepdims=True))[:, q])
            labels = [f"Factor {i+1}" for i in range(k)]
            for call, a in calls:
                ctx.step()
                where = f"{cm}: {call.__name__}{a}"
                figs, _ = show(call, *a)
                with lib.shown() as none:
                    fig = call(*a, return_figure=True)
                if not ctx.expect(len(figs) == 1 and not none and fig is not None and alike(fig, figs[0]), f"{where}: the figure shown differs from the one returned"):
                    continue
                ctx.outcome(where)
                tr = list(fig.data)
                if call == p.plot_norm_perturb_contributions:
                    if ctx.expect([t.name for t in tr] == ["Perturbed W", "Base W"], f"{where}: traces"):
                        trace(ctx, tr[0], labels, 100 * np.mean([w.mean(axis=0) for w in ws], axis=0), f"{where}: perturbed contributions")
                        trace(ctx, tr[1], labels, 100 * w0.mean(axis=0), f"{where}: base contributions")
                elif call == p.plot_correlation_metrics:
                    v = np.array([list(vals[i]) for i in range(len(perms))], float)
                    if ctx.expect([t.name for t in tr] == labels, f"{where}: traces"):
                        for i, t in enumerate(tr):
                            ctx.expect(same(lib.arr(t.y), v[:, i]), f"{where}: agreement of factor {i}", lambda: {"got": t.y, "want": v[:, i]})
                    y = [x.y0 for x in fig.layout.shapes]
                    ctx.expect(len(y) == 1 and abs(y[0] - v.mean()) < 1e-9, f"{where}: mean {y}, not {v.mean()}")
                    ctx.expect(fig.layout.yaxis.title.text == cm.upper(), f"{where}: axis {fig.layout.yaxis.title.text}")
                else:
                    factor = call == p.plot_perturbed_factor
                    names = [f"Feature {j+1}" for j in range(4)] if factor else labels
                    if not ctx.expect([t.name for t in tr] == names + ["Base"], f"{where}: traces"):
                        continue
                    for j, t in enumerate(tr[:-1]):
                        want = [h[a[0], j] for h in hs] if factor else [w[:, j].mean() for w in ws]
                        ctx.expect(same(lib.arr(t.y), want, 1e-6), f"{where}: {t.name}", lambda: {"got": t.y, "want": want})
                    trace(ctx, tr[-1], names, h0[a[0]] if factor else w0.mean(axis=0), f"{where}: base")
                    if factor:
                        ctx.expect(f"Factor {a[0]}" in title(fig), f"{where}: title {title(fig)}")
            ctx.expect(not show(p.plot_perturbed_factor, k)[0], "a factor that does not exist is shown")
        ctx.expect(lib.close(b.H, H, 1e-6) and lib.close(b.W, W, 1e-6), "the base model changed")
        ctx.state((k, perms, methods))


# ---------------------------------------------------------------------------------------------------------------
def searches(ctx, seq):
    if not ctx.case("search", seq):
        return
    mod = core.esat("esat.estimator")
    V, U = c24.data()
    with ctx.guard("figure of the factor estimation"), core.quiet():
        est = mod.FactorEstimator(V=V, U=U, seed=3, test_percent=0.3)
        for lo, hi in seq:
            with sched.controlled(lambda k, call: range(k)):
                df = est.run(samples=3 * (hi - lo + 1), min_factors=lo, max_factors=hi, max_iterations=4, converge_delta=1.0, converge_n=3)
            keep = df.copy()
            K = list(range(lo, hi + 1))
            for actual in (None, 1, 3, hi):
                ctx.step()
                where = f"figure of the search {lo}-{hi}, known count {actual}"
                figs, _ = show(est.plot, **({} if actual is None else {"actual_count": actual}))
                if not ctx.expect(len(figs) == 1, f"{where}: {len(figs)} figures"):
                    continue
                ctx.outcome(where)
                tr = {t.name: t for t in figs[0].data}
                for name, col in (("Train MSE", 0), ("Test MSE", 0), ("Delta MSE", 0), ("Ratio Delta", "Delta Ratio"), ("K Estimate", 0), ("Q(True)", 0)):
                    if ctx.expect(name in tr, f"{where}: no {name}"):
                        trace(ctx, tr[name], K, np.asarray(keep[col or name], float), f"{where}: {name}")
                axis = {n: t.yaxis or "y" for n, t in tr.items()}
                ctx.expect(axis.get("Q(True)") == "y2" and set(v for n, v in axis.items() if n != "Q(True)") == {"y"}, f"{where}: axes {axis}")
                lines = {x.line.color: x.x0 for x in figs[0].layout.shapes}
                want = {"red": est.estimated_factor}
                if actual:
                    want["black"] = actual
                ctx.expect(lines == want, f"{where}: lines {lines}, not {want}")
                best = K[int(np.nanargmax(keep["K Estimate"]))]
                ctx.expect(est.estimated_factor == best, f"{where}: estimate {est.estimated_factor}, not {best}")
            ctx.expect(est.results_df.equals(keep), "the figure changed the table")
        ctx.state(seq)


# ---------------------------------------------------------------------------------------------------------------
def compared(ctx, k, ls_map, ws_map, listed):
    if not ctx.case("compared", k, ls_map, ws_map, listed):
        return
    mod = core.esat("esat.data.test_tools")
    with ctx.guard("figures of the comparison"), core.quiet():
        n, m = 3, 9
        feats = [f"sp{j}" for j in range(n)]
        i = pd.date_range("2022-02-27 18:00", periods=m + 4, freq="7h")
        i = i[[t for t in range(m + 4) if t not in (2, 5, 6, 7)]]
        cols = [f"Factor {f+1}" for f in range(k)]
        mats = {}
        for c, (name, mp) in enumerate((("PMF", range(k)), ("LS", ls_map), ("WS", ws_map))):
            H, W = c25.family(k, m, n, 2)
            H, W = H * (1 + 0.1 * c * np.arange(n)), W * (1 + 0.05 * c)
            H2, W2 = np.zeros_like(H), np.zeros_like(W)
            for f, g in enumerate(mp):
                H2[g], W2[:, g] = H[f], W[:, f]
            mats[name] = (H2, W2, list(mp))
        data = pd.DataFrame(mats["PMF"][1] @ mats["PMF"][0] + 0.3, columns=feats, index=i)
        data.iloc[3, 1] = np.nan
        prof = {x: pd.DataFrame(h.T, columns=cols).assign(species=feats) for x, (h, w, _) in mats.items()}
        cont = {x: pd.DataFrame(w, columns=cols).assign(Date=i) for x, (h, w, _) in mats.items()}
        keep = {x: (prof[x].copy(), cont[x].copy()) for x in mats}
        d0 = data.copy()
        a = mod.CompareAnalyzer(data, prof["PMF"], cont["PMF"], prof["LS"], prof["WS"], [f"Factor {g+1}" for g in ls_map], [f"Factor {g+1}" for g in ws_map],
                                cont["LS"], cont["WS"], feats if listed else np.array(feats), i if listed else i.strftime("%m/%d/%y %H:%M"))
        if listed:
            try:
                show(a.plot_factor_contribution, feature=feats[0])
            except Exception as e:
                ctx.fail(f"feature names given as a list: {type(e).__name__} {e}", tag="compare-feature-list")
                a.features = np.array(feats)
        share = {x: h / h.sum(axis=0) for x, (h, w, _) in mats.items()}
        order = ("PMF", "LS", "WS")

        def figures(n_figs, call, *args, **kw):
            ctx.step()
            figs, _ = show(call, *args, **kw)
            where = f"{call.__name__} {args} {kw}"
            ctx.outcome(where)
            return (figs if ctx.expect(len(figs) == n_figs, f"{where}: {len(figs)} figures") else []), where
        by = [(dict(feature=f), j) for j, f in enumerate(feats)] + [(dict(feature_i=j), j) for j in range(n)]
        for kw, j in by:
            figs, where = figures(1, a.plot_factor_contribution, **kw)
            for f in figs:
                ctx.expect(feats[j] in title(f), f"{where}: title {title(f)}")
                for t, x in zip(f.data, order):
                    ctx.expect(t.name.startswith(x) and list(t.labels) == cols and same(lib.arr(t["values"]), share[x][:, j]), f"{where}: shares of {x}", lambda: {"got": t["values"], "want": share[x][:, j]})
            figs, where = figures(1, a.timeseries_plot, **kw)
            for f in figs:
                tr = {t.name: t for t in f.data}
                for x in order + ("Input",):
                    y = data[feats[j]].values if x == "Input" else (mats[x][1] @ mats[x][0])[:, j]
                    days = sorted({t.normalize() for t in i})
                    want = {}
                    for d in days:
                        v = [q for t, q in zip(i, y) if t.normalize() == d and not np.isnan(q)]
                        want[d] = np.mean(v) if v else np.nan
                    t = tr.get(f"{x} - {feats[j]}")
                    got = {} if t is None else dict(zip([pd.Timestamp(q) for q in t.x], lib.arr(t.y)))
                    ctx.expect(set(days) <= set(got) and same([got[d] for d in days], [want[d] for d in days]) and all(np.isnan(v) for d, v in got.items() if d not in want),
                               f"{where}: daily means of {x}", lambda: {"got": got, "want": want})
                ctx.expect(feats[j] in title(f), f"{where}: title {title(f)}")
            for norm, th in itertools.product((False, True), (3.0, 0.31, 0.0)):
                figs, where = figures(1, a.feature_histogram, **kw, normalized=norm, threshold=th)
                for f in figs:
                    res = {x: data[feats[j]].values - (mats[x][1] @ mats[x][0])[:, j] for x in order}
                    hist = [t for t in f.data if t.type == "histogram"]
                    for t, x in zip(hist, order):
                        ctx.expect(t.name.startswith(x) and same(lib.arr(t.x), res[x], 1e-9) and (t.histnorm == "probability") == norm, f"{where}: residuals of {x}")
                    cells = [t for t in f.data if t.type == "table"][0].cells["values"]
                    for cell, x in zip(cells[1:], order):
                        r = res[x][~np.isnan(res[x])]
                        near = np.sum(np.abs(np.abs(r) - th) < 1e-6)
                        c = float(cell[3])
                        ctx.expect(same([float(v) for v in cell[:3]], [r.min(), r.mean(), r.max()], 1e-9) and np.sum(np.abs(r) > th + 1e-6) <= c <= np.sum(np.abs(r) > th + 1e-6) + near,
                                   f"{where}: statistics of {x}: {list(cell)}")
                    ctx.expect(feats[j] in title(f), f"{where}: title {title(f)}")
        for r2s in ((-1, -1), (0.51234, -1), (0.3, 0.87654)):
            figs, where = figures(3, a.plot_fingerprints, *r2s)
            for f, x, r in zip(figs, order, (-1,) + r2s):
                mp = mats[x][2]
                ctx.expect(f.layout.barmode == "stack" and title(f).startswith(x) and ("R2" in title(f)) == (r > 0) and (r <= 0 or str(round(r, 3)) in title(f)), f"{where}: title {title(f)}")
                for t, b in zip(f.data, reversed(range(k))):
                    ctx.expect(t.name == f"Factor {mp[b]+1}", f"{where}: {x} {t.name} for factor {b+1}")
                    trace(ctx, t, feats, 100 * share[x][mp[b]], f"{where}: {x} factor {b+1}")
                ctx.expect(len(f.data) == k, f"{where}: {len(f.data)} factors")
        try:
            figs, where = figures(1, a.plot_factors)
        except Exception as e:
            figs = []
            ctx.fail(f"figure of {k} factors: {type(e).__name__} {e}", tag="compare-factors-above-6" if k > 6 else None)
        for f in figs:
            ctx.expect(len(f.data) == 3 * k, f"{where}: {len(f.data)} traces")
            for b in range(k):
                for t, x in zip(f.data[3 * b:3 * b + 3], ("PMF", "WS", "LS")):
                    g = mats[x][2][b]
                    ctx.expect(t.name.startswith(x) and t.name.endswith(f"Factor {g+1}") and (t.yaxis or "y") == ("y" if b == 0 else f"y{b+1}"), f"{where}: {t.name} in the row of factor {b+1}")
                    trace(ctx, t, feats, share[x][g], f"{where}: {x} factor {b+1}")
        for b in range(k):
            for sel, js in [(j, [j]) for j in range(n)] + [("all", list(range(n))), ([2, 0], [2, 0])]:
                for inp in (True, False):
                    figs, where = figures(len(js), a.plot_feature_timeseries, b, sel, inp)
                    for f, j in zip(figs, js):
                        tr = {t.name.split(" - ")[0]: t for t in f.data}
                        ctx.expect(set(tr) == set(order) | ({"Input"} if inp else set()), f"{where}: traces {list(tr)}")
                        for x in order:
                            g = mats[x][2][b]
                            ctx.expect(same(lib.arr(tr[x].y), mats[x][1][:, g] * mats[x][0][g, j]), f"{where}: {x} of factor {b+1} in feature {j}")
                        ctx.expect(not inp or same(lib.arr(tr["Input"].y), data[feats[j]].values), f"{where}: input of feature {j}")
                        ctx.expect(f"Factor {b+1} " in title(f) and title(f).endswith(feats[j]) and all(t.name.endswith(feats[j]) for t in f.data), f"{where}: title {title(f)}")
        ctx.expect(data.equals(d0) and all(prof[x].equals(keep[x][0]) and cont[x].equals(keep[x][1]) for x in mats), "the figures changed the data")
        ctx.state((k, ls_map, ws_map, listed))


RANGES = ((1, 2), (2, 3), (1, 4), (2, 4), (3, 4))


def work(ctx, job):
    t = ctx.thorough
    kind, k = job
    perms = list(itertools.permutations(range(k))) if kind != "search" else None
    if kind == "simulated":
        groups = [(p,) for p in perms] + list(itertools.product(perms, repeat=2))
        groups += [(p, ("n", c, 5)) for p in perms for c in (1, 2, 3) if c == k]
        groups += [(("n", c, 4),) * 1 for c in (1, 2, 3)] + [(("n", c, 4), ("n", c, 6)) for c in (1, 2, 3)]
        if k > 3:
            groups = groups[:24]
        for g in groups:
            simulated(ctx, k, g)
    elif kind == "perturbed":
        ms = list(itertools.permutations(("raae", "emc", "corr"), 2))
        for n in (1, 2, 3):
            for i, g in enumerate(itertools.product(perms, repeat=n)):
                if len(perms) ** n <= (600 if t else 40) or i % 7 == 0 and t:
                    perturbed(ctx, k, g, ms[i % len(ms)])
    elif kind == "search":
        for n in range(0, 3 if t else 2):
            for rest in itertools.product(RANGES, repeat=n):
                searches(ctx, (k,) + rest)
    else:
        for listed in (False, True):
            if k > 4:
                compared(ctx, k, tuple(range(k)), tuple(reversed(range(k))), listed)
                compared(ctx, k, tuple((f + 2) % k for f in range(k)), tuple(range(k)), listed)
            else:
                for x, y in itertools.product(perms, repeat=2):
                    compared(ctx, k, x, y, listed)


def run(ctx):
    t = ctx.thorough
    jobs = [(kind, k) for k in (3, 2, 1) for kind in ("simulated", "perturbed", "compared")] + [("compared", 7), ("compared", 6)] + [("search", r) for r in RANGES]
    if t:
        jobs += [("simulated", 4), ("perturbed", 4), ("compared", 4)]
    core.shards(ctx, work, jobs)
