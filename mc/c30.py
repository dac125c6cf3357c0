"""C30 feature metrics and residual statistics of a model"""
import itertools
import math
import numpy as np
import core, lib

PROPERTY = {
    "title": "Model statistics are computed from the final estimate, per feature",
    "statement": "The feature metrics of a model analysis hold, for each feature in the order of the data, the mean and variance of the input and of the estimate and the root mean squared difference of the two, rounded to four digits. The residual statistics hold per feature its category, slope, intercept, their standard errors and r2 of the regression of the estimate on the input, the standard error of the residuals and of the regression, and the Anderson, Shapiro and Kolmogorov-Smirnov tests of the residuals divided by the uncertainty the model was trained with (weak features included). An estimate passed by the caller replaces that of the model in every column, missing samples and excluded features take no part, and neither the data nor the model is modified.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "all datasets, categories, missing samples, models and passed estimates"},
    "why_tests_cant": "The analysis test draws plots of one model with strong features only and checks no number.",
    "anchors": {"files": ["esat/data/analysis.py"],
                "mechanism": [{"name": "features_metrics", "where": "ModelAnalysis"}, {"name": "calculate_statistics", "where": "ModelAnalysis"}],
                "observe_at": ["ModelAnalysis.residual_metrics", "ModelAnalysis.statistics"]},
}
SPEC = {"level": "exploration",
        "rule": "every combination of dataset size, number of factors, method, category assignment (one of strong, weak, bad for each of 3 features, at least one left), missing pattern, passed estimate or none; non-trivial: distinct combinations",
        "bounds": {"quick": "2 sizes x 2 methods x 26 category assignments x 3 missing patterns x 4 estimates", "thorough": "4 sizes, 3 factor numbers, 6 missing patterns"},
        "assumptions": ["at least eight complete samples", "p values of the Shapiro test are those of the installed scipy for the expected residuals"]}


def frames(m, k):
    import pandas as pd
    i, j = np.arange(m)[:, None], np.arange(3)[None, :]
    V = 4 + 2 * np.sin((1.3 + 0.4 * k) * i + 2.1 * j) + 0.3 * ((i * (3 + j) + k) % 5) + 1.0 * j
    U = 0.2 + 0.05 * V + 0.1 * ((i + j) % 3)
    if k % 2:
        V[2, 0] = V[6, 1] = 0.0
    idx = pd.date_range("2020-02-25", periods=m, freq="D")
    return pd.DataFrame(V, columns=["x", "y", "z"], index=idx), pd.DataFrame(U, columns=["x", "y", "z"], index=idx)


def line(x, y):
    n = len(x)
    mx, my = x.mean(), y.mean()
    sxx, sxy, syy = ((x - mx) ** 2).sum(), ((x - mx) * (y - my)).sum(), ((y - my) ** 2).sum()
    slope = sxy / sxx
    r = sxy / math.sqrt(sxx * syy)
    se = math.sqrt(max((1 - r * r) * syy / sxx / (n - 2), 0))
    return slope, my - slope * mx, r, se, se * math.sqrt((x * x).sum() / n)


def anderson(x):
    from scipy.stats import norm
    x = np.sort(x)
    n = len(x)
    w = (x - x.mean()) / x.std(ddof=1)
    i = np.arange(1, n + 1)
    return -n - ((2 * i - 1) / n * (norm.logcdf(w) + norm.logsf(w)[::-1])).sum()


def ks(x):
    from scipy.stats import norm
    x = np.sort(x)
    n = len(x)
    c = norm.cdf((x - x.mean()) / x.std(ddof=1))
    return max((np.arange(1, n + 1) / n - c).max(), (c - np.arange(n) / n).max())


def check_metrics(ctx, df, names, V, E):
    ctx.expect(list(df["Feature"]) == names, f"features {list(df['Feature'])}")
    for c, want in (("Input Mean", V.mean(axis=0)), ("Input Var", V.var(axis=0)), ("Est Mean", E.mean(axis=0)),
                    ("Est Var", E.var(axis=0)), ("RMSE", np.sqrt(((V - E) ** 2).mean(axis=0)))):
        got = np.asarray(df[c], float)
        ctx.expect(np.all(np.abs(got - want) <= 6e-5 + 2e-5 * np.abs(want)), f"{c}: {got}, expected {want}")
        ctx.expect(np.all(np.abs(got - np.round(got, 4)) < 1e-9), f"{c} is not rounded to four digits")


def check_stats(ctx, df, names, cats, V, U, E):
    from scipy import stats
    ctx.expect(list(df["Features"]) == names, f"features {list(df['Features'])}")
    ctx.expect(list(df["Category"]) == cats, f"categories {list(df['Category'])}, expected {cats}")
    crit = np.array([0.576, 0.656, 0.787, 0.918, 1.092])
    n = V.shape[0]
    for f in range(len(names)):
        row = df.iloc[f]
        v, e = V[:, f], E[:, f]
        slope, icpt, r, se, ise = line(v, e)
        res = v - e
        s = res / U[:, f]
        if min(res.std(), e.std()) < 1e-3 * np.abs(v).max():        # nothing but rounding is left
            continue
        want = {"r2": r * r, "Slope": slope, "Intercept": icpt, "Slope SE": se, "Intercept SE": ise, "SE": res.std() / math.sqrt(n),
                "SE Regression": math.sqrt(max(1 - r * r, 0)) * e.std(), "Anderson Statistic": anderson(s), "KS Statistic": ks(s),
                "KS PValue": float(stats.kstwo.sf(ks(s), n)), "Shapiro PValue": float(stats.shapiro(s)[1])}
        for c, w in want.items():
            got = float(row[c])
            ctx.expect(abs(got - w) <= 2e-3 * abs(w) + 2e-4 * max(1, abs(icpt)) or (c == "SE Regression" and abs(r) > 0.99999),
                       f"{c} of {names[f]}: {got}, expected {w}")
        for col, p in (("Shapiro Normal Residuals", want["Shapiro PValue"]), ("KS Normal Residuals", want["KS PValue"])):
            if abs(p - 0.05) > 1e-3:
                ctx.expect(row[col] == ("Yes" if p >= 0.05 else "No"), f"{col} of {names[f]}: {row[col]} for p = {p}")
        a = stats.anderson(s, dist="norm")
        if np.abs(a.critical_values - a.statistic).min() > 1e-2:
            over = [str(float(l)) for c, l in zip(a.critical_values, a.significance_level) if a.statistic < c]
            got = str(row["Anderson Normal Residual"])
            ctx.expect(got == (over[0] if over else "No"), f"Anderson level of {names[f]}: {got}, expected {over[:1]}")


MISSING = [[], [("V", 3, "x")], [("U", 5, "y"), ("V", 0, "z")], [("V", 1, "x"), ("V", 1, "y"), ("V", 1, "z")], [("U", 2, "z"), ("V", 9, "x")], [("V", 7, "y")]]


def work(ctx, job):
    m, method, f, k = job
    dhm, an = core.esat("esat.data.datahandler"), core.esat("esat.data.analysis")
    for cats in itertools.product(("strong", "weak", "bad"), repeat=3):
        if all(c == "bad" for c in cats):
            continue
        for mi, miss in enumerate(MISSING[:6 if ctx.thorough else 3]):
            with core.quiet():
                V, U = frames(m, k)
                for w, r, c in miss:
                    (V if w == "V" else U).iloc[r, "xyz".index(c)] = np.nan
                dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
                for n, c in zip("xyz", cats):
                    if c != "strong":
                        dh.set_category(n, c)
                gv, gu = dh.get_data()
                sa = lib.SA(gv, gu, f, method=method, seed=3)
                sa.initialize()
                sa.train(max_iter=4, converge_delta=1e-6, converge_n=3)
            names = [n for n, c in zip("xyz", cats) if c != "bad"]
            kinds = [c for c in cats if c != "bad"]
            keep = ~(V[names].isna().any(axis=1) | U[names].isna().any(axis=1))
            v = V.loc[keep, names].to_numpy(float)
            u = U.loc[keep, names].to_numpy(float) * np.array([3.0 if c == "weak" else 1.0 for c in kinds])
            for ei in range(4):
                if not ctx.case(list(job), list(cats), mi, ei):
                    continue
                with ctx.guard("model statistics"), core.quiet():
                    est = [None, np.asarray(sa.WH, float) * 0.5 + 1, v + 0.3 * np.sin(np.arange(v.size).reshape(v.shape)), np.array(np.asarray(sa.WH)[::-1])][ei]
                    E = np.asarray(sa.WH, float) if est is None else np.asarray(est, float)
                    ctx.expect(np.all(np.abs(np.asarray(sa.WH, float) - np.asarray(sa.W, float) @ np.asarray(sa.H, float))
                                      <= 1e-5 * (np.abs(np.asarray(sa.W, float)) @ np.abs(np.asarray(sa.H, float))) + 1e-5), "estimate of the model")
                    snap = [np.array(x) for x in (sa.V, sa.U, sa.W, sa.H, sa.WH, dh.input_data_df, dh.uncertainty_data_df, dh.input_data, dh.uncertainty_data)]
                    e0 = None if est is None else est.copy()
                    a = an.ModelAnalysis(datahandler=dh, model=sa, selected_model=0)
                    r = a.features_metrics() if est is None else a.features_metrics(est_V=est)
                    check_metrics(ctx, r, names, v, E)
                    ctx.expect(r.equals(a.residual_metrics), "residual_metrics is not what features_metrics returned")
                    if est is None:
                        a.calculate_statistics()
                    else:
                        a.calculate_statistics(results=est)
                    check_stats(ctx, a.statistics, names, kinds, v, u, E)
                    now = [np.array(x) for x in (sa.V, sa.U, sa.W, sa.H, sa.WH, dh.input_data_df, dh.uncertainty_data_df, dh.input_data, dh.uncertainty_data)]
                    ctx.expect(all(lib.same(x, y) for x, y in zip(snap, now)) and (est is None or np.array_equal(est, e0)), "an input was modified")
                    ctx.state((job, cats, mi, ei))
                    ctx.outcome(list(a.statistics["Anderson Normal Residual"]) + list(a.statistics["KS Normal Residuals"]))


def run(ctx):
    core.shards(ctx, work, [(m, method, f, k) for k, m in enumerate((12, 31, 10, 60)[:4 if ctx.thorough else 2])
                            for method in ("ls-nmf", "ws-nmf") for f in ((1, 2, 3) if ctx.thorough else (2,))])
