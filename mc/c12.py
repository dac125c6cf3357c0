"""C12 feature metrics"""
import itertools
import numpy as np
import core, lib

PROPERTY = {
    "title": "The signal to noise ratio and the feature metrics follow their definition",
    "statement": "The signal to noise ratio of a feature is the average over all samples of (data - uncertainty) / uncertainty, where samples whose data does not exceed its uncertainty count as zero; the reported minimum, quartiles and maximum are those of the feature's data. Each is a function of that feature's own columns, so that other features, their order and their number do not change it, and every feature starts in the strong category.",
    "quantifier": {"over": ["inputs"], "text": "all data and uncertainty columns, in every arrangement of features"},
    "why_tests_cant": "The tests compare no metric with a value; samples at or below the uncertainty and columns in another order are not reached.",
    "anchors": {"files": ["esat/data/datahandler.py"],
                "mechanism": [{"name": "metrics", "where": "DataHandler"}], "observe_at": ["DataHandler.metrics"]},
}
SPEC = {"level": "exploration",
        "rule": "every column of 5 samples over 4 ratios of data to uncertainty {below, equal, above, far above} x 2 uncertainty patterns, three such columns per dataset in every order; non-trivial: distinct columns",
        "bounds": {"quick": "1024 columns x 2 uncertainty patterns, packed 3 per dataset, in 2 orders", "thorough": "4096 columns of 6 samples, all 6 orders"},
        "assumptions": []}


def work(ctx, job):
    import pandas as pd
    part, parts, n = job
    dhm = core.esat("esat.data.datahandler")
    cols = list(itertools.product((0.5, 1.0, 1.75, 9.0), repeat=n))
    U2 = [np.full(n, 0.5), 0.25 * (1 + np.arange(n) % 3)]
    for k in range(part, len(cols), parts):
        trip = [cols[k], cols[(k * 7 + 1) % len(cols)], cols[(k * 13 + 5) % len(cols)]]
        for order in itertools.permutations(range(3)) if ctx.thorough else ((0, 1, 2), (2, 0, 1)):
            if not ctx.case(n, k, list(order)):
                continue
            with ctx.guard("metrics"):
                names = [f"f{o}" for o in order]
                U = {f"f{o}": U2[(k + o) % 2] for o in order}
                V = {f"f{o}": np.array(trip[o]) * U[f"f{o}"] for o in order}
                idx = pd.date_range("2020-01-01", periods=n, freq="D")
                dh = dhm.DataHandler.load_dataframe(input_df=pd.DataFrame(V, index=idx)[names], uncertainty_df=pd.DataFrame(U, index=idx)[names])
                m = dh.metrics
                ctx.expect(sorted(m.index) == sorted(names), "features of the metrics")
                for f in names:
                    v, u = V[f], U[f]
                    sn = float(np.where(v > u, (v - u) / u, 0.0).mean())
                    got = m.loc[f]
                    ctx.expect(abs(float(got["S/N"]) - sn) < 1e-9, f"S/N of {f} is {got['S/N']}, expected {sn}", lambda: {"v": v, "u": u})
                    for name, want in (("Min", v.min()), ("25th", np.quantile(v, .25)), ("50th", np.median(v)), ("75th", np.quantile(v, .75)), ("Max", v.max())):
                        ctx.expect(abs(float(got[name]) - want) < 1e-9, f"{name} of {f} is {got[name]}, expected {want}")
                    ctx.expect(got["Category"] == "strong", "category")
                    ctx.expect(abs(float(dh.min_values[f]) - v.min()) < 1e-12 and abs(float(dh.max_values[f]) - v.max()) < 1e-12, "stored minimum and maximum")
                    ctx.state((trip[int(f[1])], u.tobytes()))
                    ctx.outcome(round(sn, 3))


def missing(ctx, job):
    """samples with missing cells, and numbers of samples whose quartiles lie between two values"""
    import pandas as pd
    n, first = job
    dhm = core.esat("esat.data.datahandler")
    cells = [("V", 1, "f0"), ("U", 2, "f0"), ("V", 3, "f1"), ("V", n - 1, "f2"), ("U", 0, "f2"), ("U", 1, "f0")]
    i = np.arange(n)
    ratio = {"f0": 1.0 + (i * 5 % 7) * 0.8, "f1": 0.5 + (i * 3 % 5) * 0.75, "f2": 9.0 - (i * 2 % 9) * 1.1}
    for rest in itertools.product((0, 1), repeat=len(cells) - 1):
        pattern = (first,) + rest
        if not ctx.case("missing", n, list(pattern)):
            continue
        with ctx.guard("metrics"):
            idx = pd.date_range("2020-01-01", periods=n, freq="D")
            U = pd.DataFrame({f: 0.25 * (1 + (i + k) % 3) for k, f in enumerate(ratio)}, index=idx)
            V = pd.DataFrame({f: ratio[f] * U[f] for f in ratio}, index=idx)
            for (which, r, f), p in zip(cells, pattern):
                if p:
                    (V if which == "V" else U).loc[idx[r], f] = np.nan
            dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
            for f in ratio:
                v, u = V[f].to_numpy(), U[f].to_numpy()
                with np.errstate(invalid="ignore"):
                    sn = float(np.where(v > u, (v - u) / u, 0.0).mean())
                got, v = dh.metrics.loc[f], v[~np.isnan(v)]
                ctx.expect(abs(float(got["S/N"]) - sn) < 1e-9, f"S/N of {f} is {got['S/N']}, expected {sn}", lambda: {"V": V, "U": U})
                for name, want in (("Min", v.min()), ("25th", np.quantile(v, .25)), ("50th", np.median(v)), ("75th", np.quantile(v, .75)), ("Max", v.max())):
                    ctx.expect(abs(float(got[name]) - want) < 1e-9, f"{name} of {f} is {got[name]}, expected {want}")
                ctx.state(("missing", n, f, pattern))
                ctx.outcome(round(sn, 3))


def run(ctx):
    core.shards(ctx, missing, [(n, p) for n in (range(4, 13) if ctx.thorough else range(5, 9)) for p in (0, 1)])
    core.shards(ctx, work, [(p, 16, 6 if ctx.thorough else 5) for p in range(16)])
