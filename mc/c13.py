"""C13 imputation"""
import itertools
import numpy as np
import core, lib

PROPERTY = {
    "title": "Imputation fills exactly the missing cells and leaves every other value alone",
    "statement": "For every strategy and every pattern of missing values in data and uncertainty, the imputed datasets have the rows, columns and labels of the originals, contain no missing value, equal the originals bit for bit in every cell that was present, and are filled per matrix: the mean, median or most frequent strategy puts that statistic of the present values of the column in each missing cell, and knn and iterative put what the imputer of scikit-learn gives with the settings asked for. The mask names the cells missing in either matrix. The original dataset is not modified, the missing marker can be any value, and the result is the same on every repetition.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "all patterns of missing cells, all strategies and missing markers"},
    "why_tests_cant": "The reliable tests only check that an imputer without a handler can be created.",
    "anchors": {"files": ["esat/data/impute.py"], "mechanism": [{"name": "impute", "where": "DataImputer"}],
                "observe_at": ["DataImputer.imputed_data, imputed_uncertainty", "return value of impute"]},
}
SPEC = {"level": "exploration",
        "rule": "every pattern of missing cells on 8 chosen cells of a 6 x 3 data and uncertainty pair (2^8), times 5 strategies and 4 missing markers (NaN, below, at zero, and in the middle of the values); non-trivial: distinct patterns with at least one missing cell",
        "bounds": {"quick": "256 patterns x {mean, median, most_frequent} x 4 markers, 64 patterns x {knn, iterative} x 4 markers, with 4 settings", "thorough": "all 256 patterns for every strategy"},
        "assumptions": ["every column keeps at least two present values"]}
SETTINGS = {"knn": (None, {"n_neighbors": 2}, {"weights": "distance"}, {"n_neighbors": 3, "weights": "distance"}),
            "iterative": (None, {"max_iter": 1}, {"tol": 0.5}, {"max_iter": 3, "tol": 1e-9})}


def reference(strategy, args, A):
    from sklearn.experimental import enable_iterative_imputer  # noqa: F401
    from sklearn.impute import IterativeImputer, KNNImputer
    if strategy == "knn":
        return KNNImputer(n_neighbors=args.get("n_neighbors", 5), weights=args.get("weights", "uniform")).fit_transform(A)
    return IterativeImputer(max_iter=args.get("max_iter", 10), tol=args.get("tol", 1e-3), random_state=3).fit_transform(A)


CELLS = [("V", 0, 0), ("U", 0, 0), ("V", 1, 0), ("V", 2, 1), ("U", 3, 1), ("U", 4, 2), ("V", 5, 2), ("U", 5, 2)]


def work(ctx, job):
    import pandas as pd
    strategy, marker, part = job
    dhm, im = core.esat("esat.data.datahandler"), core.esat("esat.data.impute")
    for k, pattern in enumerate(itertools.product((0, 1), repeat=len(CELLS))):
        if k % 4 != part or (strategy in ("knn", "iterative") and not ctx.thorough and (k // 4) % 4):
            continue
        if not ctx.case(strategy, repr(marker), list(pattern)):
            continue
        with ctx.guard("imputation"):
            i, j = np.arange(6)[:, None], np.arange(3)[None, :]
            idx = pd.date_range("2020-01-01", periods=6, freq="D")
            V = pd.DataFrame(1.1 + (i * 3 + j * 2) % 4 + 0.25 * j, columns=["a", "b", "c"], index=idx)
            U = pd.DataFrame(0.5 + ((i + j) % 3) * 0.25, columns=["a", "b", "c"], index=idx)
            if strategy in SETTINGS:          # no two samples equally far from a third
                V, U = V + 0.0131 * i ** 2 * (1 + 0.37 * j), U + 0.0173 * i ** 2 * (1 + 0.29 * j)
            missV, missU = np.zeros((6, 3), bool), np.zeros((6, 3), bool)
            for (w, r, c), p in zip(CELLS, pattern):
                if p:
                    (missV if w == "V" else missU)[r, c] = True
            V = V.mask(missV, marker) if marker == marker else V.mask(missV)
            U = U.mask(missU, marker) if marker == marker else U.mask(missU)
            dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
            kw = {} if marker != marker else {"missing_value": marker}
            a = im.DataImputer(data_handler=dh, random_seed=3, **kw)
            args = SETTINGS.get(strategy, (None,))[sum(pattern) % len(SETTINGS.get(strategy, (None,)))]
            rv, ru = a.impute(strategy=strategy, args=args) if args is not None else a.impute(strategy=strategy)
            ctx.expect((np.asarray(a.imputation_mask) == (missV | missU)).all(), "the mask does not name the cells missing in either matrix")
            got = (a.imputed_data, a.imputed_uncertainty)
            ctx.expect(rv.equals(got[0]) and ru.equals(got[1]), "the returned frames are not the stored ones")
            for name, g, src, miss in (("data", got[0], V, missV), ("uncertainty", got[1], U, missU)):
                ctx.expect(list(g.columns) == list(src.columns) and list(g.index) == list(src.index), f"labels of the imputed {name}")
                x, s = g.to_numpy(), src.to_numpy()
                ctx.expect(np.isfinite(x).all(), f"missing values left in the {name}")
                ctx.expect((x[~miss] == s[~miss]).all(), f"present cells of the {name} changed")
                if strategy in SETTINGS:
                    with np.errstate(all="ignore"):
                        want = reference(strategy, args or {}, np.where(miss, np.nan, s))
                    ctx.expect(lib.close(x, want, 1e-9, 1e-9), f"{name}: not what the {strategy} imputer gives with the settings {args}")
                for c in range(3):
                    present = s[~miss[:, c], c]
                    if strategy in ("mean", "median", "most_frequent") and miss[:, c].any():
                        if strategy == "most_frequent":
                            vals, cnt = np.unique(present, return_counts=True)
                            ok = np.isin(x[miss[:, c], c], vals[cnt == cnt.max()]).all()
                        else:
                            want = present.mean() if strategy == "mean" else np.median(present)
                            ok = lib.close(x[miss[:, c], c], np.full(miss[:, c].sum(), want), 1e-9)
                        ctx.expect(ok, f"{name} column {c}: imputed {x[miss[:, c], c].tolist()} from {present.tolist()}")
                    elif miss[:, c].any() and strategy == "knn":
                        lo, hi = present.min(), present.max()
                        ctx.expect(((x[miss[:, c], c] >= lo - 1e-9) & (x[miss[:, c], c] <= hi + 1e-9)).all(), f"{name} column {c}: outside the neighbours")
                ctx.outcome([strategy, np.round(x[miss], 3).tolist()])
            ctx.expect(dh.input_data.equals(V) and dh.uncertainty_data.equals(U), "the original dataset was modified")
            b = im.DataImputer(data_handler=dh, random_seed=3, **kw)
            b.impute(strategy=strategy, args=args)
            ctx.expect(b.imputed_data.equals(got[0]) and b.imputed_uncertainty.equals(got[1]), "another result on repetition")
            if any(pattern):
                ctx.state((strategy, repr(marker), pattern))


def run(ctx):
    core.shards(ctx, work, [(s, m, p) for s in ("iterative", "knn", "mean", "median", "most_frequent") for m in (float("nan"), -999.0, 0.0, 2.0) for p in range(4)])
