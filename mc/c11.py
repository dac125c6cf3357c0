"""C11 cleaning: missing values, zeros, alignment of data and uncertainty"""
import itertools
import os
import numpy as np
import core, lib

PROPERTY = {
    "title": "Cleaned data and uncertainty stay aligned, complete, positive and in order",
    "statement": "The arrays handed to a model have equal shape and contain no missing value and no zero: every row with a missing value in the data or in the uncertainty (of the used features) is left out of both, every other row is kept in its original order with each data value next to its own uncertainty, and a zero is replaced by a tiny positive number that changes nothing else. The result is the same whether the dataset comes from files (comma or tab separated, or Excel, with a named index column) or from dataframes, and requesting it again gives the same arrays.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all patterns of missing values and zeros in data and uncertainty, all sources, excluded columns and bad features"},
    "why_tests_cant": "The test dataset has no missing uncertainty and no zero; the pairing of the two matrices is only at risk for particular patterns.",
    "anchors": {"files": ["esat/data/datahandler.py"],
                "mechanism": [{"name": "get_data", "where": "DataHandler"}, {"name": "load_dataframe, reading of files", "where": "DataHandler"}],
                "observe_at": ["return value of DataHandler.get_data", "DataHandler.input_data_df"]},
}
SPEC = {"level": "exploration",
        "rule": "every pattern over {value, missing, zero} on 6 of the cells of a 5 x 3 data and uncertainty pair (3^6), plus every pattern of wholly missing rows, times source {dataframe, csv, tab separated text, xlsx} and excluded columns; non-trivial: distinct patterns and configurations",
        "bounds": {"quick": "729 patterns from dataframes, 243 through csv files, 64 missing-row patterns, 9 configurations of excluded columns and bad features",
                   "thorough": "3^8 patterns from dataframes, 729 through both file formats"},
        "assumptions": ["at least one complete row remains"]}

CELLS = [("V", 0, 0), ("U", 0, 1), ("V", 2, 1), ("U", 2, 0), ("V", 4, 2), ("U", 3, 2), ("V", 1, 0), ("U", 1, 0)]


INDEX = ("sorted", "unsorted", "repeated")


def base(index="sorted", rows=5):
    import pandas as pd
    i, j = np.arange(rows)[:, None], np.arange(3)[None, :]
    cols = ["a", "b", "c"]
    days = {"sorted": range(1, rows + 1), "unsorted": (4, 2, 5, 1, 3), "repeated": (2, 1, 2, 1, 1)}[index]
    idx = pd.Index([f"2021-03-0{k} 00:00:00" for k in days][:rows], name="Date")
    V = pd.DataFrame(10.0 * (i + 1) + j + 0.5, columns=cols, index=idx)
    V.iloc[1, 2] = -7.25
    return V, pd.DataFrame(1.0 * (i + 1) + 0.125 * j, columns=cols, index=idx)


def mark(V, U, pattern):
    for (which, r, c), p in zip(CELLS, pattern):
        df = V if which == "V" else U
        if p == 1:
            df.iloc[r, c] = np.nan
        elif p == 2:
            df.iloc[r, c] = 0.0


def expected(V, U, excluded):
    cols = [c for c in V.columns if c not in excluded]
    v, u = V[cols].to_numpy(dtype=float), U[cols].to_numpy(dtype=float)
    keep = ~(np.isnan(v).any(axis=1) | np.isnan(u).any(axis=1))
    return cols, np.nonzero(keep)[0], v[keep], u[keep]


def compare(ctx, dh, V, U, excluded, what):
    cols, rows, v, u = expected(V, U, excluded)
    for again in (False, True):
        gv, gu = dh.get_data()
        gv, gu = np.asarray(gv), np.asarray(gu)
        ctx.expect(list(dh.features) == cols, f"{what}: features {list(dh.features)}")
        if not ctx.expect(gv.shape == v.shape and gu.shape == u.shape,
                          f"{what}: {gv.shape} data, {gu.shape} uncertainty, expected {v.shape}"):
            return
        for name, got, want in (("data", gv, v), ("uncertainty", gu, u)):
            z = want == 0
            ctx.expect(lib.close(np.where(z, 0, got), want, 1e-6, 0), f"{what}: {name} values", lambda: {"got": got, "expected": want})
            ctx.expect((got[z] > 0).all() and (got[z] < 1e-9).all(), f"{what}: zeros of the {name} became {got[z].tolist()}")
        ctx.expect(dh.input_data_df.shape == v.shape and dh.uncertainty_data_df.shape == v.shape,
                   f"{what}: the processed frames have another shape")
    ctx.state((what, v.tobytes(), u.tobytes()))
    ctx.outcome([what, rows.tolist()])


def frames(ctx, job):
    first, ncells = job
    dhm = core.esat("esat.data.datahandler")
    for rest in itertools.product(range(3), repeat=ncells - 2):
        pattern = first + rest
        if not ctx.case("frame", list(pattern)):
            continue
        with ctx.guard("cleaning"):
            V, U = base(INDEX[sum(pattern) % 3])
            mark(V, U, pattern)
            V0, U0 = V.copy(), U.copy()
            dh = dhm.DataHandler.load_dataframe(input_df=V, uncertainty_df=U)
            if len(expected(V, U, ())[1]) >= 1:
                compare(ctx, dh, V0, U0, (), "frames")
            ctx.expect(V.equals(V0) and U.equals(U0), "the frames of the caller were modified")


def rows(ctx, job):
    """wholly missing rows, and excluded columns that hold missing values"""
    dhm = core.esat("esat.data.datahandler")
    for pv in itertools.product((0, 1), repeat=5):
        for pu in itertools.product((0, 1), repeat=5) if job == "all" else [(0,) * 5, pv, (1, 0, 0, 0, 0)]:
            if all(a or b for a, b in zip(pv, pu)):
                continue
            if not ctx.case("rows", list(pv), list(pu)):
                continue
            with ctx.guard("cleaning"):
                V, U = base(INDEX[(sum(pv) + sum(pu)) % 3])
                for r in range(5):
                    if pv[r]:
                        V.iloc[r] = np.nan
                    if pu[r]:
                        U.iloc[r] = np.nan
                dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
                compare(ctx, dh, V, U, (), "rows")


EXCLUDED = ((("c",), ["c"], None, []), (("a",), ["a"], None, []), (("b",), None, "b", []),
            (("a", "c"), ["a"], ["c"], []), (("c",), None, None, ["c"]), (("a",), None, None, ["a"]),
            (("a", "b"), None, None, ["b", "a"]), (("b", "a"), ["a"], None, ["b"]), (("c", "b"), None, ["c"], ["b"]))


def excluding(ctx, job):
    dhm = core.esat("esat.data.datahandler")
    for excluded, drop, loc, bad in EXCLUDED[job:job + 1]:
        for p in itertools.product(range(3), repeat=4):
            if not ctx.case("excluded", list(excluded), drop, loc, bad, list(p)):
                continue
            with ctx.guard("cleaning"):
                V, U = base(INDEX[(p[0] + p[3]) % 3])
                mark(V, U, (p[0], p[1], p[3], 0, p[2]))
                dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
                dh.drop_col, dh.loc_cols = drop, loc
                for f in bad:
                    dh.set_category(f, "bad")
                compare(ctx, dh, V, U, excluded, "excluded columns")


def files(ctx, job):
    first, second, fmt = job
    dhm = core.esat("esat.data.datahandler")
    for rest in itertools.product(range(3), repeat=4 if ctx.thorough else 3):
        pattern = (first, second) + rest
        if not ctx.case("file", fmt, list(pattern)):
            continue
        with ctx.guard("reading and cleaning"), core.scratch() as d:
            V, U = base(INDEX[(first + rest[0]) % 3])
            mark(V, U, pattern)
            sep, ext = {"csv": (",", "csv"), "tab": ("\t", "txt"), "excel": ("", "xlsx")}[fmt]
            pv, pu = os.path.join(d, "con." + ext), os.path.join(d, "unc." + ext)
            for x, p in ((V, pv), (U, pu)):
                x.to_excel(p) if fmt == "excel" else x.to_csv(p, sep=sep)
            loc = drop = None
            excluded = ()
            if sum(pattern) % 3 == 1:
                drop, excluded = ["b"], ("b",)
            elif sum(pattern) % 3 == 2:
                loc, excluded = "c", ("c",)
            dh = dhm.DataHandler(input_path=pv, uncertainty_path=pu, index_col="Date", drop_col=drop, loc_cols=loc)
            if len(expected(V, U, excluded)[1]):
                compare(ctx, dh, V, U, excluded, "file " + fmt)


def run(ctx):
    n = 8 if ctx.thorough else 6
    jobs = [(excluding, k) for k in range(len(EXCLUDED))] + [(rows, "all" if ctx.thorough else "few")]
    jobs += [(frames, ((a, b), n)) for a in range(3) for b in range(3)]
    jobs += [(files, (a, b, f)) for a in range(3) for b in range(3) for f in ("csv", "tab", "excel")]
    core.shards(ctx, lambda c, j: j[0](c, j[1]), jobs)
