"""C14 splitting by location and merging"""
import itertools
import numpy as np
import core, lib

PROPERTY = {
    "title": "Splitting by location partitions the samples and merging loses none",
    "statement": "Splitting a dataset by its location columns gives one dataset per distinct location, in which exactly the samples of that location appear, in their original order, with their data and uncertainty side by side and without the location columns in the model input. Merging datasets with the same features keeps every sample of every dataset once, labelled with its source, data and uncertainty still paired; datasets with other features, or without one label each, are refused without any change. The datasets that were split or merged in are not modified.",
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "all assignments of samples to locations, all lists of datasets, splits followed by merges"},
    "why_tests_cant": "No test splits or merges a dataset.",
    "anchors": {"files": ["esat/data/datahandler.py"],
                "mechanism": [{"name": "split_locations", "where": "DataHandler"}, {"name": "merge", "where": "DataHandler"}],
                "observe_at": ["the datasets returned by split_locations and changed by merge"]},
}
SPEC = {"level": "exploration",
        "rule": "every assignment of 6 samples to 3 locations (3^6) for one, two and latitude/longitude location columns, with and without a dropped column; every merge of 1..3 datasets out of 4 into each of them, valid or not, and merges of every split; non-trivial: distinct assignments and merge lists",
        "bounds": {"quick": "729 assignments (243 for two of the three kinds), 4 x 84 merge lists", "thorough": "7 samples (2187 assignments) for every kind"},
        "assumptions": []}


def frame(n, cols=("a", "b")):
    import pandas as pd
    i, j = np.arange(n)[:, None], np.arange(len(cols))[None, :]
    idx = pd.date_range("2020-01-01", periods=n, freq="D")
    if n % 2:                                      # sites that are sampled at the same times, not in order
        idx = idx[[(k * 2 + 1) % 3 for k in range(n)]]
    return (pd.DataFrame(1.0 + 10 * i + j, columns=list(cols), index=idx),
            pd.DataFrame(0.5 + i + 0.125 * j, columns=list(cols), index=idx))


LOCS = {"one": (["site"], [(7,), (3,), (5,)]), "two": (["site", "zone"], [(1, 1), (1, 2), (2, 1)]),
        "latlon": (["latitude", "longitude"], [(35.91234, -78.5), (35.91236, -78.5), (40.0, -80.25)])}


def splits(ctx, job):
    kind, first, second, n = job
    dhm = core.esat("esat.data.datahandler")
    cols, places = LOCS[kind]
    for rest in itertools.product(range(3), repeat=n - 2):
        assign = (first, second) + rest
        for drop in (False, True):
            if not ctx.case("split", kind, list(assign), drop):
                continue
            with ctx.guard("split_locations"):
                V, U = frame(n, ("a", "b", "c") if drop else ("a", "b"))
                for c, name in enumerate(cols):
                    # coordinates that agree to five digits are one place
                    V[name] = [float(places[a][c]) + (1e-7 * i if kind == "latlon" else 0.0) for i, a in enumerate(assign)]
                    U[name] = V[name]
                dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
                dh.loc_cols = cols[0] if len(cols) == 1 and n % 2 == 0 else list(cols)
                dh.drop_col = ["c"] if drop else None
                parts = dh.split_locations()
                ctx.expect(dh.input_data.equals(V) and dh.uncertainty_data.equals(U), "the split dataset was modified")
                order = list(dict.fromkeys(assign))
                ctx.expect(len(parts) == len(order), f"{len(parts)} datasets for {len(order)} locations")
                seen = {}
                for p in parts:
                    loc = tuple(round(float(p.metadata["location"][c]), 5) for c in cols)
                    rows = [i for i, a in enumerate(assign) if tuple(round(float(x), 5) for x in places[a]) == loc]
                    ctx.expect(loc not in seen and rows, f"location {loc} is unknown or appears twice")
                    seen[loc] = rows
                    v, u = p.get_data()
                    ctx.expect(lib.close(v, V[["a", "b"]].to_numpy()[rows], 1e-6) and lib.close(u, U[["a", "b"]].to_numpy()[rows], 1e-6),
                               f"samples of location {loc}", lambda: {"got": v, "rows": rows})
                    ctx.expect(list(p.features) == ["a", "b"], f"features {list(p.features)}")
                    ctx.expect(p.input_data.equals(V.iloc[rows]) and p.uncertainty_data.equals(U.iloc[rows]),
                               f"the dataset of location {loc} does not hold its samples as they were")
                ctx.state((kind, assign, drop))
                ctx.outcome([kind, sorted(map(len, seen.values()))])


def merges(ctx, job):
    target = job
    dhm = core.esat("esat.data.datahandler")
    specs = [(3, ("a", "b"), 0), (2, ("a", "b"), 100), (4, ("a", "b"), 200), (2, ("b", "a"), 300)]

    def make(k):
        n, cols, off = specs[k]
        V, U = frame(n, cols)
        return dhm.DataHandler.load_dataframe(input_df=V + off, uncertainty_df=U + off)

    lists = [l for r in range(0, 4) for l in itertools.product(range(4), repeat=r)]
    for l in lists:
        for short in (0, 1, -1):
            if short and not l:
                continue
            if not ctx.case("merge", target, list(l), short):
                continue
            with ctx.guard("merge"):
                t = make(target)
                others = [make(k) for k in l]
                labels = [f"src{i}" for i in range(len(l) - short)]
                before = [(o.input_data.copy(), o.uncertainty_data.copy()) for o in others]
                b0 = (t.input_data.copy(), t.uncertainty_data.copy())
                valid = bool(l) and not short and all(specs[k][1] == specs[target][1] for k in l)
                r = t.merge(others, labels)
                ctx.expect(bool(r) == valid, f"merge returned {r}")
                for o, b in zip(others, before):
                    ctx.expect(o.input_data.equals(b[0]) and o.uncertainty_data.equals(b[1]), "a merged dataset was modified")
                if not valid:
                    ctx.expect(t.input_data.equals(b0[0]) and t.uncertainty_data.equals(b0[1]), "a refused merge changed the dataset")
                    continue
                cols = list(specs[target][1])
                want_v, want_u = [], []
                parts = {lab: before[i] for i, lab in enumerate(labels)}
                parts["self"] = b0
                ctx.expect(sorted(set(t.input_data["source_label"])) == sorted(parts), "source labels")
                ctx.expect(list(t.input_data["source_label"]) == list(t.uncertainty_data["source_label"]), "labels of data and uncertainty differ")
                for lab, (pv, pu) in parts.items():
                    gv = t.input_data[t.input_data["source_label"] == lab][cols].to_numpy()
                    gu = t.uncertainty_data[t.uncertainty_data["source_label"] == lab][cols].to_numpy()
                    ctx.expect(lib.same(gv, pv[cols].to_numpy()) and lib.same(gu, pu[cols].to_numpy()), f"samples of source {lab}")
                v, u = t.get_data()
                ctx.expect(list(t.features) == cols, f"features {list(t.features)}")
                total = sum(len(p[0]) for p in parts.values())
                ctx.expect(v.shape == (total, 2) and u.shape == (total, 2), f"{v.shape} samples for the model, expected {total}")
                ctx.expect(lib.close(v, t.input_data[cols].to_numpy(), 1e-6) and lib.close(u, t.uncertainty_data[cols].to_numpy(), 1e-6),
                           "model input of the merged dataset")
                ctx.state((target, l))
                ctx.outcome([target, total])


def both(ctx, part):
    """merging the parts of a split brings every sample back"""
    dhm = core.esat("esat.data.datahandler")
    for assign in itertools.product(range(3), repeat=5):
        if sum(assign) % 8 != part:
            continue
        if len(set(assign)) < 2 or not ctx.case("split and merge", list(assign)):
            continue
        with ctx.guard("split and merge"):
            V, U = frame(5)
            V["site"] = [float(a) for a in assign]
            U["site"] = V["site"]
            dh = dhm.DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
            dh.loc_cols = ["site"]
            parts = dh.split_locations()
            t = parts[0]
            ctx.expect(t.merge(parts[1:], [f"p{i}" for i in range(1, len(parts))]), "merge refused")
            v, u = t.get_data()
            order = np.argsort(v[:, 0])
            ctx.expect(lib.close(v[order], V[["a", "b"]].to_numpy(), 1e-6) and lib.close(u[order], U[["a", "b"]].to_numpy(), 1e-6),
                       "samples were lost or changed", lambda: {"got": v})
            ctx.state(("both", assign))


def run(ctx):
    n = 7 if ctx.thorough else 6
    core.shards(ctx, splits, [(k, f, g, n if k == "latlon" or ctx.thorough else n - 1) for g in range(3) for k in LOCS for f in range(3)])
    core.shards(ctx, merges, range(4))
    core.shards(ctx, both, range(8))
