"""C10 feature categories: operation sequences against a reference model"""
import collections
import itertools
import numpy as np
import core, lib

PROPERTY = {
    "title": "Feature categories change exactly what they promise, in any order of calls",
    "statement": "After any sequence of category changes and data requests, the data handed to a model contains exactly the features not categorized as bad and not excluded, in their original order, with data values unchanged, the uncertainties of weak features tripled exactly once and those of strong features unchanged, and the feature list names exactly these columns. A change with an unknown feature or category is refused and changes nothing; a category is a function of the last accepted change only. The loaded datasets themselves are never modified by it.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all sequences of category changes (valid and invalid) and data requests, with and without excluded columns"},
    "why_tests_cant": "The tests set no category; tripling twice, leaking a category into the stored data or losing a column needs several calls in a row.",
    "anchors": {"files": ["esat/data/datahandler.py"],
                "state": [{"name": "metrics['Category']", "meaning": "category per feature", "where": "DataHandler.metrics"}],
                "mechanism": [{"name": "set_category", "where": "DataHandler"}, {"name": "get_data", "where": "DataHandler"}],
                "observe_at": ["return value of get_data and set_category", "DataHandler.features"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "breadth-first search over all category states of 4 features (80 of 81: not all bad), every state reached and extended by each of 18 operations (12 valid changes, 5 invalid ones, one data request), and 27 states of 3 features in 3 configurations of excluded columns; plus every sequence of length 3 of all operations on a handler with 2 features",
                   "thorough": "sequences of length 4, 5 features (243 states)"},
        "assumptions": []}


NAMES = ["f0", "f01", "f", "f1", "f2"]       # names that begin with, or contain, other names


def frames(nf, extra):
    import pandas as pd
    idx = pd.date_range("2020-01-01", periods=6, freq="D")
    i = np.arange(6)[:, None]
    j = np.arange(nf)[None, :]
    cols = NAMES[:nf]
    V = pd.DataFrame(1.0 + ((i * 3 + j * 5) % 7) + 0.5 * j, index=idx, columns=cols)
    U = pd.DataFrame(0.25 + ((i + j * 2) % 3) * 0.125, index=idx, columns=cols)
    for k, c in enumerate(extra):                  # the first in front of the features, the second behind them
        V.insert(0 if k == 0 else len(V.columns), c, np.arange(6) % 2 + 1.0)
        U.insert(0 if k == 0 else len(U.columns), c, np.arange(6) % 2 + 1.0)
    return V, U


def reference(V, U, cats, excluded):
    cols = [c for c in V.columns if c not in excluded and cats.get(c, "strong") != "bad"]
    v = V[cols].to_numpy().astype("float32")
    u = U[cols].to_numpy().astype("float32") * np.array([3.0 if cats.get(c) == "weak" else 1.0 for c in cols], dtype="float32")
    return cols, v, u


CONFIGS = [([], None, None), (["loc"], None, "loc"), (["x"], ["x"], None), (["x", "loc"], ["x"], ["loc"])]


def make(nf, cfg):
    dhm = core.esat("esat.data.datahandler")
    extra, drop, loc = CONFIGS[cfg]
    V, U = frames(nf, extra)
    dh = dhm.DataHandler.load_dataframe(input_df=V, uncertainty_df=U)
    dh.drop_col = drop
    dh.loc_cols = loc
    return dh, V, U, set(drop or []) | set([loc] if isinstance(loc, str) else loc or [])


def ops(nf, extra):
    out = [("set", NAMES[k], c) for k in range(nf) for c in ("strong", "weak", "bad")]
    out += [("set", "f0", "ugly"), ("set", "nope", "weak"), ("set", None, "bad"), ("set", "f0", ""), ("set", "F0", "bad")]
    out += [("get",)] + [("set", e, c) for e in extra for c in ("weak", "bad")]
    return out


def apply(ctx, dh, cats, op):
    """one operation on the handler and on the model"""
    if op[0] == "get":
        dh.get_data()
        return cats
    valid = op[1] is not None and op[1] in dh.input_data.columns and op[2] in ("strong", "weak", "bad")
    r = dh.set_category(op[1], op[2])
    ctx.expect(bool(r) == valid, f"set_category{op[1:]} returned {r}")
    return {**cats, op[1]: op[2]} if valid else cats


def check(ctx, dh, V, U, V0, U0, cats, excluded):
    cols, v, u = reference(V0, U0, cats, excluded)
    gv, gu = dh.get_data()
    ctx.expect(list(dh.features) == cols, f"features are {list(dh.features)}, expected {cols}")
    ctx.expect(lib.same(np.asarray(gv), v), "data values", lambda: {"got": gv, "expected": v, "categories": cats})
    ctx.expect(lib.same(np.asarray(gu), u), "uncertainty values", lambda: {"got": gu, "expected": u, "categories": cats})
    ctx.expect(V.equals(V0) and U.equals(U0), "the frames of the caller were modified")
    ctx.expect(dh.input_data.equals(V0) and dh.uncertainty_data.equals(U0), "the loaded datasets were modified")
    ctx.expect(all(dh.metrics.loc[f, "Category"] == cats.get(f, "strong") for f in V0.columns), "the recorded categories")


def bfs(ctx, job):
    nf, cfg = job
    operations = ops(nf, CONFIGS[cfg][0])
    names = list(frames(nf, CONFIGS[cfg][0])[0].columns)
    canon = lambda cats: tuple(cats.get(n, "strong") for n in names)
    seen = {canon({})}
    queue = collections.deque([[]])
    while queue:
        hist = queue.popleft()
        for o in range(len(operations)):
            seq = hist + [o]
            if not ctx.case("bfs", nf, cfg, seq):
                continue
            with ctx.guard("call sequence"):
                dh, V, U, excluded = make(nf, cfg)
                V0, U0 = V.copy(), U.copy()
                cats = {}
                for s in seq:
                    cats = apply(ctx, dh, cats, operations[s])
                    ctx.step()
                if all(cats.get(n) == "bad" for n in names if n not in excluded):
                    continue                     # a model without features is not a use of the handler
                check(ctx, dh, V, U, V0, U0, cats, excluded)
                ctx.outcome(list(dh.features))
                k = canon(cats)
                ctx.state((nf, cfg, k))
                if k not in seen:
                    seen.add(k)
                    queue.append(seq)


def sequences(ctx, job):
    first, depth = job
    operations = ops(2, [])
    for rest in itertools.product(range(len(operations)), repeat=depth - 1):
        seq = (first,) + rest
        if not ctx.case("seq", list(seq)):
            continue
        with ctx.guard("call sequence"):
            dh, V, U, excluded = make(2, 0)
            V0, U0 = V.copy(), U.copy()
            cats = {}
            for s in seq:
                nxt = apply(ctx, dh, cats, operations[s]) if operations[s][0] == "set" or not all(
                    cats.get(f) == "bad" for f in NAMES[:2]) else cats
                cats = nxt
                ctx.step()
            if not all(cats.get(f) == "bad" for f in NAMES[:2]):
                check(ctx, dh, V, U, V0, U0, cats, excluded)
                ctx.state(("seq", tuple(sorted(cats.items()))))


def run(ctx):
    nf = 5 if ctx.thorough else 4
    core.shards(ctx, bfs, [(nf, 0), (3, 1), (3, 2), (3, 3)])
    core.shards(ctx, sequences, [(o, 4 if ctx.thorough else 3) for o in range(len(ops(2, [])))])
