"""C09 persistence: round trips, histories of saves, crash points"""
import os
import io
import json
import types
import logging
import itertools
import numpy as np
import pandas as pd
import core, lib, errlib, sched, c01, c02, c16, c17, c19, c21

PROPERTY = {
    "title": "Saved results reload equal, text files hold the values, torn files are refused",
    "statement": "Saving and loading a model, batch, error estimation, constrained model or simulator gives an object with the same state that continues as the original would, always that of the last save under the name, and saving changes nothing in the saved object or in files saved under other names. The csv and json files hold the numbers and labels of the object at full precision. A file that is missing, cut off or zero filled from any byte on, or not an absolute path is refused by returning None, and saving to a relative or missing directory returns None and writes nothing.",
    "quantifier": {"over": ["crash_points", "histories", "inputs"],
                   "text": "all objects at all stages, all sequences of saving, loading and training, all bytes at which writing may have stopped"},
    "why_tests_cant": "The tests save once and look at the existence of files; they neither compare contents nor load incomplete files.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py",
                          "esat/error/bs_disp.py", "esat/rotational/constrained.py", "eval/simulator.py"],
                "mechanism": [{"name": "save, load", "where": "SA, BatchSA, Bootstrap, Displacement, BSDISP, ConstrainedModel, Simulator"}],
                "observe_at": ["files in the output directory", "return values of save and load"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive crash point enumeration and exploration of save/load/train histories on the real code",
        "bounds": {"quick": "8 kinds of objects (model, batch, bootstrap, displacement, BS-DISP, constrained model, simulator, data with names) in 24 stages and settings; every byte offset of every pickle file as end of the file, and every offset (every 7th for files above 12 kB) as begin of a zero filled tail; every sequence of up to 4 operations out of {train, save a, save b, load a, load b} on a model (2 methods) and a batch; 3 file names",
                   "thorough": "sequences of up to 6 operations, every offset for both kinds of damage"},
        "assumptions": ["writing a file may stop at any byte, and bytes not written may read as zero",
                        "attributes whose names begin with an underscore are not compared"]}

NAMES = ["model", "run.1 a", "2024-01"]


def plain(o, depth=0, seen=None):
    """comparable content of an object"""
    seen = seen or ()
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (np.generic, int, float)):
        return ("n", repr(o.item() if isinstance(o, np.generic) else o))
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tolist().__repr__() if o.dtype == object else np.ascontiguousarray(o).tobytes())
    if isinstance(o, (pd.DataFrame, pd.Series)):
        cols = list(o.columns) if isinstance(o, pd.DataFrame) else o.name
        return ("df", repr(cols), repr(list(o.index)), repr(o.values.tolist()), repr(o.dtypes))
    if isinstance(o, pd.Index):
        return ("ix", repr(list(o)))
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)):
        return ("f", o.__module__, o.__qualname__)
    if isinstance(o, (logging.Logger, types.ModuleType)):
        return ("l", o.name if isinstance(o, logging.Logger) else o.__name__)
    if any(o is s for s in seen):
        return ("cycle", [o is s for s in seen].index(True))
    seen = seen + (o,)
    if isinstance(o, dict):
        return ("d", [(plain(k, depth + 1, seen), plain(v, depth + 1, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("s", type(o).__name__, [plain(v, depth + 1, seen) for v in o])
    if isinstance(o, (set, frozenset)):
        return ("t", sorted(repr(plain(v, depth + 1, seen)) for v in o))
    if hasattr(o, "__dict__"):
        return ("o", type(o).__name__, sorted((k, plain(v, depth + 1, seen)) for k, v in vars(o).items() if not k.startswith("_")))
    return ("r", repr(o))


def where(a, b, path=""):
    """first difference of two contents"""
    if type(a) is not type(b) or (isinstance(a, (tuple, list)) and len(a) != len(b)):
        return path or "/", str(a)[:200], str(b)[:200]
    if isinstance(a, (tuple, list)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = a[0] if isinstance(a[0], str) else i
                return where(x, y, f"{path}/{name}")
    return path, str(a)[:200], str(b)[:200]


# -- objects ------------------------------------------------------------------------------------------------------
def sa_stage(method, stage, f=2):
    V = c02.shaped(5, 3, 1) - (2.0 if method == "ws-nmf" else 0.0)
    U = c01.unc(V, "mixed")
    sa = lib.SA(V, U, f, method=method, seed=9, verbose=False)
    if stage >= 1:
        sa.initialize(H=c01.start_h(f, 3, 0))
    for k in range(stage - 1):
        sa.train(max_iter=4 + k, converge_delta=1e-3, converge_n=3, model_i=k)
    return sa


def batch(method, trained, hole=False):
    mod = core.esat("esat.model.batch_sa")
    V = c02.shaped(5, 3, 1) - (2.0 if method == "ws-nmf" else 0.0)
    with core.NoRustLeft():
        b = mod.BatchSA(V=V, U=c01.unc(V, "mixed"), factors=2, models=3, method=method, seed=5, H=c01.start_h(2, 3, 0), max_iter=5,
                        converge_delta=1e-3, converge_n=3, parallel=False, verbose=False)
    if trained:
        with core.quiet():
            b.train()
    if hole:
        b.results[1] = None
    return b


def bootstrap(method, ran):
    sa, bs, kw = c16.build((2, method, True, True, True, False, 0.6), 2, False)
    if ran:
        with core.quiet():
            bs.run(**kw)
    return bs


def displacement(f, ran):
    dm = core.esat("esat.error.displacement")
    sa = c17.build((6, 3, f, "ls-nmf", 0, 2))
    d = dm.Displacement(sa=sa, feature_labels=["a", "b,c", "d e"], model_selected=1, features=[0, 2] if f > 1 else None, parallel=False)
    if ran:
        with core.quiet():
            d.run()
    return d


def bsdisp():
    sa, labels, obj, kw = c19.make(((6, 3, 2, "ls-nmf", 0, 2), None, 2, True, True, True, True))
    with core.quiet(), sched.controlled():
        obj.run(parallel=True, **kw)
    return obj


def constrained(method, trained, extra):
    mod = core.esat("esat.rotational.constrained")
    dm = core.esat("esat.data.datahandler")
    sa = c21.build((5, 4, 2, method, 0, 6, 0.02))
    ix = pd.date_range("2021-03-01", periods=5, freq="D", name="Date")
    names = ["As", "Pb 2", "SO4", "Zn"]
    dh = dm.DataHandler.load_dataframe(pd.DataFrame(np.asarray(sa.V), columns=names, index=ix), pd.DataFrame(np.asarray(sa.U), columns=names, index=ix))
    cm = mod.ConstrainedModel(base_model=sa, data_handler=dh, softness=0.5)
    cm.add_constraint("set to zero", (1, 0), "feature")
    if extra:
        cm.add_constraint("pull down", (0, 1), "feature", dQ=70.0)
        cm.add_constraint("define limits", (1, 1), "sample", min_value=0.1, max_value=0.9)
        cm.add_expression("(0.66*[factor:1|feature:2])-(4.2*[factor:0|feature:3])=0,250")
    if trained:
        with core.quiet():
            cm.train(max_iterations=3, converge_delta=1e-9, converge_n=10)
    return cm


def simulator(stage):
    mod = core.esat("esat_eval.simulator")
    s = mod.Simulator(seed=3, factors_n=2, features_n=3, samples_n=6, verbose=False, outliers=stage % 2 == 0)
    if stage >= 1:
        s.get_data()
    if stage >= 2:
        s.update_contribution(0, "increasing")
        s.get_data()
    return s


def more_train(o):
    o.train(max_iter=3, converge_n=10 ** 6)
    return [np.asarray(o.W).tobytes(), np.asarray(o.H).tobytes(), float(o.Qtrue)]


def more_batch(o):
    o.train()
    return [[r.seed, np.asarray(r.W).tobytes(), np.asarray(r.H).tobytes(), float(r.Qtrue), int(r.converge_steps)] for r in o.results]


def more_bs(o):
    o.run()
    return [repr(o.mapping_df.values.tolist()), o.factor_tables]


def more_disp(o):
    o.run()
    return repr(o.compiled_results.values.tolist())


def more_bsdisp(o):
    return repr(o.compiled_results.values.tolist()) + repr(o.metadata)


def more_cm(o):
    o.train(max_iterations=2, converge_delta=1e-9, converge_n=10)
    return [np.asarray(o.constrained_model.W).tobytes(), np.asarray(o.constrained_model.H).tobytes(), list(o.constraints), o.expressions]


def more_sim(o):
    o.update_contribution(1, "decreasing")
    a, b = o.get_data()
    return [a.values.tobytes(), b.values.tobytes()]


OBJECTS = {}
for _m in ("ls-nmf", "ws-nmf"):
    for _s in range(4):
        OBJECTS[f"model {_m} stage {_s}"] = ("esat.model.sa", "SA", lambda m=_m, s=_s: sa_stage(m, s), more_train if _s else None)
    OBJECTS[f"batch {_m}"] = ("esat.model.batch_sa", "BatchSA", lambda m=_m: batch(m, True), more_batch)
    OBJECTS[f"bootstrap {_m}"] = ("esat.error.bootstrap", "Bootstrap", lambda m=_m: bootstrap(m, True), more_bs)
    OBJECTS[f"constrained {_m}"] = ("esat.rotational.constrained", "ConstrainedModel", lambda m=_m: constrained(m, True, True), more_cm)
OBJECTS["model 1 factor"] = ("esat.model.sa", "SA", lambda: sa_stage("ls-nmf", 2, 1), more_train)
OBJECTS["batch untrained"] = ("esat.model.batch_sa", "BatchSA", lambda: batch("ls-nmf", False), more_batch)
OBJECTS["batch with a hole"] = ("esat.model.batch_sa", "BatchSA", lambda: batch("ls-nmf", True, True), None)
OBJECTS["bootstrap not run"] = ("esat.error.bootstrap", "Bootstrap", lambda: bootstrap("ls-nmf", False), more_bs)
OBJECTS["displacement 2"] = ("esat.error.displacement", "Displacement", lambda: displacement(2, True), more_disp)
OBJECTS["displacement 1"] = ("esat.error.displacement", "Displacement", lambda: displacement(1, True), more_disp)
OBJECTS["displacement not run"] = ("esat.error.displacement", "Displacement", lambda: displacement(2, False), more_disp)
OBJECTS["bsdisp"] = ("esat.error.bs_disp", "BSDISP", bsdisp, more_bsdisp)
OBJECTS["constrained plain"] = ("esat.rotational.constrained", "ConstrainedModel", lambda: constrained("ls-nmf", True, False), more_cm)
for _s in (1, 2, 3):
    OBJECTS[f"simulator {_s}"] = ("esat_eval.simulator", "Simulator", lambda s=_s: simulator(s), more_sim)


def save(o, name, d, pkl):
    kind = type(o).__name__
    if kind in ("SA", "ConstrainedModel"):
        return o.save(name, d, pickle_model=pkl)
    if kind == "BatchSA":
        return o.save(name, d, pickle_batch=pkl)
    if kind == "Simulator":
        return o.save(name, d)
    return o.save(name, d, pickle_result=pkl)


def pickle_name(o, name):
    return {"ConstrainedModel": f"constrained_model-{name}.pkl", "Simulator": "esat_simulator.pkl"}.get(type(o).__name__, f"{name}.pkl")


def files(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def load(key, path):
    mod, cls, _, _ = OBJECTS[key]
    return getattr(core.esat(mod), cls).load(path)


# -- round trips --------------------------------------------------------------------------------------------------
def roundtrip(ctx, key, name):
    if not ctx.case("round trip", key, name):
        return
    mod, cls, make, more = OBJECTS[key]
    with ctx.guard("saving and loading"), core.quiet(), core.scratch() as d:
        o = make()
        before = plain(o)
        other = os.path.join(d, "bystander.pkl")
        open(other, "wb").write(b"x")
        r = save(o, name, d, True)
        path = os.path.join(d, pickle_name(o, name))
        ctx.expect(plain(o) == before, "saving changed the object", lambda: where(before, plain(o)))
        if cls == "Simulator":
            ctx.expect(r is True, f"save returned {r!r}")
        else:
            ctx.expect(r is not None and str(r) == path, f"save returned {r!r}")
        ctx.expect(os.path.isfile(path), f"no file {pickle_name(o, name)}: {sorted(os.listdir(d))}")
        ctx.expect(open(other, "rb").read() == b"x", "another file was changed")
        for p in (path, __import__("pathlib").Path(path)):
            back = load(key, p)
            ctx.expect(type(back).__name__ == cls, f"load returned {type(back).__name__}")
            ctx.expect(plain(back) == before, "the loaded object differs", lambda: where(before, plain(back)))
        ctx.expect(back is not o, "load returned the same object")
        if more is not None:
            ctx.expect(plain(more(back)) == plain(more(o)), "the loaded object continues differently")
        # saving again replaces the file
        if more is not None:
            save(o, name, d, True)
            ctx.expect(plain(load(key, path)) == plain(o), "the second save under the same name is not what is loaded")
        # refused
        for bad in ("relative.pkl", os.path.join(d, "no such file.pkl"), d, os.path.join(d, "no", path[1:])):
            try:
                got = load(key, bad)
            except Exception as e:
                got = repr(e)
            ctx.expect(got is None, f"load of {bad!r} returned {got!r}")
        here = os.getcwd()
        os.chdir(d)                                 # a path that is not absolute, although there is such a file
        try:
            for bad in (os.path.basename(path), os.path.join(".", os.path.basename(path))):
                got = load(key, bad)
                ctx.expect(got is None, f"load of the relative path {bad!r} returned {got!r}")
        finally:
            os.chdir(here)
        for content in (b"", b"hello", b"\x80\x05cno_such_module\nThing\n.", b"\x00" * 64):
            open(path, "wb").write(content)
            try:
                got = load(key, path)
            except Exception as e:
                got = repr(e)
            ctx.expect(got is None, f"load of {content[:20]!r} returned {got!r}")
        had = files(d)
        here = os.getcwd()
        os.chdir(d)
        try:
            for pkl in (True, False):
                for bad in (".", "sub", os.path.join(d, "missing")):
                    r = save(o, name, bad, pkl)
                    ctx.expect(r is None or r is False, f"save to {bad!r} returned {r!r}")
        finally:
            os.chdir(here)
        ctx.expect(files(d) == had, f"save to a refused directory wrote files: {sorted(set(files(d)) - set(had))}")
        ctx.state((key, name))
        ctx.outcome([cls, more is not None])


# -- histories ----------------------------------------------------------------------------------------------------
def history(ctx, kind, ops):
    if not ctx.case("history", kind, list(ops)):
        return
    with ctx.guard("a history of saves and loads"), core.quiet(), core.scratch() as d:
        key = "batch ls-nmf" if kind == "batch" else f"model {kind} stage 2"
        o = OBJECTS[key][2]() if kind != "batch" else batch("ls-nmf", False)
        saved = {}
        for op in ops:
            ctx.step()
            if op == "train":
                o.train(max_iter=2, converge_n=10 ** 6) if kind != "batch" else o.train()
            elif op[:4] == "save":
                n = op[5:]
                save(o, n, d, True)
                saved[n] = plain(o)
            else:
                n = op[5:]
                back = load(key, os.path.join(d, n + ".pkl"))
                if n not in saved:
                    ctx.expect(back is None, "something was loaded that was never saved")
                else:
                    ctx.expect(plain(back) == saved[n], f"load of {n} is not the last save under this name", lambda: where(saved[n], plain(back)))
                    o = back
            for n, want in saved.items():
                ctx.expect(plain(load(key, os.path.join(d, n + ".pkl"))) == want, f"the file of {n} changed")
            ctx.state((kind, plain(o), sorted(saved.items())))


# -- text files ---------------------------------------------------------------------------------------------------
def table(ctx, path, rows, header, want, what):
    lines = open(path).read().rstrip("\n").split("\n")
    got = np.array([[float(x) for x in l.split(",")] for l in lines[-rows:]])
    ctx.expect(got.shape == np.shape(want) and np.array_equal(got, np.asarray(want, float)), f"{what}: values", lambda: {"got": got, "want": want})
    if header is not None:
        ctx.expect(lines[-rows - 1] == ",".join(header), f"{what}: header {lines[-rows - 1]!r}")


def model_files(ctx, d, name, sa, header, metadata=None):
    m, n = np.shape(sa.V)
    fh = None if header is None else [f"Factor {i + 1}" for i in range(sa.factors)]
    table(ctx, os.path.join(d, f"{name}-profile.csv"), sa.factors, header, sa.H, "profiles")
    table(ctx, os.path.join(d, f"{name}-contribution.csv"), m, fh, sa.W, "contributions")
    table(ctx, os.path.join(d, f"{name}-vprime.csv"), m, header, sa.WH, "estimated data")
    table(ctx, os.path.join(d, f"{name}-residuals.csv"), m, header, np.asarray(sa.V) - np.asarray(sa.WH), "residuals")
    if metadata is not False:
        jsonfile(ctx, os.path.join(d, f"{name}-metadata.json"), sa.metadata, "metadata")


def tojson(o):
    if isinstance(o, dict):
        return {str(k): tojson(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [tojson(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted(tojson(v) for v in o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return o


def jsonfile(ctx, path, want, what):
    got = json.load(open(path))
    ctx.expect(repr(got) == repr(tojson(want)), f"{what}: {str(got)[:300]}, not {str(tojson(want))[:300]}")


def frame(ctx, path, df, what, index):
    got = pd.read_csv(path, index_col=0 if index else None)
    ok = list(got.columns) == [str(c) for c in df.columns] and len(got) == len(df)
    if ok:
        for c in df.columns:
            a, b = got[str(c)], df[c]
            ok = ok and (lib.close(a, b.astype(float), 1e-12, 0) if a.dtype.kind in "fi" else [str(x) for x in a] == [str(x) for x in b])
        if index:
            ok = ok and [str(i) for i in (pd.to_datetime(got.index) if df.index.dtype.kind == "M" else got.index)] == [str(i) for i in df.index]
    ctx.expect(ok, f"{what}: the file does not hold the table", lambda: {"got": got.head(3).values, "want": df.head(3).values})


def bootstrap_files(ctx, d, name, bs):
    want = {k: {n: v for n, v in r.items() if n in ("index", "mapping")} for k, r in bs.bs_results.items()}
    got = json.load(open(os.path.join(d, f"{name}-results.json")))
    ctx.expect(list(got) == [str(k) for k in want], "bootstrap runs in the file")
    for k in want:
        r = got[str(k)]
        ctx.expect([int(i) for i in r["index"]] == [int(i) for i in want[k]["index"]], f"index of run {k}")
        ctx.expect(repr(r["mapping"]) == repr(tojson(want[k]["mapping"])), f"mapping of run {k}")
    frame(ctx, os.path.join(d, f"{name}-mapping.csv"), bs.mapping_df, "mapping", False)
    frame(ctx, os.path.join(d, f"{name}-qtable.csv"), bs.q_results, "Q table", True)
    for n, v in (("ftables", bs.factor_tables), ("profiles", bs.bs_profiles), ("contributions", bs.bs_factor_contributions)):
        jsonfile(ctx, os.path.join(d, f"{name}-{n}.json"), v, n)


def disp_files(ctx, d, name, disp):
    jsonfile(ctx, os.path.join(d, f"{name}-metadata.json"), disp.metadata, "metadata")
    jsonfile(ctx, os.path.join(d, f"{name}-increase-disp.json"), disp.increase_results, "increase")
    jsonfile(ctx, os.path.join(d, f"{name}-decrease-disp.json"), disp.decrease_results, "decrease")
    frame(ctx, os.path.join(d, f"{name}-results.csv"), disp.compiled_results, "results", False)
    lv = list(disp.dQmax)
    want = np.hstack([np.array(lv, float)[:, None], np.round(100 * np.asarray(disp.swap_table) / np.asarray(disp.count_table), 2)])
    lines = open(os.path.join(d, f"{name}-swaptable.csv")).read().rstrip("\n").split("\n")
    got = np.array([[float(x) for x in l.split(",")] for l in lines[-len(lv):]])
    ctx.expect(lib.close(got, want, 1e-12), f"swap table {got.tolist()}, not {want.tolist()}")
    labels = [x.strip() for x in lines[0].lstrip("# ").split(",")]
    ctx.expect(labels == ["dQ Max"] + [f"Factor {i + 1}" for i in range(disp.factors)], f"header of the swap table {labels}")


def text(ctx, key, name, header):
    if not ctx.case("text", key, name, header):
        return
    mod, cls, make, _ = OBJECTS[key]
    with ctx.guard("saving as text"), core.quiet(), core.scratch() as d:
        o = make()
        before = plain(o)
        if cls == "SA":
            r = o.save(name, d, header=header)
            model_files(ctx, d, name, o, header)
        elif cls == "BatchSA":
            r = o.save(name, d, pickle_batch=False, header=header)
            want = 0
            for i, sa in enumerate(o.results):
                if sa is not None:
                    model_files(ctx, d, f"{name}-model-{i}", sa, header)
                    want += 5
            ctx.expect(len(os.listdir(d)) == want, f"files {sorted(os.listdir(d))}")
            with core.scratch() as d2:
                o.save(name, d2, pickle_batch=False, pickle_model=True)
                ctx.expect(sorted(os.listdir(d2)) == sorted(f"{name}-model-{i}.pkl" for i, s in enumerate(o.results) if s is not None),
                           f"pickled models {sorted(os.listdir(d2))}")
                for i, sa in enumerate(o.results):
                    if sa is not None:
                        ctx.expect(plain(core.esat("esat.model.sa").SA.load(os.path.join(d2, f"{name}-model-{i}.pkl"))) == plain(sa), f"pickle of model {i}")
        elif cls == "Bootstrap":
            r = o.save(name, d, pickle_result=False)
            bootstrap_files(ctx, d, name, o)
            jsonfile(ctx, os.path.join(d, f"{name}-metadata.json"), o.metadata, "metadata")
        elif cls == "Displacement":
            r = o.save(name, d, pickle_result=False)
            disp_files(ctx, d, name, o)
        elif cls == "BSDISP":
            r = o.save(name, d, pickle_result=False)
            for k, disp in o.disp_results.items():
                disp_files(ctx, d, f"{name}-{k}", disp)
            for n, v in (("ftables", o.bootstrap.factor_tables), ("profiles", o.bootstrap.bs_profiles)):
                jsonfile(ctx, os.path.join(d, f"{name}-{n}.json"), v, n)
            frame(ctx, os.path.join(d, f"{name}-mapping.csv"), o.bootstrap.mapping_df, "mapping", False)
            frame(ctx, os.path.join(d, f"{name}-results.csv"), o.compiled_results, "results", False)
        elif cls == "ConstrainedModel":
            r = o.save(name, d)
            full = f"constrained_model-{name}"
            model_files(ctx, d, full, o.constrained_model, list(o.dh.features), False)
            meta = json.load(open(os.path.join(d, f"{full}-metadata.json")))
            for k, v in o.constrained_model.metadata.items():
                if k not in o.metadata:
                    ctx.expect(repr(meta.get(k)) == repr(tojson(v)), f"metadata {k}: {meta.get(k)!r}, not {v!r}")
            for k, v in o.metadata.items():
                ctx.expect(repr(meta.get(k)) == repr(tojson(v)), f"metadata {k}: {meta.get(k)!r}, not {v!r}")
            ctx.expect(len(meta["constraints"]) == len(o.constraints) and all(k in s and c.constraint_type in s for s, (k, c) in zip(meta["constraints"], o.constraints.items())),
                       f"constraints {meta['constraints']}")
            ctx.expect(meta["expressions"] == tojson(o.expressions), f"expressions {meta['expressions']}")
            ctx.expect(meta["softness"] == o.softness, "softness")
        else:
            r = d if o.save(name, d) is True else None
            for n, df in (("data", o.syn_data_df), ("uncertainty", o.syn_uncertainty_df), ("profiles", o.syn_profiles_df), ("contributions", o.syn_contributions_df)):
                frame(ctx, os.path.join(d, f"{name}_{n}.csv"), df, n, True)
            a, p = np.asarray(o.syn_sa.W), np.asarray(o.syn_sa.H)
            ctx.expect(lib.close(o.syn_contributions_df.values, a, 1e-6) and lib.close(o.syn_profiles_df.values.T, p, 1e-6), "tables of the simulator")
        ctx.expect(str(r) == d, f"save returned {r!r}")
        ctx.expect(plain(o) == before, "saving changed the object", lambda: where(before, plain(o)))
        ctx.outcome([cls, sorted(len(f) for f in os.listdir(d))])
        ctx.state(("text", key, name, header))


# -- crash points -------------------------------------------------------------------------------------------------
def crash(ctx, key, part, parts):
    mod, cls, make, _ = OBJECTS[key]
    with core.quiet(), core.scratch() as d:
        o = make()
        save(o, "m", d, True)
        path = os.path.join(d, pickle_name(o, "m"))
        blob = open(path, "rb").read()
        n = len(blob)
        stride = 1 if ctx.thorough or n <= 12000 else 7
        torn = os.path.join(d, "torn.pkl")
        with open(torn, "w+b", buffering=0) as f:
            f.write(blob)
            hi = n - 1 - (n * part // parts)
            lo = n - (n * (part + 1) // parts) if part + 1 < parts else 0
            for kind in ("cut", "zero"):
                os.pwrite(f.fileno(), blob, 0)
                f.truncate(n)
                for k in range(n - 1, lo - 1, -1):
                    if kind == "cut":
                        if k > hi:
                            continue
                        f.truncate(k)
                    else:
                        os.pwrite(f.fileno(), b"\0", k)
                        if k > hi or (k % stride and k > 64 and k < n - 64):
                            continue
                    if not ctx.case("crash", key, kind, k):
                        continue
                    with ctx.guard(f"loading a file {'cut off at' if kind == 'cut' else 'zero filled from'} byte {k} of {n}"):
                        got = load(key, torn)
                        ctx.expect(got is None, f"a file {kind} at byte {k} of {n} was loaded as {type(got).__name__}")
                    ctx.step()
        ctx.state(("crash", key, part, n))
        ctx.outcome([key, "refused"])


def work(ctx, job):
    if job[0] == "round":
        for name in NAMES if job[2] else NAMES[:1]:
            roundtrip(ctx, job[1], name)
    elif job[0] == "history":
        depth = 6 if ctx.thorough else 4
        ops = ["train", "save a", "save b", "load a", "load b"]
        for n in range(1, depth + 1):
            for i, seq in enumerate(itertools.product(ops, repeat=n)):
                if i % job[3] == job[2] and (n < 6 or job[1] == "ls-nmf"):
                    history(ctx, job[1], seq)
    elif job[0] == "text":
        for name in NAMES if job[2] else NAMES[:1]:
            for header in (None, ["a", "b c", "Fe-2"]) if "model" in job[1] or "batch" in job[1] else (None,):
                text(ctx, job[1], name, header)
    elif job[0] == "callback":
        callback(ctx, job)
    else:
        crash(ctx, *job[1:])


def called(*x):
    pass


def callback(ctx, job):
    """a batch that reports its progress to the running application is saved like any other"""
    for which, trained in itertools.product(("closure", "method", "function"), (False, True)):
        if not ctx.case("callback", which, trained):
            continue
        with ctx.guard("saving a batch with a progress callback"), core.quiet(), core.scratch() as d:
            told = []
            b = batch("ls-nmf", trained)
            want = plain(b)
            b.progress_callback = cb = {"closure": lambda *x: told.append(x), "method": open(os.devnull).read, "function": called}[which]
            r = b.save("b", d, pickle_batch=True)
            ctx.expect(r is not None and os.path.isfile(os.path.join(d, "b.pkl")), f"save returned {r!r}")
            ctx.expect(b.progress_callback is cb, "saving took the callback from the batch")
            back = load("batch ls-nmf", os.path.join(d, "b.pkl"))
            if ctx.expect(type(back).__name__ == "BatchSA", f"load returned {back!r}"):
                ctx.expect(back.progress_callback is (called if which == "function" else None), f"callback of the loaded batch {back.progress_callback}")
                back.progress_callback = None
                ctx.expect(plain(back) == want, "the loaded object differs", lambda: where(want, plain(back)))
            ctx.state(("callback", which, trained))


def run(ctx):
    jobs = []
    for key in OBJECTS:
        jobs.append(("round", key, "model" in key or ctx.thorough))
        if "stage 0" not in key and "stage 1" not in key and "not run" not in key and "untrained" not in key:
            jobs.append(("text", key, "model" in key or ctx.thorough))
    for key in ("model ls-nmf stage 3", "model ws-nmf stage 2", "batch ls-nmf", "bootstrap ls-nmf", "displacement 2", "bsdisp", "constrained ls-nmf",
                "simulator 1"):
        parts = 4
        jobs += [("crash", key, p, parts) for p in range(parts)]
    jobs += [("callback",)]
    for kind in ("ls-nmf", "ws-nmf", "batch"):
        jobs += [("history", kind, p, 8) for p in range(8)]
    core.shards(ctx, work, jobs)
