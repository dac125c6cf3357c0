"""C40 representation of the inputs"""
import itertools
import numbers
import types
import logging
import numpy as np
import pandas as pd
import core, lib, sched, errlib, c01, c02, c09, c25, c30, c39

PROPERTY = {
    "title": "Results depend on the values of the inputs, not on how they are stored",
    "statement": "Every object of the package (models, batches, error estimations, constrained models, factor estimation, perturbation, factor catalog and comparison, data handlers and model analysis) gives the same results for the same values, whether the arrays and dataframes it is given are in row or column order, views of larger or reversed arrays, read only, of float64, float32 or integer type, or dataframes of one or many blocks, and whether settings are numbers of Python or of numpy; the base models it is given may hold such arrays too. None of them writes into what it was given, even when it could.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all kinds of objects and settings, all pairs of representations of data and uncertainty, all of base models and dataframes"},
    "why_tests_cant": "The tests pass one freshly made float64 array; arrays that are views, transposed or read only are what pandas and slicing give a user, and wrong strides or a write into them shows only there.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py",
                          "esat/rotational/constrained.py", "esat/estimator.py", "esat/data/datahandler.py", "esat/data/analysis.py",
                          "eval/perturbation.py", "eval/factor_catalog.py", "eval/factor_comparison.py"],
                "mechanism": [{"name": "conversion of the inputs", "where": "__init__ of all classes, SA.initialize"}],
                "observe_at": ["public attributes of the objects", "results of their methods", "the arrays of the caller"]},
}
SPEC = {"level": "exploration",
        "rule": "every combination of kind of object, setting, representation of the data and of the uncertainty (for objects made from arrays), of the matrices of the base model, or of the two dataframes (for those made from them); non-trivial: distinct combinations",
        "bounds": {"quick": "21 kinds and settings x 2 variants; 7 representations of arrays (row order, column order, strided view, reversed view, transposed view, read only, float32) for data x uncertainty, and integers for the data; 7 for the base model; 7 of dataframes; settings as numbers of Python and of numpy",
                   "thorough": "also base model x data representations"},
        "assumptions": ["values that float32 holds exactly", "a zero uncertainty makes the equations of ws-nmf singular: with it only the inputs are checked", "results agree to 2e-3 of the largest entry of each array (the order of summation may differ)"]}


def strided(a):
    b = np.full((2 * a.shape[0], 3 * a.shape[1]), 77.0, dtype=a.dtype)
    b[::2, ::3] = a
    return b[::2, ::3]


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


ARRAYS = {"row": np.array, "column": lambda a: np.array(a, order="F"), "strided": strided, "reversed": lambda a: np.array(a[::-1, ::-1])[::-1, ::-1],
          "transposed": lambda a: np.array(a.T).T, "read only": readonly, "float32": lambda a: np.array(a, dtype=np.float32)}
WHOLE = {"integer": lambda a: np.array(a, dtype=np.int64), "integer column": lambda a: np.array(a, dtype=np.int32, order="F"), "whole": np.array}


def blocks(df):
    out = pd.DataFrame(index=df.index)
    for c in df.columns:
        out[c] = df[c].copy()
    return out


def frozen(df):
    return pd.DataFrame(readonly(df.to_numpy()), columns=df.columns, index=df.index, copy=False)


FRAMES = {"copy": lambda d: d.copy(), "blocks": blocks, "read only": frozen,
          "column": lambda d: pd.DataFrame(np.array(d.to_numpy(), order="F"), columns=d.columns, index=d.index, copy=False),
          "slice": lambda d: pd.concat([d, d.rename(columns=lambda c: str(c) + "+")], axis=1).iloc[:, :len(d.columns)],
          "reversed": lambda d: d.iloc[::-1, ::-1].copy().iloc[::-1, ::-1], "float32": lambda d: d.astype("float32")}


def single(a):
    """values that float32 holds exactly"""
    return np.asarray(a, dtype=np.float32).astype(float)


class World(c39.World):
    def __init__(self, v="row", u="row", base="row", frame="copy"):
        reps = {**ARRAYS, **WHOLE}
        V = single(c02.shaped(c39.M, c39.N, 1))
        U = single(c01.unc(V, "mixed"))
        if v in WHOLE:
            V = np.round(3 * V)
            V[2, 1] = U[3, 0] = 0.0
        self.V, self.U = reps[v](V), reps[u](U)
        self.frame = FRAMES[frame]
        rep = ARRAYS[base]
        b = errlib.base_model(6, 3, 2, method="ls-nmf", k=1, iters=8)
        self.base = lib.SA(rep(single(b.V)), rep(single(b.U)), 2, method="ls-nmf", seed=4, verbose=False)
        self.base.initialize(H=rep(single(c01.start_h(2, 3, 1))), W=rep(np.abs(single(c01.start_h(6, 2, 1)))))
        self.base.train(max_iter=8, converge_delta=1e-3, converge_n=3)
        self.base.H, self.base.W = rep(np.array(b.H)), rep(np.array(b.W))
        self.dv, self.du = [FRAMES[frame](pd.DataFrame(single(d.to_numpy()), columns=d.columns, index=d.index)) for d in c30.frames(c39.M + 4, 0)]
        self.family = tuple(rep(single(x)) for x in c25.family(2, c39.M, c39.N, 1))
        models = [c25.make_sa(*c25.family(2, c39.M, c39.N, s)) for s in (1, 3, 2)]
        for m in models:
            m.H, m.W = rep(np.array(m.H)), rep(np.array(m.W))
        self.batch = c25.make_batch(models, 2)


def start(method):
    """models and batches with given start matrices"""
    def make(w, v):
        return c39.esat("esat.model.sa", "SA")(w.V - (2 if method == "ws-nmf" else 0), w.U, 2, method=method, seed=9, verbose=False), w

    def init(o, v):
        H, W = o[1].family
        o[0].initialize(H=H, W=None if v else W)
    return [make, init, lambda o, v: o[0].train(max_iter=5, converge_delta=1e-6, converge_n=3, hold_h=bool(v)) and None]


def batch_start():
    def make(w, v):
        H, W = w.family
        return c39.esat("esat.model.batch_sa", "BatchSA")(V=w.V, U=w.U, factors=2, models=2, seed=5, H=H, W=None if v else W, max_iter=4, converge_delta=1e-6,
                                                        converge_n=3, parallel=bool(v), verbose=False)
    return [make, lambda o, v: o.train() and None]


def comparison():
    def make(w, v):
        H, W = w.family
        names = ["Factor 1", "Factor 2"]
        V = pd.DataFrame(single(W @ H + 0.02), columns=[f"s{j}" for j in range(c39.N)])
        fr = [w.frame(x) for x in (V, V * 0.5, pd.DataFrame(np.array(H.T), columns=names), pd.DataFrame(np.array(W), columns=names))]
        o = c39.esat("esat_eval.factor_comparison", "FactorCompare")(input_df=fr[0], uncertainty_df=fr[1], base_profile_df=fr[2], base_contribution_df=fr[3],
                                                                   batch_sa=w.batch, method=("all", "W")[v])
        w.given = fr, [x.copy() for x in fr]
        return o, w

    def same(o, v):
        return all(a.equals(b) and list(a) == list(b) for a, b in zip(*o[1].given))
    return [make, lambda o, v: o[0].compare(), same]


def constrained_frames():
    def make(w, v):
        D = core.esat("esat.data.datahandler").DataHandler
        ix = pd.date_range("2021-03-01", periods=6, freq="D", name="Date")
        fr = [w.frame(pd.DataFrame(single(x), columns=["a", "b", "c"], index=ix)) for x in (w.base.V, w.base.U)]
        return c39.esat("esat.rotational.constrained", "ConstrainedModel")(base_model=w.base, data_handler=D.load_dataframe(*fr))

    def add(o, v):
        o.add_constraint(("pull down", "set to base value")[v], (0, 1), ("feature", "sample")[v], dQ=(70.0, None)[v])
        o.train(max_iterations=3, converge_delta=1e-9, converge_n=10)
    return [make, add]


KINDS = dict(c39.KINDS)
KINDS.update({"start ls": start("ls-nmf"), "start ws": start("ws-nmf"), "batch start": batch_start(), "comparison of frames": comparison(), "constrained frames": constrained_frames()})
ARRAY_KINDS = ("model ls", "model ws", "batch", "batch parallel", "estimator", "start ls", "start ws", "batch start")
BASE_KINDS = ("bootstrap", "bootstrap parallel", "displacement", "displacement parallel", "bsdisp", "constrained", "perturbation", "catalog", "comparison",
              "start ls", "start ws", "batch start")
FRAME_KINDS = ("handler", "analysis", "comparison of frames", "constrained frames")


def values(o, seen=()):
    """the numbers and texts of an object, whatever holds them"""
    if o is None or isinstance(o, (bool, np.bool_, str)):
        return ("text", str(o))
    if isinstance(o, (numbers.Number, np.generic)) and not isinstance(o, (np.datetime64, pd.Timestamp)):
        return ("n", np.asarray(o, dtype=float).reshape(1, 1) if not isinstance(o, complex) else str(o))
    if isinstance(o, np.ndarray):
        return ("n", np.asarray(o, dtype=float)) if o.dtype.kind in "biuf" else ("text", o.shape, [values(x) for x in o.ravel()])
    if isinstance(o, (pd.DataFrame, pd.Series)):
        frame = o.to_frame() if isinstance(o, pd.Series) else o
        return ("frame", str(list(frame.columns)), "now" if isinstance(o.index, pd.DatetimeIndex) and len(o) and o.index[0].year > 2021 else str(list(frame.index)), [values(np.array(frame.iloc[:, j].to_list(), dtype=frame.iloc[:, j].dtype if frame.iloc[:, j].dtype.kind in "biuf" else object)) for j in range(frame.shape[1])])
    if isinstance(o, pd.Index):
        return ("text", str(list(o)))
    if isinstance(o, np.random.Generator):
        return ("text", repr(o.bit_generator.state))
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, logging.Logger, types.ModuleType)):
        return ("text", "code")
    if any(o is s for s in seen):
        return ("text", "cycle")
    seen = seen + (o,)
    if isinstance(o, dict):
        return ("d", [(str(k), values(v, seen)) for k, v in o.items() if not c39.timed(str(k))])
    if isinstance(o, (list, tuple)):
        return ("l", [values(v, seen) for v in o])
    if isinstance(o, (set, frozenset)):
        return ("text", sorted(map(str, o)))
    if hasattr(o, "__dict__"):
        return ("d", sorted(((k, values(v, seen)) for k, v in vars(o).items() if not k.startswith("_") and not c39.timed(k)), key=lambda t: t[0]))
    return ("text", repr(o))


def differ(a, b, path=""):
    """first place where two contents are not the same values"""
    if type(a) is not type(b):
        return path, str(a)[:200], str(b)[:200]
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return path, str(a)[:300], str(b)[:300]
        f = np.isfinite(a)
        scale = max(np.abs(a[f]).max(initial=0.0), np.abs(b[f]).max(initial=0.0))
        if not np.all(np.abs(a[f] - b[f]) <= 1e-6 + 2e-3 * scale):
            return path, str(a)[:300], str(b)[:300]
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path, str(a)[:200], str(b)[:200]
        name = a[0] if isinstance(a, tuple) and isinstance(a[0], str) and len(a) == 2 else None
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}/{name}" if name not in (None, "d", "l", "n", "text") and i == 1 else path)
            if d:
                return d
        return None
    return None if a == b else (path, str(a)[:200], str(b)[:200])


def numpied(x):
    """the same settings as numbers of numpy"""
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, (int, float)):
        return np.int64(x) if isinstance(x, int) else np.float64(x)
    return type(x)(numpied(y) for y in x) if type(x) in (tuple, list) else x


class Numpied:
    """passes calls on with the settings as numbers of numpy"""
    def __init__(self, o):
        self.o = o

    def __call__(self, *a, **k):
        return self.o(*[numpied(x) for x in a], **{n: numpied(x) for n, x in k.items()})

    def __getattr__(self, name):
        x = getattr(self.o, name)
        return Numpied(x) if callable(x) else x


def play(kind, v, world, settings="python"):
    res, o = [], None
    real = c39.esat
    wrap = Numpied if settings == "numpy" else lambda x: x
    try:
        c39.esat = lambda mod, cls: wrap(real(mod, cls))
        with core.quiet(), core.NoRustLeft(), sched.controlled():
            for i, call in enumerate(KINDS[kind]):
                if i:
                    res.append(values(call(tuple(map(wrap, o[:1])) + o[1:] if isinstance(o, tuple) else wrap(o), v)))
                else:
                    o = call(world, v)
    finally:
        c39.esat = real
    return [values(o[0] if isinstance(o, tuple) else o), res]


_want = {}


def work(ctx, job):
    kind, v, reps, settings = job
    if not ctx.case(kind, v, list(reps), settings):
        return
    with ctx.guard(f"{kind} with data {reps[0]}, uncertainty {reps[1]}, base model {reps[2]}, dataframes {reps[3]}, {settings} settings"):
        plain = ("whole" if reps[0] in WHOLE else "row", "row", "row", "copy")
        if (kind, v, plain[0]) not in _want:
            with core.quiet(), core.NoRustLeft():
                w = World(*plain)
            _want[kind, v, plain[0]] = play(kind, v, w)
        with core.quiet(), core.NoRustLeft():
            w = World(*reps)
            before = w.content()
        got = play(kind, v, w, settings)
        ctx.step(len(KINDS[kind]))
        ctx.expect(w.content() == before, f"{kind}: the arrays of the caller changed", lambda: c09.where(before, w.content()))
        # a zero uncertainty makes the equations solved by ws-nmf singular: there only the inputs are checked
        ws = reps[0] in WHOLE and (kind in ("model ws", "start ws") or kind in ("batch", "batch parallel") and v)
        d = None if ws else differ(_want[kind, v, plain[0]], got)
        ctx.expect(d is None, f"{kind}: other results for data {reps[0]}, uncertainty {reps[1]}, base model {reps[2]}, dataframes {reps[3]}, {settings} settings", d)
        ctx.state((kind, v, reps, settings))
        ctx.outcome([kind, v])


def run(ctx):
    jobs = []
    for kind in KINDS:
        for v in (0, 1):
            jobs.append((kind, v, ("row", "row", "row", "copy"), "numpy"))
            if kind in ARRAY_KINDS:
                jobs += [(kind, v, (a, b, "row", "copy"), "python") for a, b in itertools.product(list(ARRAYS) + list(WHOLE), ARRAYS)]
            if kind in BASE_KINDS:
                jobs += [(kind, v, ("row", "row", b, "copy"), "python") for b in ARRAYS]
                if ctx.thorough:
                    jobs += [(kind, v, (a, a, b, "copy"), "python") for a in ARRAYS for b in ARRAYS]
            if kind in FRAME_KINDS:
                jobs += [(kind, v, ("row", "row", "row", f), "python") for f in FRAMES]
    core.shards(ctx, work, jobs)
