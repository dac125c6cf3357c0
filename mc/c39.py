"""C39 objects alive at the same time"""
import os
import pickle
import signal
import itertools
import numpy as np
import pandas as pd
import core, lib, sched, errlib, c01, c02, c09, c25, c30

PROPERTY = {
    "title": "Objects alive at the same time do not influence each other",
    "statement": "Two objects of the package, of the same or of different kinds, created from their own or from the same data and the same base model, each end with exactly the results they have when used alone, in whatever order the calls to the one and to the other alternate. The shared data and base model are unchanged, and nothing an earlier object did in the same process shows in a later one.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all pairs of kinds of objects, all interleavings of their calls, shared or separate inputs"},
    "why_tests_cant": "The tests use one object at a time; state kept in a class, in a default argument or in a shared input shows only when the calls to two objects alternate.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py",
                          "esat/rotational/constrained.py", "esat/estimator.py", "esat/data/datahandler.py", "esat/data/analysis.py",
                          "eval/simulator.py", "eval/perturbation.py", "eval/factor_catalog.py", "eval/factor_comparison.py"],
                "mechanism": [{"name": "state of the objects", "where": "__init__ and the methods of all classes"}],
                "observe_at": ["public attributes of the objects", "results of their methods"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of the interleavings of the calls to two objects on the real code, each in a fresh process, against the objects used alone",
        "bounds": {"quick": "every pair out of 17 kinds and settings of objects (up to 3 calls each, up to 4 for two of the same kind, the two with different seeds and settings) with every interleaving of their calls (up to 20, of the same kind up to 70), with separate and with shared data and base model",
                   "thorough": "up to 4 calls each (up to 70 interleavings), both assignments of the settings to the two, and three objects of the same kind"},
        "assumptions": ["attributes whose names begin with an underscore and times are not compared",
                        "calls alternate as a whole (one thread)"]}

M, N = 8, 4


class World:
    """data and base models objects are made from"""
    def __init__(self):
        self.V = np.array(c02.shaped(M, N, 1), dtype=float)
        self.U = np.array(c01.unc(self.V, "mixed"), dtype=float)
        self.base = errlib.base_model(6, 3, 2, method="ls-nmf", k=1, iters=8)
        self.dv, self.du = c30.frames(M + 4, 0)
        self.family = c25.family(2, M, N, 1)
        self.batch = c25.make_batch([c25.make_sa(*c25.family(2, M, N, s)) for s in (1, 3, 2)], 2)

    def content(self):
        return c09.plain([self.V, self.U, self.base, self.dv, self.du, self.family, [(r.H, r.W, r.V) for r in self.batch.results]])


def esat(mod, cls):
    return getattr(core.esat(mod), cls)


# an actor: a list of calls o, w -> o or result; the first makes the object
def sa(method):
    def make(w, v):
        V = w.V - (2.0 if method == "ws-nmf" else 0.0) if method == "ws-nmf" else w.V
        return esat("esat.model.sa", "SA")(V=V, U=w.U, factors=2, method=method, seed=(9, 31)[v], verbose=False)
    return [make, lambda o, v: o.initialize(init_method=("column_mean", "kmeans")[v]) and None,
            lambda o, v: o.train(max_iter=4 + v, converge_delta=(1e-6, 1.0)[v], converge_n=3) and None,
            lambda o, v: o.train(max_iter=2, converge_delta=1e-6, converge_n=3) and None]


def batch(parallel):
    def make(w, v):
        return esat("esat.model.batch_sa", "BatchSA")(V=w.V, U=w.U, factors=2 + v, models=2 + v, method=("ls-nmf", "ws-nmf")[v], seed=(5, 8)[v],
                                                      max_iter=4, converge_delta=1e-6, converge_n=3, parallel=parallel, cores=2, verbose=False)
    return [make, lambda o, v: o.train() and None, lambda o, v: o.train() and None, lambda o, v: o.details()]


def bootstrap(parallel):
    def make(w, v):
        return esat("esat.error.bootstrap", "Bootstrap")(sa=w.base, bootstrap_n=2 + v, block_size=2, threshold=(0.6, 0.9)[v], parallel=parallel, cpus=2,
                                                         seed=(11, 4)[v])
    return [make, lambda o, v: o.run(keep_H=bool(v), block=not v), lambda o, v: o.run(keep_H=not v, reuse_seed=bool(v)), lambda o, v: o.summary()]


def displacement(parallel):
    def make(w, v):
        return esat("esat.error.displacement", "Displacement")(sa=w.base, feature_labels=["a", "b", "c"], model_selected=v, features=None if v else [1],
                                                               threshold_dQ=(0.1, 0.3)[v], parallel=parallel, cores=2)
    return [make, lambda o, v: o.run(batch=-1), lambda o, v: o.summary()]


def bsdisp():
    def make(w, v):
        return esat("esat.error.bs_disp", "BSDISP")(sa=w.base, feature_labels=["a", "b", "c"], model_selected=v, bootstrap_n=2, block_size=2 + v,
                                                    threshold=0.9, threshold_dQ=(0.05, 0.1)[v], features=[v], seed=(3, 7)[v], cores=2)
    return [make, lambda o, v: o.run(keep_H=bool(v), parallel=bool(v)), lambda o, v: o.summary()]


def constrained():
    def make(w, v):
        return esat("esat.rotational.constrained", "ConstrainedModel")(base_model=w.base, softness=(1.0, 0.5)[v], data_handler=w.__dict__.setdefault(
            "dh", esat("esat.data.datahandler", "DataHandler").load_dataframe(*frames(w))))

    def add(o, v):
        if v:
            o.add_constraint("pull down", (0, 1), "feature", dQ=70.0)
            o.add_expression("(0.66*[factor:1|feature:2])-(4.2*[factor:0|feature:1])=0,250")
        else:
            o.add_constraint("set to zero", (1, 0), "feature")

    def more(o, v):
        o.add_constraint("define limits", (1, 1), "sample", min_value=0.1, max_value=0.9)
        o.train(max_iterations=2, converge_delta=1e-9, converge_n=10)
    return [make, add, lambda o, v: o.train(max_iterations=3, converge_delta=1e-9, converge_n=10) and None, more]


def frames(w):
    ix = pd.date_range("2021-03-01", periods=w.base.V.shape[0], freq="D", name="Date")
    return [pd.DataFrame(np.asarray(x, float), columns=["a", "b", "c"], index=ix) for x in (w.base.V, w.base.U)]


def estimator():
    def make(w, v):
        return esat("esat.estimator", "FactorEstimator")(V=w.V, U=w.U, seed=(3, 10)[v], test_percent=(0.1, 0.3)[v])

    def run(lo, hi, n):
        return lambda o, v: o.run(samples=n + v, min_factors=lo, max_factors=hi + v, max_iterations=4, converge_delta=1e-6, converge_n=3)
    return [make, run(1, 3, 4), run(2, 3, 3)]


def perturbation():
    def make(w, v):
        base = w.__dict__.setdefault("pbase", w.batch.results[0])
        return esat("esat_eval.perturbation", "Perturbation")(V=base.V, U=base.U, factors=2, base_model=base, max_iterations=4, converge_n=3, converge_delta=1e-9,
                                                              random_seed=(42, 5)[v], models=2 + v, sigma=(0.2, 0.4)[v], perturb_percent=(0.5, 1.0)[v])
    return [make, lambda o, v: o.run(), lambda o, v: o.compare(), lambda o, v: o.run()]


def catalog():
    def make(w, v):
        o = esat("esat_eval.factor_catalog", "FactorCatalog")(method=("corr", "raae")[v], threshold=(0.8, 0.5)[v])
        return o, w

    def add(i):
        def call(o, v):
            return o[0].add_model(i, o[1].batch.results[(i + v) % 3], profile_only=bool(v))
        return call
    return [make, add(0), add(1), lambda o, v: [o[0].add_batch(o[1].batch, profile_only=bool(v)), o[0].to_df()]]


def comparison():
    def make(w, v):
        H, W = w.family
        names = ["Factor 1", "Factor 2"]
        V = pd.DataFrame(W @ H + 0.02, columns=[f"s{j}" for j in range(N)])
        return esat("esat_eval.factor_comparison", "FactorCompare")(input_df=V, uncertainty_df=V * 0.1 + 0.1, base_profile_df=pd.DataFrame(H.T, columns=names),
                                                                    base_contribution_df=pd.DataFrame(W, columns=names), batch_sa=w.batch, method=("all", "H")[v])
    return [make, lambda o, v: o.compare(), lambda o, v: o.print_results() if hasattr(o, "print_results") else None]


def simulator():
    def make(w, v):
        return esat("esat_eval.simulator", "Simulator")(seed=(3, 8)[v], factors_n=2 + v, features_n=3 + v, samples_n=6, verbose=False, outliers=bool(v))
    return [make, lambda o, v: o.get_data(), lambda o, v: o.update_contribution(v, ("increasing", "random")[v]), lambda o, v: o.get_data()]


def handler():
    def make(w, v):
        return esat("esat.data.datahandler", "DataHandler").load_dataframe(input_df=w.dv, uncertainty_df=w.du)
    return [make, lambda o, v: o.set_category("xyz"[v], ("weak", "bad")[v]), lambda o, v: o.get_data(),
            lambda o, v: (o.set_category("z", "weak"), o.get_data())]


def analysis():
    def make(w, v):
        D = esat("esat.data.datahandler", "DataHandler")
        if "adh" not in w.__dict__:
            w.adh = D.load_dataframe(input_df=w.dv, uncertainty_df=w.du)
            w.asa = [lib.SA(*w.adh.get_data(), f, method="ls-nmf", seed=3, verbose=False) for f in (2, 1)]
            for s in w.asa:
                s.initialize()
                s.train(max_iter=4, converge_delta=1e-6, converge_n=3)
        return esat("esat.data.analysis", "ModelAnalysis")(datahandler=w.adh, model=w.asa[v], selected_model=v)
    return [make, lambda o, v: o.calculate_statistics(), lambda o, v: o.calculate_statistics(results=np.asarray(o.model.WH) * (1.1 + 0.1 * v))]


KINDS = {"model ls": sa("ls-nmf"), "model ws": sa("ws-nmf"), "batch": batch(False), "batch parallel": batch(True), "bootstrap": bootstrap(False),
         "bootstrap parallel": bootstrap(True), "displacement": displacement(False), "displacement parallel": displacement(True), "bsdisp": bsdisp(),
         "constrained": constrained(), "estimator": estimator(), "perturbation": perturbation(), "catalog": catalog(), "comparison": comparison(),
         "simulator": simulator(), "handler": handler(), "analysis": analysis()}


def untimed(p):
    """content without times"""
    if isinstance(p, tuple) and p and p[0] == "d":
        return ("d", [(k, untimed(v)) for k, v in p[1] if not (isinstance(k, str) and timed(k))])
    if isinstance(p, tuple) and p and p[0] == "o" and isinstance(p[2], list):
        return ("o", p[1], [(k, untimed(v)) for k, v in p[2] if not timed(k)])
    if isinstance(p, tuple) and p and p[0] == "df" and "Timestamp" in p[2] and "Timestamp('2020" not in p[2] and "Timestamp('2021" not in p[2]:
        return p[:2] + (p[2].count("Timestamp"),) + p[3:]          # the samples of a simulator begin now
    if isinstance(p, (list, tuple)):
        return type(p)(untimed(x) for x in p)
    return p


def timed(k):
    k = k.lower()
    return "time" in k or "duration" in k or "elapsed" in k or k == "id" or "uuid" in k or k in ("creation_date", "completion_date")


def content(o):
    parts = o if isinstance(o, tuple) else (o,)
    o = parts[0]
    out = dict(vars(o))
    for c in type(o).__mro__[:-1]:
        for k, x in vars(c).items():
            if not k.startswith("_") and k not in out and not callable(x) and not isinstance(x, (property, staticmethod, classmethod)):
                out[k] = getattr(o, k)
    return untimed(("o", type(o).__name__, sorted(((k, c09.plain(x, 1, (o,))) for k, x in out.items() if not k.startswith("_")), key=lambda t: t[0])))


def play(actors, order, shared, depth):
    """[content of every object, its results], inputs unchanged"""
    with core.quiet(), core.NoRustLeft(), sched.controlled():
        worlds = [WORLDS[0] if shared else w for w in WORLDS[:len(actors)]]
        before = [w.content() for w in worlds]
        objs, at, res = [None] * len(actors), [0] * len(actors), [[] for _ in actors]
        for a in order:
            kind, v = actors[a]
            call = KINDS[kind][at[a]]
            if at[a] == 0:
                objs[a] = call(worlds[a], v)
            else:
                res[a].append(untimed(c09.plain(call(objs[a], v))))
            at[a] += 1
        return [(content(o), r) for o, r in zip(objs, res)], [w.content() for w in worlds] == before


WORLDS = []
MODULES = ("esat.model.sa", "esat.model.batch_sa", "esat.error.bootstrap", "esat.error.displacement", "esat.error.bs_disp", "esat.rotational.constrained",
           "esat.estimator", "esat.data.datahandler", "esat.data.analysis", "esat_eval.simulator", "esat_eval.perturbation", "esat_eval.factor_catalog",
           "esat_eval.factor_comparison")


def fresh(*args):
    """play in a process of its own; up to then only the base models were made"""
    if not WORLDS:
        with core.quiet(), core.NoRustLeft():
            for m in MODULES:
                core.esat(m)
            WORLDS.extend(World() for _ in range(3))
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        try:
            data = pickle.dumps(("ok", play(*args)))
        except BaseException as e:
            import traceback
            data = pickle.dumps(("error", "".join(traceback.format_exception(e))[-1500:]))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process ended")


_alone = {}


def calls(kind, depth):
    return min(len(KINDS[kind]), depth)


def alone(ctx, kind, v, depth):
    key = (kind, v, depth)
    if key not in _alone:
        _alone[key] = fresh([(kind, v)], (0,) * calls(kind, depth), False, depth)
    return _alone[key]


def work(ctx, job):
    actors, shared, depth = job
    want = []
    for kind, v in actors:
        tag, r = alone(ctx, kind, v, depth)
        if tag == "error":
            if ctx.case("alone", kind, v, depth):
                ctx.fail(f"{kind}: used alone it raises", r)
            return
        if ctx.case("alone", kind, v, depth):
            ctx.expect(r[1], f"{kind}: its inputs changed")
        want.append(r[0][0])
    for order in lib.interleavings(*[calls(k, depth) for k, _ in actors]):
        if not ctx.case([list(a) for a in actors], shared, depth, "".join(map(str, order))):
            continue
        ctx.step(len(order))
        tag, r = fresh(actors, order, shared, depth)
        if tag == "error":
            ctx.fail("an object raises when another is in use", r)
            continue
        got, same = r
        ctx.expect(same, "the data or the base model changed")
        for (kind, v), g, x in zip(actors, got, want):
            ctx.expect(g == x, f"{kind} is not what it is when used alone", lambda g=g, x=x: c09.where(x, g))
        ctx.state((actors, shared, order))
    ctx.outcome([list(map(list, actors)), shared])


def run(ctx):
    jobs = []
    kinds = list(KINDS)
    for i, a in enumerate(kinds):
        for b in kinds[i:]:
            for shared in (False, True):
                for v in ((0, 1), (1, 0)) if ctx.thorough else ((0, 1),):
                    if a == b and v == (1, 0):
                        continue
                    jobs.append(([(a, v[0]), (b, v[1])], shared, 4 if ctx.thorough or a == b else 3))
        jobs.append(([(a, 0), (a, 0)], True, 4))
        if ctx.thorough:
            jobs.append(([(a, 0), (a, 1), (a, 0)], True, 2))
    core.shards(ctx, work, jobs)
