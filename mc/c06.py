"""C06 determinism and isolation of models"""
import itertools
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "Equal seeds give equal models, and models do not influence each other",
    "statement": "A model is a function of its data, uncertainties, settings and seed: whatever other models are created, initialized or trained in between, and whatever state the global random generator is in, its matrices, losses and status are bit for bit those of the same calls run alone. Different seeds give different starting matrices. No call modifies the arrays the caller passed in.",
    "quantifier": {"over": ["schedules", "histories", "configurations"],
                   "text": "all interleavings of the calls on several models, all methods, initializations and seeds"},
    "why_tests_cant": "Tests use one model at a time; shared class state, a shared generator or an aliased array only shows when calls on several models are interleaved.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"],
                "state": [{"name": "rng", "meaning": "generator of the model", "where": "SA.rng"}],
                "mechanism": [{"name": "per model generator", "where": "SA.__init__"},
                              {"name": "copies of the data", "where": "SA.__init__, SA.initialize"}],
                "observe_at": ["SA.W", "SA.H", "SA.q_list", "the arrays of the caller"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "all 70 interleavings of the 4 calls (create, initialize, train, train) of 2 models, for 12 pairs of configurations out of {ls-nmf, ws-nmf} x {drawn, kmeans, given, partly given start}, sharing the same data arrays; the global generator is reseeded before every call",
                   "thorough": "also all 1680 interleavings of the 3 calls of 3 models, and all 36 pairs"},
        "assumptions": []}

CONFIGS = [("ls-nmf", "column_mean", 1), ("ls-nmf", "column_mean", 2), ("ls-nmf", "kmeans", 1), ("ls-nmf", "given", 1),
           ("ls-nmf", "partial", 1), ("ws-nmf", "column_mean", 1), ("ws-nmf", "kmeans", 2), ("ws-nmf", "given", 1)]


class Actor:
    def __init__(self, cfg, data):
        self.cfg, self.data, self.at, self.sa = cfg, data, 0, None
        self.seen = []

    def step(self):
        method, init, seed = self.cfg
        V, U, H, W, P = self.data
        k = self.at
        self.at += 1
        if k == 0:
            self.sa = lib.SA(V, U, 2, method=method, seed=seed)
        elif k == 1:
            kw = {"H": H, "W": W} if init == "given" else {"H": P} if init == "partial" else {"init_method": init}
            self.sa.initialize(**kw)
        elif k == 2:
            self.sa.train(max_iter=3, converge_n=2, converge_delta=1e-3)
        else:
            self.sa.train(max_iter=2, hold_h=True)
        if k:
            self.seen.append((np.array(self.sa.W), np.array(self.sa.H), list(map(float, self.sa.q_list or [])),
                              bool(self.sa.converged), int(self.sa.converge_steps)))


def equal(a, b):
    return len(a) == len(b) and all(lib.same(x[0], y[0]) and lib.same(x[1], y[1]) and x[2:] == y[2:] for x, y in zip(a, b))


def dataset(dtype="f8"):
    V = c02.shaped(6, 4, 1).astype(dtype)
    return V, c01.unc(V, "mixed").astype(dtype), c01.start_h(2, 4, 1).astype(dtype), \
        np.abs(c01.start_h(6, 2, 1)).astype(dtype), c01.start_h(1, 4, 0).astype(dtype)


def work(ctx, job):
    dtype, cfgs, steps = job
    data = dataset(dtype)
    orig = [a.copy() for a in data]
    alone = {}
    for c in set(cfgs):
        a = Actor(c, tuple(x.copy() for x in orig))
        for _ in range(steps):
            np.random.seed(0)
            a.step()
        alone[c] = a.seen
    for order in lib.interleavings(*[steps] * len(cfgs)):
        if not ctx.case(dtype, [list(c) for c in cfgs], list(order)):
            continue
        with ctx.guard("interleaved calls"):
            actors = [Actor(c, data) for c in cfgs]
            for i, o in enumerate(order):
                np.random.seed(i * 17 + 5)
                actors[o].step()
                ctx.step()
                ctx.expect(all(lib.same(x, y) and x.dtype == y.dtype for x, y in zip(data, orig)),
                           f"call {i} modified an array of the caller",
                           tag=None)
            for c, a in zip(cfgs, actors):
                ctx.expect(equal(a.seen, alone[c]), f"the model {c} differs from the same calls run alone")
                ctx.state((c, tuple(order), lib.key(a.sa.W, a.sa.H)))
                ctx.outcome([c, a.seen[-1][2]])


def seeds(ctx, job):
    data = dataset()
    for method in ("ls-nmf", "ws-nmf"):
        got = {}
        for seed in range(0, 40):
            if not ctx.case("seed", method, seed):
                continue
            with ctx.guard("initialize"):
                sa = lib.SA(data[0], data[1], 2, method=method, seed=seed)
                sa.initialize()
                k = lib.key(sa.W), lib.key(sa.H)
                ctx.state((method, k))
                ctx.expect(sa.seed == seed, f"the model reports seed {sa.seed} for seed {seed}")
                for s, o in got.items():
                    ctx.expect(k[0] != o[0] and k[1] != o[1], f"seeds {s} and {seed} give the same start")
                got[seed] = k


def arguments(ctx, job):
    """arguments that the model has to adjust (zero uncertainties, profiles that are not positive) stay the caller's"""
    method, dtype, kind = job
    for zeros, init in itertools.product((0, 1), ("none", "full", "partial", "kmeans")):
        if not ctx.case("arguments", method, dtype, kind, zeros, init):
            continue
        with ctx.guard("initialize and train"):
            V, U, H, W, P = [a.copy() for a in dataset(dtype)]
            if zeros:
                U[1, 2] = U[3, 0] = 0.0
                V[2, 2] = 0.0
                H[0, 1], H[1, 0] = 0.0, -1.0
                P[0, 2] = -0.5
                W[2, 1] = 0.0
            if kind == "F":
                V, U, H, W, P = map(np.asfortranarray, (V, U, H, W, P))
            elif kind == "view":
                V, U, H, W, P = [np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2] for a in (V, U, H, W, P)]
            args = (V, U, H, W, P)
            orig = [a.copy() for a in args]
            sa = lib.SA(V, U, 2, method=method, seed=1)
            kw = {"full": {"H": H, "W": W}, "partial": {"H": P}, "kmeans": {"init_method": "kmeans"}, "none": {}}[init]
            sa.initialize(**kw)
            for hold in (False, True):
                sa.train(max_iter=2, hold_h=hold)
                ctx.step()
            ctx.state((method, dtype, kind, zeros, init, lib.key(sa.W, sa.H)))
            ctx.expect(all(lib.same(x, y) and x.dtype == y.dtype for x, y in zip(args, orig)),
                       "an array of the caller was modified", lambda: {"before": orig, "after": args})


def run(ctx):
    pairs = [(a, b) for i, a in enumerate(CONFIGS) for b in CONFIGS[i:]]
    if not ctx.thorough:
        pairs = [p for i, p in enumerate(pairs) if i % 3 == 0]
    jobs = [(dt, p, 4) for p in pairs for dt in ("f4", "f8")]
    if ctx.thorough:
        jobs += [("f4", (CONFIGS[0], CONFIGS[5], CONFIGS[2]), 3), ("f8", (CONFIGS[4], CONFIGS[3], CONFIGS[7]), 3)]
    core.shards(ctx, work, jobs)
    seeds(ctx, None)
    core.shards(ctx, arguments, [(m, t, k) for m in ("ls-nmf", "ws-nmf") for t in ("f4", "f8") for k in ("C", "F", "view")])
