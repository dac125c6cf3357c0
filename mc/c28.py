"""C28 perturbation of the uncertainty"""
import itertools
import numpy as np
import core, lib, sched, c01, c02, c25

PROPERTY = {
    "title": "Perturbation runs train the base model on the uncertainties they report",
    "statement": "A perturbation multiplies each uncertainty of the drawn share of cells (per feature when given so) by a lognormal number of the given sigma and leaves all others as they are; the input uncertainties are never changed. Every perturbed model is the base model's matrices trained with the configured algorithm on exactly the uncertainties of its reported multipliers, in the reported order, whatever the order of the parallel tasks and whatever the object ran before, and the same random seed gives the same run. The comparison reports for every model the one to one factor mapping, the matched normalized profiles and contributions, and the averaged percentiles of the multipliers.",
    "quantifier": {"over": ["configurations", "schedules", "inputs"],
                   "text": "all settings, seeds, data and completion orders of the parallel tasks"},
    "why_tests_cant": "No test runs a perturbation.",
    "anchors": {"files": ["eval/perturbation.py", "eval/factor_comparison.py"],
                "mechanism": [{"name": "run, perturb, compare", "where": "Perturbation"}],
                "observe_at": ["Perturbation.perturbed_models", "Perturbation.perturbed_multipliers", "Perturbation.perturb_H", "Perturbation.perturb_W"]},
}
SPEC = {"level": "model_checking",
        "technique": "enumeration of settings and of every completion order of the parallel tasks on the real code under a controlled pool, against direct training and recomputed definitions",
        "bounds": {"quick": "runs: 2 methods x 1-3 factors x 2 seeds x 6 (share, sigma) settings x every completion order of up to 3 models, and running again after a comparison; with and without a base model; 3 compare methods, every relabelling of the factors of up to 3 perturbed models; perturb(): 5 shares x 5 sigmas x per feature, per run and wrong length lists x 30 seeds",
                   "thorough": "4 models, 100 seeds"},
        "assumptions": ["shares and spreads of random draws are required to be within 6 standard deviations"]}


def data(k, m=6, n=4):
    H, W = c25.family(k, m, n, 2)
    V = np.abs(W @ H) + 0.05 * (1 + np.arange(m)[:, None] % 3)
    return V, 0.1 * V + 0.05 * (1 + np.arange(n))


def make(k, base, **kw):
    mod = core.esat("esat_eval.perturbation")
    V, U = data(k)
    with core.NoRustLeft():
        return mod.Perturbation(V=V, U=U, factors=k, base_model=base, max_iterations=kw.pop("max_iterations", 5), converge_n=3, converge_delta=1e-9, **kw)


def base_model(k, method):
    V, U = data(k)
    b = lib.SA(V, U, k, method=method, seed=9, verbose=False)
    b.initialize()
    b.train(max_iter=20, converge_n=5, converge_delta=1e-9)
    return b


def same_run(ctx, p, q, what):
    ctx.expect(len(p.perturbed_models) == len(q.perturbed_models) and all(
        lib.same(a.H, b.H) and lib.same(a.W, b.W) and lib.same(a.U, b.U) for a, b in zip(p.perturbed_models, q.perturbed_models))
        and all(lib.same(a, b) for a, b in zip(p.perturbed_multipliers, q.perturbed_multipliers)), what)


def trained(ctx, p, base, V, U, k, when=""):
    for i, (m, x) in enumerate(zip(p.perturbed_models, p.perturbed_multipliers)):
        ctx.expect(x.shape == U.shape and np.all(x > 0), "shape of the multipliers")
        ctx.expect(m.method == base.method and m.factors == k, f"algorithm of perturbed model {i}: {m.method}")
        ctx.expect(lib.close(m.U, U * x, 1e-6) and lib.close(m.V, V, 1e-6), f"{when}uncertainties of perturbed model {i}")
        r = lib.SA(V, U * x, k, method=base.method, seed=1, verbose=False)
        r.initialize(H=base.H, W=base.W)
        r.train(max_iter=5, converge_n=3, converge_delta=1e-9)
        ctx.expect(lib.close(m.H, r.H, 1e-5) and lib.close(m.W, r.W, 1e-5) and lib.close(m.Qtrue, r.Qtrue, 1e-4), f"{when}perturbed model {i} is not the base model trained on its uncertainties")


def run_case(ctx, k, method, seed, share, sigma, models, own):
    mod = core.esat("esat_eval.perturbation")
    if not ctx.case("run", k, method, seed, share, sigma, models, own):
        return
    with ctx.guard("perturbing"), core.quiet(), core.NoRustLeft():
        V, U = data(k)
        first = None
        for order in sched.orders(models):
            base = None if own else base_model(k, method)
            b0 = None if own else (np.array(base.H), np.array(base.W))
            p = make(k, base, method="ls-nmf" if base is not None and seed == 1 else method, random_seed=seed, perturb_percent=share, sigma=sigma, models=models)
            with sched.controlled(lambda n, i: order):
                p.run()
            ctx.step(models)
            if list(order) == list(range(models)):
                again = p
            ctx.expect(lib.same(p.V, V) and lib.same(p.U, U), "the data changed")
            if own:
                b = lib.SA(V, U, k, method=method, seed=seed, verbose=False)
                b.initialize()
                b.train(max_iter=5, converge_n=3, converge_delta=1e-9)
                ctx.expect(lib.same(p.base_model.H, b.H) and lib.same(p.base_model.W, b.W), "base model")
                base = p.base_model
            else:
                ctx.expect(p.base_model is base and lib.same(base.H, b0[0]) and lib.same(base.W, b0[1]), "the base model changed")
            if not ctx.expect(len(p.perturbed_models) == models == len(p.perturbed_multipliers), f"{len(p.perturbed_models)} perturbed models"):
                return
            trained(ctx, p, base, V, U, k)
            if models > 1 and np.any(np.asarray(sigma) > 0) and np.all(np.asarray(share) > 0.4):
                ctx.expect(not any(lib.same(a, b) for a, b in itertools.combinations(p.perturbed_multipliers, 2)), "two models have the same perturbation")
            if first is None:
                first = p
            else:
                same_run(ctx, p, first, f"completion order {order} changes the run")
            ctx.state((k, method, seed, repr(share), repr(sigma), order, own))
        q = make(k, None if own else base_model(k, method), method=method, random_seed=seed + 1, perturb_percent=share, sigma=sigma, models=models)
        with sched.controlled(lambda n, i: range(n)):
            q.run()
        if np.any(np.asarray(sigma) > 0) and np.all(np.asarray(share) > 0.4):
            ctx.expect(not lib.same(q.perturbed_multipliers[0], first.perturbed_multipliers[0]), "another seed gives the same perturbation")
        report(ctx, first)
        # running again with the same object, after a comparison: new draws from the same base model, nothing of the earlier run
        base, held = again.base_model, (np.array(again.base_model.H), np.array(again.base_model.W))
        with sched.controlled(lambda n, i: range(n)):
            again.run()
        ctx.step(models)
        ctx.expect(again.base_model is base and lib.same(base.H, held[0]) and lib.same(base.W, held[1]), "running again changed the base model")
        if ctx.expect(len(again.perturbed_models) == models == len(again.perturbed_multipliers), f"{len(again.perturbed_models)} perturbed models after running again"):
            trained(ctx, again, base, V, U, k, "after running again ")
            report(ctx, again)
        ctx.outcome([k, method, repr(share), repr(sigma), models, own])


def report(ctx, p):
    k, base = p.factors, p.base_model
    fmod = core.esat("esat_eval.factor_comparison")
    for cm in (None, "raae", "EMC", "corr", "nonsense"):
        was = p.compare_method
        p.compare(cm) if cm else p.compare()
        want = cm.lower() if cm and cm != "nonsense" else was
        ctx.expect(p.compare_method == want, f"compare method {p.compare_method}")
        maps, vals = fmod.FactorCompareV2(base, p.perturbed_models).determine_map(want)
        ctx.expect(sorted(p.perturb_mapping) == list(range(len(p.perturbed_models))), "models of the mapping")
        for i, m in enumerate(p.perturbed_models):
            mp = [int(x) for x in p.perturb_mapping[i]]
            ctx.expect(mp == [int(x) for x in maps[i]] and list(p.perturb_correlations[i]) == list(vals[i]), f"mapping of model {i}")
            h = np.asarray(m.H) / np.asarray(m.H).sum(axis=0)
            w = np.asarray(m.W) / np.asarray(m.W).sum(axis=1, keepdims=True)
            ctx.expect(lib.close(p.perturb_H[:, :, i], h[mp], 1e-6), f"matched profiles of model {i}")
            ctx.expect(lib.close(p.perturb_W[:, :, i], w[:, mp].T, 1e-6), f"matched contributions of model {i}")
        pct = np.mean([np.percentile(x, [1, 25, 50, 75, 99]) for x in p.perturbed_multipliers], axis=0)
        s = p.multiplier_stats
        ctx.expect(lib.close([s[c] for c in ("first", "25th", "50th", "75th", "99th")], pct, 1e-9), "percentiles of the multipliers")
        ctx.expect(np.array_equal(np.asarray(s["sigma"]), np.asarray(p.sigma)), "sigma in the report")
        f = min(1, k - 1)
        bh = np.asarray(base.H) / np.asarray(base.H).sum(axis=0)
        d = p.perturbed_H_df
        mp_, b_ = p.perturb_H[f].mean(axis=1), bh[f]
        with np.errstate(all="ignore"):
            pd_ = np.where(mp_ < 1e-6, 0.0, 100 * (mp_ - b_) / ((mp_ + b_) / 2))
        ctx.expect(lib.close(np.where(np.abs(mp_ - 1e-6) < 1e-9, 0.0, d["% diff"]), np.where(np.abs(mp_ - 1e-6) < 1e-9, 0.0, pd_), 1e-3, 2e-4), "relative difference in the table of the profile")
        ctx.expect(lib.close(d["Base"], bh[f], 1e-6, 1e-9) and lib.close(d["Mean Perturb"], p.perturb_H[f].mean(axis=1), 1e-6, 1e-9)
                   and lib.close(d["STD Perturb"], p.perturb_H[f].std(axis=1), 1e-4, 1e-6) and lib.close(d["Min Perturb"], p.perturb_H[f].min(axis=1), 1e-6, 1e-9)
                   and lib.close(d["Max Perturb"], p.perturb_H[f].max(axis=1), 1e-6, 1e-9), "table of the profile")


def relabel(ctx, k, perms):
    if not ctx.case("relabel", k, perms):
        return
    with ctx.guard("comparing"), core.quiet(), core.NoRustLeft():
        H, W = c25.family(k, 6, 4, 2)
        b = c25.make_sa(H, W)
        p = make(k, b, models=len(perms))
        p.perturbed_models = [c25.make_sa((H * (1 + 0.01 * i))[list(q)], W[:, list(q)] * 1.001) for i, q in enumerate(perms)]
        p.perturbed_multipliers = [1.0 + 0.1 * i + 0.01 * np.arange(24).reshape(6, 4) for i in range(len(perms))]
        report(ctx, p)
        for cm in ("raae", "emc", "corr"):
            p.compare(cm)
            ctx.step()
            for i, q in enumerate(perms):
                ctx.expect([int(x) for x in p.perturb_mapping[i]] == [q.index(f) for f in range(k)], f"{cm}: mapping of model {i} {p.perturb_mapping[i]}, relabelled by {q}")
            ctx.expect(lib.close(p.perturb_H, np.repeat((np.asarray(b.H) / np.asarray(b.H).sum(axis=0))[:, :, None], len(perms), 2), 1e-4), "matched profiles differ from the base")
        ctx.state((k, perms))
        ctx.outcome([k, perms])


def perturb(ctx, share, sigma, seed):
    if not ctx.case("perturb", share, sigma, seed):
        return
    mod = core.esat("esat_eval.perturbation")
    with ctx.guard("perturb"), core.quiet(), core.NoRustLeft():
        m, n = 200, 4
        U = 0.1 + 0.01 * ((np.arange(m)[:, None] * 7 + np.arange(n) * 3) % 11)
        U0 = U.copy()
        p = mod.Perturbation(V=U * 10, U=U, factors=2, perturb_percent=share, sigma=sigma)
        u, x = p.perturb(seed)
        ctx.step()
        ctx.expect(lib.same(U, U0), "the uncertainties of the caller changed")
        ctx.expect(u.shape == x.shape == (m, n) and lib.close(u, np.maximum(U0 * x, 1e-12), 1e-12) and np.all(u > 0), "perturbed uncertainties are not the product")
        u2, x2 = p.perturb(seed)
        ctx.expect(lib.same(u, u2) and lib.same(x, x2), "the same seed perturbs differently")
        per = lambda v: list(v) if isinstance(v, (list, tuple)) and len(v) == n else [v[0] if isinstance(v, (list, tuple)) else v] * n
        for j, (q, s) in enumerate(zip(per(share), per(sigma))):
            hit = x[:, j] != 1.0
            if s == 0 or q == 0:
                ctx.expect(not hit.any(), f"feature {j} perturbed by share {q}, sigma {s}")
                continue
            ctx.expect(abs(hit.sum() - q * m) <= 6 * np.sqrt(m * q * (1 - q)) + 1e-9, f"{hit.sum()} of {m} cells of feature {j} perturbed, share {q}")
            lg = np.log(x[hit, j])
            if len(lg) > 30:
                ctx.expect(abs(lg.std() / s - 1) <= 6 / np.sqrt(2 * len(lg)) and abs(lg.mean()) <= 6 * s / np.sqrt(len(lg)), f"spread of feature {j}: {lg.std()}, sigma {s}")
            elif len(lg):
                ctx.expect(np.abs(lg).max() < 7 * s, f"spread of feature {j}")
        ctx.state((repr(share), repr(sigma), seed))
        ctx.outcome([share, sigma])


SHARES = (0.0, 0.1, 0.5, 1.0, [0.0, 0.2, 0.6, 1.0], [0.3, 0.9])
SIGMAS = (0.0, 0.1, 0.33, 1.5, [0.05, 0.0, 0.5, 1.0], [0.2, 5.0, 5.0])
SETTINGS = ((1.0, 0.33), (0.5, 0.33), (0.5, 1.0), (0.0, 0.33), (1.0, 0.0), ([0.5, 0.9, 1.0, 0.6], [0.1, 0.5, 0.9, 0.2]))


def work(ctx, job):
    t = ctx.thorough
    if job[0] == "run":
        for share, sigma in SETTINGS:
            for seed in (1, 42):
                for models in (1, 2, 3) + ((4,) if t else ()):
                    for own in (False, True):
                        run_case(ctx, job[1], job[2], seed, share, sigma, models, own)
    elif job[0] == "perturb":
        for sigma in SIGMAS:
            for seed in range(100 if t else 30):
                perturb(ctx, job[1], sigma, seed)
    else:
        k = job[1]
        ps = list(itertools.permutations(range(k)))
        for n in (1, 2, 3):
            if len(ps) ** n <= (14000 if t else 300):
                for perms in itertools.product(ps, repeat=n):
                    relabel(ctx, k, perms)


def run(ctx):
    jobs = [("run", k, m) for k in (3, 2, 1) for m in ("ls-nmf", "ws-nmf")] + [("relabel", k) for k in (4, 3, 2, 1)] + [("perturb", s) for s in SHARES]
    core.shards(ctx, work, jobs)
