"""C25 factor comparison"""
import os
import itertools
import re
import numpy as np
import pandas as pd
import core, lib, sched, c01, c02

PROPERTY = {
    "title": "Factor comparison finds the best one to one mapping of the factors",
    "statement": "For every model of a batch the comparison with given base profiles and contributions finds a one to one assignment of factors whose average squared correlation (of the profiles, the contributions, the factor parts of the estimate, or their mean) is the largest over all assignments, whichever side has more factors, and reports the correlations of exactly the assigned pairs, with the loss of the base and of the model when printed; the best model is the one with the largest average. The comparison of a base model with other models assigns their factors one to one with the best total of the chosen measure and reports the measure of the assigned pairs, of all pairs, and the best partner of each factor. Nothing that is compared is modified.",
    "quantifier": {"over": ["inputs", "configurations", "schedules"],
                   "text": "all base and model matrices, factor counts, methods, column orders and task orders"},
    "why_tests_cant": "No test runs a comparison to its end and checks the mapping; a mapping of the wrong side or of second best quality is still a permutation.",
    "anchors": {"files": ["eval/factor_comparison.py"],
                "mechanism": [{"name": "compare, combine_factors", "where": "FactorCompare"}, {"name": "determine_map", "where": "FactorCompareV2"},
                              {"name": "load_pmf_output", "where": "FactorCompare"}],
                "observe_at": ["FactorCompare.model_results", "FactorCompare.best_model", "FactorCompareV2.determine_map"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one comparison; distinct by base, models and settings",
        "bounds": {"quick": "1..4 base factors x 1..4 model factors (largest 4 x 4) x 4 methods (compared again on the same object by another method and back) x batches of 1-3 models with every pattern of missing models x column orders; every permutation of 2-4 planted factors; every base of 2x3 profiles over {1,2,5} without constant rows; maps of all permutations and of every 3x2 contribution matrix over {1,2,5} for 3 measures; PMF5 files of 1-4 factors",
                   "thorough": "5 factors; every pair of bases and models of the 2x3 family"},
        "assumptions": ["no compared factor is constant (its correlation is not defined)", "ties may be decided either way"]}

METHODS = ("all", "H", "W", "WH")


def r2(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return np.corrcoef(a, b)[0, 1] ** 2


def make_sa(H, W, seed=3):
    H, W = np.asarray(H, float), np.asarray(W, float)
    V = W @ H + 0.05
    V[0, 0] = 3 * V[0, 0] + 5          # beyond the cutoff of the robust loss
    sa = lib.SA(V, 0.1 * V + 0.1, H.shape[0], method="ls-nmf", seed=seed, verbose=False)
    sa.initialize(H=H, W=W)
    sa.train(max_iter=0)
    return sa


def make_batch(models, k):
    mod = core.esat("esat.model.batch_sa")
    first = next(m for m in models if m is not None)
    with core.NoRustLeft():
        b = mod.BatchSA(V=first.V, U=first.U, factors=k, models=len(models), seed=1, parallel=False, verbose=False)
    b.results = list(models)
    return b


def family(k, m, n, s):
    """k profiles and contributions without constant rows"""
    H = c01.start_h(k, n, s) + 0.01 * np.arange(n)
    W = np.abs(c01.start_h(m, k, s + 1)) + 0.013 * ((np.arange(m)[:, None] * (np.arange(k) + 2)) % 7)
    return H, W


def matrices(base, sa):
    (H, W) = base
    K, k = H.shape[0], sa.factors
    h, w = np.asarray(sa.H, float), np.asarray(sa.W, float)
    RH = np.array([[r2(H[i], h[j]) for j in range(k)] for i in range(K)])
    RW = np.array([[r2(W[:, i], w[:, j]) for j in range(k)] for i in range(K)])
    RX = np.array([[r2(np.outer(W[:, i], H[i]), np.outer(w[:, j], h[j])) for j in range(k)] for i in range(K)])
    return RH, RW, RX


def pairs(perm, base_k):
    """(base factor, model factor) pairs"""
    return [(p, j) for j, p in enumerate(perm)] if base_k else [(i, p) for i, p in enumerate(perm)]


def compare(ctx, key, base, models, method, shuffle=False, order=None):
    if not ctx.case(*key):
        return
    mod = core.esat("esat_eval.factor_comparison")
    H, W = base
    K, k = H.shape[0], next(m.factors for m in models if m is not None)
    with ctx.guard("factor comparison"), core.quiet():
        names = [f"Factor {i + 1}" for i in range(K)]
        feats = [f"s{j}" for j in range(H.shape[1])]
        prof = pd.DataFrame(H.T, columns=names)
        con = pd.DataFrame(W, columns=names)
        if shuffle:
            con["Datetime"] = [f"d{i}" for i in range(len(W))]
            con = con[["Datetime"] + names[::-1]]
        V = pd.DataFrame((W @ H) * (1 + 0.07 * ((np.arange(W.shape[0])[:, None] * 3 + np.arange(H.shape[1]) * 5) % 4)) + 0.02, columns=feats)
        U = V * 0.1 + 0.1
        held = [x.copy() for x in (prof, con, V, U)]
        snaps = [None if m is None else (np.array(m.H), np.array(m.W)) for m in models]
        b = make_batch(models, k)
        with sched.controlled(order or (lambda n, call: list(range(n))[::-1])):
            fc = mod.FactorCompare(input_df=V, uncertainty_df=U, base_profile_df=prof, base_contribution_df=con, batch_sa=b, method=method)
            fc.compare()
        base_k = K >= k
        best = {}
        for i, sa in enumerate(models):
            if sa is None:
                ctx.expect(i not in fc.model_results, "results for a model that does not exist")
                continue
            RH, RW, RX = matrices(base, sa)
            R = {"all": (RH + RW + RX) / 3, "H": RH, "W": RW, "WH": RX}[method]
            opt = max(np.mean([R[a, c] for a, c in pairs(p, base_k)]) for p in itertools.permutations(range(max(K, k)), min(K, k)))
            best[i] = opt
            if not ctx.expect(i in fc.model_results, f"no result for model {i}"):
                continue
            r = fc.model_results[i]
            t = fc.sa_model_dfs[i]
            h, w = np.asarray(sa.H, float), np.asarray(sa.W, float)
            ctx.expect(all(lib.close(t[n].to_numpy(), x, 1e-6, 1e-9) for n, x in (("H", h), ("W", w), ("WH", w @ h))),
                       f"model {i}: tables of the model", lambda: {n: t[n] for n in ("H", "W", "WH")})
            ctx.expect(abs(r["best_avg_r"] - opt) <= 1e-5, f"model {i}: average {r['best_avg_r']}, best over all assignments {opt}")
            fmap = [int(str(x).split(" ")[1]) - 1 for x in r["factor_map"]]
            ctx.expect(len(fmap) == min(K, k) and len(set(fmap)) == len(fmap), f"model {i}: map {r['factor_map']} is not one to one")
            pr = pairs(fmap, base_k)
            for name, M in (("factor", RH), ("contribution", RW), ("wh", RX)):
                want = [M[a, c] for a, c in pr]
                ctx.expect(lib.close(r[f"best_{name}_r"], want, 1e-5, 1e-6), f"model {i}: {name} correlations {r[f'best_{name}_r']}, not {want}")
                ctx.expect(abs(r[f"best_{name}_r_avg"] - np.mean(want)) <= 1e-5, f"model {i}: average of the {name} correlations")
        ctx.expect(sorted(fc.model_results) == sorted(best), f"models {sorted(fc.model_results)} compared, not {sorted(best)}")
        bm = fc.best_model
        ctx.expect(bm in best and best[bm] >= max(best.values()) - 1e-5, f"best model {bm}, averages {best}")
        r = fc.model_results[bm]
        ctx.expect(list(fc.factor_map) == list(r["factor_map"]) and abs(fc.best_avg_r - r["best_avg_r"]) <= 1e-9, "map of the best model")
        for name in ("factor", "contribution", "wh"):
            ctx.expect(lib.close(getattr(fc, f"best_{name}_r"), r[f"best_{name}_r"], 1e-9)
                       and abs(getattr(fc, f"best_{name}_r_avg") - r[f"best_{name}_r_avg"]) <= 1e-9, f"{name} correlations of the best model")
        with lib.logged() as log:
            fc.print_results()
            for i in best:
                fc.print_results(model=i)
        qs = [re.search(r"Base Q\(true\): ([^,\s]+),.*?(\d+) Q\(true\): (\S+)", t) for t in log]
        qs = [q for q in qs if q]
        if ctx.expect(len(qs) == 1 + len(best), "the printed results do not report the losses"):
            want = lib.q_true(V.to_numpy(), U.to_numpy(), W, H)
            for q, i in zip(qs, [bm] + list(best)):
                ctx.expect(abs(float(q[1]) - want) <= 1e-4 * want + 1e-6, f"printed base loss {q[1]}, expected {want}")
                ctx.expect(int(q[2]) == i + 1 and abs(float(q[3]) - models[i].Qtrue) <= 1e-4 * models[i].Qtrue + 1e-4, f"printed loss of model {i}: {q[0]}")
        # the same object again, with another method and back: nothing of the earlier comparisons is kept
        held2 = (fc.best_model, list(fc.factor_map), fc.best_avg_r, {i: fc.model_results[i]["best_avg_r"] for i in fc.model_results})
        for other in [x for x in METHODS if x != method][:1 + (K + k) % 2] + [method]:
            fc.method = other
            with sched.controlled(lambda n, call: list(range(n))):
                fc.compare()
            ctx.step()
            again = {}
            for i, sa in enumerate(models):
                if sa is not None:
                    RH, RW, RX = matrices(base, sa)
                    R = {"all": (RH + RW + RX) / 3, "H": RH, "W": RW, "WH": RX}[other]
                    again[i] = max(np.mean([R[a, c] for a, c in pairs(p, base_k)]) for p in itertools.permutations(range(max(K, k)), min(K, k)))
                    ctx.expect(abs(fc.model_results[i]["best_avg_r"] - again[i]) <= 1e-5, f"compared again by {other}: average of model {i} {fc.model_results[i]['best_avg_r']}, best {again[i]}")
            ctx.expect(fc.best_model in again and again[fc.best_model] >= max(again.values()) - 1e-5 and abs(fc.best_avg_r - max(again.values())) <= 1e-5
                       and list(fc.factor_map) == list(fc.model_results[fc.best_model]["factor_map"]), f"compared again by {other}: best model {fc.best_model}, {fc.best_avg_r}, averages {again}")
        ctx.expect((fc.best_model, list(fc.factor_map)) == held2[:2] and abs(fc.best_avg_r - held2[2]) <= 1e-9, "comparing again changes the result")
        ctx.expect(bool(fc.base_k) == base_k, "which side has more factors")
        ctx.expect(all(a.equals(c) for a, c in zip((prof, con, V, U), held)), "the given tables were modified")
        ctx.expect(all(s is None or (lib.same(m.H, s[0]) and lib.same(m.W, s[1])) for m, s in zip(models, snaps)), "a model was modified")
        ctx.state(key)
        ctx.outcome([K, k, method, fc.factor_map, bm])


def measure(base, m, k, method):
    bw, bh, w, h = (np.asarray(x, float) for x in (base.W, base.H, m.W, m.H))
    if method == "raae":
        return np.array([[np.abs(w[:, b] - bw[:, a]).sum() / bw[:, a].sum() for b in range(k)] for a in range(k)])
    if method == "corr":
        return np.array([[r2(bw[:, a], w[:, b]) for b in range(k)] for a in range(k)])
    return np.array([[r2(bh[a], h[b]) for b in range(k)] for a in range(k)])


def compare2(ctx, key, base, models):
    if not ctx.case(*key):
        return
    mod = core.esat("esat_eval.factor_comparison")
    k = base.factors
    with ctx.guard("mapping of models"), core.quiet():
        fc = mod.FactorCompareV2(base, models)
        for i, m in enumerate(models):
            for method in ("raae", "corr", "emc"):
                M = measure(base, m, k, method)
                if np.isfinite(M).all():
                    got = fc.correlation_data[i]
                    ctx.expect(lib.close(np.array(got["all_" + method]), M, 1e-5, 1e-6), f"{method}: values of all pairs")
                    opt = M.min(axis=1) if method == "raae" else M.max(axis=1)
                    ctx.expect(lib.close(got[method], opt, 1e-5, 1e-6) and lib.close([M[a, b] for a, b in enumerate(got[method + "_mapping"])], opt, 1e-5, 1e-6),
                               f"{method}: best partner of each factor {got[method + '_mapping']}")
        for method in ("raae", "corr", "emc"):
            maps, vals = fc.determine_map(method=method)
            ctx.expect(sorted(maps) == list(range(len(models))), "models in the map")
            for i, m in enumerate(models):
                M = measure(base, m, k, method)
                if not np.isfinite(M).all():
                    continue
                mp = [int(x) for x in maps[i]]
                if not ctx.expect(sorted(mp) == list(range(k)), f"{method}: map {mp} is not one to one"):
                    continue
                tot = sum(M[a, b] for a, b in enumerate(mp))
                opts = [sum(M[a, b] for a, b in enumerate(p)) for p in itertools.permutations(range(k))]
                opt = min(opts) if method == "raae" else max(opts)
                ctx.expect(abs(tot - opt) <= 1e-4 * max(1, abs(opt)), f"{method}: map {mp} has total {tot}, the best is {opt}", lambda: M)
                ctx.expect(lib.close(vals[i], [M[a, b] for a, b in enumerate(mp)], 1e-5, 6e-5), f"{method}: values {list(vals[i])}")
                ctx.outcome([method, k, mp])
        ctx.state(key)


def pmf(ctx, k, n, m, blank):
    """the text files that PMF5 writes: three blocks of profiles, contributions from the fifth line"""
    if not ctx.case("pmf", k, n, m, blank):
        return
    mod = core.esat("esat_eval.factor_comparison")
    with ctx.guard("reading PMF5 files"), core.quiet(), core.scratch() as d:
        H, W = family(k, m, n, 1)
        names = [f"Factor {i + 1}" for i in range(k)]
        feats = [f"s{j}" for j in range(n)]
        head = "\t".join(["", ""] + names)
        lines = ["Factor Profiles (conc. of species)", head]
        for scale in (1.0, 100.0, 50.0):
            lines += ["\t".join(["1", feats[j]] + [repr(float(H[i, j] * scale)) for i in range(k)]) for j in range(n)]
            if blank:
                lines += ["", "Factor Profiles (% of species sum)", ""]
        p, c = os.path.join(d, "p.txt"), os.path.join(d, "c.txt")
        open(p, "w").write("\n".join(lines))
        open(c, "w").write("\n".join(["Factor Contributions", "", "", head] +
                                     ["\t".join(["1", f"01/{i + 1:02d}/20"] + [repr(float(W[i, j])) for j in range(k)]) for i in range(m)] +
                                     ([""] if blank else [])))
        V = pd.DataFrame(W @ H, columns=feats)
        models = [make_sa(*family(k, m, n, 1)), make_sa(*family(k, m, n, 2))]
        with sched.controlled():
            fc = mod.FactorCompare.load_pmf_output(k, V, V * 0.1 + 0.1, p, c, make_batch(models, k))
            fc.compare()
        ctx.expect(list(fc.base_factors) == names and lib.close(fc.base_profile_df[names].values.astype(float).T, H, 1e-12), "profiles of the file")
        ctx.expect(lib.close(fc.base_contribution_df[names].values.astype(float), W, 1e-12), "contributions of the file")
        ctx.expect(lib.close(fc.base_V_estimate, W @ H, 1e-9), "estimate of the base")
        ctx.expect(fc.best_model == 0 and abs(fc.best_avg_r - 1) < 1e-4 and list(fc.factor_map) == names, f"best model {fc.best_model}: {fc.factor_map}")
        # the batch from its file
        b = make_batch(models, k)
        b.best_model = 0
        f = b.save(batch_name="saved", output_directory=d, pickle_batch=True)
        with sched.controlled():
            got = mod.FactorCompare(V, V * 0.1 + 0.1, fc.base_profile_df[names], fc.base_contribution_df, None, sa_output_file=os.path.join(d, "saved.pkl"))
            got.compare()
        ctx.expect(str(got.model_results) == str(fc.model_results) and got.best_model == fc.best_model, f"comparison with the saved batch {f}")
        for a, b in ((p + "x", c), (p, c + "x")):
            ctx.expect(mod.FactorCompare.load_pmf_output(k, V, V, a, b, None) is None, "a missing file is accepted")
        ctx.state(("pmf", k, n, m, blank))


def profiles23():
    rows = [r for r in itertools.product((1.0, 2.0, 5.0), repeat=3) if len(set(r)) > 1]
    return [np.array(p) for p in itertools.product(rows, rows)]


def work(ctx, job):
    kind = job[0]
    top = 5 if ctx.thorough else 4
    if kind == "sizes":
        _, K, k = job
        for method in METHODS:
            for s in range(2):
                base = family(K, 6, 5, s)
                pool = [make_sa(*family(k, 6, 5, t)) for t in (s, s + 2, s + 1)]
                for size in (1, 2, 3):
                    if max(K, k) > 4 and size > 2:
                        continue
                    for holes in itertools.product((0, 1), repeat=size):
                        if sum(holes) == size or (max(K, k) > 3 and sum(holes)):
                            continue
                        models = [None if h else m for h, m in zip(holes, pool)]
                        compare(ctx, ("sizes", K, k, method, s, size, list(holes)), base, models, method, shuffle=size == 2,
                                order=None if size == 2 else (lambda n, call: range(n)))
    elif kind == "planted":
        _, K = job
        H, W = family(K, 6, 5, 0)
        d = 1.0 + 0.3 * np.arange(K)
        for p in itertools.permutations(range(K)):
            sa = make_sa((H * d[:, None])[list(p)], (W / d)[:, list(p)])
            key = ("planted", K, list(p))
            for method in ("all", "H") if K > 3 else METHODS:
                compare(ctx, key + (method,), (H, W), [make_sa(*family(K, 6, 5, 2)), sa], method)
            compare2(ctx, ("map planted", K, list(p)), make_sa(H, W), [sa, make_sa(*family(K, 6, 5, 1))])
    elif kind == "all":
        _, part, parts = job
        P = profiles23()
        W = np.array([[1.0, 2.0], [3.0, 1.0], [2.0, 2.5], [5.0, 0.5]])
        mods = {}
        pick = range(0, len(P), 3 if ctx.thorough else 97)
        for i, H in enumerate(P):
            if i % parts != part:
                continue
            for chunk in range(0, len(pick), 6):
                idx = list(pick)[chunk:chunk + 6]
                models = [mods.setdefault(j, make_sa(P[j], W + 0.1 * (j % 5))) for j in idx]
                compare(ctx, ("all", i, idx), (H, W), models, METHODS[i % 4])
    elif kind == "map":
        _, part, parts = job
        Ws = [w for w in lib.matrices(3, 2, (1.0, 2.0, 5.0)) if np.ptp(w[:, 0]) and np.ptp(w[:, 1])]
        H = np.array([[1.0, 4.0, 2.0], [3.0, 1.0, 1.5]])
        bases = [make_sa(H, Ws[j]) for j in range(0, len(Ws), 10 if ctx.thorough else 90)]
        for i, w in enumerate(Ws):
            if i % parts == part:
                m = make_sa(H[::-1] if i % 2 else H, w)
                for j, b in enumerate(bases):
                    compare2(ctx, ("map", i, j), b, [m])
    else:
        for k in range(1, 5):
            for n, m in ((3, 4), (5, 6)):
                for blank in (False, True):
                    pmf(ctx, k, n, m, blank)


def run(ctx):
    top = 5 if ctx.thorough else 4
    jobs = [("sizes", K, k) for K in range(1, top + 1) for k in range(1, top + 1)]
    jobs = sorted(jobs, key=lambda j: -j[1] * j[2]) + [("planted", K) for K in range(2, top + 1)]
    jobs += [("all", p, 8) for p in range(8)] + [("map", p, 8) for p in range(8)] + [("pmf",)]
    core.shards(ctx, work, jobs)
