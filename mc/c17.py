"""C17 displacement: the search for the displaced values"""
import itertools
import numpy as np
import core, lib, sched, errlib, c02

PROPERTY = {
    "title": "Displacement finds the profile values at which the loss rises by dQ",
    "statement": "For every factor, feature and dQ level (32, 16, 8, 4) the increased profile value is at least the base value and raises the loss of the base model by an amount in [dQ - threshold, dQ]; the decreased value lies between 0 and the base value and does the same, or is 0 up to rounding when no such value changes the loss that much. The reported dQ, profile percentage and concentration are those of the base model with that one value displaced, the swap flag and Q drop those of the model retrained from it, and the compiled table pairs the increased value with the maximum and the decreased value with the minimum. Features that are not selected keep the base values, and the base model stays as it was.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all base models, factors, features, dQ levels, thresholds and feature selections"},
    "why_tests_cant": "The tests that run displacement are slow and only look at the shape of the result; a bisection that stops one step early or keeps a stale bound still returns a number for every cell.",
    "anchors": {"files": ["esat/error/displacement.py"],
                "state": [{"name": "increase_results, decrease_results", "meaning": "displaced values", "where": "Displacement"},
                          {"name": "compiled_results", "meaning": "table", "where": "Displacement"}],
                "mechanism": [{"name": "bracketing and bisection", "where": "Displacement, sequential and parallel search"}],
                "observe_at": ["Displacement.increase_results", "Displacement.decrease_results", "Displacement.compiled_results"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of every factor, feature, level, direction and feature selection on the real code, each result compared with the analytic loss along the displaced value",
        "bounds": {"quick": "14 base models (1-3 factors, 2-4 features, both methods, 2 scales of uncertainty) x thresholds 0.1 and 0.5 x every non-empty feature selection of up to 3 features (for 4 features: 4 selections) x sequential and parallel",
                   "thorough": "42 base models, every non-empty feature selection"},
        "assumptions": ["the loss along one profile value is a parabola; where it dips by more than dQ - threshold before it rises, two values qualify and only the reported dQ is checked",
                        "float32 rounding of the loss: the reported dQ may differ by 2e-5 of the loss"]}

EPS = 1e-12
LEVELS = (32, 16, 8, 4)


def q_at(sa, i, j, v):
    H = np.array(sa.H, dtype=float)
    H[i, j] = v
    return lib.q_true(sa.V, sa.U, sa.W, H)


def check_one(ctx, sa, r, i, j, level, thr, direction, seed_model=True):
    h = float(sa.H[i, j])
    base = float(sa.Qtrue)
    v = float(r["value"])
    tol = 2e-5 * (base + level) + 1e-4
    where = f"{direction} factor {i + 1} feature {j} dQ {level}"
    q = q_at(sa, i, j, v)
    d = abs(q - base) if direction == "decrease" else q - base
    ctx.expect(abs(float(r["dQ"]) - d) <= tol, f"{where}: reported dQ {r['dQ']}, the loss changes by {d}")
    # the parabola Q(t) = base + b t + a t^2, t = value - h
    w2 = (np.asarray(sa.W, float)[:, i] ** 2 / np.asarray(sa.U, float)[:, j] ** 2).sum()
    res = (np.asarray(sa.V, float) - np.asarray(sa.W, float) @ np.asarray(sa.H, float))[:, j]
    b = -2 * (res * np.asarray(sa.W, float)[:, i] / np.asarray(sa.U, float)[:, j] ** 2).sum()
    if direction == "increase":
        ctx.expect(v >= h * (1 - 1e-6), f"{where}: value {v} below the base value {h}")
        if w2 > 1e-6 and h > 1e-6:
            ctx.expect(level - thr - tol <= d <= level + tol, f"{where}: the loss rises by {d}, not by [{level - thr}, {level}]")
    else:
        ctx.expect(-1e-9 <= v <= h * (1 + 1e-6), f"{where}: value {v} outside [0, {h}]")
        t = np.linspace(-h, 0, 400)
        path = w2 * t * t + b * t
        dips = path.min() < -(level - thr) + tol
        full = abs(q_at(sa, i, j, 0.0) - base)
        if not dips:
            if full > level + tol:
                ctx.expect(level - thr - tol <= d <= level + tol, f"{where}: the loss changes by {d}, not by [{level - thr}, {level}]")
            elif full < level - thr - tol:
                ctx.expect(v <= 1e-6 * h + 1e-9, f"{where}: no value changes the loss by {level - thr}, but the value is {v} of {h}")
    H = np.array(sa.H) + EPS
    H = H.astype(np.asarray(sa.H).dtype)
    H[i, j] = v
    Hd = H.astype(float)
    ctx.expect(lib.close(r["percent"], Hd[i, j] / Hd[:, j].sum(), 1e-4, 1e-7), f"{where}: percent {r['percent']}")
    ctx.expect(lib.close(r["conc"], (np.asarray(sa.W, float)[:, i].sum()) * Hd[i, j], 1e-4, 1e-6), f"{where}: conc {r['conc']}")
    m = errlib.retrain(sa.V, sa.U, sa, sa.seed, H)
    ctx.expect(abs(float(r["Q_drop"]) - (base - float(m.Qtrue))) <= 1e-3 * (base + 1), f"{where}: Q_drop {r['Q_drop']} of the retrained model, not {base - float(m.Qtrue)}")
    if sa.H.shape[0] > 1 and sa.H.shape[1] > 2:
        R = np.nan_to_num(np.corrcoef(np.vstack([np.asarray(m.H, float), np.asarray(sa.H, float)]))[:sa.H.shape[0], sa.H.shape[0]:]) ** 2
        margin = R.max(axis=1) - np.diag(R)
        if not np.any((margin > 0) & (margin < 1e-4)):
            ctx.expect(bool(r["swap"]) == bool(np.any(margin > 0)), f"{where}: swap {r['swap']}, correlations {R.tolist()}")


def check_all(ctx, disp, sa, features, thr, labels, levels=LEVELS):
    f, n = sa.H.shape
    for name, results in (("increase", disp.increase_results), ("decrease", disp.decrease_results)):
        ctx.expect(set(results) == {f"factor-{i + 1}" for i in range(f)}, f"{name}: factors {sorted(results)}")
        for i in range(f):
            cell = results[f"factor-{i + 1}"]
            ctx.expect(set(cell) == {f"feature-{j}" for j in features}, f"{name}: features {sorted(cell)} instead of {features}")
            for j in features:
                ctx.expect(set(cell[f"feature-{j}"]) == set(levels), f"{name}: levels")
                for level in levels:
                    check_one(ctx, sa, cell[f"feature-{j}"][level], i, j, level, thr, name)
                    ctx.step()
    check_table(ctx, disp, sa, features, labels, levels)


def check_table(ctx, disp, sa, features, labels, levels=LEVELS):
    f, n = sa.H.shape
    H = np.asarray(sa.H, float)
    P, C = H / H.sum(axis=0), np.asarray(sa.W, float).sum(axis=0)[:, None] * H
    df = disp.compiled_results
    ctx.expect(len(df) == len(levels) * f * n, f"{len(df)} rows in the table")
    for level in levels:
        for i in range(f):
            for j in range(n):
                row = df[(df["dQ"] == level) & (df["factor"] == i) & (df["feature"] == labels[j])]
                where = f"table dQ {level} factor {i + 1} feature {labels[j]}"
                if not ctx.expect(len(row) == 1, f"{where}: {len(row)} rows"):
                    continue
                row = row.iloc[0]
                if j in features:
                    a, b = (x[f"factor-{i + 1}"][f"feature-{j}"][level] for x in (disp.increase_results, disp.decrease_results))
                    want = (a["percent"], b["percent"], max(a["conc"], 1e-4), max(b["conc"], 1e-4), min(a["Q_drop"], b["Q_drop"], 0.0))
                else:
                    want = (P[i, j], P[i, j], max(C[i, j], 1e-4), max(C[i, j], 1e-4), 0.0)
                got = [row[k] for k in ("profile_max", "profile_min", "conc_max", "conc_min", "dQ_drop")]
                ctx.expect(lib.close(got, want, 1e-4, 1e-6), f"{where}: {got}, not {want}")
                ctx.expect(lib.close([row["profile"], row["conc"]], [P[i, j], C[i, j]], 1e-4, 1e-6), f"{where}: base values")
                ctx.expect(row["profile_max"] >= row["profile_min"] - 1e-5, f"{where}: maximum below minimum")


MODELS = [(6, n, f, method, k, iters) for f in (1, 2, 3) for n in (2, 3, 4) for method in ("ls-nmf", "ws-nmf")
          for k, iters in ((0, 60), (1, 8), (2, 40), (0, 1)) if (method == "ls-nmf" and f <= n) or f < n]


def build(model):
    m, n, f, method, k, iters = model
    return errlib.base_model(m, n, f, method=method, k=k, iters=iters)


def work(ctx, job):
    model, thr, features, parallel = job
    if not ctx.case(list(model), thr, features, parallel):
        return
    dm = core.esat("esat.error.displacement")
    with ctx.guard("displacement"), core.quiet():
        sa = build(model)
        snap = errlib.snapshot(sa)
        labels = [f"s{j}" for j in range(model[1])]
        all_ = list(range(model[1]))
        disp = dm.Displacement(sa=sa, feature_labels=labels, model_selected=1, threshold_dQ=thr,
                               features=None if features == all_ else list(features), parallel=parallel, cores=2)
        with sched.controlled():
            disp.run()
        check_all(ctx, disp, sa, features, thr, labels)
        ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
        ctx.state((model, thr, features, parallel))
        ctx.outcome([model, np.round([r[f"factor-1"][f"feature-{features[0]}"][4]["value"] for r in
                                      (disp.increase_results, disp.decrease_results)], 4)])


def run(ctx):
    jobs = []
    models = MODELS if ctx.thorough else [m for i, m in enumerate(MODELS) if i % 3 == 0]
    for model in models:
        n = model[1]
        sels = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
        if n == 4 and not ctx.thorough:
            sels = [[0, 1, 2, 3], [1, 3], [2], [0, 3]]
        for features in sels:
            for thr in (0.1, 0.5):
                for parallel in (False, True):
                    if parallel and thr == 0.5 and not ctx.thorough:
                        continue
                    jobs.append((model, thr, features, parallel))
    jobs.sort(key=lambda j: -j[0][2] * len(j[2]))
    core.shards(ctx, work, jobs)
