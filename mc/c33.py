"""C33 tables and plots of bootstrap, displacement, BS-DISP and their summary"""
import itertools
import numpy as np
import core, lib, sched, errlib, c01, c02, c16, c17, c18, c19

PROPERTY = {
    "title": "Error estimation tables and plots show the computed error estimates",
    "statement": "The tables and figures of bootstrap, displacement, BS-DISP and the combined error summary show, for the requested factor, the values of the completed runs and nothing else: every number belongs to the feature, factor and dQ level it is labelled with; statistics (quartiles, median, mean, standard deviation, inter-quartile membership, swap percentages) are those of the runs; ranges reach from the minimum to the maximum of the estimates; base values are those of the base model. An unknown dQ level falls back to the documented default, a factor that does not exist shows nothing, and showing results changes no result.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all base models, resampling modes, feature selections, factors, dQ levels and combinations of methods"},
    "why_tests_cant": "No test looks at what is shown: a figure with the values of the neighbouring factor, of another dQ level or of another feature looks as plausible as the right one.",
    "anchors": {"files": ["esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/error/error.py"],
                "mechanism": [{"name": "show_*, plot_*, summary", "where": "Bootstrap, Displacement, BSDISP"},
                              {"name": "plot_summary", "where": "Error"}],
                "observe_at": ["figures shown, messages logged"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one table or figure of one finished error estimation; distinct by configuration, kind, factor and dQ level; non-trivial: a figure was shown",
        "bounds": {"quick": "12 bootstrap configurations (1-3 factors, all resampling modes, features of size 1e-9 to 1e3, 1-5 runs), 10 displacement configurations (all swaps that occur, subsets of the features), 10 BS-DISP configurations; every factor from -1 to one too many, every dQ level and two unknown ones; all 7 combinations of methods in the summary",
                   "thorough": "24 bootstrap, 20 displacement and 12 BS-DISP configurations"},
        "assumptions": ["figures are compared by their data (traces and table cells), labels and titles where they name the factor"]}


def tables(fig):
    t = fig.data[0]
    return list(t.header["values"]), [list(np.ravel(np.asarray(c, dtype=object))) for c in t.cells["values"]]


def nums(col):
    return lib.arr([np.asarray(v, dtype=object).ravel()[0] for v in col])


def strs(x):
    return [str(v) for v in x]


def tiny_base(n_samples, f, method, scales, k=0, iters=10):
    V = c02.shaped(n_samples, len(scales), k) * np.asarray(scales)
    U = np.abs(V) * 0.1 + 0.05 * np.asarray(scales)
    if method == "ws-nmf":
        V = V - 0.1 * np.asarray(scales)
    sa = lib.SA(V, U, f, method=method, seed=4)
    sa.initialize(H=c01.start_h(f, len(scales), k) * np.asarray(scales), W=np.abs(c01.start_h(n_samples, f, k)))
    sa.train(max_iter=iters, converge_delta=1e-6, converge_n=4)
    return sa


# scales of the features, samples, factors, method, runs, keep_H, reuse_seed, block, overlapping
BOOT = [((1, 1, 1, 1), 6, 3, "ls-nmf", 4, True, True, True, False), ((1e-9, 1, 1e3), 6, 2, "ls-nmf", 5, True, True, False, False),
        ((1, 1e-5, 1e-4, 1), 6, 2, "ls-nmf", 4, True, True, True, True), ((1, 1, 1e-8, 1e-9), 6, 3, "ls-nmf", 3, True, False, False, False),
        ((1, 1e2, 1), 6, 1, "ls-nmf", 3, True, True, True, False), ((1, 1e-3, 1, 1), 6, 2, "ws-nmf", 4, True, True, True, False),
        ((1, 1, 1, 1), 6, 3, "ls-nmf", 5, False, False, True, False), ((1, 1, 1), 6, 2, "ls-nmf", 1, True, True, True, False),
        ((1e-6, 1e-6, 1, 1), 8, 2, "ls-nmf", 5, True, True, False, False), ((1, 1), 6, 2, "ls-nmf", 2, False, True, False, False),
        ((1e-9, 1, 1, 1e-5), 6, 2, "ws-nmf", 3, True, False, False, False), ((1, 1, 1, 1, 1), 8, 3, "ls-nmf", 4, False, True, True, True)]


def same(a, b, abs_=1e-9, rel=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= abs_ + rel * np.abs(b))))


def one(ctx, figs, what):
    return ctx.expect(len(figs) == 1, f"{what}: {len(figs)} figures") and ctx.step() is None


def nothing(ctx, call, what):
    with lib.shown() as figs, lib.logged():
        call()
    ctx.expect(not figs, f"{what}: a figure is shown for a factor that does not exist")


def runs_of(bs):
    return [bs.bs_results[k]["model"] for k in sorted(bs.bs_results)]


def clip(x):
    return np.maximum(np.asarray(x, float), 1e-4)


def check_boot(ctx, bs, sa, labels, what):
    f, n = sa.H.shape
    R = runs_of(bs)
    H, W = np.asarray(sa.H, float), np.asarray(sa.W, float)
    with lib.shown() as figs, lib.logged():
        bs.show_mapping_table()
    if one(ctx, figs, f"{what} mapping table"):
        head, cols = tables(figs[0])
        ctx.expect(head == ["Boot Factors"] + [f"Base Factor {i + 1}" for i in range(f)] + ["Unmapped"], f"{what}: columns {head} of the mapping table")
        want = np.zeros((f, f + 1))
        for r in bs.bs_results.values():
            for i, m in r["mapping"].items():
                want[i, m["match"] if m["mapped"] else f] += 1
        got = np.array([nums(c) for c in cols[1:]]).T
        ctx.expect(cols[0] == [f"Boot Factor {i + 1}" for i in range(f)] and same(got, want), f"{what}: the mapping table does not show the matches",
                   lambda: {"got": got, "want": want})
    with lib.shown() as figs, lib.logged():
        bs.show_q_table()
    if one(ctx, figs, f"{what} loss table"):
        head, cols = tables(figs[0])
        q = [lib.q_robust(m.V, m.U, m.W, m.H) for m in R]
        want = [lib.q_robust(sa.V, sa.U, W, H)] + list(np.percentile(q, [0, 25, 50, 75, 100]))
        ctx.expect(head == ["Base", "Min", "25th", "Median", "75th", "Max"], f"{what}: columns of the loss table")
        got = np.array([nums(c)[0] for c in cols])
        ctx.expect(bool(np.all(np.abs(got - want) <= 0.5 + 1e-3 * (1 + np.abs(want)))) and bool(np.all(got == np.round(got))), f"{what}: the loss table",
                   lambda: {"got": got, "want": want})
    for i in range(f):
        with lib.shown() as figs, lib.logged():
            bs.show_factor_results(i + 1)
        if one(ctx, figs, f"{what} statistics of factor {i + 1}"):
            head, cols = tables(figs[0])
            X = np.array([np.asarray(m.H, float)[i] for m in R])
            X = np.round(X, 4)
            X = np.where(X < 1e-5, 0, X)
            base = np.where(H[i] < 1e-5, 0, H[i])
            P = np.percentile(X, [5, 25, 50, 75, 95], axis=0)
            std = X.std(axis=0, ddof=1) if len(R) > 1 else np.full(n, np.nan)
            want = {"Base Run Profile": base, "BS Mean": X.mean(axis=0), "BS Std. Dev.": std, "BS 5th": P[0], "BS 25th": P[1],
                    "BS Median": P[2], "BS 75th": P[3], "BS 95th": P[4]}
            ctx.expect(set(head) == set(want) | {"features", "Within IQR"}, f"{what}: columns {head}")
            col = dict(zip(head, cols))
            ctx.expect(strs(col["features"]) == labels, f"{what}: features {col['features']}")
            tol = 2e-4 + 1e-5 * np.abs(X).max(axis=0)     # float32 profiles rounded to 4 digits
            for name, w in want.items():
                g = nums(col[name])
                t = 2e-6 + 1e-5 * np.abs(w) if name == "Base Run Profile" else tol
                ok = (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= t)
                ctx.expect(bool(np.all(ok)), f"{what} factor {i + 1}: {name}", lambda: {"got": g, "want": w})
            for j in range(n):
                if min(abs(base[j] - P[1][j]), abs(base[j] - P[3][j])) > tol[j] or base[j] == P[1][j] == P[3][j] == 0:
                    ctx.expect(bool(col["Within IQR"][j]) == bool(P[1][j] <= base[j] <= P[3][j]), f"{what} factor {i + 1}: within the inter-quartile range, feature {j}",
                               lambda: {"base": base, "quartiles": [P[1], P[3]], "got": col["Within IQR"]})
        for kind in ("profile", "contribution", "results"):
            with lib.shown() as figs, lib.logged():
                {"profile": bs.plot_factor, "contribution": bs.plot_contribution, "results": bs.plot_results}[kind](i + 1)
            kinds = ["profile", "contribution"] if kind == "results" else [kind]
            if not ctx.expect(len(figs) == len(kinds), f"{what} {kind} of factor {i + 1}: {len(figs)} figures"):
                continue
            for fig, kd in zip(figs, kinds):
                ctx.step()
                if kd == "profile":
                    want = np.array([100 * np.asarray(m.H, float)[i] / np.asarray(m.H, float).sum(axis=0) for m in R])
                    base, tol = 100 * H[i] / H.sum(axis=0), 0.012
                else:
                    want = clip([c16.contributions(m.W, m.H)[i] for m in R])
                    base = clip(c16.contributions(W, H)[i])
                    tol = 1e-4
                box = {t.name: lib.arr(t.y) for t in fig.data if t.type == "box"}
                ctx.expect(list(box) == labels, f"{what} {kd} of factor {i + 1}: boxes {list(box)}")
                for j, name in enumerate(labels):
                    ctx.expect(name in box and same(box[name], want[:, j], tol, 1e-4), f"{what} {kd} of factor {i + 1}: box of {name}",
                               lambda: {"got": box.get(name), "want": want[:, j]})
                pts = [t for t in fig.data if t.type == "scatter"]
                ctx.expect(len(pts) == 1 and strs(pts[0].x) == labels and same(lib.arr(pts[0].y), base, 1e-6, 1e-4), f"{what} {kd} of factor {i + 1}: base values",
                           lambda: {"got": [t.y for t in pts], "want": base})
                ctx.expect(f"Factor {i + 1}" in str(fig.layout.title.text), f"{what} {kd}: title {fig.layout.title.text}")
                ctx.outcome([what, kd, i])
    for bad in (-1, 0, f + 1):
        for call in (bs.show_factor_results, bs.plot_factor, bs.plot_contribution, bs.plot_results):
            nothing(ctx, lambda: call(bad), f"{what}, factor {bad}")
    with lib.shown() as figs, lib.logged():
        bs.summary()
    ctx.expect(len(figs) == 2 + f, f"{what}: the summary shows {len(figs)} tables")
    ctx.state(what)


def boot_content(bs):
    return [repr(bs.mapping_df.values.tolist()), bs.q_results.values.tobytes(), repr(bs.factor_tables), repr(bs.bs_profiles),
            repr(bs.bs_factor_contributions)] + [np.asarray(x).tobytes() for m in runs_of(bs) for x in (m.W, m.H, m.V, m.U)]


def boot(ctx, job):
    ci, thorough = job
    scales, m, f, method, n, keep, reuse, block, overlap = BOOT[ci % len(BOOT)]
    labels = [f"species {j}" for j in range(len(scales))]
    what = f"bootstrap {ci}"
    if not ctx.case(what):
        return
    bsm = core.esat("esat.error.bootstrap")
    with ctx.guard("bootstrap results"), core.quiet():
        sa = tiny_base(m, f, method, scales, ci, 10 if ci < len(BOOT) else 3)
        bs = bsm.Bootstrap(sa=sa, feature_labels=labels, bootstrap_n=n, block_size=2, threshold=0.7, parallel=False, seed=9 + ci)
        bs.run(keep_H=keep, reuse_seed=reuse, block=block, overlapping=overlap)
        snap, was = errlib.snapshot(sa), boot_content(bs)
        # the statistics are made of the models that training gives
        for r in bs.bs_results.values():
            idx = [int(i) for i in r["index"]]
            ref = errlib.retrain(sa.V[idx], sa.U[idx], sa, sa.seed if reuse else r["model"].seed, sa.H if keep else None)
            ctx.expect(lib.close(r["model"].H, ref.H, 1e-5, 1e-14 * min(scales) / 1e-9) and lib.close(r["model"].W, ref.W, 1e-5, 1e-12),
                       f"{what}: the stored models are not the trained ones", lambda: {"got": r["model"].H, "want": ref.H})
        check_boot(ctx, bs, sa, labels, what)
        ctx.expect(errlib.unchanged(sa, snap), f"{what}: showing results modified the base model")
        ctx.expect(boot_content(bs) == was, f"{what}: showing results modified the results")


def rows(df, i, dq):
    d = df[(df["factor"] == i) & (df["dQ"] == dq)]
    return {c: list(d[c]) for c in df.columns}


def check_disp(ctx, d, sa, labels, levels, default, what, factors, swaps, counts, drops, extra=None):
    """d: Displacement or BSDISP"""
    df = d.compiled_results
    f = factors
    with lib.shown() as figs, lib.logged() as log:
        d.summary()
    if one(ctx, figs, f"{what} summary"):
        head, cols = tables(figs[0])
        got = np.array([nums(c) for c in cols]).T
        want = np.hstack([np.array(levels, float)[:, None], np.round(100 * swaps / counts, 2)])
        ctx.expect(head == ["dQ Max"] + [f"Factor {i + 1}" for i in range(f)], f"{what}: columns {head}")
        order = {float(r[0]): r for r in got}
        ctx.expect(set(order) == set(map(float, levels)) and all(same(order[float(w[0])], w, 1e-9) for w in want), f"{what}: the swap table",
                   lambda: {"got": got, "want": want})
        text = " ".join(log)
        ctx.expect(str(round(min(drops), 2)) in text or str(round(min(drops), 2) + 0.0) in text, f"{what}: largest decrease of the loss {min(drops)} is not in {text!r}")
        for name, value in (extra or {}).items():
            ctx.expect(f"{name}: {value}" in text, f"{what}: {name}: {value} is not in {text!r}")
    for i in range(f):
        for dq in list(levels) + [3, 1000]:
            eff = dq if dq in levels else default
            r = rows(df, i, eff)
            if not ctx.expect(list(r["feature"]) == labels, f"{what}: features {r['feature']} of the compiled table"):
                return
            for kind in ("profile", "contribution", "results"):
                with lib.shown() as figs, lib.logged():
                    {"profile": d.plot_profile, "contribution": d.plot_contribution, "results": d.plot_results}[kind](i + 1, dQ=dq)
                kinds = ["profile", "contribution"] if kind == "results" else [kind]
                if not ctx.expect(len(figs) == len(kinds), f"{what} {kind}: {len(figs)} figures"):
                    continue
                for fig, kd in zip(figs, kinds):
                    ctx.step()
                    lo, hi, mid = ("profile_min", "profile_max", "profile") if kd == "profile" else ("conc_min", "conc_max", "conc")
                    k = 100.0 if kd == "profile" else 1.0
                    base = k * np.array(r[mid], float)
                    base = base if kd == "profile" else clip(base)
                    where = f"{what} {kd} of factor {i + 1}, dQ {dq}"
                    check_range(ctx, fig, labels, base, k * np.array(r[lo], float), k * np.array(r[hi], float), where)
                    ctx.expect(f"Factor {i + 1}" in str(fig.layout.title.text) and str(fig.layout.title.text).rstrip().endswith(f"dQ {eff}"),
                               f"{where}: title {fig.layout.title.text}")
                    ctx.outcome([what, kd, i, dq])
    for kind in ("plot_profile", "plot_contribution"):
        with lib.shown() as figs, lib.logged():
            getattr(d, kind)(1)
        ctx.expect(len(figs) == 1 and str(figs[0].layout.title.text).rstrip().endswith(f"dQ {default}"), f"{what}: dQ level shown by default")
    for bad in (-1, 0, f + 1):
        for call in (d.plot_profile, d.plot_contribution, d.plot_results):
            nothing(ctx, lambda: call(bad), f"{what}, factor {bad}")
    ctx.state(what)


def check_range(ctx, fig, labels, base, lo, hi, where, bar=0):
    bars = [t for t in fig.data if t.type == "bar"]
    pts = [t for t in fig.data if t.type == "scatter"]
    if not ctx.expect(len(bars) == 1 and len(pts) == 1, f"{where}: traces"):
        return
    b, p = bars[0], pts[0]
    ctx.expect(strs(b.x) == labels and strs(p.x) == labels, f"{where}: features {b.x}, {p.x}")
    ctx.expect(same(lib.arr(p.y), base, 1e-9, 1e-6), f"{where}: base values", lambda: {"got": p.y, "want": base})
    ctx.expect(same(lib.arr(b.base), lo, 1e-9, 1e-6) and same(lib.arr(b.base) + lib.arr(b.y), hi, 1e-9, 1e-6), f"{where}: range",
               lambda: {"got": [b.base, lib.arr(b.base) + lib.arr(b.y)], "want": [lo, hi]})


def disp_counts(d, f, levels):
    swaps, counts = np.zeros((len(levels), f)), np.zeros((len(levels), f))
    for res in (d.increase_results, d.decrease_results):
        for i in range(f):
            for cell in res[f"factor-{i + 1}"].values():
                for k, lv in enumerate(levels):
                    counts[k, i] += 1
                    swaps[k, i] += bool(cell[lv]["swap"])
    return swaps, counts


def drops_of(d):
    return [min(0.0, float(c[lv]["Q_drop"])) for res in (d.increase_results, d.decrease_results) for fv in res.values() for c in fv.values() for lv in c]


DISP = [(c, None) for c in c18.CONFIGS] + [(((8, 4, 3, "ls-nmf", k, it), feats), None)
                                           for k, it, feats in ((0, 30, [0, 1, 2, 3]), (1, 1, [2]), (2, 4, [3, 1]), (0, 2, [0]), (1, 30, [0, 1, 2]),
                                                                (2, 30, [1]), (0, 5, [1, 2, 3]), (1, 9, [0, 3]), (2, 1, [0, 1]), (0, 1, [2, 3]))]


def disp(ctx, job):
    ci, thorough = job
    cfg = DISP[ci][0]
    what = f"displacement {ci}"
    if not ctx.case(what):
        return
    with ctx.guard("displacement results"), core.quiet():
        sa, labels, d = c18.make(cfg, False)
        d.run()
        f = cfg[0][2]
        snap, was = errlib.snapshot(sa), d.compiled_results.copy(deep=True)
        swaps, counts = disp_counts(d, f, c17.LEVELS)
        check_disp(ctx, d, sa, labels, c17.LEVELS, 4, what, f, swaps, counts, drops_of(d))
        check_concentrations(ctx, d, sa, labels, what)
        ctx.expect(errlib.unchanged(sa, snap) and d.compiled_results.equals(was), f"{what}: showing results modified them")


def check_concentrations(ctx, d, sa, labels, what):
    """the plotted base values are those of the model"""
    H = np.asarray(sa.H, float)
    for i in range(H.shape[0]):
        r = rows(d.compiled_results, i, 4)
        ctx.expect(same(r["profile"], H[i] / H.sum(axis=0), 1e-6, 1e-4) and same(r["conc"], c16.contributions(sa.W, H)[i], 1e-6, 1e-3),
                   f"{what}: base values of the compiled table")


def bsdisp(ctx, job):
    ci, thorough = job
    cfg = c19.CONFIGS[ci]
    what = f"BS-DISP {ci}"
    if not ctx.case(what):
        return
    em = core.esat("esat.error.error")
    dm = core.esat("esat.error.displacement")
    with ctx.guard("BS-DISP results"), core.quiet():
        sa, labels, obj, kw = c19.make(cfg)
        with sched.controlled():
            obj.run(parallel=True, **kw)
        f, runs = cfg[0][2], cfg[2]
        levels = c19.LEVELS
        snap, was = errlib.snapshot(sa), obj.compiled_results.copy(deep=True)
        swaps, counts = np.zeros((len(levels), f)), np.zeros((len(levels), f))
        n_drops = n_swaps = 0
        drops = []
        for d in obj.disp_results.values():
            s, c = disp_counts(d, f, levels)
            swaps, counts = swaps + s, counts + c
            n_swaps += bool(s.any())
            n_drops += min(drops_of(d)) < 0
            drops += drops_of(d)
        fit = 0
        for i in range(f):
            fit += any(m["mapping"][i]["match"] != i or not m["mapping"][i]["mapped"] for m in obj.bootstrap.bs_results.values())
        check_disp(ctx, obj, sa, labels, levels, 0.5, what, f, swaps, counts, drops,
                   {"# of Q drops": n_drops, "# of best fit swaps": fit, "# of DISP swaps": n_swaps})
        ctx.expect(errlib.unchanged(sa, snap) and obj.compiled_results.equals(was), f"{what}: showing results modified them")
        # the combined summary
        d = dm.Displacement(sa=sa, feature_labels=labels, model_selected=3, features=[0], parallel=False)
        d.run()
        bs = obj.bootstrap
        for use in itertools.product((0, 1), repeat=3):
            e = em.Error(bs=bs if use[0] else None, disp=d if use[1] else None, bsdisp=obj if use[2] else None)
            for i in range(-1, f + 2):
                with lib.shown() as figs, lib.logged():
                    e.plot_summary(i)
                where = f"{what}: summary of {use}, factor {i}"
                if i < 1 or i > f or not (use[0] or use[1]):
                    ctx.expect(not figs, f"{where}: a figure is shown")
                    continue
                if not one(ctx, figs, where):
                    continue
                fig = figs[0]
                bars = {t.name: t for t in fig.data if t.type == "bar"}
                ctx.expect(set(bars) == {n for n, u in zip(("BS", "Disp", "BS-Disp"), use) if u}, f"{where}: {list(bars)}")
                for name, t in bars.items():
                    if name == "BS":
                        X = clip([np.round(c16.contributions(m.W, m.H)[i - 1], 4) for m in runs_of(bs)])
                        lo, hi, tol = X.min(axis=0), X.max(axis=0), 2e-4
                    else:
                        r = rows((d if name == "Disp" else obj).compiled_results, i - 1, 4)
                        lo, hi, tol = np.array(r["conc_min"], float), np.array(r["conc_max"], float), 1e-9
                    ctx.expect(strs(t.x) == labels and same(lib.arr(t.base), lo, tol, 1e-4) and same(lib.arr(t.base) + lib.arr(t.y), hi, 2 * tol, 1e-4),
                               f"{where}: range of {name}", lambda: {"got": [t.x, t.base, t.y], "want": [lo, hi]})
                pts = [t for t in fig.data if t.type == "scatter"]
                ctx.expect(len(pts) == 1 and strs(pts[0].x) == labels and same(lib.arr(pts[0].y), clip(c16.contributions(sa.W, sa.H)[i - 1]), 1e-6, 1e-4),
                           f"{where}: base values", lambda: {"got": [t.y for t in pts], "want": c16.contributions(sa.W, sa.H)[i - 1]})
                ctx.expect(f"Factor {i}" in str(fig.layout.title.text), f"{where}: title")
                ctx.outcome([what, "summary", use, i])
        ctx.expect(errlib.unchanged(sa, snap) and obj.compiled_results.equals(was), f"{what}: the summary modified the results")


def work(ctx, job):
    {"boot": boot, "disp": disp, "bsdisp": bsdisp}[job[0]](ctx, job[1:])


def run(ctx):
    t = ctx.thorough
    jobs = [("bsdisp", i, t) for i in range(len(c19.CONFIGS) if t else 10)]
    jobs += [("disp", i, t) for i in range(len(DISP) if t else 10)]
    jobs += [("boot", i, t) for i in range(24 if t else 12)]
    core.shards(ctx, work, jobs)
