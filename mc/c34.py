"""C34 tables and plots of the constrained model"""
import itertools
import re
import numpy as np
import pandas as pd
import core, lib, errlib, c01, c02, c21, c22
from c33 import tables, nums, strs, same

PROPERTY = {
    "title": "Constrained model tables and plots show the base and constrained solution",
    "statement": "What the constrained model shows belongs to the solution, factor, feature and sample it is labelled with: the printed losses are those of the base and the constrained model, the evaluation tables list for every constraint and expression the base value, target and solution value of its own elements, the profile, fingerprint, contribution and G-space figures show the named factor of the base model and of the constrained model (percentages of the feature totals, concentrations, contributions with an average of one, at the modelled samples and features), elements that are constrained or used in an expression are highlighted, and the loss plot shows the requested loss at every iteration. Showing results changes nothing.",
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "all base models, constraints, expressions, factors, features, left out samples and features"},
    "why_tests_cant": "No test constrains a model and looks at what is shown; the values of another factor, of the base model or of an excluded feature are as plausible as the right ones.",
    "anchors": {"files": ["esat/rotational/constrained.py"],
                "mechanism": [{"name": "display_results, evaluate_*, plot_*", "where": "ConstrainedModel"}],
                "observe_at": ["figures shown, messages logged"]},
}
SPEC = {"level": "exploration",
        "rule": "one evaluation is one table or figure of one constrained model; distinct by configuration, kind, factor and feature; non-trivial: a figure was shown",
        "bounds": {"quick": "13 constrained models (1-4 and 11 factors, both methods, 7 sets of constraints and expressions on profile and contribution elements) x 4 datasets (daily, hourly with left out samples, every third day unsorted, 15 minutes with an excluded feature); every factor, pair of factors, feature and threshold",
                   "thorough": "every set of constraints and expressions with every dataset, method and factor count (90 models)"},
        "assumptions": ["figures are compared by their data (traces and table cells), labels, axis titles and highlight colours", "samples lie on a regular grid with gaps", "no feature is set to zero in the only factor"]}


def dataset(kind, n, method):
    """(DataHandler, V, U, times of the modelled samples, features of the model)"""
    dhm = core.esat("esat.data.datahandler")
    m = 8
    step = {"days": "1D", "hours": "1h", "third": "3D", "quarter": "15min"}[kind]
    idx = pd.date_range("2021-03-01", periods=m, freq=step)
    V = c02.shaped(m, n, {"days": 0, "hours": 1, "third": 2, "quarter": 3}[kind])
    U = c01.unc(V, "mixed")
    labels = [f"sp{j}" for j in range(n)]
    order = list(range(m))
    if kind == "third":
        order = [3, 0, 1, 5, 2, 7, 4, 6]
    V, U, idx = V[order], U[order], idx[order]
    Vd, Ud = pd.DataFrame(V, columns=labels, index=idx), pd.DataFrame(U, columns=labels, index=idx)
    if kind == "hours":                       # samples without data or uncertainty are left out
        Vd.iloc[2, 1], Ud.iloc[5, 0] = np.nan, np.nan
    dh = dhm.DataHandler.load_dataframe(Vd, Ud)
    if kind == "quarter":
        dh.set_category(labels[1], "bad")
    Vp, Up = dh.get_data()
    keep = [i for i in range(m) if not (kind == "hours" and i in (2, 5))]
    feats = [l for l in labels if not (kind == "quarter" and l == labels[1])]
    return dh, np.array(Vp), np.array(Up), [idx[i] for i in keep], feats


# constraints (as in C21) and expressions: terms (coefficient, kind, factor, index), dQ
SETS = [([("set to zero", (0, 1), "feature", (None,) * 4)], []),
        ([("pull up", (0, 0), "feature", (None, None, None, 30.0)), ("pull down", (3, 0), "sample", (None, None, None, 20.0))], []),
        ([("define limits", (0, 2), "feature", (None, 0.513, 1.126, None)), ("set to base value", (1, 0), "sample", (None,) * 4),
          ("pull to value", (0, 0), "feature", (0.7, None, None, 40.0))], []),
        ([], [([(1.0, "feature", 0, 0), (-2.0, "feature", 0, 1)], 50.0)]),
        ([], [([(1.0, "feature", 0, 2), (-0.5, "feature", 0, 1)], 50.0), ([(1.0, "feature", 0, 2), (-1.5, "feature", 0, 0), (0.25, "feature", 0, 1)], 30.0)]),
        ([("set to base value", (0, 1), "feature", (None,) * 4)], [([(2.0, "sample", 0, 4), (-1.0, "sample", 0, 1)], 80.0)]),
        ([("define limits", (2, 0), "sample", (None, 0.1, 0.4, None)), ("set to zero", (0, 0), "feature", (None,) * 4)],
         [([(1.0, "feature", 0, 1), (-1.0, "feature", 0, 2)], 20.0), ([(1.0, "sample", 0, 3), (-3.0, "sample", 0, 0)], 20.0)])]

QUICK = [("days", 2, "ls-nmf", 0), ("hours", 3, "ls-nmf", 1), ("third", 2, "ls-nmf", 2), ("quarter", 3, "ls-nmf", 3), ("days", 3, "ls-nmf", 4),
         ("hours", 2, "ls-nmf", 5), ("third", 4, "ls-nmf", 6), ("quarter", 2, "ls-nmf", 6), ("days", 1, "ls-nmf", 2), ("hours", 2, "ws-nmf", 6),
         ("quarter", 4, "ws-nmf", 2), ("third", 3, "ws-nmf", 4), ("days", 11, "ls-nmf", 3)]


def shift(s, f):
    """the sets name factor 0: move them to the last factor of the model, so that the factor matters"""
    cons, exprs = s
    k = f - 1
    cons = [(t, (k, i[1]) if target == "feature" else (i[0], k), target, v) for t, i, target, v in cons]
    exprs = [([(c, kind, k, i) for c, kind, _, i in terms], dq) for terms, dq in exprs]
    return cons, exprs


def highlight(cons, exprs, i, n):
    """expected marks of the features of a factor: none, expression or constraint"""
    mark = [0] * n
    for terms, _ in exprs:
        for c, kind, k, j in terms:
            if kind == "feature" and k == i:
                mark[j] = 1
    for t, idx, target, v in cons:
        if target == "feature" and idx[0] == i:
            mark[idx[1]] = 2
    return mark


def close(a, b, rel=1e-4, abs_=1e-5):
    return same(a, b, abs_, rel)


def at_samples(ctx, trace, times, want, where):
    """the line shows exactly the modelled samples; grid points without a sample are gaps"""
    x = [pd.Timestamp(t) for t in trace.x]
    y = lib.arr(trace.y)
    have = {t: v for t, v in zip(x, y)}
    ctx.expect(len(have) == len(x) and x == sorted(x), f"{where}: times are not in order")
    ctx.expect(set(times) <= set(x), f"{where}: samples are missing", lambda: {"samples": [str(t) for t in times], "shown": [str(t) for t in x]})
    ctx.expect(close([have.get(t, np.nan) for t in times], want), f"{where}: values", lambda: {"got": [have.get(t) for t in times], "want": want})
    ctx.expect(all(np.isnan(v) for t, v in have.items() if t not in set(times)), f"{where}: values where there is no sample")


def one(ctx, figs, what, n=1):
    ctx.step()
    return ctx.expect(len(figs) == n, f"{what}: {len(figs)} figures")


def show(call, *a, **k):
    with lib.shown() as figs, lib.logged() as log:
        call(*a, **k)
    return figs, " ".join(log)


def number(text, name):
    m = re.search(r"(?:^|[,\s])" + re.escape(name) + r": (-?[\d.]+(?:e-?\d+)?)", text)
    return float(m.group(1)) if m else None


def check(ctx, cm, sa, c, cons, exprs, times, feats, what):
    f, n = np.asarray(sa.H).shape
    bW, bH, cW, cH = (np.asarray(x, float) for x in (sa.W, sa.H, c.W, c.H))
    # losses
    figs, text = show(cm.display_results)
    bt, br = lib.q_true(sa.V, sa.U, bW, bH), lib.q_robust(sa.V, sa.U, bW, bH)
    ct, cr = lib.q_true(sa.V, sa.U, cW, cH), lib.q_robust(sa.V, sa.U, cW, cH)
    tol = 0.006 + 1e-4 * (bt + ct)
    for name, want in (("dQ(Robust)", cr - br), ("Q(Robust)", cr), ("Base Q(Robust)", br), ("Q(Aux)", float(cm.Qaux)), ("Q(True)", ct), ("Base Q(True)", bt)):
        got = number(text, name)
        ctx.expect(got is not None and abs(got - want) <= tol, f"{what}: printed {name} {got}, not {want}", lambda: text)
    got = number(text, "% dQ(Robust)")
    ctx.expect(got is not None and abs(got - 100 * (cr - br) / br) <= 0.006 + 100 * tol / br, f"{what}: printed % dQ(Robust) {got}, not {100 * (cr - br) / br}")
    ctx.expect(f"Converged: {c.converged}" in text, f"{what}: {text}")
    ctx.step()
    q = [np.array([float(v) for v in x]) for x in cm.Q_list]
    for kind, want in (("true", q[0]), ("robust", q[1]), ("aux", q[2]), ("main", q[0] + q[2]), ("True", q[0]), ("MAIN", q[0] + q[2])):
        figs, _ = show(cm.plot_Q, kind)
        if one(ctx, figs, f"{what} plot_Q {kind}"):
            t = figs[0].data[0]
            ctx.expect(list(t.x) == list(range(len(want))) and close(lib.arr(t.y), want) and kind.lower() in str(figs[0].layout.title.text).lower(),
                       f"{what}: loss {kind}", lambda: {"got": t.y, "want": want})
    figs, text = show(cm.plot_Q, "other")
    ctx.expect(not figs and text, f"{what}: an unknown loss is shown")
    # constraints
    figs, _ = show(cm.evaluate_constraints)
    if one(ctx, figs, f"{what} constraints table"):
        head, cols = tables(figs[0])
        ctx.expect(head == ["Index", "Target", "Type", "Base Value", "Target Value(s)", "Solution Value", "dQ"], f"{what}: columns {head}")
        col = dict(zip(head, figs[0].data[0].cells["values"]))
        ctx.expect(len(col["Index"]) == len(cons), f"{what}: {len(col['Index'])} constraints in the table")
        for r, (typ, idx, target, (tv, lo, hi, dq)) in enumerate(cons[:len(col["Index"])]):
            A, B = (bH, cH) if target == "feature" else (bW, cW)
            b, s = float(A[idx]), float(B[idx])
            where = f"{what}: constraint {r + 1} ({typ})"
            ctx.expect(tuple(col["Index"][r]) == tuple(idx) and col["Target"][r] == target and col["Type"][r] == typ, f"{where}: element")
            ctx.expect(close([col["Base Value"][r], col["Solution Value"][r]], [b, s], 1e-5, 6e-5), f"{where}: values",
                       lambda: {"got": [col["Base Value"][r], col["Solution Value"][r]], "want": [b, s]})
            want_dq = dq if typ.startswith("pull") else None
            g = col["dQ"][r]
            ctx.expect((g is None or g != g) if want_dq is None else g == want_dq, f"{where}: dQ {g}, not {want_dq}")
            g = col["Target Value(s)"][r]
            if typ in ("pull up", "pull down"):
                ctx.expect(g is None or g != g, f"{where}: target {g}")
            elif typ == "define limits":
                ctx.expect(re.findall(r"[\d.]+", str(g)) == [str(float(lo)), str(float(hi))] or close([float(x) for x in re.findall(r"\d+\.\d+", str(g))][-2:], [lo, hi], 0, 6e-4),
                           f"{where}: limits {g}")
            else:
                want = {"pull to value": tv, "set to zero": 0.0, "set to base value": b}[typ]
                ctx.expect(g is not None and abs(float(g) - want) <= 6e-5 + 1e-5 * abs(want), f"{where}: target {g}, not {want}")
    # expressions
    if exprs:
        figs, _ = show(cm.evaluate_expressions)
        if one(ctx, figs, f"{what} expression tables", 2):
            head, cols = tables(figs[0])
            raw = figs[0].data[0].cells["values"]
            ctx.expect(head == ["Index", "Target", "Base Value", "Solution Value"], f"{what}: columns {head}")
            got = {(t, tuple(i)): (float(b), float(s)) for i, t, b, s in zip(*raw)}
            want = {}
            for terms, _ in exprs:
                for co, kind, k, j in terms:
                    want[(kind, (k, j))] = (bH[k, j], cH[k, j]) if kind == "feature" else (bW[j, k], cW[j, k])
            norm = {("feature" if t == "feature" else "sample", i): v for (t, i), v in got.items()}
            ctx.expect(len(got) == len(raw[0]) and set(norm) == set(want) and all(close(norm[e], want[e], 1e-5, 6e-5) for e in want),
                       f"{what}: elements of the expressions", lambda: {"got": got, "want": {str(k): v for k, v in want.items()}})
            head, _ = tables(figs[1])
            most = max(len(t) for t, _ in exprs)
            ctx.expect(head == [f"Term {i + 1}" for i in range(most)] + ["dQ", "Base Eval", "Solution Eval"], f"{what}: columns {head}")
            col = dict(zip(head, figs[1].data[0].cells["values"]))
            for r, (terms, dq) in enumerate(exprs):
                where = f"{what}: expression {r + 1}"
                b = sum(co * want[(kind, (k, j))][0] for co, kind, k, j in terms)
                s = sum(co * want[(kind, (k, j))][1] for co, kind, k, j in terms)
                ctx.expect(close([col["Base Eval"][r], col["Solution Eval"][r]], [b, s], 1e-5, 6e-5), f"{where}: evaluation",
                           lambda: {"got": [col["Base Eval"][r], col["Solution Eval"][r]], "want": [b, s]})
                ctx.expect(float(col["dQ"][r]) == dq, f"{where}: dQ {col['dQ'][r]}")
                for t in range(most):
                    g = str(col[f"Term {t + 1}"][r])
                    if t >= len(terms):
                        ctx.expect(g == "", f"{where}: term {t + 1} {g!r}")
                    else:
                        co, kind, k, j = terms[t]
                        mm = re.fullmatch(r"(-?[\d.]+)\(factor:(\d+)\|(\w+):(\d+)\)", g)
                        ctx.expect(mm and float(mm.group(1)) == co and (int(mm.group(2)), mm.group(3), int(mm.group(4))) == (k, kind, j), f"{where}: term {t + 1} {g!r}")
    # factors
    bP, cP = 100 * bH / bH.sum(axis=0), 100 * cH / cH.sum(axis=0)
    bC, cC = bW.sum(axis=0)[:, None] * bH, cW.sum(axis=0)[:, None] * cH
    bN, cN = bW / bW.mean(axis=0), cW / cW.mean(axis=0)
    for i in range(f):
        for kind in ("profile", "contributions", "both"):
            call = {"profile": cm.plot_profile, "contributions": cm.plot_contributions, "both": cm.plot_profile_contributions}[kind]
            figs, _ = show(call, i + 1)
            kinds = ["profile", "contributions"] if kind == "both" else [kind]
            if not one(ctx, figs, f"{what} {kind} of factor {i + 1}", len(kinds)):
                continue
            for fig, kd in zip(figs, kinds):
                where = f"{what} {kd} of factor {i + 1}"
                ctx.expect(f"Factor {i + 1}" in str(fig.layout.title.text), f"{where}: title {fig.layout.title.text}")
                tr = {t.name: t for t in fig.data}
                if kd == "profile":
                    for name, want, a in (("Base % of Features", bP[i], 0.006), ("Constrained % of Features", cP[i], 0.006),
                                          ("Base Conc. of Features", bC[i], 1e-6), ("Constrained Conc. of Features", cC[i], 1e-6)):
                        ctx.expect(name in tr and strs(tr[name].x) == feats and close(lib.arr(tr[name].y), want, 1e-4, a), f"{where}: {name}",
                                   lambda: {"got": tr.get(name) and tr[name].y, "want": want})
                    mark = highlight(cons, exprs, i, n)
                    bar = tr["Constrained Conc. of Features"].marker.line.color
                    colours = list(bar) if not isinstance(bar, str) else [bar] * n
                    plain = [co for co, k in zip(colours, mark) if k == 0]
                    ctx.expect(len(colours) == n and len(set(plain)) <= 1 and all((co in plain[:1]) == (k == 0) for co, k in zip(colours, mark)),
                               f"{where}: highlighted features", lambda: {"colours": colours, "marks": mark})
                    both = [{co for co, k in zip(colours, mark) if k == v} for v in (1, 2)]
                    ctx.expect(not both[0] & both[1], f"{where}: constraints and expressions are marked alike")
                else:
                    for name, want in (("Base Factor Contributions", bN[:, i]), ("Constrained Factor Contributions", cN[:, i])):
                        if ctx.expect(name in tr, f"{where}: {list(tr)}"):
                            at_samples(ctx, tr[name], times, want, f"{where}, {name}")
                ctx.outcome([what, kd, i])
        for j in range(f):
            for base, delta in itertools.product((False, True), repeat=2):
                figs, _ = show(cm.plot_g_space, i + 1, j + 1, show_base=base, show_delta=delta)
                where = f"{what}: G-space of factors {i + 1} and {j + 1}"
                if not one(ctx, figs, where):
                    continue
                fig = figs[0]
                marks = {t.name: t for t in fig.data if t.mode == "markers"}
                ctx.expect(len(marks) == (2 if base or delta else 1), f"{where}: traces {list(marks)}")
                for name, t in marks.items():
                    A = bN if name == "Base" else cN
                    ctx.expect(close(lib.arr(t.x), A[:, i]) and close(lib.arr(t.y), A[:, j]), f"{where}: {name}", lambda: {"got": [t.x, t.y], "want": [A[:, i], A[:, j]]})
                ctx.expect(f"Factor {i + 1} " in str(fig.layout.xaxis.title.text) and f"Factor {j + 1} " in str(fig.layout.yaxis.title.text), f"{where}: axis titles")
                if delta:
                    arrows = [t for t in fig.data if t.mode == "lines"]
                    if ctx.expect(len(arrows) == 1, f"{where}: arrows"):
                        for got, col in ((arrows[0].x, i), (arrows[0].y, j)):
                            got = lib.arr(got)[:3 * len(bN)].reshape(-1, 3)
                            ctx.expect(close(got[:, 0], bN[:, col]) and np.all(np.abs(got[:, 1] - cN[:, col]) <= 0.011 * np.abs(cN[:, col] - bN[:, col]) + 1e-5),
                                       f"{where}: arrows do not lead from the base to the constrained values", lambda: {"got": got, "want": [bN[:, col], cN[:, col]]})
                ctx.outcome([what, "g", i, j, base, delta])
    for bad in (0, -1, f + 1):
        for call, args in ((cm.plot_profile_contributions, (bad,)), (cm.plot_g_space, (bad, 1)), (cm.plot_g_space, (1, bad))):
            ctx.expect(not show(call, *args)[0], f"{what}: a figure is shown for factor {bad}")
    figs, _ = show(cm.plot_factor_fingerprints)
    if one(ctx, figs, f"{what} fingerprints"):
        got = {(t.name, t.xaxis): t for t in figs[0].data}
        axes = sorted({t.xaxis for t in figs[0].data})
        ctx.expect(len(got) == 2 * f and len(axes) == 2, f"{what}: fingerprints {list(got)}")
        for i, (ax, P) in itertools.product(range(f), zip(axes, (bP, cP))):
            t = got.get((f"Factor {i + 1}", ax))
            ctx.expect(t is not None and strs(t.x) == feats and close(lib.arr(t.y), P[i], 1e-4, 1e-4), f"{what}: fingerprint of factor {i + 1}, {ax}",
                       lambda: {"got": t and t.y, "want": P[i]})
    for j in range(n):
        for th in (0.06, 15.0, 60.0):
            figs, _ = show(cm.plot_factor_contributions, j + 1, threshold=th)
            where = f"{what}: contributions to feature {j + 1} above {th}"
            if not one(ctx, figs, where, 2):
                continue
            pie = figs[0].data[0]
            labels = [] if pie.labels is None else list(pie.labels)
            got = dict(zip(labels, [] if pie.values is None else lib.arr(pie.values)))
            near = {f"Factor {i + 1}" for i in range(f) if abs(cP[i, j] - th) < 1e-3}
            want = {f"Factor {i + 1}": cP[i, j] for i in range(f) if cP[i, j] > th}
            ctx.expect(len(labels) == len(got) and set(got) - near == set(want) - near and all(close([got[k]], [want[k]], 1e-4, 1e-4) for k in got if k in want),
                       f"{where}: pie", lambda: {"got": got, "want": want})
            ctx.expect(str(figs[0].layout.title.text).endswith(feats[j]), f"{where}: title {figs[0].layout.title.text}, feature {feats[j]}")
            tr = {t.name: t for t in figs[1].data}
            if ctx.expect(list(tr) == [f"Factor {i + 1}" for i in range(f)], f"{where}: lines {list(tr)}"):
                for i in range(f):
                    at_samples(ctx, tr[f"Factor {i + 1}"], times, cN[:, i], f"{where}, factor {i + 1}")
            ctx.outcome([what, "pie", j, th, sorted(want)])
    for bad in (0, -1, n + 1):
        ctx.expect([x.to_json() for x in show(cm.plot_factor_contributions, None)[0]] == [x.to_json() for x in show(cm.plot_factor_contributions, 1)[0]], f"{what}: contributions without a feature")
        ctx.expect(not show(cm.plot_factor_contributions, bad)[0], f"{what}: a figure is shown for feature {bad}")


def work(ctx, job):
    kind, f, method, si = job
    n = 5 if kind == "quarter" else 4
    what = f"{kind}, {f} factors, {method}, set {si}"
    if not ctx.case(what):
        return
    mod = core.esat("esat.rotational.constrained")
    with ctx.guard("constrained results"), core.quiet():
        dh, V, U, times, feats = dataset(kind, n, method)
        m = len(times)
        cons, exprs = shift(SETS[si], f)
        sa = lib.SA(V, U, f, method=method, seed=4)
        sa.initialize(H=c01.start_h(f, len(feats), si), W=np.abs(c01.start_h(m, f, si)))
        sa.train(max_iter=20, converge_delta=1e-9, converge_n=500)
        snap = errlib.snapshot(sa)
        cm = mod.ConstrainedModel(base_model=sa, data_handler=dh)
        figs, text = show(cm.display_results)
        ctx.expect(not figs, f"{what}: results before training")
        for c in cons:
            ctx.expect(c21.add(cm, c) is True, f"constraint {c} was refused")
        for terms, dq in exprs:
            ctx.expect(cm.add_expression(c22.text(terms, dq)) is True, f"expression {terms} was refused")
        cm.train(max_iterations=6, converge_delta=1e-9, converge_n=500)
        c = cm.constrained_model
        after = errlib.snapshot(c)
        ctx.expect(strs(dh.features) == feats and V.shape == (m, len(feats)), f"{what}: dataset {dh.features} {V.shape}")
        was = [x.copy(deep=True) for x in (dh.input_data, dh.input_data_df, dh.uncertainty_data)]
        check(ctx, cm, sa, c, cons, exprs, times, feats, what)
        ctx.expect(errlib.unchanged(sa, snap) and errlib.unchanged(c, after), f"{what}: showing results modified a model")
        ctx.expect(all(a.equals(b) for a, b in zip(was, (dh.input_data, dh.input_data_df, dh.uncertainty_data))), f"{what}: showing results modified the dataset")
        ctx.state(what)


def run(ctx):
    jobs = QUICK
    if ctx.thorough:
        jobs = [(k, f, me, s) for k in ("days", "hours", "third", "quarter") for f in (1, 2, 3, 4) for me in ("ls-nmf", "ws-nmf") for s in range(len(SETS))]
        jobs = [j for j in jobs if not (j[1] == 1 and (j[2] == "ws-nmf" or j[3] in (0, 6)))]
    core.shards(ctx, work, jobs)
