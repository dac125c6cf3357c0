"""C21 constraint enforcement: every pull of every iteration"""
import itertools
import numpy as np
import core, lib, errlib, c01, c02

PROPERTY = {
    "title": "Every constrained iteration starts from the constrained values, within dQ",
    "statement": "In each iteration of a constrained training the elements with a constraint, and no others, are moved before the update: set to zero to 0, set to base value to the base model's value, define limits to the nearest value within the limits, pull down to a smaller, pull up to a larger and pull to value to the value or one between it and the current value. A pull changes the loss by no more than its dQ limit and, unless it reaches its end, by at least the limit less 100. Without a constraint or an expression nothing is trained. The result is the last iterate with its losses, and training again starts anew with the constraints of that time; the base model stays as it was.",
    "quantifier": {"over": ["inputs", "histories", "configurations"],
                   "text": "all base models, constraint types, elements, limits and iterations, alone and in pairs"},
    "why_tests_cant": "The tests train one constrained model and look at its existence; a pull that exceeds its limit, or is applied to the last guess instead of the current value, still ends with plausible matrices.",
    "anchors": {"files": ["esat/rotational/constrained.py"],
                "state": [{"name": "constrained_model, Qaux, Q_list", "meaning": "result", "where": "ConstrainedModel"}],
                "mechanism": [{"name": "pull matrices", "where": "ConstrainedModel.train"}],
                "observe_at": ["arguments of the update step of the base model", "ConstrainedModel.constrained_model"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of constraints and pairs of constraints on the real code, the matrices entering every iteration's update compared with the specification",
        "bounds": {"quick": "3 base models (2 least squares, 1 weighted semi): every element of H and W x 6 constraint types x the values of the type (2 dQ limits, targets below, between and above, 3 limit pairs), 3 iterations; every ordered pair out of 10 constraints; stop rule for 4 settings; every sequence of two trainings with up to 2 of 3 constraints and 2 expressions each, against a new constrained model",
                   "thorough": "6 base models, 6 iterations; sequences of three trainings"},
        "assumptions": ["float32 rounding of the loss (relative 2e-5)",
                        "a feature or sample keeps at least one factor that is not set to zero (otherwise the update divides 0 by 0)",
                        "the update step is taken from the base model (SA.update_step)"]}

MODELS = [(5, 4, 2, "ls-nmf", 0, 6, 0.02), (4, 3, 2, "ls-nmf", 1, 3, 1.0), (5, 4, 2, "ws-nmf", 0, 6, 0.05),
          (4, 5, 3, "ls-nmf", 2, 20, 0.02), (6, 3, 1, "ls-nmf", 1, 4, 0.1), (6, 4, 3, "ws-nmf", 1, 3, 0.02)]
VALUES = {"pull down": [(None, None, None, 50.0), (None, None, None, 400.0)],
          "pull up": [(None, None, None, 50.0), (None, None, None, 400.0)],
          "pull to value": [(t, None, None, q) for t in (0.05, 0.8, 30.0) for q in (50.0, 300.0)],
          "set to zero": [(None,) * 4], "set to base value": [(None,) * 4],
          "define limits": [(None, 0.0, 0.3, None), (None, 0.5, 1.1, None), (None, 2.0, 50.0, None)]}


def build(model):
    m, n, f, method, k, iters, scale = model
    V = c02.shaped(m, n, k)
    if method == "ws-nmf":
        V = V - 2.0
    U = c01.unc(V, "mixed") * scale
    sa = lib.SA(V, U, f, method=method, seed=4)
    sa.initialize(H=c01.start_h(f, n, k), W=np.abs(c01.start_h(m, f, k)))
    sa.train(max_iter=iters, converge_delta=1e-9, converge_n=500)
    return sa


class Recorder:
    """stands in for the update step and records what enters and leaves it"""
    def __init__(self, sa):
        self.real, self.calls = sa.update_step, []
        sa.update_step = self

    def __call__(self, *a, **k):
        names = ("V", "We", "W", "H", "hold_h")
        args = dict(zip(names, a))
        args.update(k)
        inp = (np.array(args["W"], dtype=float), np.array(args["H"], dtype=float))
        W, H = self.real(*a, **k)
        self.calls.append((inp, (np.array(W, dtype=float), np.array(H, dtype=float))))
        return W, H


def setup(model, softness=1.0):
    mod = core.esat("esat.rotational.constrained")
    sa = build(model)
    real = sa.update_step
    rec = Recorder(sa)
    cm = mod.ConstrainedModel(base_model=sa, data_handler=None, softness=softness)
    return sa, rec, cm


def q(sa, W, H):
    return lib.q_true(sa.V, sa.U, W, H)


def check_pull(ctx, sa, W, H, con, new, where):
    """the value that the constraint gives the element, from the matrices before the iteration"""
    typ, idx, target, (tv, lo, hi, dq) = con
    cur = float((H if target == "feature" else W)[idx])
    base = float((sa.H if target == "feature" else sa.W)[idx])
    tol = 1e-5 * abs(cur) + 1e-7
    if typ == "set to zero":
        return ctx.expect(abs(new) <= tol, f"{where}: {new} instead of 0")
    if typ == "set to base value":
        return ctx.expect(abs(new - base) <= tol + 1e-5 * abs(base), f"{where}: {new} instead of the base value {base}")
    if typ == "define limits":
        want = min(max(cur, lo), hi)
        return ctx.expect(abs(new - want) <= tol + 1e-5 * abs(want), f"{where}: {new} instead of {want} (value {cur}, limits {lo}, {hi})")
    W2, H2 = W.copy(), H.copy()
    (H2 if target == "feature" else W2)[idx] = new
    q0 = q(sa, W, H)
    d = abs(q(sa, W2, H2) - q0)
    qtol = 4e-5 * q0 + 1e-3
    if typ == "pull to value" and target == "feature" and tv < 0:
        return
    if not ctx.expect(d <= dq + qtol + 1e-4 * dq, f"{where}: the pull from {cur} to {new} changes the loss by {d}, limit {dq}"):
        return
    end = None
    if typ == "pull down":
        s = 1 if cur >= 0 else -1
        ctx.expect(-tol <= s * new <= s * cur + tol, f"{where}: pulled down from {cur} to {new}")
        end = abs(new) <= 1e-5 * abs(cur) + 2e-8
    elif typ == "pull up":
        s = 1 if cur >= 0 else -1
        ctx.expect(s * new >= s * cur - tol, f"{where}: pulled up from {cur} to {new}")
        end = abs(new) > 1e8 * abs(cur) or cur == 0
    else:
        a, b = min(cur, tv), max(cur, tv)
        ctx.expect(a - tol <= new <= b + tol, f"{where}: {new} is not between {cur} and {tv}")
        end = abs(new - tv) <= 1e-5 * abs(tv) + tol
        W3, H3 = W.copy(), H.copy()
        (H3 if target == "feature" else W3)[idx] = tv
        full = abs(q(sa, W3, H3) - q0)
        if full < dq - qtol - 1e-4 * dq:
            ctx.expect(abs(new - tv) <= 1e-5 * abs(tv) + 1e-7, f"{where}: the target {tv} changes the loss by only {full} but the value is {new}")
    if not end and abs(new - cur) > 1e-7:
        ctx.expect(d >= dq - 100 - qtol, f"{where}: the pull from {cur} to {new} changes the loss by only {d}, limit {dq}")
    if not end and abs(cur) > 1e-3 and dq > 101 + 2 * qtol:
        ctx.expect(d >= dq - 100 - qtol, f"{where}: the element stays at {cur}, limit {dq}")
    ctx.outcome([typ, bool(end), d > 1])


def check_run(ctx, sa, rec, cm, cons, iters, softness=1.0, delta=None, n=None):
    W, H = np.array(sa.W, float), np.array(sa.H, float)
    Wb, Hb = W.copy(), H.copy()
    qm = []
    stop = None
    for k, ((Wp, Hp), (Wn, Hn)) in enumerate(rec.calls):
        Dw, Dh = Wp - W, Hp - H
        for con in cons:
            new = (Hp if con[2] == "feature" else Wp)[con[1]]
            check_pull(ctx, sa, W, H, con, float(new), f"iteration {k + 1}, {con[0]} on {con[2]} {con[1]}")
        fw, fh = np.ones(W.shape, bool), np.ones(H.shape, bool)
        for con in cons:
            (fh if con[2] == "feature" else fw)[con[1]] = False
        ctx.expect(lib.close(Wp[fw], W[fw], 1e-6, 1e-9) and lib.close(Hp[fh], H[fh], 1e-6, 1e-9),
                   f"iteration {k + 1}: an element without a constraint was moved")
        W, H = Wn, Hn
        qt, qa = q(sa, W, H), (((Wb + Dw - W) ** 2).sum() + ((Hb + Dh - H) ** 2).sum()) / softness ** 2
        ctx.expect(lib.close(cm.Q_list[0][k], qt, 1e-3, 1e-2), f"iteration {k + 1}: Q(True) {cm.Q_list[0][k]}, not {qt}")
        ctx.expect(lib.close(cm.Q_list[1][k], lib.q_robust(sa.V, sa.U, W, H), 1e-3, 1e-2), f"iteration {k + 1}: Q(Robust) {cm.Q_list[1][k]}")
        ctx.expect(lib.close(cm.Q_list[2][k], qa, 1e-3, 1e-3), f"iteration {k + 1}: Q(aux) {cm.Q_list[2][k]}, not {qa}")
        qm.append(float(cm.Q_list[0][k] + cm.Q_list[2][k]))
        ctx.state(lib.key(Wp, Hp))
        ctx.step()
        if delta is not None and stop is None and len(qm) > n and max(qm[-n:]) - min(qm[-n:]) <= delta:
            stop = k
    ctx.expect(len(cm.Q_list[0]) == len(cm.Q_list[1]) == len(cm.Q_list[2]) == len(rec.calls), "length of the loss history")
    if delta is not None:
        last = len(rec.calls) - 1
        ctx.expect(last == (stop if stop is not None else iters - 1), f"stopped after iteration {last + 1}, rule {stop}")
        ctx.expect(bool(cm.constrained_model.converged) == (stop is not None), "converged flag")
    else:
        ctx.expect(len(rec.calls) == iters, f"{len(rec.calls)} iterations instead of {iters}")
    c = cm.constrained_model
    ctx.expect(lib.close(np.asarray(c.W), W, 1e-5, 1e-6) and lib.close(np.asarray(c.H), H, 1e-5, 1e-6), "the result is not the last iterate")
    ctx.expect(lib.close(c.WH, W @ H, 1e-4, 1e-5), "WH of the result")
    ctx.expect(lib.close(c.Qtrue, q(sa, W, H), 1e-3, 1e-2) and lib.close(c.Qrobust, lib.q_robust(sa.V, sa.U, W, H), 1e-3, 1e-2), "losses of the result")
    ctx.expect(lib.close(cm.Qaux, cm.Q_list[2][-1], 1e-6, 1e-9), "Q(aux) of the result")
    ctx.expect(c.converge_steps in (len(rec.calls) - 1, len(rec.calls)), f"{c.converge_steps} steps recorded, {len(rec.calls)} made")
    ctx.expect(c.factors == sa.factors and c.method == sa.method, "settings of the result")


def add(cm, con):
    typ, idx, target, (tv, lo, hi, dq) = con
    return cm.add_constraint(constraint_type=typ, index=idx, target=target, target_value=tv, min_value=lo, max_value=hi, dQ=dq)


def one(ctx, key, model, cons, iters, delta=1e-12, n=500, softness=1.0):
    if not ctx.case(*key):
        return
    with ctx.guard("constrained training"), core.quiet():
        sa, rec, cm = setup(model, softness)
        snap = errlib.snapshot(sa)
        for c in cons:
            ctx.expect(add(cm, c) is True, f"constraint {c} was refused")
        cm.train(max_iterations=iters, converge_delta=delta, converge_n=n)
        check_run(ctx, sa, rec, cm, cons, iters, softness, delta, n)
        ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")


def without(ctx):
    """no constraint (any more): nothing is trained"""
    for model in MODELS[:2]:
        for ops in ((), ((("pull down", (0, 1), "feature", (None, None, None, 50.0)), True),)):
            if not ctx.case("without constraints", model, len(ops)):
                continue
            with ctx.guard("training without constraints"), core.quiet():
                sa, rec, cm = setup(model)
                snap = errlib.snapshot(sa)
                for c, _ in ops:
                    ctx.expect(add(cm, c) is True, f"constraint {c} refused")
                    cm.remove_constraint(list(cm.constraints)[0])
                cm.train(max_iterations=3, converge_delta=1e-12, converge_n=500)
                ctx.expect(not rec.calls and cm.constrained_model is None, f"{len(rec.calls)} iterations without a constraint or an expression")
                ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
                ctx.state(("without", model, len(ops)))


def work(ctx, job):
    kind, mi, iters, part = job
    model = MODELS[mi]
    m, n, f = model[:3]
    if kind == "single":
        k = 0
        for target, (a, b) in (("feature", (f, n)), ("sample", (m, f))):
            for idx in itertools.product(range(a), range(b)):
                for typ, vals in VALUES.items():
                    if f == 1 and typ == "set to zero":
                        continue
                    for v in vals:
                        k += 1
                        if k % 4 == part:
                            one(ctx, (kind, mi, target, idx, typ, v), model, [(typ, idx, target, v)], iters)
        return
    menu = [("pull down", (0, 1), "feature", (None, None, None, 150.0)), ("pull up", (min(1, f - 1), 0), "feature", (None, None, None, 150.0)),
            ("pull to value", (0, 2), "feature", (0.7, None, None, 250.0)), ("set to zero", (min(1, f - 1), 1), "feature", (None,) * 4),
            ("set to base value", (0, 0), "feature", (None,) * 4), ("define limits", (min(1, f - 1), 2), "feature", (None, 0.2, 0.5, None)),
            ("pull down", (1, 0), "sample", (None, None, None, 60.0)), ("set to base value", (2, f - 1), "sample", (None,) * 4),
            ("define limits", (3, 0), "sample", (None, 0.3, 0.9, None)), ("pull to value", (0, f - 1), "sample", (2.0, None, None, 120.0))]
    k = 0
    for a, b in itertools.permutations(menu, 2):
        k += 1
        if a[1:3] == b[1:3] or k % 4 != part or (f == 1 and "set to zero" in (a[0], b[0])):
            continue
        one(ctx, (kind, mi, a, b), model, [a, b], iters, softness=1.0 if k % 3 else 2.0)
    for j, (delta, nn) in enumerate(((1e9, 2), (5.0, 3), (1e9, 1), (0.5, 2))):
        if j == part:
            for c in menu[:8]:
                if f == 1 and c[0] == "set to zero":
                    continue
                one(ctx, ("stop", mi, delta, nn, c), model, [c], 12, delta, nn)


ITEMS = [("pull down", (0, 1), "feature", (None, None, None, 150.0)), ("define limits", (1, 0), "sample", (None, 0.3, 0.9, None)),
         ("set to zero", (1, 2), "feature", (None,) * 4), "(1.0*[factor:0|feature:1])-(2.0*[factor:1|feature:0])=0,50",
         "(0.5*[factor:0|sample:2])-(1.5*[factor:1|feature:0])=0,80"]
CONFIGS = [c for k in range(3) for c in itertools.combinations(range(len(ITEMS)), k)]


def switch(ctx, cm, old, new):
    """from one set of constraints and expressions to another"""
    for i in old:
        if i not in new:
            if isinstance(ITEMS[i], str):
                cm.remove_expression(cm.expressions.index(ITEMS[i]))
            else:
                typ, idx, target, _ = ITEMS[i]
                cm.remove_constraint(f"factor:{idx[0]}|feature:{idx[1]}" if target == "feature" else f"factor:{idx[1]}|sample:{idx[0]}")
    for i in new:
        if i not in old:
            ctx.expect((cm.add_expression(ITEMS[i]) if isinstance(ITEMS[i], str) else add(cm, ITEMS[i])) is True, f"{ITEMS[i]} refused")


def summary(cm):
    c = cm.constrained_model
    return (np.asarray(c.W).tobytes(), np.asarray(c.H).tobytes(), np.asarray(c.WH).tobytes(), float(c.Qtrue), float(c.Qrobust),
            int(c.converge_steps), bool(c.converged), [[float(x) for x in q_] for q_ in cm.Q_list], float(cm.Qaux))


def history(ctx, job, expressions=False):
    """training again after other trainings, with other constraints, expressions and settings: every sequence"""
    mi, length, first = job
    model = MODELS[mi]
    stops = ((5, 1e-12, 500), (3, 1e9, 1), (2, 1e-12, 500))
    fresh = {}
    for tail in itertools.product(range(len(CONFIGS)), repeat=length - 1):
        seq = (first,) + tail
        last = CONFIGS[seq[-1]]
        if seq[-1] == seq[-2] and length > 2 or any(isinstance(ITEMS[i], str) for i in last) != expressions or not last:
            continue
        if not ctx.case("history", mi, seq):
            continue
        with ctx.guard("constrained training again"), core.quiet():
            stop = stops[len(seq) % 3 if sum(seq) % 2 else 0]
            order = []                          # in which the last constraints and expressions were added
            for k in seq:
                order = [i for i in order if i in CONFIGS[k]] + [i for i in CONFIGS[k] if i not in order]
            order = tuple(order)
            if (order, stop) not in fresh:
                sa, rec, cm = setup(model)
                switch(ctx, cm, (), order)
                cm.train(*stop)
                fresh[order, stop] = summary(cm)
            sa, rec, cm = setup(model)
            snap = errlib.snapshot(sa)
            old = ()
            for n, k in enumerate(seq):
                switch(ctx, cm, old, CONFIGS[k])
                old = CONFIGS[k]
                cm.train(*(stop if n == len(seq) - 1 else stops[n % 2]))
                ctx.step()
            got, want = summary(cm), fresh[order, stop]
            ctx.expect(got == want, "training again gives another result than training a new constrained model with the same settings",
                       lambda: {"loss": got[3], "new": want[3], "steps": got[5], "new steps": want[5], "Qaux": [got[8], want[8]]})
            ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
            ctx.state(("history", mi, seq))


def run(ctx):
    iters = 6 if ctx.thorough else 3
    without(ctx)
    for length in (2, 3) if ctx.thorough else (2,):
        core.shards(ctx, history, [(i, length, c) for i in (0, 1) for c in range(len(CONFIGS))])
    core.shards(ctx, work, [(k, i, iters, p) for i in range(6 if ctx.thorough else 3) for k in ("single", "pair") for p in range(4)])
