"""C22 expressions: the change applied in every iteration"""
import itertools
import numpy as np
import core, lib, errlib, c21

PROPERTY = {
    "title": "Expressions move their elements to a solution of the equations, within dQ",
    "statement": "For a training with expressions, the elements named in them (feature i of factor k, or sample i of factor k), and no others, are moved before each update towards values, none below zero, that satisfy all equations, or come as close as non-negative values can. The whole move is made when it raises the objective by less than the sum of the dQ limits; otherwise it is shortened along the same direction until it does, or dropped. Coefficients, signs, terms shared between expressions and sample terms all enter as written, and a constraint on an element takes precedence.",
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "all expressions (elements, coefficients, signs, limits), alone and together, in every iteration"},
    "why_tests_cant": "The tests train with one expression and never evaluate it; a wrong sign, swapped index or missing term still yields a trained model.",
    "anchors": {"files": ["esat/rotational/constrained.py"],
                "state": [{"name": "expressions", "meaning": "registered expressions", "where": "ConstrainedModel"}],
                "mechanism": [{"name": "parsing and bounded least squares", "where": "ConstrainedModel.train"}],
                "observe_at": ["arguments of the update step of the base model"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of expressions and pairs of expressions on the real code, the matrices entering every iteration's update compared with the specification",
        "bounds": {"quick": "2 base models; every ordered pair of elements out of 8 (5 profile, 3 contribution) with the sign and coefficient patterns {a-b, a-2b, 3a-0.5b, a+b, -a+b} and 3 dQ limits; 60 three-term expressions; 90 pairs of expressions sharing elements or not; 31 triples of which the last shares an element with one of the others; every ordered pair out of 7 elements of a model of 11 factors, 12 features and 13 samples (indices of two digits, coefficients of several digits); every sequence of two trainings with up to 2 of 3 constraints and 2 expressions each, against a new constrained model; with a constraint on one element; 2 iterations",
                   "thorough": "4 base models, 4 iterations; sequences of three trainings"},
        "assumptions": ["an element occurs at most once in an expression", "tolerance 1e-3 of the largest term for satisfied equations"]}


def text(terms, dq):
    """terms: (coefficient, kind, factor, index)"""
    s = ""
    for n, (c, kind, k, i) in enumerate(terms):
        e = f"[factor:{k}|{kind}:{i}]"
        if n == 0:
            s += f"({c}*{e})"
        else:
            s += ("-" if c < 0 else "+") + f"({abs(c)}*{e})"
    return f"{s}=0,{dq}"


def get(W, H, e):
    return float(H[e[1], e[2]] if e[0] == "feature" else W[e[2], e[1]])


def check_iter(ctx, sa, W, H, Wp, Hp, exprs, limit, fixed, where, full):
    elems = []
    for terms, _ in exprs:
        for c, kind, k, i in terms:
            if (kind, k, i) not in elems:
                elems.append((kind, k, i))
    fw, fh = np.ones(W.shape, bool), np.ones(H.shape, bool)
    for kind, k, i in elems + [(("feature", c[1][0], c[1][1]) if c[2] == "feature" else ("sample", c[1][1], c[1][0])) for c in fixed]:
        if kind == "feature":
            fh[k, i] = False
        else:
            fw[i, k] = False
    ctx.expect(lib.close(Wp[fw], W[fw], 1e-6, 1e-9) and lib.close(Hp[fh], H[fh], 1e-6, 1e-9), f"{where}: an element outside the expressions was moved")
    old = np.array([get(W, H, e) for e in elems])
    new = np.array([get(Wp, Hp, e) for e in elems])
    A = np.zeros((len(exprs), len(elems)))
    for r, (terms, _) in enumerate(exprs):
        for c, kind, k, i in terms:
            A[r, elems.index((kind, k, i))] = c
    if fixed:
        free = [n for n, e in enumerate(elems) if e not in [("feature", c[1][0], c[1][1]) if c[2] == "feature" else ("sample", c[1][1], c[1][0]) for c in fixed]]
    else:
        free = list(range(len(elems)))
        ctx.expect(np.all(new >= -1e-6 * np.abs(old).max()) or np.any(old < 0), f"{where}: negative value {new}")
    scale = np.abs(A * old).max() + 0.1 * np.abs(A).max()
    if full:
        if not fixed:
            ctx.expect(np.abs(A @ new).max() <= 1e-3 * scale, f"{where}: the equations are not satisfied", lambda: {"new": new, "A": A, "res": A @ new})
            # the smallest such change, when no value reaches zero
            step = -np.linalg.pinv(A) @ (A @ old)
            if np.all(old + step > 1e-6):
                ctx.expect(np.linalg.norm(new - old) <= np.linalg.norm(step) * (1 + 1e-3) + 1e-5 * np.abs(old).max(),
                           f"{where}: the change is larger than needed", lambda: {"old": old, "new": new, "least": old + step})
        return old, new, free
    return old, new, free


def one(ctx, key, model, exprs, cons, iters):
    """unlimited dQ: every equation must hold after the move; then with the limits given"""
    if not ctx.case(*key):
        return
    with ctx.guard("training with expressions"), core.quiet():
        ref = None
        for limited in (False, True):
            sa, rec, cm = c21.setup(model)
            snap = errlib.snapshot(sa)
            for terms, dq in exprs:
                ctx.expect(cm.add_expression(text(terms, dq if limited else 1e15)) is True, "expression refused")
            for c in cons:
                ctx.expect(c21.add(cm, c) is True, f"constraint {c} refused")
            cm.train(max_iterations=iters, converge_delta=1e-12, converge_n=500)
            ctx.expect(len(rec.calls) == iters, "iterations")
            limit = sum(dq for _, dq in exprs)
            W, H = np.array(sa.W, float), np.array(sa.H, float)
            for k, ((Wp, Hp), (Wn, Hn)) in enumerate(rec.calls):
                where = f"iteration {k + 1}{'' if not limited else ', dQ limit ' + str(limit)}"
                old, new, free = check_iter(ctx, sa, W, H, Wp, Hp, exprs, limit, cons, where, not limited)
                for c in cons:
                    c21.check_pull(ctx, sa, W, H, c, float((Hp if c[2] == "feature" else Wp)[c[1]]), f"{where}, {c[0]}")
                if not limited and k == 0:
                    ref = new - old
                if limited:
                    Wx, Hx = Wp, Hp
                    if cons:            # the elements with a constraint do not belong to the move of the expressions
                        break
                    dq = objective(sa, Wx, Hx, W, H) - float(sa.Qtrue)
                    moved = np.abs(new - old).max() > 1e-7 * max(1, np.abs(old).max())
                    if moved:
                        ctx.expect(dq <= limit + 1e-4 * (limit + float(sa.Qtrue)), f"{where}: the objective rises by {dq}")
                    if k == 0 and np.linalg.norm(ref) > 1e-5:
                        s = float((new - old) @ ref / (ref @ ref))
                        ctx.expect(np.linalg.norm((new - old) - s * ref) <= 1e-3 * np.linalg.norm(ref), f"{where}: the move is not along the full one")
                        ctx.expect(-1e-6 <= s <= 1 + 1e-3, f"{where}: the move is {s} of the full one")
                        # it is not shortened more than needed
                        if s < 0.995:
                            t = s / 0.97 if s > 1e-3 else 0.15
                            Wt, Ht = W + (Wp - W) * 0, H + (Hp - H) * 0
                            put(Wt, Ht, exprs, old + t * ref)
                            more = objective(sa, Wt, Ht, W, H) - float(sa.Qtrue)
                            ctx.expect(more >= limit - 1e-4 * (limit + float(sa.Qtrue)) - 1e-3,
                                       f"{where}: the move is shortened to {s} of the full one although {t} raises the objective by only {more}")
                        ctx.outcome([limited, round(s, 1)])
                W, H = Wn, Hn
                ctx.state(lib.key(Wp, Hp))
                ctx.step()
            ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")


def put(W, H, exprs, values):
    elems = []
    for terms, _ in exprs:
        for c, kind, k, i in terms:
            if (kind, k, i) not in elems:
                elems.append((kind, k, i))
    for (kind, k, i), v in zip(elems, values):
        if kind == "feature":
            H[k, i] = v
        else:
            W[i, k] = v


def objective(sa, W, H, W0, H0):
    """Q(True) + Q(aux) of the moved matrices: base + move - moved"""
    Wb, Hb = np.asarray(sa.W, float), np.asarray(sa.H, float)
    qa = ((Wb + (W - W0) - W) ** 2).sum() + ((Hb + (H - H0) - H) ** 2).sum()
    return lib.q_true(sa.V, sa.U, W, H) + qa


ELEMS = [("feature", 0, 1), ("feature", 1, 2), ("feature", 1, 0), ("feature", 0, 2), ("feature", 0, 0), ("sample", 0, 3), ("sample", 1, 2), ("sample", 1, 3)]
PATTERNS = [(1.0, -1.0), (1.0, -2.0), (3.0, -0.5), (1.0, 1.0), (-1.0, 1.0)]
MODELS = [(5, 4, 2, "ls-nmf", 0, 6, 1.0), (4, 3, 2, "ls-nmf", 1, 3, 0.2), (5, 4, 3, "ls-nmf", 2, 6, 0.5), (6, 3, 2, "ls-nmf", 2, 12, 2.0)]


BIG = (13, 12, 11, "ls-nmf", 3, 2, 1.0)
WIDE = [("feature", 10, 11), ("feature", 0, 10), ("feature", 10, 1), ("sample", 10, 12), ("sample", 0, 10), ("sample", 1, 11), ("feature", 1, 0)]


def work(ctx, job):
    mi, iters, part, parts = job
    model = MODELS[mi]
    k = 0
    if mi == 0:
        # larger model: indices of two digits, coefficients of several digits
        for a, b in itertools.permutations(WIDE, 2):
            for p in ((1.0, -1.0), (0.12345, -12.75), (-10.125, 0.6875)):
                k += 1
                if k % parts == part:
                    one(ctx, ("wide", a, b, p), BIG, [([(p[0],) + a, (p[1],) + b], 40.0)], [], 1)
    for a, b in itertools.permutations(ELEMS, 2):
        for p in PATTERNS:
            for dq in (2.0, 40.0, 1000.0):
                k += 1
                if k % parts == part:
                    one(ctx, ("two", mi, a, b, p, dq), model, [([(p[0],) + a, (p[1],) + b], dq)], [], iters)
    for t in list(itertools.permutations(ELEMS, 3))[::11]:
        for p in ((1.0, -1.0, -0.5), (2.0, 0.25, -3.0)):
            k += 1
            if k % parts == part:
                one(ctx, ("three", mi, t, p), model, [([(c,) + e for c, e in zip(p, t)], 60.0)], [], iters)
    for n, (a, b, c) in enumerate(list(itertools.permutations(ELEMS, 3))[::4]):
        k += 1
        if k % parts == part:
            d = ELEMS[(ELEMS.index(c) + 3) % 8]
            second = [(0.7,) + b, (-1.3,) + c] if n % 2 or d in (a, b, c) else [(0.7,) + c, (-1.3,) + d]
            one(ctx, ("pair", mi, a, b, c, n), model, [([(1.0,) + a, (-2.0,) + b], 30.0), (second, 50.0)], [], iters)
    # an element of the first and the third expression and not of the second, or of the second and the third
    for n, p in enumerate(list(itertools.permutations(ELEMS, 5))[::223]):
        k += 1
        if k % parts == part:
            a, b, c, d, e = p
            one(ctx, ("triple", mi, p), model, [([(1.0,) + a, (-2.0,) + b], 30.0), ([(0.7,) + c, (-1.3,) + d], 50.0),
                                                ([(-0.4,) + (c if n % 2 else a), (0.9,) + e], 20.0)], [], iters)
    cons = [("set to zero", (0, 1), "feature", (None,) * 4), ("define limits", (3, 0), "sample", (None, 0.3, 0.5, None)),
            ("set to base value", (1, 0), "feature", (None,) * 4)]
    for c in cons:
        for a, b in itertools.permutations(ELEMS, 2):
            k += 1
            if k % parts == part and k % 3 == 0:
                one(ctx, ("with constraint", mi, c, a, b), model, [([(1.0,) + a, (-1.5,) + b], 500.0)], [c], iters)


def history(ctx, job):
    c21.history(ctx, job, True)


def run(ctx):
    iters = 4 if ctx.thorough else 2
    for length in (2, 3) if ctx.thorough else (2,):
        core.shards(ctx, history, [(i, length, c) for i in (0, 1) for c in range(len(c21.CONFIGS))])
    core.shards(ctx, work, [(i, iters, p, 8) for i in range(4 if ctx.thorough else 2) for p in range(8)])
