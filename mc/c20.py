"""C20 constraint and expression registration: all operation sequences against a reference model"""
import collections
import itertools
import numpy as np
import core, lib, errlib

PROPERTY = {
    "title": "Constraints and expressions are registered, refused and removed correctly",
    "statement": "add_constraint accepts exactly the known constraint types on an existing profile or contribution element that has no constraint yet; it then returns True and stores type, index, target and the values that belong to the type under the label factor:i|feature:j or factor:i|sample:k of that element. Otherwise it returns False and changes nothing. Removing a label or an expression by its index removes exactly that one, and no sequence of operations affects any other entry or the base model.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all sequences of additions and removals, all types, targets and indices inside and outside the matrices"},
    "why_tests_cant": "The tests add a few valid constraints once; swapped sample and factor bounds only matter for indices between the two sizes, and stale entries only after removals.",
    "anchors": {"files": ["esat/rotational/constrained.py"],
                "state": [{"name": "constraints", "meaning": "registered constraints by label", "where": "ConstrainedModel"},
                          {"name": "expressions", "meaning": "registered expressions", "where": "ConstrainedModel"}],
                "mechanism": [{"name": "validation", "where": "ConstrainedModel.add_constraint"}],
                "observe_at": ["ConstrainedModel.constraints", "ConstrainedModel.expressions"]},
}
SPEC = {"level": "model_checking",
        "technique": "explicit-state breadth-first search over operation sequences on the real object, compared with a reference model in every step",
        "bounds": {"quick": "base model with 5 samples, 4 features, 2 factors: every type (6 and one unknown) and target (2 and one unknown) with every index in -1..6 x -1..6 from the empty state; every sequence of up to 4 operations out of 18 (additions, duplicates, refusals, removals, expressions); every order of adding five constraints whose labels begin with one another and removing two",
                   "thorough": "sequences of up to 6 operations"},
        "assumptions": ["removing a label that does not exist may raise KeyError; it must not change anything"]}

TYPES = ("pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits")
M, N, F = 5, 4, 2
E1 = "(0.66*[factor:1|feature:2])-(4.2*[factor:0|feature:1])=0,250"
E2 = "(1.0*[factor:0|sample:3])-(2.0*[factor:1|sample:4])=0,100"

OPS = [("add", "pull down", (1, 2), "feature"), ("add", "define limits", (1, 2), "feature"), ("add", "pull to value", (2, 1), "sample"),
       ("add", "set to zero", (4, 0), "sample"), ("add", "pull up", (0, 4), "feature"), ("add", "set to base value", (0, 3), "feature"),
       ("add", "pull up", (1, 1), "sample"), ("add", "freeze", (0, 0), "feature"), ("add", "set to zero", (1, 1), "feature"),
       ("remove", "factor:1|feature:2"), ("remove", "factor:1|sample:2"), ("remove", "factor:1|sample:1"),
       ("exp", E1), ("exp", E2), ("unexp", 0), ("unexp", 1), ("unexp", 2), ("unexp", -1)]


def ref(state, op):
    """state: (constraints as tuple of (label, type, index, target, values), expressions); returns new state, result"""
    cons, exps = state
    if op[0] == "add":
        _, typ, idx, target = op
        if typ not in TYPES or target not in ("feature", "sample"):
            return state, False
        lim = (F, N) if target == "feature" else (M, F)
        if not (0 <= idx[0] < lim[0] and 0 <= idx[1] < lim[1]):
            return state, False
        label = f"factor:{idx[0]}|feature:{idx[1]}" if target == "feature" else f"factor:{idx[1]}|sample:{idx[0]}"
        if label in [c[0] for c in cons]:
            return state, False
        values = {"pull down": 70.0, "pull up": 70.0, "pull to value": (1.5, 70.0), "define limits": (0.25, 2.5)}.get(typ)
        return (cons + ((label, typ, idx, target, values),), exps), True
    if op[0] == "remove":
        return (tuple(c for c in cons if c[0] != op[1]), exps), None
    if op[0] == "exp":
        return (cons, exps + (op[1],)), True
    k = op[1]
    return (cons, exps[:k] + exps[k + 1:] if 0 <= k < len(exps) else exps), None


def do(cm, op):
    if op[0] == "add":
        return cm.add_constraint(constraint_type=op[1], index=op[2], target=op[3], target_value=1.5, min_value=0.25,
                                 max_value=2.5, dQ=70.0)
    if op[0] == "remove":
        try:
            cm.remove_constraint(op[1])
        except KeyError:
            pass
        return None
    if op[0] == "exp":
        return cm.add_expression(op[1])
    cm.remove_expression(op[1])
    return None


def observe(cm):
    return (tuple(sorted((str(k), c.constraint_type, tuple(c.index), c.target,
                          tuple(c.target_values) if isinstance(c.target_values, (list, tuple)) else c.target_values)
                         for k, c in cm.constraints.items())), tuple(cm.expressions))


def want(state):
    return (tuple(sorted(state[0])), state[1])


def run(ctx):
    mod = core.esat("esat.rotational.constrained")
    with core.quiet():
        sa = errlib.base_model(M, N, F, iters=2)
    snap = errlib.snapshot(sa)

    def fresh():
        return mod.ConstrainedModel(base_model=sa, data_handler=None)

    for typ in TYPES + ("freeze", "Pull Down"):
        for target in ("feature", "sample", "factor"):
            for idx in itertools.product(range(-1, 7), repeat=2):
                op = ("add", typ, idx, target)
                if ctx.case("single", op):
                    with ctx.guard("add_constraint"), core.quiet():
                        cm = fresh()
                        st, res = ref(((), ()), op)
                        got = do(cm, op)
                        ctx.expect(got is res, f"add_constraint({op[1:]}) returned {got}, expected {res}")
                        ctx.expect(observe(cm) == want(st), f"constraints {observe(cm)} instead of {want(st)}")
                        ctx.state(("single", op))
                        ctx.step()
                        ctx.outcome(res)
                        if res:
                            text = next(iter(cm.constraints.values())).tostring(label="L1")
                            v = st[0][0][4]
                            parts = [typ, target, "L1"] + [str(x) for x in (v if isinstance(v, tuple) else [v] if v else [])]
                            ctx.expect(all(p in text for p in parts), f"description {text!r} does not name {parts}")
                            again = do(cm, op)
                            ctx.expect(again is False and observe(cm) == want(st), "a second constraint on the element was accepted")

    depth = 6 if ctx.thorough else 4
    seen = {((), ()): ()}
    frontier = collections.deque([(((), ()), ())])
    while frontier:
        state, hist = frontier.popleft()
        for op in OPS:
            nxt, res = ref(state, op)
            if ctx.case("history", [list(o) for o in hist], list(op)):
                with ctx.guard("operation"), core.quiet():
                    cm = fresh()
                    for o in hist:
                        do(cm, o)
                    got = do(cm, op)
                    ctx.expect(op[0] in ("remove", "unexp") or got is res, f"{op} returned {got}, expected {res}, after {hist}")
                    ctx.expect(observe(cm) == want(nxt), f"after {hist + (op,)}: {observe(cm)} instead of {want(nxt)}")
                    ctx.step()
                    ctx.state(nxt)
                    ctx.outcome([res, len(nxt[0]), len(nxt[1])])
            if nxt not in seen and len(hist) + 1 < depth:
                seen[nxt] = hist + (op,)
                frontier.append((nxt, hist + (op,)))
    # labels that begin with another label
    with core.quiet():
        big = errlib.base_model(12, 12, 2, iters=2)
    adds = [("add", "pull up", (1, 1), "feature"), ("add", "pull up", (1, 10), "feature"), ("add", "pull down", (1, 11), "feature"),
            ("add", "set to zero", (1, 0), "sample"), ("add", "set to zero", (10, 0), "sample")]
    labels = ["factor:1|feature:1", "factor:1|feature:10", "factor:1|feature:11", "factor:0|sample:1", "factor:0|sample:10"]
    for order in itertools.permutations(range(5), 5):
        for a, b in itertools.permutations(range(5), 2):
            if ctx.case("prefix", order, a, b):
                with ctx.guard("removal"), core.quiet():
                    cm = mod.ConstrainedModel(base_model=big, data_handler=None)
                    for k in order:
                        ctx.expect(do(cm, adds[k]) is True, f"{adds[k]} refused")
                    keep = set(labels)
                    for k in (a, b):
                        cm.remove_constraint(labels[k])
                        keep.discard(labels[k])
                        ctx.expect(set(map(str, cm.constraints)) == keep, f"after removing {labels[k]}: {sorted(cm.constraints)}")
                    ctx.step()
    if ctx.case("base model"):
        ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
