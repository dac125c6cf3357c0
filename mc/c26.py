"""C26 factor catalog"""
import contextlib
import io
import itertools
import re
import numpy as np
import core, lib, c01, c02, c25

PROPERTY = {
    "title": "The factor catalog groups factors by threshold and counts every one",
    "statement": "Adding a factor puts it into the cataloged factor whose members it fits best (smallest mean error for raae, largest mean squared correlation otherwise, profiles only when asked) if that fit meets the catalog's threshold, and starts a new cataloged factor otherwise; each factor is counted exactly once, under the model it came from. The occurrence table lists per cataloged factor its count, its share of the models and its mean fit, in falling order of the share. Looking up or comparing a factor returns the cataloged factor with the best fit and changes nothing, and outlier models are left out exactly when their loss exceeds the given multiple of the smallest.",
    "quantifier": {"over": ["histories", "inputs", "configurations"],
                   "text": "all sequences of added factors, models and batches, methods, thresholds and options"},
    "why_tests_cant": "No test uses the catalog.",
    "anchors": {"files": ["eval/factor_catalog.py"],
                "state": [{"name": "factors", "meaning": "cataloged factors with their members", "where": "FactorCatalog"}],
                "mechanism": [{"name": "add_factor, check_factor, compare_factor", "where": "FactorCatalog"}],
                "observe_at": ["FactorCatalog.factors", "FactorCatalog.to_df"]},
}
SPEC = {"level": "model_checking",
        "technique": "exploration of all histories of additions on the real object, stepped together with a reference catalog",
        "bounds": {"quick": "every sequence of up to 4 additions out of 6 factors (two similar pairs, one scaled copy, one unlike all) x {raae, corr, emc} x 3 thresholds x {all, profile only}, with look-ups in every state; catalogs of 9 and 12 unlike factors; every sequence of up to 3 batches or models out of 5 with and without outlier exclusion (2 multiples)",
                   "thorough": "sequences of up to 5 additions and 4 batches"},
        "assumptions": ["fits closer than 1e-9 to the threshold or to each other may be decided either way"]}

PROF = [np.array(p, float) for p in ((1, 4, 2, 7), (1.1, 3.9, 2.3, 6.6), (5, 1, 3, 0.5), (4.6, 1.4, 3.2, 0.8), (3, 12, 6, 21), (2, 2.5, 9, 1))]
CONT = [np.array(c, float) for c in ((1, 2, 3, 4, 6), (1.2, 1.9, 3.3, 3.8, 6.1), (6, 2, 5, 1, 3), (5.5, 2.3, 5.2, 0.6, 3.4), (1, 2, 3, 4, 6), (2, 9, 1, 1, 2))]
CONT[4] = CONT[4] * 1.02
THRESH = {"raae": (0.05, 0.3, 1.5), "corr": (0.5, 0.9, 0.99), "emc": (0.5, 0.9, 0.99)}


def r2(a, b):
    return np.corrcoef(a, b)[0, 1] ** 2


def fit(members, x, method, profile_only):
    H, W = x
    if profile_only or method == "emc":
        return np.mean([r2(h, H) for h, w in members])
    if method == "raae":
        return np.mean([np.abs(w - W).sum() / w.sum() for h, w in members])
    return np.mean([r2(w, W) for h, w in members])


class Ref:
    def __init__(self, method, threshold):
        self.method, self.threshold = method, threshold
        self.members, self.models, self.corr = [], [], []
        self.count = 0

    def best(self, x, po):
        """(best value, indices of the cataloged factors that have it)"""
        low = self.method == "raae" and not po
        v = [fit(m, x, self.method, po) for m in self.members]
        if not v:
            return None, []
        b = min(v) if low else max(v)
        return b, [i for i, z in enumerate(v) if abs(z - b) <= 1e-9]


def names(cat):
    return list(cat.factors)


def sync(ctx, cat, ref, x, model, po, new):
    """one addition: which outcome is allowed, and what the catalog did"""
    low = ref.method == "raae" and not po
    b, who = ref.best(x, po)
    ref.count = max(ref.count, model + 1)
    joins = b is not None and (b <= ref.threshold if low else b >= ref.threshold)
    edge = b is not None and abs(b - ref.threshold) <= 1e-9
    if low and b is not None and b >= 1.0:
        edge = True
    if not edge:
        ctx.expect(bool(new) == (not joins), f"the factor {'starts a new entry' if new else 'joins an entry'}, best fit {b}, threshold {ref.threshold}")
    sizes = [len(f.model) for f in cat.factors.values()]
    if new:
        ok = ctx.expect(len(sizes) == len(ref.members) + 1 and sizes[:-1] == [len(m) for m in ref.members] and sizes[-1] == 1, f"entries {sizes}")
        ref.members.append([x])
        ref.models.append([model])
        ref.corr.append([0.0 if ref.method == "raae" else 1.0])
    else:
        grown = [i for i, s in enumerate(sizes) if i < len(ref.members) and s == len(ref.members[i]) + 1]
        ok = ctx.expect(len(sizes) == len(ref.members) and len(grown) == 1 and sum(sizes) == sum(map(len, ref.members)) + 1
                        and grown[0] in who, f"entries {sizes}; best are {who}, before {[len(m) for m in ref.members]}")
        if ok:
            i = grown[0]
            ref.members[i].append(x)
            ref.models[i].append(model)
            ref.corr[i].append(b)
    return ok


def verify(ctx, cat, ref, po):
    ctx.expect(cat.model_count == ref.count, f"{cat.model_count} models, not {ref.count}")
    for i, f in enumerate(cat.factors.values()):
        ctx.expect(list(f.model) == ref.models[i], f"models of entry {i}: {f.model}")
        ctx.expect(len(f.factor) == len(ref.members[i]) and all(lib.same(a[0], b[0]) and lib.same(a[1], b[1]) for a, b in zip(f.factor, ref.members[i])),
                   f"members of entry {i}")
        ctx.expect(f.threshold == ref.threshold and f.method == ref.method, "threshold and method of the entry")
        if not (ref.method == "raae" and po):
            ctx.expect(lib.close(f.correlation, ref.corr[i], 1e-6, 1e-9), f"fits of entry {i}: {f.correlation}")
    with contextlib.redirect_stdout(io.StringIO()) as out:
        cat.summary()
    got = [(re.search(r"Count: (\d+)", x), re.search(r"%: ([\d.]+)", x)) for x in out.getvalue().splitlines()]
    if len(got) == len(ref.models) and all(a and b for a, b in got):
        ctx.expect([int(a.group(1)) for a, _ in got] == [len(m) for m in ref.models]
                   and all(abs(float(b.group(1)) - 100.0 * len(m) / ref.count) <= 0.5001 for (_, b), m in zip(got, ref.models)), f"summary {out.getvalue()}")
    df = cat.to_df()
    ctx.expect(sorted(df["factor"]) == names(cat), "entries of the table")
    for _, row in df.iterrows():
        i = names(cat).index(row["factor"])
        ctx.expect(row["count"] == len(ref.models[i]), f"count {row['count']}")
        ctx.expect(abs(row["% occurrence"] - 100.0 * len(ref.models[i]) / ref.count) <= 0.0051, f"share {row['% occurrence']}")
        if not (ref.method == "raae" and po):
            ctx.expect(abs(row["mean corr"] - np.mean(ref.corr[i])) <= 0.000051, f"mean fit {row['mean corr']}")
    occ = list(df["% occurrence"])
    ctx.expect(occ == sorted(occ, reverse=True), f"order of the table {occ}")


def lookup(ctx, mod, cat, ref, po):
    before = [(f.model[:], list(f.correlation), len(f.factor)) for f in cat.factors.values()]
    for k in range(6):
        x = (PROF[k], CONT[k])
        b, who = ref.best(x, po)
        got, val = cat.check_factor(x[0], x[1], po) if po or k % 2 else cat.check_factor(x[0], x[1])
        low = ref.method == "raae" and not po
        if low and b >= 1 or not low and b <= 0:
            continue
        ctx.expect(got in [names(cat)[i] for i in who] and abs(val - b) <= 1e-6, f"look-up of factor {k}: {got} with {val}, best {b} of {who}")
        if not po:
            v = [np.mean([r2(np.outer(w, h).ravel(), np.outer(x[1], x[0]).ravel()) for h, w in m]) for m in ref.members]
            got, val = cat.check_matrix(np.outer(x[1], x[0]))
            ctx.expect(abs(val - max(v)) <= 1e-6 and abs(v[names(cat).index(got)] - max(v)) <= 1e-6, f"look-up of matrix {k}: {got} with {val}, fits {v}")
    if not po:
        for pair in ((0, 3), (2, 5)):
            f = mod.Factor("x", PROF[pair[0]], CONT[pair[0]], 0, method=ref.method)
            f.add(PROF[pair[1]], CONT[pair[1]], 1, 0.5)
            v = [np.mean([fit(m, (PROF[k], CONT[k]), ref.method, False) for k in pair]) for m in ref.members]
            b = min(v) if ref.method == "raae" else max(v)
            got, val = cat.compare_factor(f)
            ctx.expect(got in names(cat) and abs(val - b) <= 1e-6 and abs(v[names(cat).index(got)] - b) <= 1e-6, f"comparison with {pair}: {got} with {val}, fits {v}")
            # other number of samples: profiles only
            for other in (CONT[pair[0]][:3], np.append(CONT[pair[0]], [2.0, 7.0])):
                g = mod.Factor("y", PROF[pair[0]], other, 0, method=ref.method)
                v = [np.mean([r2(h, PROF[pair[0]]) for h, w in m]) for m in ref.members]
                got, val = cat.compare_factor(g)
                ctx.expect(got in names(cat) and abs(val - max(v)) <= 1e-6 and abs(v[names(cat).index(got)] - max(v)) <= 1e-6,
                           f"comparison of profiles: {got} with {val}, fits {v}")
    ctx.expect([(f.model[:], list(f.correlation), len(f.factor)) for f in cat.factors.values()] == before, "a look-up changed the catalog")


def sequence(ctx, method, thr, po, seq):
    if not ctx.case("add", method, thr, po, list(seq)):
        return
    mod = core.esat("esat_eval.factor_catalog")
    with ctx.guard("cataloguing"), core.quiet():
        cat = mod.FactorCatalog(method=method, threshold=thr)
        ref = Ref(method, thr)
        for n, k in enumerate(seq):
            x = (PROF[k].copy(), CONT[k].copy())
            model = n // 2 if sum(seq) % 2 else (2, 0, 1, 0, 3)[n]
            new = cat.add_factor(x[0], x[1], model, profile_only=po)
            ctx.step()
            if not sync(ctx, cat, ref, x, model, po, new):
                return
        verify(ctx, cat, ref, po)
        ctx.expect(all(lib.same(x[0], PROF[k]) and lib.same(x[1], CONT[k]) for m in ref.members for x in m for k in range(6)
                       if lib.same(x[0], PROF[k])), "an added array was modified")
        if len(seq) <= 3 or seq[0] == 0:
            lookup(ctx, mod, cat, ref, po)
        ctx.state((method, thr, po, [sorted(m) for m in ref.models], [[lib.key(*x) for x in m] for m in ref.members]))
        ctx.outcome([method, [len(m) for m in ref.models]])


def models():
    """five models: two alike, one unlike, one with a large loss, one with one factor"""
    out = []
    for ks, q in (((0, 2), 10.0), ((1, 3), 12.0), ((5, 0), 14.0), ((2, 5), 31.0), ((4,), 20.0)):
        H, W = np.array([PROF[k] for k in ks]), np.array([CONT[k] for k in ks]).T
        sa = c25.make_sa(H, W)
        sa.H, sa.W, sa.Qtrue = H, W, q
        out.append(sa)
    return out


def batches(ctx, method, thr, mult, seq):
    if not ctx.case("batch", method, thr, mult, [list(s) if isinstance(s, tuple) else s for s in seq]):
        return
    mod = core.esat("esat_eval.factor_catalog")
    with ctx.guard("cataloguing batches"), core.quiet():
        M = models()
        kw = {} if mult is None else dict(exclude_outliers=True, outlier_threshold=mult)
        cat = mod.FactorCatalog(method=method, threshold=thr, **kw)
        whole = mod.FactorCatalog(method=method, threshold=thr)
        for s in seq:
            if isinstance(s, tuple):
                class B:
                    results = [M[i] for i in s]
                got = cat.add_batch(B)
                lo = min(m.Qtrue for m in B.results)
                todo = [(i, m) for i, m in enumerate(B.results) if mult is None or m.Qtrue <= mult * lo]
            else:
                got = cat.add_model(s, M[s])
                todo = [(s, M[s])]
            want = 0
            for i, m in todo:
                for f in range(m.factors):
                    want += bool(whole.add_factor(np.array(m.H[f]), np.array(m.W[:, f]), i))
                    ctx.step()
            ctx.expect(got == want, f"{got} new factors, not {want}")
            a = [(f.model, np.round(f.correlation, 9).tolist(), len(f.factor)) for f in cat.factors.values()]
            b = [(f.model, np.round(f.correlation, 9).tolist(), len(f.factor)) for f in whole.factors.values()]
            ctx.expect(a == b, f"entries {a}, adding the factors one by one gives {b}")
        ctx.state((method, thr, mult, a))
        ctx.outcome([method, mult, len(a)])


def many(ctx, method, n, po):
    """a catalog of more than ten entries: n unlike factors in models of their own, each a second time, and the look-ups"""
    if not ctx.case("many", method, n, po):
        return
    mod = core.esat("esat_eval.factor_catalog")
    thr = 0.05 if method == "raae" else 0.999
    with ctx.guard("cataloguing"), core.quiet():
        xs = []
        for k in range(n):
            h, w = np.ones(n + 2), np.ones(n + 3)
            h[k], w[k + 1] = 30.0, 40.0
            h[(k * 5 + 3) % n] += 4.0
            w[(k * 3 + 1) % n] += 6.0
            xs.append((h, w))
        cat = mod.FactorCatalog(method=method, threshold=thr)
        ref = Ref(method, thr)
        for model, order in ((0, range(n)), (1, reversed(range(n)))):
            for k in order:
                new = cat.add_factor(xs[k][0].copy(), xs[k][1].copy(), model, profile_only=po)
                ctx.step()
                if not sync(ctx, cat, ref, xs[k], model, po, new):
                    return
        ctx.expect(len(ref.members) == n or (method == "raae" and po), f"{len(ref.members)} entries for {n} unlike factors")
        verify(ctx, cat, ref, po)
        for k in range(n):
            b, who = ref.best(xs[k], po)
            got, val = cat.check_factor(xs[k][0], xs[k][1], po)
            if not (method == "raae" and not po and b >= 1):
                ctx.expect(got in [names(cat)[i] for i in who] and abs(val - b) <= 1e-6, f"look-up of factor {k}: {got} with {val}, best {b} of {who}")
            if not po:
                got, val = cat.check_matrix(np.outer(xs[k][1], xs[k][0]))
                v = [np.mean([r2(np.outer(w, h).ravel(), np.outer(xs[k][1], xs[k][0]).ravel()) for h, w in m]) for m in ref.members]
                ctx.expect(abs(val - max(v)) <= 1e-6 and abs(v[names(cat).index(got)] - max(v)) <= 1e-6, f"look-up of matrix {k}: {got} with {val}")
                got, val = cat.compare_factor(mod.Factor("x", xs[k][0], xs[k][1], 0, method=method))
                v = [fit(m, xs[k], method, False) for m in ref.members]
                b = min(v) if method == "raae" else max(v)
                ctx.expect(got in names(cat) and abs(val - b) <= 1e-6 and abs(v[names(cat).index(got)] - b) <= 1e-6, f"comparison of factor {k}: {got} with {val}")
        ctx.state((method, n, po, len(ref.members)))


def work(ctx, job):
    if job[0] == "add":
        _, method, thr, po, first = job
        depth = 5 if ctx.thorough else 4
        for n in range(0, depth):
            for rest in itertools.product(range(6), repeat=n):
                sequence(ctx, method, thr, po, (first,) + rest)
    else:
        _, method, mult = job
        if mult is None:
            for n in (9, 12):
                for po in (False, True):
                    many(ctx, method, n, po)
        ops = [(0, 1), (3, 0, 2), (2, 3), 4, 1]
        for n in range(1, 5 if ctx.thorough else 4):
            for seq in itertools.product(ops, repeat=n):
                batches(ctx, method, THRESH[method][1], mult, seq)


def run(ctx):
    jobs = [("add", m, t, po, k) for m in THRESH for t in THRESH[m] for po in (False, True) for k in range(6)]
    jobs += [("batch", m, x) for m in THRESH for x in (None, 1.5, 1.3)]
    core.shards(ctx, work, jobs)
