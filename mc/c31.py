"""C31 optimal block length"""
import itertools
import math
import numpy as np
import core, lib

PROPERTY = {
    "title": "The optimal block length follows the published estimator, feature by feature",
    "statement": "The block length suggested for the bootstrap of a dataset is the rounded down mean over the features of the circular block length of Politis and White (2004, corrected 2009: cut-off after the last significant autocorrelation, flat-top kernel, upper bound of three times the root and a third of the number of samples), and at least one; when it cannot be estimated, as for a constant feature, it is a fifth of the samples and at least one. Each feature's length depends on that feature only, does not change when the feature is scaled or shifted, stays within the upper bound, and estimating it modifies nothing.",
    "quantifier": {"over": ["inputs"], "text": "all series of values, numbers of samples and features"},
    "why_tests_cant": "The tests run one dataset and never look at the block length.",
    "anchors": {"files": ["esat/model/recombinator.py", "esat/data/datahandler.py"],
                "mechanism": [{"name": "optimal_block_length", "where": "esat/model/recombinator.py"}, {"name": "_determine_optimal_block", "where": "DataHandler"}],
                "observe_at": ["return value of optimal_block_length", "DataHandler.optimal_block"]},
}
SPEC = {"level": "exploration",
        "rule": "every 0/1 series of the stated lengths and a family of longer deterministic series (periods, ramps, steps, products and congruential noise), each compared with an independent restatement of the estimator; datasets of 1..3 features assembled from them; non-trivial: distinct series",
        "bounds": {"quick": "all 16 384 0/1 series of 14 samples, every fifth of 2^16 of 16 samples, 243 series over three values of 17 samples built of five blocks, 480 series of 20..400 samples; 600 datasets",
                   "thorough": "all 0/1 series of 14 and 16 samples, 720 longer series"},
        "assumptions": ["series whose autocorrelation lies within 1e-7 of the significance bound may be decided either way"]}


def estimator(x):
    """block lengths (stationary, circular), or None where not defined; and whether a decision is close"""
    x = np.asarray(x, dtype=float)
    n = len(x)
    kn = 5
    m_max = int(math.ceil(math.sqrt(n))) + kn
    bound = 2 * math.sqrt(math.log10(n) / n)
    rho = []
    for lag in range(1, m_max + 1):
        a, b = x[m_max:], x[m_max - lag:n - lag]
        a, b = a - a.mean(), b - b.mean()
        d = math.sqrt((a @ a) * (b @ b))
        rho.append((a @ b) / d if d > 1e-12 * max(1.0, abs(x).max()) ** 2 else float("nan"))
    rho = np.array(rho)
    close = bool(np.any(np.abs(np.abs(rho) - bound) < 1e-7))
    quiet = np.abs(rho) < bound
    m_hat = None
    for j in range(1, m_max - kn + 2):
        if quiet[j - 1:j - 1 + kn].all():
            m_hat = j
            break
    if m_hat is None:
        sig = [lag for lag in range(1, m_max + 1) if abs(rho[lag - 1]) > bound]
        if not sig:
            return None, close
        m_hat = max(sig)
    m = min(2 * m_hat, m_max)
    a = x[m:] - x[m:].mean()
    acv = []
    for lag in range(m + 1):
        b = x[m - lag:n - lag]
        acv.append(float(a @ (b - b.mean())) / (len(a) - 1) if len(a) > 1 else float("nan"))
    g = dd = 0.0
    for lag in range(-m, m + 1):
        t = abs(lag) / m
        w = 1.0 if t < 0.5 else 2 * (1 - t)
        g += w * abs(lag) * acv[abs(lag)]
        dd += w * acv[abs(lag)]
    top = math.ceil(min(3 * math.sqrt(n), n / 3))
    scale = sum(abs(v) for v in acv)
    if abs(dd) < 1e-9 * scale or scale == 0:
        return None, True
    if abs(g) < 1e-9 * scale:
        close = True
    sb = (2 * g * g / (2 * dd * dd)) ** (1 / 3) * n ** (1 / 3)
    cb = (2 * g * g / (4 / 3 * dd * dd)) ** (1 / 3) * n ** (1 / 3)
    return (min(sb, top), min(cb, top)), close


def one(ctx, f, x, what):
    want, close = estimator(x)
    if want is None or close:
        return None
    X = np.array(x, dtype=float).reshape(-1, 1)
    keep = X.copy()
    r = f(X)[0]
    if len(X) % 2:
        s = f(np.array(x, dtype=float))       # a single series as a vector
        ctx.expect(len(s) == 1 and (float(s[0].b_star_sb), float(s[0].b_star_cb)) == (float(r.b_star_sb), float(r.b_star_cb)), f"{what}: given as a vector {s}, as a column {r}")
    got = (float(r.b_star_sb), float(r.b_star_cb))
    ctx.expect(lib.close(got, want, 1e-5, 1e-7), f"{what}: block lengths {got}, expected {want}")
    ctx.expect(np.array_equal(X, keep), "the data was modified")
    ctx.state(tuple(np.asarray(x).tolist()))
    ctx.outcome([round(want[1], 1)])
    return want


def binary(ctx, job):
    n, part, parts, stride = job
    f = core.esat("esat.model.recombinator").optimal_block_length
    with np.errstate(all="ignore"):
        for i in range(part, 2 ** n, parts):
            if (i // parts) % stride or not ctx.case("binary", n, i):
                continue
            x = np.array([(i >> b) & 1 for b in range(n)], dtype=float)
            with ctx.guard("estimator"):
                if np.ptp(x) == 0:
                    continue
                w = one(ctx, f, x, "series")
                if w and i % 16 == 3:
                    r = f((3.75 - 0.5 * x).reshape(-1, 1))[0]
                    ctx.expect(lib.close(float(r.b_star_cb), w[1], 1e-4, 1e-6), "the length depends on scale or offset")


def series(kind, n, k):
    t = np.arange(n)
    c, v = [], 7 * k + 3
    for _ in range(n):
        v = (1103515245 * v + 12345) % 2 ** 31
        c.append(v / 2 ** 31)
    c = np.array(c)
    if kind == 0:
        return c + 0.5
    if kind == 1:                      # smoothed noise
        for _ in range(k + 1):
            c[1:] = c[:-1] * 0.5 + c[1:] * 0.5
        return c + 0.1
    if kind == 2:                      # periodic with noise
        return np.sin(t * 2 * np.pi / (3 + 2 * k)) + 2 + 0.3 * c
    if kind == 3:                      # trend with noise
        return t * 0.05 * (k + 1) + c
    if kind == 4:                      # levels
        return np.floor(t / (2 + k)) % 3 + 0.2 * c
    out = [c[0]]
    for i in range(1, n):              # autoregressive
        out.append((0.2 + 0.12 * k) * out[-1] + c[i])
    return np.array(out)


def longer(ctx, job):
    f = core.esat("esat.model.recombinator").optimal_block_length
    kind = job
    with np.errstate(all="ignore"):
        for n in (20, 23, 30, 37, 50, 64, 81, 100, 130, 200, 257, 400, 1100, 2500) + ((17, 26, 42, 150, 300, 600) if ctx.thorough else ()):
            for k in range(7):
                if not ctx.case("long", kind, n, k):
                    continue
                with ctx.guard("estimator"):
                    x = series(kind, n, k)
                    w = one(ctx, f, x, "series")
                    if w:
                        ctx.expect(w[1] <= math.ceil(min(3 * math.sqrt(n), n / 3)), "bound")
                        r = f((250 * x - 3).reshape(-1, 1))[0]
                        ctx.expect(lib.close(float(r.b_star_cb), w[1], 1e-4, 1e-6), "the length depends on scale or offset")
                        other = series((kind + 1) % 6, n, k)
                        rr = f(np.stack([other, x, x[::-1]], axis=1))
                        ctx.expect(len(rr) == 3 and lib.close(float(rr[1].b_star_cb), w[1], 1e-5), "the length depends on another feature")
        if kind == 0:
            for i, blocks in enumerate(itertools.product((0, 1, 3), repeat=5)):
                if ctx.case("blocks", i):
                    with ctx.guard("estimator"):
                        x = np.repeat(blocks, (3, 4, 3, 4, 3)).astype(float) + 0.01 * series(0, 17, i)
                        one(ctx, f, x, "series")


def datasets(ctx, job):
    import pandas as pd
    dhm = core.esat("esat.data.datahandler")
    part, parts = job
    n_case = 0
    for n in (5, 9, 12, 14, 16, 20, 31, 64, 120):
        for feats in (1, 2, 3):
            for k in range(7):
                for const in (None, 0, feats - 1):
                    n_case += 1
                    if n_case % parts != part or not ctx.case("dataset", n, feats, k, const):
                        continue
                    with ctx.guard("dataset"), core.quiet(), np.errstate(all="ignore"):
                        X = np.abs(np.stack([series((k + j) % 6, n, k) for j in range(feats)], axis=1)).astype("float32") + 0.5
                        if const is not None:
                            X[:, const] = 2.5
                        df = pd.DataFrame(X, columns=[f"x{j}" for j in range(feats)])
                        dh = dhm.DataHandler.load_dataframe(input_df=df.copy(), uncertainty_df=df * 0.1)
                        dh.get_data()
                        got = dh.optimal_block
                        ctx.expect(isinstance(got, (int, np.integer)) and 1 <= got <= n, f"block length {got!r} for {n} samples")
                        m_max = int(math.ceil(math.sqrt(n))) + 5
                        if n - m_max < 3:
                            if n <= m_max:
                                pass
                            continue
                        if const is not None:
                            ctx.expect(got == max(n // 5, 1), f"block length {got} where it cannot be estimated, {n} samples")
                        else:
                            each = [estimator(X[:, j]) for j in range(feats)]
                            if all(e[0] is not None and not e[1] for e in each):
                                mean = float(np.mean([e[0][1] for e in each]))
                                if abs(mean - round(mean)) > 1e-4 or mean == round(mean):
                                    ctx.expect(got == max(math.floor(mean), 1), f"block length {got}, mean of the features {mean}")
                                ctx.outcome(["block", int(got)])
                        ctx.state(("data", n, feats, k, const))


def run(ctx):
    jobs = [(14, p, 8, 1) for p in range(8)] + [(16, p, 8, 1 if ctx.thorough else 5) for p in range(8)]
    core.shards(ctx, binary, jobs)
    core.shards(ctx, longer, list(range(6)))
    core.shards(ctx, datasets, [(p, 8) for p in range(8)])
