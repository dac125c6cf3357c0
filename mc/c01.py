"""C01 factor matrices stay finite and non-negative"""
import itertools
import numpy as np
import core, lib

PROPERTY = {
    "title": "Factor matrices stay finite and non-negative in every iteration",
    "statement": "After initialization and after every training iteration the factor profiles hold only finite, non-negative numbers, whatever the data, the positive uncertainties, the seed, factor count and held-profile schedule. With the least-squares method on non-negative data the factor contributions are finite and non-negative as well; with the weighted semi method, which accepts negative data, the contributions are finite. (For the weighted semi method: fewer factors than features, at least four samples, and linearly independent starting profiles.)",
    "quantifier": {"over": ["inputs", "histories", "configurations"],
                   "text": "all datasets with valid uncertainties, all seeds, factor counts and initializations, after any number of iterations, with the profiles held or not"},
    "why_tests_cant": "The tests train one random matrix per method and look at the loss; a single NaN or negative entry appears only for particular data (zeros replaced by tiny numbers, negative data, columns of very different size) and after particular iterations.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"],
                "state": [{"name": "W", "meaning": "factor contributions", "where": "SA.W"},
                          {"name": "H", "meaning": "factor profiles", "where": "SA.H"}],
                "mechanism": [{"name": "multiplicative update", "where": "LSNMF.update"},
                              {"name": "positive and negative parts", "where": "WSNMF.update"},
                              {"name": "replacement of values <= 0", "where": "SA.initialize"}],
                "observe_at": ["SA.W", "SA.H"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "least squares: every 3x2 dataset over {1e-12,1,100} and over {1,3,10}, 1-2 factors, uncertainty patterns {0.1 V + 0.1, mixed, and for the second alphabet one zero that is replaced}, 12 iterations each, every state visited; every given 2x3 profile matrix over {0,0.6,2} and its first row, held for 0 or 2 iterations, 6 iterations; weighted semi: every 4x3 dataset with entries of two alphabets chosen per cell out of a covering family of 3^6, 12 iterations, 3 starting profiles, and 4 iterations from the column-mean and k-means starts with 2 seeds; profiles held for 0 or 3 iterations",
                   "thorough": "as quick with 3 seeds, 40 iterations, and every 2x3 and 3x3 dataset over {1e-12,1,30} for least squares"},
        "assumptions": ["the Python implementation of the updates is explored; the extension is compared with it in C32",
                        "data values outside the alphabets and longer runs than the bound are not explored"]}


def explore(ctx, key, V, U, f, method, seed, iters, hold, init):
    if not ctx.case(*key):
        return
    with ctx.guard("training step by step"):
        sa = lib.SA(V, U, f, method=method, seed=seed)
        sa.initialize(H=None if method == "ls-nmf" else start_h(f, V.shape[1], seed), init_method=init)
        neg_ok = method == "ws-nmf"
        for i in range(iters + 1):
            W, H = np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)
            if not ctx.expect(np.isfinite(H).all() and (H >= 0).all(),
                              f"profiles not finite and non-negative after {i} iterations", lambda: {"H": H, "V": V}):
                return
            if i or not neg_ok:
                if not ctx.expect(np.isfinite(W).all() and (neg_ok or (W >= 0).all()),
                                  f"contributions not finite{'' if neg_ok else ' and non-negative'} after {i} iterations",
                                  lambda: {"W": W, "V": V}):
                    return
            ctx.state(lib.key(V, U, W, H))
            if i == iters:
                ctx.outcome([f, (W > 1e-6 * np.abs(W).max()).tolist(), (H > 1e-6 * H.max()).tolist()])
                break
            sa.train(max_iter=1, converge_n=10 ** 6, hold_h=i < hold)
            ctx.step()


def start_h(f, n, k):
    """well separated positive starting profiles; k picks which feature leads in the first factor"""
    H = np.empty((f, n))
    for i in range(f):
        for j in range(n):
            H[i, j] = 0.2 + 0.1 * ((i * 2 + j * 3 + k) % 5) + (1.0 if (i + k) % n == j else 0.0)
    return H


def ws_family():
    """sign patterns and magnitudes: every combination of a 3-letter alphabet on the 6 blocks of a 4x3 matrix"""
    for c in itertools.product((-2.0, 1.0, 5.0), repeat=6):
        V = np.empty((4, 3))
        V[:2] = np.array(c[:3])
        V[2:] = np.array(c[3:])
        # break the ties between the rows of a block so that the problem is well conditioned
        V += np.array([[0.0, 0.31, -0.17], [0.23, -0.11, 0.05], [-0.07, 0.13, 0.29], [0.19, 0.02, -0.23]])
        yield V


def ws_default(ctx, part, parts):
    """weighted semi method from the initialization itself (column means, k-means), whatever the signs of the means"""
    k = 0
    for V, f, seed, init in itertools.product(ws_family(), (1, 2), (42, 7), ("column_mean", "kmeans")):
        k += 1
        if k % parts != part or init == "kmeans" and k % 8 > 1:
            continue
        if not ctx.case("default start", k, f, seed, init):
            continue
        with ctx.guard("training step by step"):
            sa = lib.SA(V, unc(V, "mixed"), f, method="ws-nmf", seed=seed, verbose=False)
            with core.quiet():
                sa.initialize(init_method=init, init_norm=False)
            for i in range(5):
                H, W = np.asarray(sa.H, float), np.asarray(sa.W, float)
                ctx.state(lib.key(V, W, H))
                if not ctx.expect(np.isfinite(H).all() and (H >= 0).all() and np.isfinite(W).all(),
                                  f"profiles or contributions not finite after {i} iterations from the {init} start", lambda: {"H": H, "W": W, "V": V}):
                    break
                # (nearly) dependent starting profiles are outside the property
                if i == 0 and not np.linalg.cond(H / np.linalg.norm(H, axis=1, keepdims=True)) < 1e2:
                    break
                sa.train(max_iter=1, converge_n=10 ** 6)
                ctx.step()


def given(ctx, part, parts):
    """least squares from profiles given by the user, all or some of them, with zeros anywhere"""
    for k, h in enumerate(itertools.product((0.0, 0.6, 2.0), repeat=6)):
        if k % parts != part:
            continue
        V = np.array([[1.0, 3.0, 10.0], [2.0, 0.5, 1.0], [7.0, 1.0, 1e-12], [1.0, 4.0, 2.0]]) if k % 2 else \
            np.array([[1.0, 3.0, 1e-12], [2.0, 0.5, 1.0], [7.0, 1.0, 30.0], [1e-12, 4.0, 2.0]])
        H0 = np.array(h).reshape(2, 3)
        for rows in (1, 2):
            if rows == 1 and k % 27:
                continue
            for held in (0, 2):
                if not ctx.case("given profiles", k, rows, held):
                    continue
                with ctx.guard("training step by step"):
                    sa = lib.SA(V, unc(V, "prop"), 2, method="ls-nmf", seed=42, verbose=False)
                    sa.initialize(H=H0[:rows].copy())
                    for i in range(7):
                        H, W = np.asarray(sa.H, float), np.asarray(sa.W, float)
                        ctx.state(lib.key(V, W, H))
                        if not ctx.expect(all(np.isfinite(x).all() and (x >= 0).all() for x in (W, H)),
                                          f"not finite and non-negative after {i} iterations from given profiles", lambda: {"H0": H0[:rows], "H": H, "W": W}):
                            break
                        sa.train(max_iter=1, converge_n=10 ** 6, hold_h=i < held)
                        ctx.step()


def jobs(ctx):
    iters = 40 if ctx.thorough else 12
    seeds = (42, 7, 3) if ctx.thorough else (42,)
    starts = (0, 1, 2)
    U_kinds = ("prop", "mixed", "zero")
    shapes = [((3, 2), (1.0, 3.0, 10.0)), ((3, 2), (1e-12, 1.0, 100.0))]
    if ctx.thorough:
        shapes += [((2, 3), (1e-12, 1.0, 30.0)), ((3, 3), (1e-12, 1.0, 30.0))]
    for (shape, al) in shapes:
        for f in (1, 2):
            for uk in U_kinds if al[0] == 1.0 else U_kinds[:2]:
                for seed in seeds if shape != (3, 3) else seeds[:1]:
                    yield ("ls", shape, al, f, uk, seed, iters)
    for f in (1, 2):
        for uk in U_kinds[:2]:
            for seed in starts:
                yield ("ws", (4, 3), None, f, uk, seed, iters)


def unc(V, kind):
    if kind == "prop":
        return np.abs(V) * 0.1 + 0.1
    U = np.full(V.shape, 0.5)
    if kind in ("rotated", "mirrored"):    # the same uncertainties for every sample, but in another order
        row = 0.2 + 0.35 * ((np.arange(V.shape[1]) * 3) % 7)
        for i in range(V.shape[0]):
            U[i] = np.roll(row, i) if kind == "rotated" else row[::1 if i % 2 else -1]
        return U
    if kind == "rows":                     # one uncertainty per sample
        return U * (0.1 + (np.arange(V.shape[0]) % 3))[:, None]
    if kind == "columns":                  # one uncertainty per feature
        return U * (0.1 + (np.arange(V.shape[1]) % 3))[None, :]
    if kind == "zero":                     # replaced by 1e-12 when the model is created
        U[0, 0] = 0.0
        return U
    U[::2, ::2] = 2.0
    U[-1, -1] = 0.05
    return U


def work(ctx, job):
    if job[0] == "default":
        return ws_default(ctx, *job[1:])
    if job[0] == "given":
        return given(ctx, *job[1:])
    kind, shape, al, f, uk, seed, iters, part, parts = job
    fam = lib.matrices(*shape, al) if kind == "ls" else ws_family()
    for k, V in enumerate(fam):
        if k % parts != part:
            continue
        hold = 3 if k % 7 == 0 else 0
        init = "column_mean"
        explore(ctx, (kind, list(shape), list(al or ()), f, uk, seed, iters, k, hold, init), V, unc(V, uk), f,
                "ls-nmf" if kind == "ls" else "ws-nmf", seed, iters, hold, init)


def run(ctx):
    core.shards(ctx, work, [(x, p, 8) for x in ("default", "given") for p in range(8)] + [j + (p, 4) for j in jobs(ctx) for p in range(4)])
