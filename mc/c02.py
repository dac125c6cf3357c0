"""C02 no iteration increases the loss; each iteration is the published update"""
import itertools
import numpy as np
import core, lib, c01

PROPERTY = {
    "title": "No training iteration increases the loss",
    "statement": "Every training iteration leaves the weighted loss (sum of squared uncertainty-scaled residuals) no larger than it was before the iteration, up to floating point rounding, for both methods, with profiles updated or held. A least-squares iteration is the published multiplicative update, profiles first and then contributions computed from the new profiles; a weighted semi iteration sets the contributions of every sample to the minimiser of that loss for the profiles it started from, and only then moves the profiles, each value by the published factor (the square root of the ratio of the negative and the positive part of the gradient). (For the weighted semi method: fewer factors than features, at least four samples, linearly independent starting profiles.)",
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "all datasets, uncertainties, starting matrices and iterations of a training run"},
    "why_tests_cant": "The tests compare the loss before and after one run on one random matrix; an update that is wrong for some weights, signs or matrix shapes still decreases the loss there.",
    "anchors": {"files": ["esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "esat/model/sa.py"],
                "mechanism": [{"name": "LS-NMF update", "where": "LSNMF.update"},
                              {"name": "weighted semi-NMF update", "where": "WSNMF.update"},
                              {"name": "training loop", "where": "SA.train"}],
                "observe_at": ["SA.W", "SA.H", "SA.Qtrue"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "least squares: every 3x2 dataset over {1,3,10} (1-2 factors, two uncertainty patterns, two starts), 10 iterations; weighted semi: the 729 datasets of the 4x3 family, 1-2 factors, two uncertainty patterns, 10 iterations; one dataset for every shape 2..6 x 2..6 with 1..5 factors; every iteration compared with the float64 reference; profiles held in iterations 0-2 on every seventh dataset",
                   "thorough": "as quick with 40 iterations, 4 starts, shapes up to 8x8, and every 3x3 dataset over {1,4,10} for least squares"},
        "assumptions": ["rounding: the loss may rise by 1e-4 of itself plus the effect of float32 rounding of the products",
                        "Python implementation of the updates; the extension is compared with it in C32"]}


def ls_reference(V, U, W, H, hold):
    We = 1.0 / U ** 2
    if not hold:
        H = H * (W.T @ (We * V)) / (W.T @ (We * (W @ H)))
    W = W * ((We * V) @ H.T) / ((We * (W @ H)) @ H.T)
    return W, H


def ws_w_reference(V, U, H):
    We = 1.0 / U ** 2
    out = np.empty((V.shape[0], H.shape[0]))
    for i in range(V.shape[0]):
        D = np.sqrt(We[i])
        out[i] = np.linalg.lstsq((H * D).T, V[i] * D, rcond=None)[0]
    return out


def explore(ctx, key, V, U, f, method, start, iters, hold):
    if not ctx.case(*key):
        return
    with ctx.guard("training step by step"):
        sa = lib.SA(V, U, f, method=method, seed=42 + start)
        H0 = c01.start_h(f, V.shape[1], start)
        W0 = np.abs(c01.start_h(V.shape[0], f, start)) if method == "ls-nmf" else None
        sa.initialize(H=H0, W=W0)
        prev = None
        for i in range(iters):
            W, H = np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)
            held = i < hold
            sa.train(max_iter=1, converge_n=10 ** 6, hold_h=held)
            ctx.step()
            W2, H2 = np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)
            ctx.state(lib.key(V, U, W2, H2))
            q = lib.q_true(V, U, W2, H2)
            # the loss of the weighted semi method is defined from the first contributions on
            if i or method == "ls-nmf":
                before = lib.q_true(V, U, W, H)
                slack = 1e-4 * before + lib.q_noise(V, U, W, H) + lib.q_noise(V, U, W2, H2)
                if not ctx.expect(q <= before + slack, f"iteration {i + 1} raised the loss from {before:.6g} to {q:.6g}",
                                  lambda: {"V": V, "U": U, "W": W, "H": H}):
                    return
                if before - q > 1e-3 * before:
                    ctx.outcome([method, f, hold > 0, int(np.log10(max(before - q, 1e-9)))])
            if held and not ctx.expect(np.array_equal(H, H2), f"iteration {i + 1} changed held profiles"):
                return
            if method == "ls-nmf":
                Wr, Hr = ls_reference(V, U, W, H, held)
                ok = lib.close(H2, Hr, 2e-4, 1e-9) and lib.close(W2, Wr, 2e-4, 1e-9)
                if not ctx.expect(ok, f"iteration {i + 1} is not the multiplicative update",
                                  lambda: {"H": H2, "expected H": Hr, "W": W2, "expected W": Wr}):
                    return
            else:
                Wr = ws_w_reference(V, U, H)
                a, b = lib.q_true(V, U, W2, H), lib.q_true(V, U, Wr, H)
                noise = lib.q_noise(V, U, W2, H) * 20
                if not ctx.expect(a <= b * (1 + 1e-3) + noise,
                                  f"iteration {i + 1} does not minimise the loss over the contributions: {a:.6g} > {b:.6g}",
                                  lambda: {"V": V, "U": U, "H": H, "W": W2}):
                    return
                for r in range(V.shape[0]):
                    x = slice(r, r + 1)
                    a1, b1 = lib.q_true(V[x], U[x], W2[x], H), lib.q_true(V[x], U[x], Wr[x], H)
                    if not ctx.expect(a1 <= b1 * (1 + 1e-3) + lib.q_noise(V[x], U[x], W2[x], H) * 20 + 1e-3 * b / V.shape[0],
                                      f"iteration {i + 1} does not minimise the loss of sample {r}: {a1:.6g} > {b1:.6g}"):
                        return
                if not held and not ctx.expect(lib.q_true(V, U, W2, H2) <= a + 1e-4 * a + noise,
                                               f"the profile step of iteration {i + 1} raised the loss"):
                    return
                # the published profile step, for the contributions the model now has
                if not held:
                    We = 1.0 / U ** 2
                    A, B = W2.T @ (We * V), np.einsum("ia,ij,ib->abj", W2, We, W2)
                    pos, neg = (np.abs(B) + B) / 2, (np.abs(B) - B) / 2
                    num = np.maximum(A, 0) + np.einsum("aj,abj->bj", H, neg)
                    den = np.maximum(-A, 0) + np.einsum("aj,abj->bj", H, pos)
                    err = 2e-5 * (np.abs(W2).T @ (We * np.abs(V)) + np.einsum("aj,abj->bj", H, np.abs(B))) + 1e-10
                    clear = (num > 20 * err) & (den > 20 * err)
                    Hr = H * np.sqrt(np.where(clear, num, 1) / np.where(clear, den, 1))
                    tol = Hr * (err / np.where(clear, num, 1) + err / np.where(clear, den, 1) + 1e-4) + 1e-9
                    if not ctx.expect(bool((np.abs(H2 - Hr) <= tol)[clear].all()), f"iteration {i + 1}: the profiles do not move by the published step",
                                      lambda: {"H": H2, "expected H": Hr, "clear": clear}):
                        return
                # a profile step that never moves would satisfy the above
                if i == 0 and not held and a > 1e-3:
                    ctx.expect(not np.allclose(H2, H, rtol=1e-7, atol=0), "the profile step leaves the profiles unchanged")


def shaped(m, n, k=0):
    """one deterministic dataset per shape, built from 3 sources plus an irregular part"""
    i, j = np.arange(m)[:, None], np.arange(n)[None, :]
    V = np.zeros((m, n))
    for s in range(3):
        V += (1 + ((i * (s + 2) + s + k) % 5)) * (0.2 + ((j * (s + 3) + s) % 7))
    return V + 0.25 * ((i * 7 + j * 11 + k) % 13)


def work_shape(ctx, job):
    m, n, f, method, iters = job
    V = shaped(m, n)
    for uk in ("prop", "mixed", "rotated", "mirrored", "rows", "columns"):
        for start in (0, 1):
            explore(ctx, ("shape", m, n, f, method, uk, start, iters), V, c01.unc(V, uk), f, method, start, iters, start * 2)


def work(ctx, job):
    if job[0] == "shape":
        return work_shape(ctx, job[1:])
    kind, shape, al, f, uk, start, iters, part, parts = job
    fam = lib.matrices(*shape, al) if kind == "ls" else c01.ws_family()
    for k, V in enumerate(fam):
        if k % parts == part:
            explore(ctx, (kind, list(shape), list(al or ()), f, uk, start, iters, k), V, c01.unc(V, uk), f,
                    "ls-nmf" if kind == "ls" else "ws-nmf", start, iters, 3 if k % 7 == 0 else 0)


def run(ctx):
    iters = 40 if ctx.thorough else 10
    starts = range(4) if ctx.thorough else range(2)
    jobs = [("ls", (3, 2), (1.0, 3.0, 10.0), f, uk, s, iters) for f in (1, 2) for uk in ("prop", "mixed") for s in starts]
    jobs += [("ws", (4, 3), None, f, uk, s, iters) for f in (1, 2) for uk in ("prop", "mixed") for s in starts]
    jobs += [("ws", (4, 3), None, 2, uk, 0, 2) for uk in ("rotated", "mirrored")]
    if ctx.thorough:
        jobs += [("ls", (3, 3), (1.0, 4.0, 10.0), f, "mixed", 0, 15) for f in (1, 2)]
    big = range(2, 9) if ctx.thorough else range(2, 7)
    sj = [("shape", m, n, f, "ls-nmf", iters) for m in big for n in big for f in range(1, 6) if f <= max(m, n)]
    sj += [("shape", m, n, f, "ws-nmf", iters) for m in big for n in big for f in range(1, 4) if f < n and m >= 4]
    core.shards(ctx, work, [j + (p, 4) for j in jobs for p in range(4)] + sj)
