"""C07 definitions of the loss functions"""
import itertools
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "The loss functions compute the documented quantities and modify nothing",
    "statement": "The loss is the sum of squared residuals, each divided by its uncertainty unless weighting is turned off; in the robust loss every scaled residual beyond the cutoff counts with its absolute value times the cutoff instead of its square, so that it never exceeds the loss and equals it when no residual is beyond the cutoff, and exactly the beyond-cutoff entries come back with an enlarged uncertainty. The per-factor split assigns each squared scaled residual to the factors in proportion to their share of the reconstruction, so that the parts add up to the loss (of the entries whose reconstruction is not zero). No loss function modifies its arguments.",
    "quantifier": {"over": ["inputs"], "text": "all data, uncertainty, contribution and profile matrices and cutoffs"},
    "why_tests_cant": "The tests never compare a loss with a value; errors at the cutoff, for negative residuals, for zero residuals or for particular shapes stay invisible.",
    "anchors": {"files": ["esat/metrics.py"],
                "mechanism": [{"name": "q_loss, qr_loss, calculate_Q, q_factor", "where": "esat/metrics.py"}],
                "observe_at": ["return values and arguments of the loss functions"]},
}
SPEC = {"level": "exploration",
        "rule": "every 2x2 matrix of scaled residuals over 7 values around the cutoff (zero, below, equal, above, both signs) times 3 uncertainty patterns times cutoffs {1, 2, 4} times both float widths; all shapes 1..4 x 1..4 with 1..3 factors; non-trivial: distinct input matrices",
        "bounds": {"quick": "2401 residual matrices x 3 x 3 x 2; 48 shapes", "thorough": "2x2 over 9 values and every 1x5 row over 7 values"},
        "assumptions": ["float64 reference, relative tolerance 1e-9 for float64 and 1e-4 for float32"]}


def eval_case(ctx, m, V, U, W, H, alpha, tol, dtype):
    args = [np.array(a, dtype=dtype) for a in (V, U, W, H)]
    keep = [a.copy() for a in args]
    V, U, W, H = args
    V6, U6, W6, H6 = (a.astype(np.float64) for a in args)
    R = V6 - W6 @ H6
    s = np.abs(R / U6)
    q = float((s ** 2).sum())
    qu = float((R ** 2).sum())
    scale = lib.q_noise(V, U, W, H) if dtype == np.float32 else 1e-9
    ctx.expect(abs(float(m.q_loss(V=V, U=U, W=W, H=H)) - q) <= tol * q + scale, "loss differs from the sum of squared scaled residuals")
    ctx.expect(abs(float(m.q_loss(V=V, U=U, W=W, H=H, uncertainty=False)) - qu) <= tol * qu + scale,
               "unweighted loss differs from the sum of squared residuals")
    ctx.expect(abs(float(m.calculate_Q(R, U6)) - q) <= 1e-9 * q + 1e-12, "loss of given residuals differs")
    qr, Un = m.qr_loss(V=V, U=U, W=W, H=H, alpha=alpha)
    want = np.where(s > alpha, alpha * s, s * s)
    ctx.expect(abs(float(qr) - want.sum()) <= tol * want.sum() + scale, f"robust loss is {qr}, expected {want.sum()} (cutoff {alpha})")
    ctx.expect(float(qr) <= q * (1 + tol) + scale, "robust loss exceeds the loss")
    if (s <= alpha).all() and (np.abs(s - alpha) > 1e-3).all():
        ctx.expect(abs(float(qr) - q) <= tol * q + scale, "robust loss differs from the loss although nothing is beyond the cutoff")
    clear = np.abs(s - alpha) > 1e-3
    Ut = np.where(s > alpha, np.sqrt(s / alpha) * U6, U6)
    ctx.expect(np.shape(Un) == U.shape and lib.close(np.where(clear, Un, 0), np.where(clear, Ut, 0), 1e-3 if dtype == np.float32 else 1e-9),
               "adjusted uncertainties", lambda: {"got": Un, "expected": Ut})
    ctx.expect(all(lib.same(a, b) for a, b in zip(args, keep)), "an argument was modified")
    ctx.state(lib.key(V6, U6, W6, H6) + (alpha,))
    ctx.outcome((s > alpha).tolist())


def grid(ctx, job):
    vals, shape, first = job
    m = core.esat("esat.metrics")
    rows, cols = shape
    for rest in itertools.product(vals, repeat=rows * cols - 1):
        S = np.array((first,) + rest).reshape(shape)
        for uk in range(3):
            U = np.full(shape, (1.0, 0.5, 1.0)[uk])
            if uk == 2:
                U = U + 0.5 * (np.arange(rows)[:, None] * 2 + np.arange(cols)[None, :])
            W = np.arange(1, rows + 1, dtype=float)[:, None]
            H = 0.5 + np.arange(cols, dtype=float)[None, :]
            V = W @ H + S * U
            for alpha in (1, 2, 4):
                if not ctx.case(list(shape), S, uk, alpha):
                    continue
                with ctx.guard("loss functions"):
                    eval_case(ctx, m, V, U, W, H, alpha, 1e-9, np.float64)
                    eval_case(ctx, m, V, U, W, H, alpha, 1e-4, np.float32)


def factors(ctx, job):
    mm, n, f = job
    m = core.esat("esat.metrics")
    for k in range(9):
        if not ctx.case("factor", mm, n, f, k):
            continue
        with ctx.guard("per-factor loss"):
            i, j = np.arange(mm)[:, None], np.arange(n)[None, :]
            W = 0.3 + ((np.arange(mm)[:, None] * 3 + np.arange(f)[None, :] * (k + 1)) % 7)
            H = 0.2 + ((np.arange(f)[:, None] * 2 + np.arange(n)[None, :] * (k + 2)) % 5)
            if k == 5 and f > 1:
                W[0, 0] = 0.0
            if k == 6:                    # a sample and a feature that no factor explains
                W[mm - 1] = 0.0
                H[:, 0] = 0.0
            if k == 7:                    # weighted semi models have negative contributions
                W = W - 3.1 + 0.017 * np.arange(mm)[:, None]
            V = W @ H + ((i * 3 + j + k) % 5) - 2.0
            U = 0.5 + ((i + 2 * j) % 3)
            if k == 8:                    # small numbers
                V, W, U = V * 1e-7, W * 1e-7, U * 1e-7
            keep = [a.copy() for a in (V, U, W, H)]
            got = m.q_factor(V, U, W, H)
            wh = W @ H
            s2 = ((V - wh) / U) ** 2
            on = wh != 0
            want = [float((s2[on] * np.outer(W[:, c], H[c])[on] / wh[on]).sum()) for c in range(f)]
            ctx.expect(len(got) == f and all(abs(float(a) - b) <= 1.01e-4 + 1e-9 * abs(b) for a, b in zip(got, want)),
                       "per-factor losses", {"got": list(map(float, got)), "expected": want})
            ctx.expect(abs(sum(map(float, got)) - s2[on].sum()) <= 1e-4 * f + 1e-9 * s2.sum(), "the parts do not add up to the loss")
            ctx.expect(all(lib.same(a, b) for a, b in zip((V, U, W, H), keep)), "an argument was modified")
            ctx.state(lib.key(V, U, W, H))
            eval_case(ctx, m, V, U, W, H, 4, 1e-9, np.float64)


def run(ctx):
    vals = (0.0, 0.5, 0.999, 1.5, 4.0, 5.0, -4.5) if not ctx.thorough else (0.0, 0.5, 0.999, 1.5, 3.0, 4.0, 5.0, -4.5, -30.0)
    core.shards(ctx, grid, [(vals, (2, 2), a) for a in vals] + ([(vals[:7], (1, 5), a) for a in vals[:7]] if ctx.thorough else []))
    core.shards(ctx, factors, [(a, b, c) for a in range(1, 5) for b in range(1, 5) for c in range(1, 4)])
