"""C03 reported results describe the final matrices, over call histories"""
import itertools
import re
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "Reported model results describe the final matrices of the last training",
    "statement": "After any history of initialize and train calls on one model, the reconstructed data is the product of the current contributions and profiles, Q(true) and Q(robust) are the losses of exactly those matrices with the robust cutoff of the last call, and the loss history is that of the last call: one entry per executed iteration, the last one being Q(true). The model metadata records the settings of the last call, and the printed summary shows these values. Training in two calls ends in the same matrices as one call with the summed number of iterations.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all sequences of initialize and train calls with all settings, for both methods"},
    "why_tests_cant": "The tests call train once with one setting and check that Q is not None; stale state only shows when calls follow one another or settings differ from the defaults.",
    "anchors": {"files": ["esat/model/sa.py", "esat/metrics.py"],
                "state": [{"name": "WH, Qtrue, Qrobust, q_list, metadata", "meaning": "reported results", "where": "SA"}],
                "mechanism": [{"name": "end of the training loop", "where": "SA.train"},
                              {"name": "loss functions", "where": "q_loss, qr_loss"}],
                "observe_at": ["SA.WH", "SA.Qtrue", "SA.Qrobust", "SA.q_list", "SA.metadata"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "every sequence of up to 3 calls out of 7 (initialize with given or drawn matrices, train with 5 settings that differ in iterations, stop rule, robust cutoff, held profiles and model number) on 4 models (2 methods x 2 datasets)",
                   "thorough": "sequences of up to 4 calls, 8 models"},
        "assumptions": ["losses compared in float64 with relative tolerance 1e-4 plus the effect of float32 rounding"]}

OPS = [
    ("init", {}),
    ("init", {"given": True}),
    ("train", dict(max_iter=1, converge_delta=0.001, converge_n=50, model_i=3, robust_alpha=4)),
    ("train", dict(max_iter=4, converge_delta=0.5, converge_n=2, model_i=5, robust_alpha=1)),
    ("train", dict(max_iter=3, converge_delta=0.25, converge_n=10, model_i=2, robust_alpha=2.5, hold_h=True)),
    ("train", dict(max_iter=6, converge_delta=1e9, converge_n=3, model_i=4, robust_alpha=0.5)),
    ("train", dict(max_iter=5, converge_delta=-1e9, converge_n=2, model_i=6, robust_alpha=4, hold_h=True, delay_h=2)),
]


def models(ctx):
    for method in ("ls-nmf", "ws-nmf"):
        for d in range(4 if ctx.thorough else 2):
            m, n, f = [(5, 3, 2), (6, 4, 3), (4, 4, 2), (7, 3, 1)][d]
            V = c02.shaped(m, n, d)
            if method == "ws-nmf" and d % 2:
                V = V - 3.0
            yield method, d, V, c01.unc(V, "mixed" if d % 2 else "prop"), f


def check_results(ctx, sa, V, U, kw, what):
    W, H = np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)
    noise = lib.q_noise(V, U, W, H)
    alpha = kw.get("robust_alpha", 4)
    qt, qr = lib.q_true(V, U, W, H), lib.q_robust(V, U, W, H, alpha)
    ctx.expect(lib.close(sa.WH, W @ H, 1e-4, 1e-5 * np.abs(W @ H).max()), f"{what}: reconstructed data is not W times H")
    ctx.expect(abs(float(sa.Qtrue) - qt) <= 1e-4 * qt + noise, f"{what}: Q(true) {sa.Qtrue} is not the loss {qt}")
    ctx.expect(abs(float(sa.Qrobust) - qr) <= 1e-4 * qr + noise,
               f"{what}: Q(robust) {sa.Qrobust} is not the robust loss {qr} with cutoff {alpha}")
    ql = [float(q) for q in sa.q_list]
    ctx.expect(1 <= len(ql) <= kw["max_iter"], f"{what}: {len(ql)} losses for at most {kw['max_iter']} iterations")
    ctx.expect(abs(ql[-1] - float(sa.Qtrue)) <= 1e-6 * abs(float(sa.Qtrue)), f"{what}: last loss {ql[-1]} is not Q(true) {sa.Qtrue}")
    ctx.expect(sa.converged or len(ql) == kw["max_iter"], f"{what}: {len(ql)} of {kw['max_iter']} iterations without convergence")
    md = sa.metadata
    want = {"max_iterations": kw["max_iter"], "converge_delta": kw["converge_delta"], "converge_n": kw["converge_n"],
            "model_i": kw["model_i"], "robust_mode": False, "method": sa.method, "factors": sa.factors,
            "samples": V.shape[0], "features": V.shape[1], "seed": sa.seed}
    for k, v in want.items():
        ctx.expect(md.get(k) == v, f"{what}: metadata {k} is {md.get(k)}, not {v}")
    ctx.expect("completion_date" in md and sa.model_i == kw["model_i"], f"{what}: model number {sa.model_i}")


def check_summary(ctx, sa):
    """the printed summary, where it names a value"""
    with lib.logged() as log:
        sa.summary()
    text = "\n".join(log)
    want = {r"Q\(true\)": float(sa.Qtrue), r"Q\(robust\)": float(sa.Qrobust), r"MSE\(true\)": float(sa.Qtrue) / sa.V.size,
            r"MSE\(robust\)": float(sa.Qrobust) / sa.V.size, "Factors": sa.factors, "Random Seed": sa.seed, "Number of Features": sa.V.shape[1],
            "Number of Samples": sa.V.shape[0], "Converge Steps": sa.converge_steps}
    for k, v in want.items():
        for x in re.findall(k + r"\s*:\s*([-+.\deE]+)", text):
            ctx.expect(abs(float(x) - v) <= 1e-4 * abs(v) + 6e-5, f"the summary reports {k.replace(chr(92), '')} {x}, it is {v}")
    for x in re.findall(r"Converged\s*:\s*(True|False)", text):
        ctx.expect(x == str(bool(sa.converged)), f"the summary reports converged {x}")
    for x in re.findall(r"Method\s*:\s*(\S+)", text):
        ctx.expect(x == sa.method, f"the summary reports the method {x}")


def work(ctx, job):
    method, d, V, U, f, first, depth = job
    m, n = V.shape

    def apply(sa, op):
        name, kw = op
        if name == "init":
            if kw.get("given"):
                sa.initialize(H=c01.start_h(f, n, 1), W=c01.start_h(m, f, 1))
            else:
                sa.initialize()
        else:
            sa.train(**kw)

    for length in range(1, depth + 1):
        for rest in itertools.product(range(len(OPS)), repeat=length - 1):
            seq = (first,) + rest
            if OPS[seq[-1]][0] != "train":
                continue
            if not ctx.case(method, d, list(seq)):
                continue
            with ctx.guard("call sequence"):
                sa = lib.SA(V, U, f, method=method, seed=5)
                for o in seq:
                    apply(sa, OPS[o])
                    ctx.step()
                check_results(ctx, sa, V, U, OPS[seq[-1]][1], "after the last train")
                if len(seq) < 3:
                    check_summary(ctx, sa)
                ctx.state((method, d, lib.key(sa.W, sa.H, np.array(sa.q_list))))
                ctx.outcome([method, bool(sa.converged), len(sa.q_list), round(float(sa.Qrobust / sa.Qtrue), 2)])
    # one call or several
    if first == 0:
        total = 6
        for cut in itertools.combinations(range(1, total), 1 if not ctx.thorough else 2):
            if not ctx.case(method, d, "split", list(cut)):
                continue
            with ctx.guard("split training"):
                a, b = lib.SA(V, U, f, method=method, seed=5), lib.SA(V, U, f, method=method, seed=5)
                a.initialize(), b.initialize()
                a.train(max_iter=total, converge_n=1000)
                at = 0
                hist = []
                for c in list(cut) + [total]:
                    b.train(max_iter=c - at, converge_n=1000)
                    hist += list(b.q_list)
                    at = c
                    ctx.step()
                ctx.expect(lib.close(a.W, b.W, 1e-6) and lib.close(a.H, b.H, 1e-6) and lib.close(hist, a.q_list, 1e-6),
                           "training in several calls differs from training in one")


def run(ctx):
    depth = 4 if ctx.thorough else 3
    core.shards(ctx, work, [(*mdl, first, depth) for mdl in models(ctx) for first in range(len(OPS))])
