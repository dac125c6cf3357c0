"""C04 the stop rule of the training loop, driven by scripted loss sequences"""
import builtins
import itertools
import math
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "Training stops exactly when the convergence criterion says so",
    "statement": "Training executes iterations until the maximum number is reached, until the loss is not a number, or until more than converge_n losses exist and the loss dropped by less than converge_delta from the first to the last of the most recent converge_n losses; it stops in exactly the first such iteration. The model is reported as converged exactly when it stopped for the last reason, the reported number of steps counts the iterations before the converging one, and nothing of this depends on earlier training of the same model.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all sequences of loss values and all settings of the stop rule, on fresh and on already trained models"},
    "why_tests_cant": "One run with one setting shows one loss sequence; off by one errors in the window and stale convergence flags need particular sequences.",
    "anchors": {"files": ["esat/model/sa.py"],
                "state": [{"name": "converged, converge_steps, q_list", "meaning": "outcome of the stop rule", "where": "SA"}],
                "mechanism": [{"name": "stop rule", "where": "SA.train"}],
                "observe_at": ["SA.converged", "SA.converge_steps", "SA.q_list"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "every loss sequence of length 5 over 4 values {9, 8.5, 4, not a number}, crossed with converge_n 1..4, 2 thresholds and max_iter 0..5, each on a fresh and on a previously converged model; plus real training runs (2 methods, 3 datasets) against the same rule",
                   "thorough": "length 6 over 5 values (with a rising one), converge_n 1..5, 3 thresholds"},
        "assumptions": ["the loss sequence is scripted through the documented update_step parameter of train"]}

SCRIPT = '''
def update(self, V, We, W, H, hold_h=False):
    import builtins
    return builtins._esat_script(W, H)
'''


def reference(qs, max_iter, delta, n):
    """(iterations executed, converged, steps)"""
    done = []
    for i in range(max_iter):
        done.append(qs[i])
        if math.isnan(qs[i]):
            return len(done), False, len(done) - 1
        if len(done) > n:
            w = done[-n:]
            if w[0] - w[-1] < delta:
                return len(done), True, len(done) - 1
    return len(done), False, len(done)


def scripted(sa, qs, **kw):
    it = iter(qs)

    def step(W, H):
        q = next(it)
        # V = 10 and U = 1, one cell: the loss is (10 - w)^2
        return np.array([[np.float32(10.0 - math.sqrt(q)) if q == q else np.float32("nan")]], dtype=np.float32), \
            np.array([[1.0]], dtype=np.float32)
    builtins._esat_script = step
    sa.train(update_step=SCRIPT, **kw)


def work(ctx, job):
    first, second, alphabet, length, ns, deltas = job
    for rest in itertools.product(alphabet, repeat=length - 2):
        rest = (second,) + rest
        qs = (first,) + rest
        for n in ns:
            for delta in deltas:
                for max_iter in range(1, length + 1):
                    if max_iter < length and not math.isnan(qs[0]) and rest[max_iter - 1] != alphabet[0]:
                        continue            # the same run as with another tail
                    exp = reference(qs, max_iter, delta, n)
                    for used in (False, True):
                        if not ctx.case([repr(q) for q in qs], n, delta, max_iter, used):
                            continue
                        with ctx.guard("scripted training"):
                            sa = lib.SA(np.array([[10.0]]), np.array([[1.0]]), 1)
                            sa.initialize(H=np.array([[1.0]]), W=np.array([[1.0]]), init_norm=False)
                            if used:
                                scripted(sa, [4, 4, 4, 4], max_iter=4, converge_delta=1.0, converge_n=2)
                            scripted(sa, qs, max_iter=max_iter, converge_delta=delta, converge_n=n)
                            ctx.step(len(sa.q_list))
                            got = (len(sa.q_list), bool(sa.converged), int(sa.converge_steps))
                            ctx.state((n, delta, max_iter, tuple(map(repr, qs[:exp[0]]))))
                            ctx.outcome(got)
                            ctx.expect(got == exp, f"(iterations, converged, steps) is {got}, expected {exp}")


def real(ctx, job):
    _, method, d = job
    m, n, f = [(5, 3, 2), (6, 4, 3), (8, 5, 2)][d]
    V = c02.shaped(m, n, d)
    U = c01.unc(V, "mixed")
    base = lib.SA(V, U, f, method=method, seed=d)
    base.initialize()
    base.train(max_iter=80, converge_n=1000)
    qs = [float(q) for q in base.q_list]
    for cn in (1, 2, 3, 7, 20):
        for delta in (1e-3, 0.1, 1.0, 10.0, 1e6):
            for max_iter in (1, 2, 8, 80):
                if not ctx.case("real", method, d, cn, delta, max_iter):
                    continue
                # away from ties
                if any(abs(abs(qs[i - cn + 1] - qs[i]) - delta) < 1e-3 * delta + 1e-6 * qs[i] for i in range(cn, max_iter)):
                    continue
                exp = reference(qs, max_iter, delta, cn)
                with ctx.guard("training"):
                    sa = lib.SA(V, U, f, method=method, seed=d)
                    sa.initialize()
                    sa.train(max_iter=max_iter, converge_delta=delta, converge_n=cn)
                    got = (len(sa.q_list), bool(sa.converged), int(sa.converge_steps))
                    ctx.step(len(sa.q_list))
                    ctx.state((method, d, exp))
                    ctx.expect(got == exp, f"(iterations, converged, steps) is {got}, expected {exp}")
                    ctx.expect(lib.close([float(q) for q in sa.q_list], qs[:exp[0]], 1e-6), "another loss sequence")


def run(ctx):
    nan = float("nan")
    al = (9.0, 8.5, 4.0, nan) if not ctx.thorough else (9.0, 8.5, 4.0, 16.0, nan)
    length, ns, deltas = (5, (1, 2, 3, 4), (0.25, 2.0)) if not ctx.thorough else (6, (1, 2, 3, 4, 5), (-1.0, 0.25, 2.0))
    core.shards(ctx, lambda c, j: real(c, j) if j[0] == "real" else work(c, j),
                [(a, b, al, length, ns, deltas) for a in al for b in al] +
                [("real", mth, d) for mth in ("ls-nmf", "ws-nmf") for d in range(3)])
