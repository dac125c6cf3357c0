"""C05 held and delayed profiles"""
import itertools
import numpy as np
import core, lib, c01, c02

PROPERTY = {
    "title": "Held factor profiles stay bit for bit unchanged, and a delay ends the hold",
    "statement": "When training holds the profiles without a delay, every profile value after training is bit for bit the value before it, for any number of iterations, both methods and any history of earlier calls, while the contributions are still optimised. With a positive delay the profiles stay unchanged for that number of iterations and are updated again by the second iteration after it; a delay without hold changes nothing, and holding in one call does not carry over into the next.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all sequences of training calls with all combinations of hold flag, delay and iteration count"},
    "why_tests_cant": "No test holds the profiles; the flag was accepted by only one of the two update rules, and the delay is an off by one question over many combinations.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"],
                "mechanism": [{"name": "hold_h and delay_h", "where": "SA.train"},
                              {"name": "hold_h", "where": "LSNMF.update, WSNMF.update"}],
                "observe_at": ["SA.H", "SA.W"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "every sequence of up to 2 train calls, each with hold in {no, yes} x delay in {-1, 0, 1, 2, 3} x iterations in {1..5}, on 2 methods x 2 datasets, against a model of the hold schedule driving the same update one iteration at a time",
                   "thorough": "sequences of up to 2 calls on 6 datasets with up to 7 iterations and 3 calls on one dataset"},
        "assumptions": ["the profiles are allowed to move in the first iteration after the delay or one later, as both implementations in the repository do"]}


def held(hold, delay, i):
    """must be held / may be either / must be free"""
    if not hold:
        return False
    if delay <= 0:
        return True
    if i < delay:
        return True
    return None if i == delay else False


def work(ctx, job):
    method, d, first, calls, iters = job
    m, n, f = [(5, 3, 2), (6, 4, 3), (4, 4, 2), (7, 3, 1), (6, 5, 3), (5, 4, 2)][d]
    V = c02.shaped(m, n, d)
    if method == "ws-nmf" and d % 2:
        V = V - 3.0
    U = c01.unc(V, "mixed")
    alphabet = [(h, dl, it) for h in (False, True) for dl in (-1, 0, 1, 2, 3) for it in range(1, iters + 1)]

    def fresh():
        sa = lib.SA(V, U, f, method=method, seed=3)
        sa.initialize(H=c01.start_h(f, n, 1), W=np.abs(c01.start_h(m, f, 2)))
        return sa

    for rest in itertools.product(alphabet, repeat=calls - 1):
        seq = (first,) + rest
        if not ctx.case(method, d, [list(s) for s in seq]):
            continue
        with ctx.guard("training with held profiles"):
            sa, ref = fresh(), fresh()
            for (h, dl, it) in seq:
                H0, W0 = np.array(sa.H), np.array(sa.W)
                sa.train(max_iter=it, converge_n=1000, hold_h=h, delay_h=dl)
                ctx.step(it)
                status = [held(h, dl, i) for i in range(it)]
                moved = not lib.same(H0, sa.H)
                if all(s is True for s in status):
                    ctx.expect(not moved, f"hold={h} delay={dl} iterations={it}: the held profiles changed")
                elif any(s is False for s in status):
                    ctx.expect(moved, f"hold={h} delay={dl} iterations={it}: the profiles were never updated")
                if (h, dl, it) is seq[0]:          # later calls may start from contributions that are optimal already
                    ctx.expect(not lib.same(W0, sa.W), "the contributions were not optimised")
                # the same schedule, one iteration at a time, with either choice where both are allowed
                end = []
                for free in ((0, 1) if None in status else (0,)):
                    r = fresh()
                    r.initialize(H=np.array(ref.H), W=np.array(ref.W))
                    for s in status:
                        r.train(max_iter=1, converge_n=1000, hold_h=(not free) if s is None else s)
                    end.append(r)
                ok = [r for r in end if lib.close(r.H, sa.H, 1e-5, 1e-7) and lib.close(r.W, sa.W, 1e-5, 1e-7)]
                if not ctx.expect(ok, f"hold={h} delay={dl} iterations={it}: the matrices are not those of the schedule"):
                    break
                ref = ok[0]
                ctx.state((method, d, lib.key(sa.H)))
                ctx.outcome([h, dl, it, moved])


def long(ctx, job):
    """a hold lasts for any number of iterations, and so does a delay"""
    method, d = job
    m, n, f = [(5, 3, 2), (6, 4, 3), (4, 4, 2), (7, 3, 1), (6, 5, 3), (5, 4, 2)][d]
    V = c02.shaped(m, n, d)
    U = c01.unc(V, "mixed")
    for delay in (-1, 0, 150):
        if not ctx.case("long", method, d, delay):
            continue
        with ctx.guard("a long training with held profiles"):
            sa = lib.SA(V, U, f, method=method, seed=3)
            sa.initialize(H=c01.start_h(f, n, 1), W=np.abs(c01.start_h(m, f, 2)))
            H0 = np.array(sa.H)
            iters = 150 if delay > 0 else 1500 if ctx.thorough else 400
            sa.train(max_iter=iters, converge_n=100000, hold_h=True, delay_h=delay)
            ctx.step(iters)
            ctx.state(("long", method, d, delay, lib.key(sa.W)))
            ctx.expect(lib.same(H0, sa.H), f"the profiles held for {iters} iterations (delay {delay}) changed")


def run(ctx):
    iters = 7 if ctx.thorough else 5
    al = [(h, dl, it) for h in (False, True) for dl in (-1, 0, 1, 2, 3) for it in range(1, iters + 1)]
    jobs = [(mth, d, a, 2, iters) for mth in ("ls-nmf", "ws-nmf") for d in range(6 if ctx.thorough else 2) for a in al]
    if ctx.thorough:
        al3 = [(h, dl, it) for h in (False, True) for dl in (-1, 0, 1, 2, 3) for it in range(1, 4)]
        jobs += [(mth, 0, a, 3, 3) for mth in ("ls-nmf", "ws-nmf") for a in al3]
    core.shards(ctx, work, jobs)
    core.shards(ctx, long, [(mth, d) for mth in ("ls-nmf", "ws-nmf") for d in range(6)])
