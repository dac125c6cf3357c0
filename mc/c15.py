"""C15 bootstrap resampling: every answer of the random generator"""
import itertools
import numpy as np
import core, lib, sched, rng, errlib

PROPERTY = {
    "title": "Bootstrap datasets are whole-sample resamples that can reach every sample",
    "statement": "Every bootstrap dataset has the size of the original and consists of original samples, each with its own data and uncertainty side by side, at the positions its recorded index says; with block resampling the index is a sequence of runs of consecutive samples of the block size, only the last of which may be cut, and over the possible draws every sample and every block, including the last one, can occur, and single samples are drawn with replacement. Each bootstrap model is what training on that dataset with the base model's settings gives, starting from the base profiles unless told otherwise. Running again with other settings gives the runs of these settings. Equal seeds give equal resamples, and different seeds different ones. The base model stays as it was, and the block size never exceeds the number of samples.",
    "quantifier": {"over": ["inputs", "configurations", "schedules"],
                   "text": "all answers of the random generator, all numbers of samples, block sizes and resampling modes"},
    "why_tests_cant": "No reliable test runs the bootstrap; an index that never reaches the last block, or data and uncertainty that are resampled differently, still gives plausible numbers.",
    "anchors": {"files": ["esat/error/bootstrap.py"],
                "state": [{"name": "bs_results[i]['index']", "meaning": "resampled sample numbers of run i", "where": "Bootstrap"}],
                "mechanism": [{"name": "block and single resampling", "where": "Bootstrap"}],
                "observe_at": ["Bootstrap.bs_results"]},
}
SPEC = {"level": "model_checking",
        "technique": "exhaustive enumeration of the answers of the random generator on the real code",
        "bounds": {"quick": "2..6 samples, block sizes 1..samples+1, non-overlapping, overlapping and single-sample resampling, kept and redrawn profiles, reused and new seeds: every sequence of generator answers (single-sample resampling up to 5 samples); 2 methods; every sequence of two runs of one bootstrap with other settings",
                   "thorough": "up to 8 samples for blocks, 6 for single samples; every sequence of three runs"},
        "assumptions": ["randomness reaches the code through numpy.random.default_rng(...).integers and .choice; draws of more than 16 alternatives (run seeds) keep their real value"]}


def blocks_of(index, b, N, overlapping):
    """the runs of a block-resampled index, or None"""
    out, at = [], 0
    while at < N:
        start = index[at]
        if not overlapping:
            if start % b:
                return None
            length = min(b, N - start)
        else:
            if start > N - b:
                return None
            length = b
        run = list(range(start, start + length))
        cut = run[:N - at]
        if list(index[at:at + len(cut)]) != cut:
            return None
        out.append(start)
        at += len(cut)
    return out


def check_run(ctx, bs, r, sa, mode, be, keep_H, reuse):
    """one bootstrap run; the starts of its blocks, or None when its index is wrong"""
    N = sa.V.shape[0]
    idx, runs = [int(i) for i in r["index"]], []
    if not ctx.expect(len(idx) == N and all(0 <= i < N for i in idx), f"index {idx}"):
        return None
    if mode != "single":
        ctx.expect(1 <= bs.block_size <= N, f"block size {bs.block_size}")
        runs = blocks_of(idx, be, N, mode == "overlap")
        ctx.expect(runs is not None, f"index {idx} is not made of blocks of {be} samples")
    m = r["model"]
    ctx.expect(lib.same(m.V, sa.V[idx]), f"data of the bootstrap model is not that of samples {idx}")
    ctx.expect(lib.same(m.U, sa.U[idx]), f"uncertainty of the bootstrap model is not that of samples {idx}")
    ref = errlib.retrain(sa.V[idx], sa.U[idx], sa, sa.seed if reuse else m.seed, sa.H if keep_H else None)
    ctx.expect(lib.close(m.W, ref.W, 1e-5, 1e-7) and lib.close(m.H, ref.H, 1e-5, 1e-7),
               "the bootstrap model is not the one that training on its dataset gives")
    ctx.expect(m.method == sa.method and m.factors == sa.factors, "method or factors of the bootstrap model")
    return runs or []


MODES = list(itertools.product(("block", "overlap", "single"), (True, False), (True, False)))


def history(ctx, job):
    """the analysis run again, each time with other settings: every sequence of settings"""
    first, rest, parallel = job
    bsm = core.esat("esat.error.bootstrap")
    sa = errlib.base_model(8, 3, 2, k=1, iters=4)
    snap = errlib.snapshot(sa)
    for tail in itertools.product(range(len(MODES)), repeat=rest):
        seq = (first,) + tail
        if not ctx.case("history", list(seq), parallel):
            continue
        with ctx.guard("bootstrap"), core.quiet(), sched.controlled():
            bs = bsm.Bootstrap(sa=sa, bootstrap_n=3, block_size=3, threshold=0.6, parallel=parallel, cpus=2, seed=7)
            for k in seq:
                mode, keep, reuse = MODES[k]
                bs.run(keep_H=keep, reuse_seed=reuse, block=mode != "single", overlapping=mode == "overlap")
                ctx.step(3)
                ctx.expect(sorted(bs.bs_results) == [1, 2, 3], f"runs {sorted(bs.bs_results)}")
                for i in sorted(bs.bs_results):
                    check_run(ctx, bs, bs.bs_results[i], sa, mode, 3, keep, reuse)
                ctx.expect(len({tuple(map(int, bs.bs_results[i]["index"])) for i in bs.bs_results}) > 1 or mode == "block",
                           "every run draws the same samples")
            ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")
            ctx.state(("history", seq, parallel))


def work(ctx, job):
    N, b, mode, keep_H, reuse, method, k = job
    bsm = core.esat("esat.error.bootstrap")
    sa = errlib.base_model(N, 3, 2, method=method, k=k, iters=3 if k == 1 else 40)
    snap = errlib.snapshot(sa)
    be = b if b <= N / 2 else max(N // 2, 1)
    reach, starts, drawn = set(), set(), set()
    ch = sched.Choices()

    def body(choose, trace):
        with rng.scripted(choose), core.quiet():
            bs = bsm.Bootstrap(sa=sa, bootstrap_n=1, block_size=b, threshold=0.6, parallel=False, seed=7)
            bs.run(keep_H=keep_H, reuse_seed=reuse, block=mode != "single", overlapping=mode == "overlap")
        if not ctx.case(N, b, mode, keep_H, reuse, method, k, list(trace)):
            return
        with ctx.guard("bootstrap"):
            ctx.step(len(trace))
            ctx.expect(sorted(bs.bs_results) == [1], f"runs {sorted(bs.bs_results)}")
            r = bs.bs_results[1]
            idx = [int(i) for i in r["index"]]
            ctx.state((N, b, mode, keep_H, reuse, method, tuple(idx)))
            ctx.outcome(idx)
            runs = check_run(ctx, bs, r, sa, mode, be, keep_H, reuse)
            if runs is None:
                return
            reach.update(idx)
            drawn.add(tuple(idx))
            starts.update(runs)
            ctx.expect(errlib.unchanged(sa, snap), "the base model was modified")

    def safe(choose, trace):
        try:
            body(choose, trace)
        except (core.Stop, RuntimeError):
            raise
        except Exception as e:
            if ctx.case(N, b, mode, keep_H, reuse, method, k, list(trace)):
                ctx.crash(e, "bootstrap")
    ch.run(safe)
    if ctx.replay is None and ctx.case(N, b, mode, keep_H, reuse, method, k, "reach"):
        ctx.expect(reach == set(range(N)), f"samples {sorted(set(range(N)) - reach)} can never be drawn")
        if mode == "single":
            ctx.expect(any(len(set(i)) < N for i in drawn), "no draw repeats a sample: single samples are not drawn with replacement")
            ctx.expect(any(len(set(i)) == 1 for i in drawn), "a sample can not be drawn for every position")
        if mode == "block":
            ctx.expect(starts == set(range(0, N, be)), f"blocks starting at {sorted(set(range(0, N, be)) - starts)} can never be drawn")
        if mode == "overlap":
            ctx.expect(starts == set(range(0, N - be + 1)), f"blocks starting at {sorted(set(range(0, N - be + 1)) - starts)} can never be drawn")


def seeds(ctx, job):
    """the resamples are those of the seed that is given, whichever it is"""
    bsm = core.esat("esat.error.bootstrap")
    N, mode = job
    kw = dict(block=mode != "single", overlapping=mode == "overlap")
    sa = errlib.base_model(N, 3, 2, k=1, iters=2)

    def draws(seed):
        with core.quiet():
            bs = bsm.Bootstrap(sa=sa, bootstrap_n=6, block_size=2, parallel=False, seed=seed)
            bs.run(**kw)
        return bs, [tuple(int(i) for i in bs.bs_results[k]["index"]) for k in sorted(bs.bs_results)]
    seen = {}
    for seed in (0, 1, 2, sa.seed, 17):
        if not ctx.case("seed", N, mode, seed):
            continue
        with ctx.guard("bootstrap"):
            (bs, a), (_, b) = draws(seed), draws(seed)
            ctx.step(12)
            ctx.expect(a == b, f"two bootstraps with the seed {seed} resample differently")
            ctx.expect(len(set(a)) > 1, f"every run of the seed {seed} draws the same samples")
            ctx.expect(int(bs.metadata["bs_seed"]) == seed, f"the metadata names the seed {bs.metadata['bs_seed']}, not {seed}")
            for s, o in seen.items():
                ctx.expect(o != a, f"the seeds {s} and {seed} give the same resamples")
            seen[seed] = a
            ctx.state((N, mode, seed, tuple(a)))


def count(N, b, mode):
    be = b if b <= N / 2 else max(N // 2, 1)
    if mode == "single":
        return N ** N
    if mode == "overlap":
        return (N - be + 1) ** -(-N // be)
    return (-(-N // be)) ** (-(-N // be) + 1)


def run(ctx):
    jobs = []
    for N in range(2, 9 if ctx.thorough else 7):
        for b in range(1, N + 2):
            for mode in ("block", "overlap") + (("single",) if b == 1 else ()):
                if count(N, b, mode) > (60000 if ctx.thorough else 5000):
                    continue
                for q, (keep, reuse) in enumerate(((True, True), (False, True), (True, False), (False, False))):
                    if q and count(N, b, mode) > 300:
                        continue
                    for method in ("ls-nmf", "ws-nmf"):
                        if method == "ws-nmf" and (N < 4 or count(N, b, mode) > 300):
                            continue
                        jobs.append((N, b, mode, keep, reuse, method, 1))
                        if count(N, b, mode) <= 30:       # a base model that stops before its last iteration
                            jobs.append((N, b, mode, keep, reuse, method, 2))
    jobs.sort(key=lambda j: -count(*j[:3]))
    core.shards(ctx, work, jobs)
    core.shards(ctx, history, [(i, 2 if ctx.thorough else 1, p) for i in range(len(MODES)) for p in (False, True)])
    core.shards(ctx, seeds, [(N, m) for N in (7, 10) for m in ("block", "overlap", "single")])
