"""C29 helper functions: time steps, factor correlation and swaps, memory estimate, JSON of numpy values"""
import itertools
import json
import re
import types
import numpy as np
import core, lib

PROPERTY = {
    "title": "Time step, factor swap, memory and JSON helpers obey their definition",
    "statement": "For every increasing time index with steps of whole seconds, the time step found is a valid resampling frequency that is never longer than the shortest interval between neighbours (so that resampling merges no two samples), and equals it when the shortest interval is a whole number of days, or below a day a whole number of hours, minutes below an hour or seconds below a minute. The squared factor correlation lies in 0..1, is symmetric and does not change when a factor is scaled or shifted; two sets of factors are reported as swapped exactly when some factor of the first correlates better with another factor of the second than with its own counterpart. The memory estimate never grows smaller when the problem grows, and the recommended number of cores is the largest that is neither more than the cores given nor more than the available memory can hold. Any nesting of numpy numbers, arrays and sets is written to JSON as the equal plain values.",
    "quantifier": {"over": ["inputs"], "text": "all time indices, factor matrices, problem sizes and nested values"},
    "why_tests_cant": "The helpers are tested indirectly on one regular index and one size; irregular steps, ties and tight memory are not covered.",
    "anchors": {"files": ["esat/utils.py"],
                "mechanism": [{"name": "min_timestep", "where": "esat/utils.py"}, {"name": "compare_all_factors", "where": "esat/utils.py"},
                              {"name": "memory_estimate", "where": "esat/utils.py"}, {"name": "np_encoder", "where": "esat/utils.py"}],
                "observe_at": ["return values of the functions of esat.utils"]},
}
SPEC = {"level": "exploration",
        "rule": "every sequence of up to 4 steps out of 15 step lengths (1 s .. 45 days); every pair of 2 x 3 matrices over {1,2,4} without constant rows (every fifth in the quick tier) and 3 x 3 permutations with noise; every combination of sizes, cores and available memory; every nesting of depth 3 of the value kinds; non-trivial: distinct inputs",
        "bounds": {"quick": "all 3615 step sequences up to 3 and every seventh of length 4, 5 800 matrix pairs, 3 360 sizes, 1 404 nestings", "thorough": "all step sequences of length 4, all matrix pairs"},
        "assumptions": ["correlations closer than 1e-9 to each other may be decided either way", "minutes and hours are not mixed: 90 minutes may be found as 1 hour, never as more than 90 minutes"]}

MIN, H, D = 60, 3600, 86400
STEPS = [1, 2, 17, 59, MIN, MIN + 30, 15 * MIN, H - 1, H, H + 1, 3 * H, 23 * H + 59 * MIN, D, 2 * D + H, 45 * D]
UNIT = {"s": 1, "min": MIN, "h": H, "D": D}


def steps(ctx, job):
    import pandas as pd
    u = core.esat("esat.utils")
    first = STEPS[job]
    n = 0
    for length in range(0, 4):
        for rest in itertools.product(STEPS, repeat=length):
            n += 1
            if length == 3 and not ctx.thorough and n % 7:
                continue
            seq = (first,) + rest
            if not ctx.case("steps", list(seq)):
                continue
            with ctx.guard("min_timestep"):
                t = np.cumsum((0,) + seq)
                start = pd.Timestamp("2021-02-27 22:45:30") if n % 2 else pd.Timestamp("2020-12-31")
                idx = start + pd.to_timedelta(t, unit="s")
                df = pd.DataFrame({"a": np.arange(len(t), dtype=float) + 1}, index=idx)
                r = u.min_timestep(df)
                m = re.fullmatch(r"(\d+)(s|min|h|D)", str(r))
                if not ctx.expect(m is not None, f"timestep {r!r} for steps {seq}"):
                    continue
                w, short = int(m.group(1)) * UNIT[m.group(2)], min(seq)
                ctx.expect(0 < w <= short, f"timestep {r} for a shortest interval of {short} s")
                unit = D if short >= D else H if short >= H else MIN if short >= MIN else 1
                if short % unit == 0:
                    ctx.expect(w == short, f"timestep {r}, the shortest interval is {short} s")
                if t[-1] // w < 3000:
                    out = df.resample(r).mean()["a"].dropna()
                    ctx.expect(out.tolist() == df["a"].tolist(), f"resampling by {r} changes the samples of steps {seq}")
                ctx.outcome(["step", r])
                ctx.state(("steps", seq))


def r2(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    a, b = a - a.mean(), b - b.mean()
    return (a @ b) ** 2 / ((a @ a) * (b @ b))


def factors(ctx, job):
    u = core.esat("esat.utils")
    rows = [r for r in itertools.product((1, 2, 4), repeat=3) if len(set(r)) > 1]
    mats = list(itertools.product(rows, repeat=2))
    part, parts = job
    n = 0
    for ai in range(part, len(mats), parts):
        A = np.array(mats[ai], dtype="float32" if ai % 2 else int)
        for bi in range(len(mats)):
            n += 1
            if not ctx.thorough and n % 53:
                continue
            if not ctx.case("pair", ai, bi):
                continue
            with ctx.guard("comparison of factors"):
                B = np.array(mats[bi], dtype=int)
                keep = A.copy(), B.copy()
                c = np.array([[r2(a, b) for b in B] for a in A])
                for i in range(2):
                    for j in range(2):
                        x = float(u.calculate_factor_correlation(A[i], B[j]))
                        ctx.expect(abs(x - c[i, j]) <= 1e-9 and -1e-12 <= x <= 1 + 1e-9, f"correlation {x}, expected {c[i, j]}")
                        ctx.expect(abs(x - float(u.calculate_factor_correlation(B[j], A[i]))) <= 1e-9, "correlation is not symmetric")
                        ctx.expect(abs(x - float(u.calculate_factor_correlation(3.5 * A[i] + 2, -0.25 * B[j] + 9))) <= 1e-6, "correlation depends on scale or offset")
                gap = [c[i].max() - c[i, i] for i in range(2)]
                if all(g > 1e-9 or g == 0 or abs(g) < 1e-15 for g in gap):
                    if not any(0 < g < 1e-9 for g in gap):
                        ties = any(abs(c[i, i] - c[i, 1 - i]) < 1e-9 for i in range(2))
                        if not ties:
                            got = u.compare_all_factors(A, B)
                            ctx.expect(bool(got) == any(g > 0 for g in gap), f"swap {got} for correlations {c.tolist()}")
                            ctx.outcome(["swap", bool(got)])
                ctx.state(("pair", ai, bi))
                ctx.expect(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), "the matrices were modified")
    if part == 0:
        base = np.array([[9, 1, 2, 3.0], [1, 8, 2, 0.5], [2, 0.2, 7, 1], [0.1, 3, 1, 6]])
        for f in (1, 2, 3, 4):
            for p in itertools.permutations(range(f)):
                for scale in (1.0, 0.01, 300.0):
                    if not ctx.case("permutation", list(p), scale):
                        continue
                    with ctx.guard("comparison of factors"):
                        got = u.compare_all_factors(base[:f], scale * base[list(p)] + 0.5 * scale)
                        ctx.expect(bool(got) == (list(p) != list(range(f))), f"swap {got} for the permutation {p}")


def memory(ctx, job):
    u = core.esat("esat.utils")
    real = u.psutil.virtual_memory
    size = {"GB": 1024 ** 3, "MB": 1024 ** 2, "KB": 1024, "Bytes": 1}
    cpu = core.os.cpu_count()
    try:
        for avail in (100 * 1024 ** 2, 151 * 1024 ** 2, 2 * 1024 ** 3, 32 * 1024 ** 3):
            u.psutil.virtual_memory = lambda: types.SimpleNamespace(available=avail, total=2 * avail)
            last = {}
            for nf, ns, k in itertools.product((1, 5, 40, 400), (1, 30, 1000, 200000), (1, 2, 6, 20, 50)):
                for cores in (None, 1, 2, 8):
                    if not ctx.case("memory", avail, nf, ns, k, cores):
                        continue
                    with ctx.guard("memory_estimate"), core.quiet():
                        r = u.memory_estimate(nf, ns, k, cores) if cores else u.memory_estimate(nf, ns, k)
                        b = float(r["max_bytes"])
                        limit = cores or cpu
                        ctx.expect(b >= 4 * (3 * nf * ns + nf * k + ns * k), f"estimate of {b} bytes is less than the matrices")
                        ctx.expect(r["max_cores"] == min(int(avail // b), limit), f"{r['max_cores']} cores for {b} of {avail} bytes, {limit} cores")
                        ctx.expect(abs(r["available_memory_bytes"] - avail / 1024 ** 3) < 1e-6, "available memory")
                        for name, want in (("estimate", b), ("available_string", avail)):
                            v, un = r[name].split()
                            ctx.expect(un in size and abs(float(v) * size[un] - want) <= 1e-3 * want, f"{name} {r[name]!r} for {want} bytes")
                        last[nf, ns, k] = b
                        ctx.state(("memory", avail, nf, ns, k, cores))
                        ctx.outcome(["cores", r["max_cores"], un])
                for dim in range(3):
                    less = [(a, x) for a, x in last.items() if all((a[d] == (nf, ns, k)[d]) if d != dim else (a[d] < (nf, ns, k)[d]) for d in range(3))]
                    ctx.expect(all(x <= last.get((nf, ns, k), x) for _, x in less), "the estimate shrinks when the problem grows")
    finally:
        u.psutil.virtual_memory = real


LEAVES = [(np.float32(0.5), 0.5), (np.float64(-3.25), -3.25), (np.int64(2 ** 40), 2 ** 40), (np.int32(-7), -7), (np.bool_(True), True), (np.bool_(False), False),
          (np.array([1.5, 2.0]), [1.5, 2.0]), (np.array([[1, 2], [3, 4]], dtype="int16"), [[1, 2], [3, 4]]), (np.array(4.5), 4.5), (np.array([]), []),
          ({3}, [3]), (frozenset({"x"}), ["x"]), ({np.int64(5)}, [5])]


def wrap(kind, a, b):
    if kind == 0:
        return [a[0], b[0]], [a[1], b[1]]
    if kind == 1:
        return {"a": a[0], "b": b[0]}, {"a": a[1], "b": b[1]}
    return (a[0], {"k": [b[0]]}), [a[1], {"k": [b[1]]}]


def encode(ctx, job):
    u = core.esat("esat.utils")
    vals = [(k, a, b) for k in range(3) for a in range(len(LEAVES)) for b in range(len(LEAVES))]
    for i, (k, a, b) in enumerate(vals):
        for k2 in range(3 if ctx.thorough or i % 3 == 0 else 1):
            if not ctx.case("json", k, a, b, k2):
                continue
            with ctx.guard("np_encoder"):
                v, want = wrap(k2, wrap(k, LEAVES[a], LEAVES[b]), LEAVES[(a + b) % len(LEAVES)])
                got = json.loads(json.dumps(v, default=u.np_encoder))
                ctx.state(("json", k, a, b, k2))
                ctx.expect(got == want and json.dumps(got) == json.dumps(want), f"{v} becomes {got}")
    for a, (v, want) in enumerate(LEAVES):
        if ctx.case("value", a):
            with ctx.guard("np_encoder"):
                got = u.np_encoder(v)
                ctx.expect(type(got) is type(want) and (got == want), f"{v!r} becomes {got!r}")


def run(ctx):
    core.shards(ctx, steps, list(range(len(STEPS))))
    core.shards(ctx, factors, [(p, 16) for p in range(16)])
    core.shards(ctx, memory, [0])
    core.shards(ctx, encode, [0])
