"""C41 the process the objects run in"""
import os
import re
import sys
import pickle
import subprocess
import core, sched, c09, c39, c40

PROPERTY = {
    "title": "The same calls give the same results in every process",
    "statement": "Models, batches, error estimations, constrained models, factor estimation, perturbation, factor catalog and comparison, simulator, data handlers and analyses give the same results for the same seeds, values and settings in another process, and their text files have the same content in UTF-8: whatever the hash seed, time zone, language, character set, working directory, number of processors, number of threads of the numerical libraries, optimization level and copy rules of the dataframes are, and whatever the global random generators were used for before. They leave what a process shares as it is: global generators, working directory, environment, floating point, print and dataframe options, signals, language and search path, and write no files but those that are asked for.",
    "quantifier": {"over": ["configurations", "environments"],
                   "text": "all kinds of objects and settings in every one of the process settings"},
    "why_tests_cant": "The tests run in one process with one setting of all of these; an order taken from a set, a global generator, local time or the current directory is always the same there.",
    "anchors": {"files": ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py",
                          "esat/rotational/constrained.py", "esat/estimator.py", "esat/data/datahandler.py", "esat/data/analysis.py",
                          "eval/simulator.py", "eval/perturbation.py", "eval/factor_catalog.py", "eval/factor_comparison.py"],
                "mechanism": [{"name": "generators and orders", "where": "all classes"}],
                "observe_at": ["public attributes of the objects", "results of their methods"]},
}
SPEC = {"level": "exploration",
        "rule": "every combination of process setting, kind of object and setting of the object; non-trivial: distinct combinations",
        "bounds": {"quick": "22 kinds of objects x 2 settings, and the text files of 6 kinds with labels that are not ASCII, x 22 process settings (5 hash seeds, 3 time zones, 2 languages, ASCII and UTF-8 character sets, other working directory, 1, 3 and 64 processors, 1 and 4 threads, python -O and -OO, copy on write, used and reseeded global generators)",
                   "thorough": "every pair of a hash seed and another setting, for 8 hash seeds"},
        "assumptions": ["results agree to 2e-3 of the largest entry of each array (the order of summation may depend on the number of threads)", "the attributes with the number of processors in use are not compared"]}

SETTINGS = {"hash 0": {"PYTHONHASHSEED": "0"}, "hash 1": {"PYTHONHASHSEED": "1"}, "hash 2": {"PYTHONHASHSEED": "2"}, "hash 3": {"PYTHONHASHSEED": "3"},
            "hash 4": {"PYTHONHASHSEED": "4"}, "zone NZ": {"TZ": "NZST-12NZDT"}, "zone HST": {"TZ": "HST10"}, "zone DST": {"TZ": "CET-1CEST,M3.5.0,M10.5.0/3"},
            "language C": {"LC_ALL": "C", "LANG": "C"}, "language de": {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8"}, "directory": {"C41": "directory"},
            "processors 1": {"C41": "cpu 1"}, "processors 3": {"C41": "cpu 3"}, "processors 64": {"C41": "cpu 64"},
            "threads 1": {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}, "threads 4": {"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"},
            "ASCII": {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, "UTF-8": {"PYTHONUTF8": "1"},
            "optimized": {"C41": "-O"}, "more optimized": {"C41": "-OO"}, "copy on write": {"C41": "cow"}, "global generator": {"C41": "global"}}


LABELS = ["PM\u2082.\u2085", "\u00b5g, b", "K\u00fc"]


def model_files(d):
    c09.sa_stage("ls-nmf", 2).save(model_name="m", output_directory=d, pickle_model=False, header=LABELS)


def batch_files(d):
    c09.batch("ls-nmf", True).save(batch_name="b", output_directory=d, pickle_batch=False, header=LABELS)


def error_files(kind):
    def write(d):
        o = {"displacement": lambda: c09.displacement(2, True), "bootstrap": lambda: c09.bootstrap("ls-nmf", False), "bsdisp": c09.bsdisp}[kind]()
        o.feature_labels = LABELS if kind != "bootstrap" else LABELS + ["x"]
        with sched.controlled():
            o.run()
        o.save("e", d, pickle_result=False)
    return write


def tables(d):
    cm = c09.constrained("ls-nmf", True, True)
    cm.save("c", d, pickle_model=False)


FILES = {"files of a model": model_files, "files of a batch": batch_files, "files of a displacement": error_files("displacement"),
         "files of a bootstrap": error_files("bootstrap"), "files of a BS-DISP": error_files("bsdisp"), "files of a constrained model": tables}


def written(write):
    """the files it writes, without the directory and times"""
    with core.scratch() as top:
        d = os.path.join(top, "o\u00e9")
        try:
            os.mkdir(d)
        except UnicodeEncodeError:          # this process cannot name such a directory
            d = top
        with core.quiet(), core.NoRustLeft():
            write(d)
        out = []
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name), "rb") as f:
                b = f.read()
            try:
                t = b.decode("utf-8")
            except UnicodeDecodeError:
                t = "not UTF-8: " + repr(b[:300])
            for x in (d, d.replace("\u00e9", "\\u00e9")):
                t = t.replace(x, "DIR")
            t = re.sub(r"[0-9]+/[0-9]+/[0-9]+, [0-9:]+", "WHEN", t)
            numbers = re.split(r"([-+0-9.]+(?:e[-+]?[0-9]+)?)", t) if len(t) < 200000 else [t]
            out.append((name, "".join(numbers[::2]), [number(x) for x in numbers[1::2]]))
        if not out:
            raise RuntimeError("no files were written")
        return ("l", [("text", out[i][0], out[i][1]) for i in range(len(out))] + [("n", x[2]) for x in out])


def number(x):
    import numpy as np
    try:
        return np.array([float(x)])
    except ValueError:
        return x


def surroundings():
    """what everything in a process shares"""
    import random
    import signal
    import decimal
    import locale
    import multiprocessing
    import numpy as np
    import pandas as pd
    return {"global generator of numpy": repr(np.random.get_state()), "global generator of Python": hash(random.getstate()), "working directory": os.getcwd(),
            "floating point errors": repr(np.geterr()), "print options of numpy": repr(np.get_printoptions()), "environment": repr(sorted(os.environ.items())),
            "options of pandas": repr([(k, pd.get_option(k)) for k in ("display.max_rows", "display.max_columns", "display.precision", "display.width",
                                                                      "mode.chained_assignment", "display.float_format")]),
            "signals": repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)]), "decimals": repr(decimal.getcontext().prec),
            "language": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "umask": mask(),
            "start method": multiprocessing.get_start_method(allow_none=True), "search path": repr(sys.path), "arguments": repr(sys.argv),
            "files": repr(sorted(os.listdir(".")) if os.getcwd() != "/" else "")}


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def child(out):
    """plays every kind of object and writes their values"""
    how = os.environ.get("C41", "")
    core.boot()
    if how == "directory":
        os.chdir("/")
    elif how.startswith("cpu"):
        import multiprocessing
        n = int(how.split()[1])
        multiprocessing.cpu_count = os.cpu_count = lambda: n
    elif how == "cow":
        import pandas as pd
        pd.options.mode.copy_on_write = True
    with core.quiet(), core.NoRustLeft():
        for m in c39.MODULES:
            core.esat(m)
    got = {}
    for kind in c40.KINDS:
        for v in (0, 1):
            if how == "global":
                import random
                import numpy as np
                random.seed(len(got))
                np.random.seed(len(got) + 5)
                np.random.random(3)
            try:
                with core.quiet(), core.NoRustLeft():
                    w = c40.World()
                before = surroundings()
                got[kind, v] = "ok", c40.play(kind, v, w)
                after = surroundings()
                got[kind, v] += ([(k, x, after[k]) for k, x in before.items() if after[k] != x],)
            except BaseException as e:
                import traceback
                got[kind, v] = "error", "".join(traceback.format_exception(e))[-1500:]
    for kind, write in FILES.items():
        try:
            got[kind, 0] = "ok", written(write)
        except BaseException as e:
            import traceback
            got[kind, 0] = "error", "".join(traceback.format_exception(e))[-1500:]
    with open(out, "wb") as f:
        pickle.dump(got, f)
    os._exit(0)


def play(setting, hash_=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", C41="")
    env.update(SETTINGS.get(setting, {}))
    if hash_ is not None:
        env["PYTHONHASHSEED"] = str(hash_)
    flags = [env["C41"]] if env["C41"].startswith("-O") else []
    with core.scratch() as d:
        out = os.path.join(d, "out.pkl")
        r = subprocess.run([sys.executable, *flags, "-c", f"import sys; sys.path.insert(0, {os.path.dirname(os.path.abspath(__file__))!r}); import c41; c41.child({out!r})"],
                           env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise RuntimeError(f"no results of the process: {r.stdout[-800:]}")
        with open(out, "rb") as f:
            return pickle.load(f)


def without(p):
    """content without the number of processors in use"""
    if isinstance(p, tuple) and p and p[0] == "d":
        return ("d", [(k, without(v)) for k, v in p[1] if k not in ("cores", "cpus")])
    return type(p)(without(x) for x in p) if isinstance(p, (list, tuple)) else p


_want = []


def work(ctx, job):
    setting, hash_ = job
    got = None
    for k, v in [(k, v) for k in c40.KINDS for v in (0, 1)] + [(k, 0) for k in FILES]:
        if not ctx.case(setting, hash_, k, v):
            continue
        if got is None:
            if not _want:
                _want.append(play("hash 0"))
            got = play(setting, hash_)
        ctx.step()
        (ta, a), (tb, b) = _want[0][k, v][:2], got[k, v][:2]
        if tb == "error" or ta == "error":
            ctx.fail(f"{k}: raises in a process with {setting}", b if tb == "error" else a)
            continue
        a, b = without(a), without(b)
        d = c40.differ(a, b)
        ctx.expect(d is None, f"{k}: other results in a process with {setting}{'' if hash_ is None else f', hash seed {hash_}'}", d)
        for what, x, y in got[k, v][2:] and got[k, v][2]:
            ctx.fail(f"{k} changes the {what} of the process", [str(x)[:300], str(y)[:300]])
        ctx.state((setting, hash_, k, v))
        ctx.outcome([k, v])


def run(ctx):
    jobs = [(s, None) for s in SETTINGS]
    if ctx.thorough:
        jobs += [(s, h) for s in SETTINGS if "hash" not in s for h in range(8)]
    core.shards(ctx, work, jobs)
