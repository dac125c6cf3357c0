"""
Shared machinery of the checks: how /repo is imported, how cases are counted, how violations, known findings,
replay files and evidence files are written.  Nothing in here knows a property.
"""
import os
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("TQDM_DISABLE", "1")
import sys
sys.dont_write_bytecode = True
import json
import time
import types
import signal
import shutil
import hashlib
import logging
import tempfile
import traceback
import contextlib
import multiprocessing as _mp
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESAT_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# ---------------------------------------------------------------------------------------------------------------
# importing the code under test
# ---------------------------------------------------------------------------------------------------------------
_REAL_FORK = _mp.get_context("fork")      # kept before any check replaces attributes of multiprocessing


class NoRust:
    """
    The real extension is not installed.  Modules that import clear_screen from it get a stub while they are
    imported; afterwards the stub is taken away again, so that SA finds no extension and runs its Python code.
    """
    def __enter__(self):
        stub = types.ModuleType("esat_rust")
        stub.clear_screen = lambda *a, **k: None
        self.old = sys.modules.get("esat_rust")
        sys.modules["esat_rust"] = stub
        return stub

    def __exit__(self, *a):
        sys.modules.pop("esat_rust", None)
        return False


_boot = False


def boot():
    """Put /repo first on the path and silence logging, warnings and progress bars."""
    global _boot
    if _boot:
        return
    _boot = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def esat(name):
    """Import a module of esat (or esat_eval) with the stub in place."""
    import importlib
    boot()
    if name.startswith("esat_eval") and "esat_eval" not in sys.modules:
        # the package esat_eval is the directory eval
        import importlib.util
        path = os.path.join(REPO, "eval")
        spec = importlib.util.spec_from_file_location("esat_eval", os.path.join(path, "__init__.py"),
                                                      submodule_search_locations=[path])
        mod = importlib.util.module_from_spec(spec)
        sys.modules["esat_eval"] = mod
        spec.loader.exec_module(mod)
    with NoRust():
        m = importlib.import_module(name)
    f = os.path.abspath(m.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"{name} was imported from {f}, not from {REPO}")
    return m


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="esat-mc-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------
# cases, violations, evidence
# ---------------------------------------------------------------------------------------------------------------
def _plain(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return _plain(o.tolist())
    if isinstance(o, np.generic):
        return _plain(o.item())
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted((_plain(v) for v in o), key=repr)
    if o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)


class Undecided(Exception):
    """the check cannot be run on this tree; says nothing about the property"""


class Stop(Exception):
    """enough violations were found"""


class Hang(BaseException):
    """a case did not end within CASE_LIMIT seconds (cases take far below a second up to a few seconds)"""


CASE_LIMIT = int(os.environ.get("CASE_LIMIT", "150"))


def _on_alarm(signum, frame):
    raise Hang()


class Ctx:
    MAX_FAIL = 5

    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.replay = replay                      # a case key, or None
        self.t0 = time.time()
        self.evaluations = 0
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.known_hits = []
        self.notes = []
        self.traces = 0
        self.current = None
        self.known = self._read_known()

    # -- enumeration -------------------------------------------------------------------------------------------
    def case(self, *key):
        """Announce a case; False when a replay is looking for another one."""
        key = _plain(list(key))
        if self.replay is not None and key != self.replay:
            return False
        self.current = key
        self.evaluations += 1
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CASE_LIMIT)
        if len(self.samples) < 3 or (self.evaluations in (10, 100, 1000, 10000)):
            self.samples.append(key)
        return True

    def alive(self):
        """a long case got on: its time limit starts anew"""
        signal.alarm(CASE_LIMIT)

    def state(self, s):
        """Record a reached state (any hashable or plain value)."""
        h = hashlib.blake2b(repr(s).encode(), digest_size=12).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes.add(hashlib.blake2b(repr(_plain(o)).encode(), digest_size=12).digest())

    # -- verdicts ----------------------------------------------------------------------------------------------
    def _read_known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("known: property=" + self.prop + " "):
                    rest = line.split(" ", 2)[2]
                    tag, text = rest.split(" ", 1)
                    out.append((tag.split("=", 1)[1], text))
        return out

    def fail(self, message, detail=None, tag=None):
        key = self.current
        for ktag, text in self.known:
            if tag is not None and ktag == tag:
                if tag not in self.known_hits:
                    self.known_hits.append(tag)
                return
        self.fails.append({"property": self.prop, "key": key, "message": message, "detail": _plain(detail),
                           "tier": self.tier, "seed": self.seed})
        if len(self.fails) >= self.MAX_FAIL:
            raise Stop()

    def expect(self, cond, message, detail=None, tag=None):
        if not cond:
            self.fail(message, detail() if callable(detail) else detail, tag)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, what):
        """The code under test must not raise here."""
        try:
            yield
        except Stop:
            raise
        except MemoryError:
            raise
        except (Exception, SystemExit, Hang) as e:
            self.crash(e, what)
            if isinstance(e, Hang):
                raise Stop()

    def crash(self, e, what="this case"):
        """
        An exception while a case runs.  On the unchanged tree no case raises, so whether it comes out of the code
        under test or out of the comparison of what it returned, the behaviour differs from the specified one.
        """
        if isinstance(e, MemoryError) or self.current is None:
            raise e
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-5:]
        msg = f"{what} did not end within {CASE_LIMIT} s" if isinstance(e, Hang) else \
            f"{what} raised {type(e).__name__}: {str(e)[:300]}"
        self.fail(msg, {"where": where})

    # -- results -----------------------------------------------------------------------------------------------
    def evidence(self, spec):
        level = spec["level"]
        cov = {"samples": self.samples[:8] or ["no case"]}
        if level == "model_checking":
            cov.update(states=len(self.states), transitions=self.transitions,
                       traces_validated_against_impl=self.evaluations)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.states), rule=spec["rule"])
        cov["distinct_outcomes"] = len(self.outcomes)
        cov["bounds"] = spec["bounds"][self.tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
        cov["exhaustive"] = self.replay is None and not self.fails
        if self.notes:
            cov["notes"] = self.notes[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.fails)}
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(_plain(ev), f, indent=1)
        os.replace(path + ".tmp", path)
        return ev


def shards(ctx, fn, items, workers=None):
    """
    Run fn(sub_ctx, item) for every item in forked workers and merge what they covered and found into ctx.
    The result does not depend on the number of workers.
    """
    items = list(items)
    signal.alarm(0)
    workers = min(workers or min(8, os.cpu_count() or 1), max(1, len(items)))
    if workers == 1 or len(items) == 1:
        for it in items:
            fn(ctx, it)
        return

    def work(w, conn):
        sub = Ctx(ctx.prop, ctx.tier, ctx.seed, ctx.replay)
        err = None
        try:
            for it in items[w::workers]:
                fn(sub, it)
        except Stop:
            pass
        except (Exception, SystemExit, Hang) as e:
            try:
                sub.crash(e)
            except Stop:
                pass
            except Exception:
                err = "".join(traceback.format_exception(e))[-3000:]
        except BaseException as e:
            err = "".join(traceback.format_exception(e))[-3000:]
        conn.send((sub.evaluations, sub.states, sub.transitions, sub.outcomes, sub.samples, sub.fails,
                   sub.known_hits, sub.notes, sub.traces, err))
        conn.close()
        os._exit(0)

    procs = []
    sys.stdout.flush()
    for w in range(workers):
        a, b = _REAL_FORK.Pipe(duplex=False)
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                work(w, b)
            finally:
                os._exit(3)
        b.close()
        procs.append((pid, a))
    errs = []
    for pid, a in procs:
        try:
            ev, st, tr, oc, sa, fa, kh, no, tc, err = a.recv()
        except EOFError:
            errs.append("a worker of the check died")
            os.waitpid(pid, 0)
            continue
        os.waitpid(pid, 0)
        ctx.evaluations += ev
        ctx.states |= st
        ctx.transitions += tr
        ctx.outcomes |= oc
        ctx.samples += sa[:2]
        ctx.fails += fa
        for k in kh:
            if k not in ctx.known_hits:
                ctx.known_hits.append(k)
        ctx.notes += no
        ctx.traces += tc
        if err:
            errs.append(err)
    if errs:
        raise RuntimeError("worker failed: " + errs[0])
    if len(ctx.fails) >= ctx.MAX_FAIL:
        raise Stop()


@contextlib.contextmanager
def NoRustLeft():
    """makes sure no stub of the extension is visible while a model is created"""
    sys.modules.pop("esat_rust", None)
    yield
