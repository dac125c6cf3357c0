"""C38: the command line does, for every project history, what the library does with the values of its configuration files."""
import configparser
import contextlib
import io
import json
import os
import pickle
import re
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

import core, lib, sched

PROPERTY = {
    "title": "The commands do what the library does with the configured values",
    "statement": "For every history of commands on a project (setup, simulator, run, error estimation, constrained model, analysis), every command has the effect of the library call it stands for, made with the values of the configuration files and the options given: the saved models, error estimations, constrained models and synthetic datasets are those that the library computes and saves for these values, models are trained on and compared with the data that the project names or generated, analysis commands show what the library shows for the selected model, factor and feature and write nothing, a command changes no file but its own results, a relative project directory works like an absolute one, and a command without the results it needs shows nothing and leaves the project as it is.",
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "all sequences of commands over real and simulated projects and configurations, all options of the analysis commands in every state"},
    "why_tests_cant": "The tests run one fixed sequence with one configuration and look at the exit code and whether a file exists.",
    "anchors": {"files": ["esat/cli/esat_cli.py", "esat/configs.py"],
                "mechanism": [{"name": "commands", "where": "esat_cli"},
                              {"name": "get_dh, get_sim, get_config, get_batchsa, get_error_model, get_constrained_model", "where": "esat_cli.py"}],
                "observe_at": ["files of the project", "figures shown, messages logged"]},
}
SPEC = {"level": "model_checking",
        "bounds": {"quick": "breadth-first over all histories of up to 4 commands from an empty project (2 real and 2 simulated configurations, generate, run, compare) by absolute and relative directory, and of up to 3 commands from every trained project (2 error configurations, 3 methods alone and together, 2 constrained configurations), and from every project with a constrained model; all analysis commands with all options for every artefact that occurs, and without those that are missing",
                   "thorough": "one command more"},
        "assumptions": ["every command runs in a new process (the modules of the command line are loaded anew)", "pools are sequential stand-ins", "a project is either real or simulated; the configuration is edited after its setup and before it is used"]}

NOTES = "notes.txt"
DATE = re.compile(r"\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d(\.\d+)?)?|\d\d/\d\d/\d{4}, \d\d:\d\d:\d\d")
FOLDER = re.compile(re.escape(tempfile.gettempdir()) + r"/[^\s\"']*/")
SKIP = {"time_steps", "runtime", "pbar", "index_col", "input_path", "uncertainty_path"}


# --------------------------------------------------------------------------------------------------------------
# contents of a project in a comparable form
# --------------------------------------------------------------------------------------------------------------
def plain(text):
    """without dates and folders"""
    return FOLDER.sub("", DATE.sub("<date>", text))


def canon(o, skip=SKIP, depth=0):
    if depth > 12:
        return "..."
    if o is None or isinstance(o, (bool, int, str)):
        return plain(o) if isinstance(o, str) else o
    if isinstance(o, float):
        return repr(o)
    if isinstance(o, np.generic):
        return canon(o.item(), skip, depth)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("array", o.shape, tuple(canon(v, skip, depth + 1) for v in o.ravel()))
        if o.dtype.kind == "M":
            return ("dates", o.shape)
        return ("array", o.shape, np.ascontiguousarray(o, dtype=float).tobytes()) if o.dtype.kind in "fiub" else ("array", o.shape, str(o.tolist()))
    if isinstance(o, pd.DatetimeIndex):
        return ("dates", len(o))
    if isinstance(o, (pd.Index, pd.Series)):
        return (type(o).__name__, canon(o.to_numpy(), skip, depth + 1))
    if isinstance(o, pd.DataFrame):
        return ("frame", tuple(map(str, o.columns)), canon(o.index, skip, depth + 1),
                tuple(canon(o[c].to_numpy(), skip, depth + 1) for c in o.columns) if o.columns.is_unique else canon(o.to_numpy(), skip, depth + 1))
    if isinstance(o, dict):
        return ("dict", tuple((canon(k, skip, depth + 1), canon(v, skip, depth + 1)) for k, v in o.items() if k not in skip))
    if isinstance(o, (list, tuple)):
        return ("list", tuple(canon(v, skip, depth + 1) for v in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(map(str, o))))
    if isinstance(o, np.random.Generator):
        return ("rng", str(o.bit_generator.state))
    if isinstance(o, os.PathLike):
        return os.path.basename(str(o))
    if hasattr(o, "__dict__") and not callable(o):
        return (type(o).__name__, canon(dict(o.__dict__), skip, depth + 1))
    return type(o).__name__


def read(directory):
    """relative path -> content, of every file of a directory"""
    out = {}
    for base, _, files in os.walk(directory):
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out[os.path.relpath(os.path.join(base, f), directory)] = h.read()
    return out


_memo = {}


def content(name, data):
    """comparable content of a file"""
    k = (name, hash(data), len(data))
    if k not in _memo:
        if name.endswith(".pkl"):
            _memo[k] = canon(pickle.loads(data))
        elif name.endswith(".toml"):
            c = configparser.ConfigParser()
            c.read_string(data.decode())
            _memo[k] = {s: dict(c[s]) for s in c.sections()}
        elif name.endswith(".json"):
            _memo[k] = canon(json.loads(data))
        else:
            _memo[k] = plain(data.decode())
    return _memo[k]


def write(directory, files):
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    for name, data in files.items():
        p = os.path.join(directory, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(data)


# --------------------------------------------------------------------------------------------------------------
# running commands
# --------------------------------------------------------------------------------------------------------------
def command(*args):
    """run a command as in a new process; (exit code, exception, figures, messages)"""
    from click.testing import CliRunner
    core.esat("esat_eval.simulator")
    for m in ("esat.cli.esat_cli", "esat.configs"):
        sys.modules.pop(m, None)
    cli = core.esat("esat.cli.esat_cli")
    with sched.controlled(), lib.shown() as figs, lib.logged() as log, core.quiet():
        r = CliRunner().invoke(cli.esat_cli, list(args))
    return r.exit_code, r.exception, figs, log


@contextlib.contextmanager
def library():
    with sched.controlled(), lib.shown() as figs, lib.logged() as log, core.quiet():
        yield figs, log


def figures(figs):
    return [canon(f.to_plotly_json(), skip=set()) for f in figs]


def edit(path, values):
    c = configparser.ConfigParser()
    c.read(path)
    for section, kv in values.items():
        if kv is None:
            continue
        if section in ("constraints", "expressions", "contributions"):
            c[section] = kv
        else:
            for k, v in kv.items():
                c[section][k] = v
    with open(path, "w") as f:
        c.write(f)


# --------------------------------------------------------------------------------------------------------------
# configurations: the text a user writes and the values it stands for
# --------------------------------------------------------------------------------------------------------------
def data_files(root):
    rng = np.random.default_rng(11)
    for name, m, cols in (("a", 10, ["x", "y", "z"]), ("b", 9, ["p", "q", "r", "s"])):
        W, H = rng.random((m, 2)) + 0.2, rng.random((2, len(cols))) + 0.2
        V = np.round(W @ H + 0.05 * rng.random((m, len(cols))), 4)
        idx = pd.date_range("2022-04-01", periods=m, name="Date")
        df = pd.DataFrame(V, columns=cols, index=idx)
        un = pd.DataFrame(np.round(0.1 * V + 0.02, 4), columns=cols, index=idx)
        if name == "b":                     # the index is not the first column; a column with the location
            df, un = (x.reset_index().assign(Site=[1 + i % 2 for i in range(m)])[["p", "Date", "q", "Site", "r", "s"]] for x in (df, un))
            df.to_csv(f"{root}/{name}-con.csv", index=False)
            un.to_csv(f"{root}/{name}-unc.csv", index=False)
        else:
            df.to_csv(f"{root}/{name}-con.csv")
            un.to_csv(f"{root}/{name}-unc.csv")


def run_text(kind, root):
    if kind == "A":
        return {"project": {"name": "pa"},
                "data": {"input_path": f"{root}/a-con.csv", "uncertainty_path": f"{root}/a-unc.csv"},
                "parameters": {"factors": "2", "models": "2", "max_iter": "12", "converge_n": "5", "parallel": "False", "init_norm": "False"},
                "estimator": {"samples": "4", "min_k": "1", "max_k": "2"}}
    if kind == "B":
        return {"project": {"name": "pb"},
                "data": {"input_path": f"{root}/b-con.csv", "uncertainty_path": f"{root}/b-unc.csv", "index_col": "Date", "loc_cols": "Site"},
                "parameters": {"factors": "3", "models": "3", "max_iter": "9", "converge_delta": "0.5", "converge_n": "4", "seed": "7",
                               "method": "ls-nmf", "parallel": "True", "verbose": "True", "hold_h": "False", "delay_h": "-1", "best_robust": "False"},
                "estimator": {"samples": "5", "min_k": "1", "max_k": "3"}}
    return {"project": {"name": "ps"},
            "parameters": {"factors": "2", "models": "2", "max_iter": "10", "seed": "3", "parallel": "True"},
            "estimator": {"samples": "4", "min_k": "1", "max_k": "2"}}


# the values of the templates that are not edited
BASE = dict(factors=-1, method="ls-nmf", models=20, init_method="col_means", init_norm=True, seed=42, max_iter=20000,
            converge_delta=0.0001, converge_n=50, verbose=False, parallel=True)
BATCH = {"A": dict(BASE, factors=2, models=2, max_iter=12, converge_n=5, parallel=False, init_norm=False),
         "B": dict(BASE, factors=3, models=3, max_iter=9, converge_delta=0.5, converge_n=4, seed=7, verbose=True, hold_h=False, delay_h=-1, best_robust=False),
         "S": dict(BASE, factors=2, models=2, max_iter=10, seed=3)}
NAME = {"A": "pa", "B": "pb", "S": "ps"}
ESTIMATE = {"A": (4, 1, 2), "B": (5, 1, 3), "S": (4, 1, 2)}

SIM_TEXT = {"1": {"parameters": {"seed": "5", "factors_n": "2", "features_n": "3", "samples_n": "12"},
                  "contributions": {"0": '{"curve_type":"logistic","scale": 0.1,"frequency":0.5}', "1": '{"curve_type":"periodic","minimum": 0.1,"maximum": 0.9,"frequency": 0.5,"scale":0.1}'}},
            "2": {"parameters": {"seed": "8", "factors_n": "2", "features_n": "4", "samples_n": "10", "outliers": "False", "contribution_max": "4",
                                 "noise_mean_min": "0.01", "noise_mean_max": "0.02", "noise_scale": "0.01",
                                 "uncertainty_mean_min": "0.07", "uncertainty_mean_max": "0.09", "uncertainty_scale": "0.02"},
                  "contributions": {"1": '{"curve_type":"increasing","minimum": 0.2,"maximum": 0.8,"scale":0.05}'}}}
SIM = {"1": (dict(seed=5, factors_n=2, features_n=3, samples_n=12, outliers=True, outlier_p=0.1, outlier_mag=2, contribution_max=10,
                  noise_mean_min=0.03, noise_mean_max=0.05, noise_scale=0.02, uncertainty_mean_min=0.04, uncertainty_mean_max=0.06,
                  uncertainty_scale=0.01),
             [dict(factor_i=0, curve_type="logistic", scale=0.1, frequency=0.5),
              dict(factor_i=1, curve_type="periodic", minimum=0.1, maximum=0.9, frequency=0.5, scale=0.1)]),
       "2": (dict(seed=8, factors_n=2, features_n=4, samples_n=10, outliers=False, outlier_p=0.1, outlier_mag=2, contribution_max=4,
                  noise_mean_min=0.01, noise_mean_max=0.02, noise_scale=0.01, uncertainty_mean_min=0.07, uncertainty_mean_max=0.09,
                  uncertainty_scale=0.02),
             [dict(factor_i=1, curve_type="increasing", minimum=0.2, maximum=0.8, scale=0.05)])}

ERROR_TEXT = {"1": {"project": {"selected_model": "0"}, "disp": {"features": "[1]"},
                    "bs": {"bootstrap_n": "2", "block_size": "3", "threshold": "0.5", "seed": "9"},
                    "bsdisp": {"bootstrap_n": "2", "block_size": "2", "threshold": "0.4", "seed": "4", "threshold_dQ": "0.2",
                               "max_search": "30", "features": "[0, 2]"}},
              "2": {"project": {"constrained_config": "yes"},
                    "bs": {"bootstrap_n": "3"},
                    "bsdisp": {"bootstrap_n": "2", "features": "[1]"}}}
ERROR = {"1": dict(selected=0, disp=[1], bs=(2, 3, 0.5, 9), bsdisp=(2, 2, 0.4, 4, 0.2, 30, [0, 2])),
         "2": dict(selected="constrained", disp=None, bs=(3, None, 0.6, None), bsdisp=(2, None, 0.6, None, 0.1, 50, [1]))}

CON_TEXT = {"1": {"parameters": {"selected_model": "1", "softness": "0.5", "converge_delta": "0.01", "converge_n": "3", "max_iter": "8"},
                  "constraints": {"constraint1": '{"constraint_type":"set to zero","index":[0,1],"target":"feature"}',
                                  "constraint2": '{"constraint_type":"define limits","index":[-1,-1],"target":"feature","min_value":0,"max_value":1}',
                                  "constraint3": '{"constraint_type":"pull up","index":[1,2],"target":"feature","dQ":50}',
                                  "constraint4": '{"constraint_type":"pull to value","index":[3,0],"target":"sample","target_value":0.7,"dQ":30}'},
                  "expressions": None},
            "2": {"parameters": {"converge_n": "-1", "converge_delta": "-1"},
                  "constraints": None,
                  "expressions": {"expression1": "[factor:0|feature:1]-(2.0*[factor:0|feature:0])=0,250",
                                  "expression2": "(0.35*[factor:-1|feature:-1])-(2.0*[factor:-1|feature:-1])=0,250",
                                  "expression3": "[factor:1|sample:1]-(0.5*[factor:1|sample:2])=0,100"}}}
CON = {"1": dict(selected=1, softness=0.5, max_iter=8, converge_delta=0.01, converge_n=3,
                 constraints=[dict(constraint_type="set to zero", index=(0, 1), target="feature"),
                              dict(constraint_type="pull up", index=(1, 2), target="feature", dQ=50),
                              dict(constraint_type="pull to value", index=(3, 0), target="sample", target_value=0.7, dQ=30)], expressions=[]),
       "2": dict(selected=None, softness=1.0, max_iter=None, converge_delta=None, converge_n=None, constraints=[],
                 expressions=["[factor:0|feature:1]-(2.0*[factor:0|feature:0])=0,250", "[factor:1|sample:1]-(0.5*[factor:1|sample:2])=0,100"])}


# --------------------------------------------------------------------------------------------------------------
# the reference: what the library computes for these values
# --------------------------------------------------------------------------------------------------------------
class Reference:
    """objects and files of the library, by what they are made from"""

    def __init__(self, root):
        self.root, self.memo = root, {}
        self.DH = core.esat("esat.data.datahandler").DataHandler
        self.BatchSA = core.esat("esat.model.batch_sa").BatchSA
        self.Sim = core.esat("esat_eval.simulator").Simulator

    def get(self, key, make):
        if key not in self.memo:
            with library(), core.scratch() as out:
                self.memo[key] = (pickle.dumps(make(out)), read(out))
        obj, files = self.memo[key]
        return pickle.loads(obj), files

    def sim(self, kind):
        def make(out):
            par, contributions = SIM[kind]
            s = self.Sim(**par)
            for c in contributions:
                s.update_contribution(**c)
            s.get_data()
            s.save(output_directory=out)
            return s
        return self.get(("sim", kind), make)

    def handler(self, src, saved=False):
        """src: ("real", A or B) or ("sim", kind); saved: of the saved files of the synthetic data"""
        if src[0] == "real":
            a = src[1].lower()
            with library():
                dh = self.DH(f"{self.root}/{a}-con.csv", f"{self.root}/{a}-unc.csv", index_col="Date", loc_cols="Site" if a == "b" else None)
        elif saved:
            s, files = self.sim(src[1])
            with core.scratch() as out:
                write(out, files)
                with library():
                    dh = self.DH(os.path.join(out, "synthetic_data.csv"), os.path.join(out, "synthetic_uncertainty.csv"), index_col="Date")
        else:
            s, _ = self.sim(src[1])
            with library():
                dh = self.DH.load_dataframe(s.syn_data_df, s.syn_uncertainty_df)
        with library():
            dh.get_data()
        return dh

    def batch(self, cfg, src):
        def make(out):
            dh = self.handler(src)
            V, U = dh.get_data()
            b = self.BatchSA(V=V, U=U, **BATCH[cfg])
            b.train()
            b.save(batch_name=NAME[cfg], output_directory=out, pickle_batch=True)
            b.save(batch_name=NAME[cfg], output_directory=out, pickle_batch=False, pickle_model=False, header=dh.features)
            return b
        return self.get(("batch", cfg, src), make)

    def compared(self, kind, cfg, src):
        def make(out):
            s, _ = self.sim(kind)
            b, _ = self.batch(cfg, src)
            s.compare(batch_sa=b)
            s.save(output_directory=out)
            return s
        return self.get(("compare", kind, cfg, src), make)

    def constrained(self, con, cfg, src):
        def make(out):
            C = core.esat("esat.rotational.constrained").ConstrainedModel
            b, _ = self.batch(cfg, src)
            p = CON[con]
            i = b.best_model if p["selected"] is None else p["selected"]
            m = C(base_model=b.results[i], data_handler=self.handler(src, saved=True), softness=p["softness"])
            for c in p["constraints"]:
                m.add_constraint(**c)
            for e in p["expressions"]:
                m.add_expression(e)
            m.train(max_iterations=p["max_iter"] or BATCH[cfg]["max_iter"],
                    converge_delta=p["converge_delta"] or BATCH[cfg]["converge_delta"],
                    converge_n=p["converge_n"] or BATCH[cfg]["converge_n"])
            m.save(model_name=NAME[cfg], output_directory=out, pickle_model=True)
            m.save(model_name=NAME[cfg], output_directory=out, pickle_model=False)
            return m
        return self.get(("constrained", con, cfg, src), make)

    def base(self, err, cfg, src, con):
        """model of an error estimation and its number"""
        if ERROR[err]["selected"] == "constrained":
            return self.constrained(con, cfg, src)[0].constrained_model, -1
        i = ERROR[err]["selected"]
        return self.batch(cfg, src)[0].results[i], i

    def disp(self, err, cfg, src, con):
        def make(out):
            D = core.esat("esat.error.displacement").Displacement
            sa, i = self.base(err, cfg, src, con)
            d = D(sa=sa, feature_labels=self.handler(src).features, model_selected=i, features=ERROR[err]["disp"])
            d.run()
            d.save(disp_name="disp-" + NAME[cfg], output_directory=out, pickle_result=True)
            d.save(disp_name="disp-" + NAME[cfg], output_directory=out, pickle_result=False)
            return d
        return self.get(("disp", err, cfg, src, con if ERROR[err]["selected"] == "constrained" else None), make)

    def bs(self, err, cfg, src, con):
        def make(out):
            B = core.esat("esat.error.bootstrap").Bootstrap
            sa, i = self.base(err, cfg, src, con)
            dh = self.handler(src, saved=True)
            n, block, threshold, seed = ERROR[err]["bs"]
            b = B(sa=sa, feature_labels=dh.features, model_selected=i, bootstrap_n=n, block_size=dh.optimal_block if block is None else block,
                  threshold=threshold, seed=sa.seed if seed is None else seed)
            b.run()
            b.save(bs_name="bs-" + NAME[cfg], output_directory=out, pickle_result=True)
            b.save(bs_name="bs-" + NAME[cfg], output_directory=out, pickle_result=False)
            return b
        return self.get(("bs", err, cfg, src, con if ERROR[err]["selected"] == "constrained" else None), make)

    def bsdisp(self, err, cfg, src, con, boot):
        """boot: key of the bootstrap to use (err, cfg, src, con), or None"""
        def make(out):
            X = core.esat("esat.error.bs_disp").BSDISP
            sa, i = self.base(err, cfg, src, con)
            dh = self.handler(src, saved=True)
            n, block, threshold, seed, tdq, search, features = ERROR[err]["bsdisp"]
            x = X(sa=sa, feature_labels=dh.features, model_selected=i, bootstrap=None if boot is None else self.bs(*boot)[0], bootstrap_n=n,
                  block_size=dh.optimal_block if block is None else block, threshold=threshold, seed=sa.seed if seed is None else seed,
                  features=features, max_search=search, threshold_dQ=tdq)
            x.run(parallel=BATCH[cfg]["parallel"])
            x.save(bsdisp_name="bsdisp-" + NAME[cfg], output_directory=out, pickle_result=True)
            x.save(bsdisp_name="bsdisp-" + NAME[cfg], output_directory=out, pickle_result=False)
            return x
        return self.get(("bsdisp", err, cfg, src, con if ERROR[err]["selected"] == "constrained" else None, boot), make)


# --------------------------------------------------------------------------------------------------------------
# the model of a project: which artefacts it has and what they are made from
# --------------------------------------------------------------------------------------------------------------
# state: dict with cfg, sim (configuration), gen (data generated from), comp, batch {name: (cfg, src)},
#        err, con (configurations), constrained {name: key}, disp/bs/bsdisp {name: key}
EMPTY = dict(cfg=None, sim=None, gen=None, comp=None, batch={}, err=None, con=None, constrained={}, disp={}, bs={}, bsdisp={})


def frozen(s):
    return tuple((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in sorted(s.items()))


def applicable(s, op):
    if op in ("setup A", "setup B"):
        return s["sim"] is None
    if op in ("generate", "compare"):
        return s["sim"] is not None
    if op.startswith("error ") or op.startswith("constrain "):
        return s["cfg"] is not None
    if op == "run":
        return s["cfg"] is not None
    if op.startswith("est "):
        return s["cfg"] is not None and s["err"] is not None
    if op == "runc":
        return s["cfg"] is not None and s["con"] is not None
    return True


def source(s):
    """data that the models of the project are trained on; generated when needed"""
    if s["sim"] is not None:
        return ("sim", s["gen"] or s["sim"])
    return ("real", s["cfg"])


def next_state(s, op):
    """(state after the command, did it succeed)"""
    s = {k: dict(v) if isinstance(v, dict) else v for k, v in s.items()}
    if op in ("setup A", "setup B"):
        s["cfg"] = op[-1]
    elif op in ("sim 1", "sim 2"):
        s["cfg"], s["sim"] = "S", op[-1]
    elif op == "generate":
        s["gen"], s["comp"] = s["sim"], None
    elif op == "run":
        src = source(s)
        if s["sim"] is not None:
            if s["gen"] is None:
                s["comp"] = None
            s["gen"] = src[1]
        s["batch"][NAME[s["cfg"]]] = (s["cfg"], src)
    elif op == "compare":
        b = s["batch"].get(NAME["S"])
        if s["gen"] is None:
            s["gen"], s["comp"] = s["sim"], None
        if b is None:
            return s, False
        if b[1] != ("sim", s["gen"]):
            return None, None            # models of other data: nothing specified
        s["comp"] = b
    elif op.startswith("error "):
        s["err"] = op[-1]
    elif op.startswith("constrain "):
        s["con"] = op[-1]
    elif op == "runc":
        n = NAME[s["cfg"]]
        if n not in s["batch"]:
            return s, False
        cfg, src = s["batch"][n]
        if src != source(s) or (src[0] == "sim" and s["gen"] is None):
            return None, None
        s["constrained"][n] = (s["con"], cfg, src)
    elif op.startswith("est "):
        n = NAME[s["cfg"]]
        if n not in s["batch"]:
            return s, False
        cfg, src = s["batch"][n]
        if src != source(s):
            return None, None
        con = s["constrained"].get(n)
        if ERROR[s["err"]]["selected"] == "constrained":
            if con is None:
                return s, False
            if con[1:] != (cfg, src):
                return None, None
        key = (s["err"], cfg, src, con[0] if con and ERROR[s["err"]]["selected"] == "constrained" else None)
        what = op.split()[1:]
        for w in ("disp", "bs"):
            if w in what:
                s[w][n] = key
        if "bsdisp" in what:
            boot = None
            if s["err"] == "2":                  # names the saved bootstrap
                boot = s["bs"].get(n)
            elif "bs" in what:
                boot = key
            s["bsdisp"][n] = key + (boot,)
    return s, True


def args_of(s, op, proj):
    if op in ("setup A", "setup B"):
        return ["setup", proj]
    if op.startswith("sim "):
        return ["simulator", "setup", proj]
    if op in ("generate", "compare"):
        return ["simulator", op, proj]
    if op == "run":
        return ["run", proj]
    if op.startswith("error "):
        return ["setup-error", proj]
    if op.startswith("constrain "):
        return ["setup-constrained", proj]
    if op == "runc":
        return ["run-constrained", proj]
    return ["run-error"] + ["--" + w for w in op.split()[1:]] + [proj]


def templates():
    sys.modules.pop("esat.configs", None)
    c = core.esat("esat.configs")
    return {k: {s: dict(getattr(c, k)[s]) for s in getattr(c, k).sections()} for k in ("run_config", "sim_config", "error_config", "constrained_config")}


def output_of(name):
    """folder of the batches: the configuration of project B names another one"""
    return "results/output" if name == NAME["B"] else "output"


def expected(ref, s, proj):
    """name -> comparable content, of the artefacts of a project (configuration files apart)"""
    out = {}

    def put(prefix, files):
        for k, v in files.items():
            out[os.path.join(prefix, k)] = content(k, v)

    if s["gen"] is not None:
        put("", (ref.compared(s["gen"], *s["comp"]) if s["comp"] else ref.sim(s["gen"]))[1])
    for n, k in s["batch"].items():
        put(output_of(n), ref.batch(*k)[1])
    for n, k in s["constrained"].items():
        put("constrained", ref.constrained(*k)[1])
    for n, k in s["disp"].items():
        put("error", ref.disp(*k)[1])
    for n, k in s["bs"].items():
        put("error", ref.bs(*k)[1])
    for n, k in s["bsdisp"].items():
        put("error", ref.bsdisp(*k)[1])
    return out


def actual(files):
    return {k: content(os.path.basename(k), v) for k, v in files.items() if not k.endswith((".toml", NOTES))}


def different(a, b):
    """names whose content differs"""
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or a[k] != b[k])


# --------------------------------------------------------------------------------------------------------------
# analysis commands
# --------------------------------------------------------------------------------------------------------------
def views(ref, s, proj):
    """(arguments, function of the library that shows the same or None when nothing can be shown, also messages?)"""
    n = NAME.get(s["cfg"])
    if s["cfg"] is None:
        return []
    src = source(s)
    present = tuple(sorted((k, bool(v)) if not isinstance(v, dict) else (k, n in v) for k, v in s.items()))

    class Views(list):
        group = None

        def append(self, v):
            list.append(self, (*v, (s["cfg"], self.group if v[1] else present)))
    out = Views()
    out.group = ("input", src)
    have = src[0] == "real" or s["gen"] is not None
    if have:
        if src[0] == "real":
            a0 = src[1].lower()
            con_unc = [f"{ref.root}/{a0}-con.csv", f"{ref.root}/{a0}-unc.csv"]
        else:
            con_unc = [os.path.join(proj, "synthetic_data.csv"), os.path.join(proj, "synthetic_uncertainty.csv")]

        def mk():
            dh = ref.DH(*con_unc, index_col="Date", loc_cols="Site" if src == ("real", "B") else None)
            dh.get_data()
            return dh
        k = len(ref.handler(src).features)
        out.append((["analysis-input", "metrics"], lambda log: log.append(str(mk().metrics))))
        for f in range(k):
            out.append((["analysis-input", "plot-feature", "-i", str(f)], lambda log, f=f: mk().plot_data_uncertainty(feature_idx=f)))
            out.append((["analysis-input", "plot-timeseries", "-i", str(f)], lambda log, f=f: mk().plot_feature_timeseries([f])))
            g = (f + 1) % k
            out.append((["analysis-input", "plot-data", "-x", str(f), "-y", str(g)], lambda log, f=f, g=g: mk().plot_feature_data(f, g)))
        out.append((["analysis-input", "plot-feature"], lambda log: mk().plot_data_uncertainty(feature_idx=0)))
        out.append((["analysis-input", "plot-timeseries"], lambda log: mk().plot_feature_timeseries([0])))
        out.append((["analysis-input", "plot-data"], lambda log: mk().plot_feature_data(0, 1)))

        def estimate(log):
            V, U = (mk() if src[0] == "real" else ref.handler(src)).get_data()
            E = core.esat("esat.estimator").FactorEstimator
            a, b, c = ESTIMATE[s["cfg"]]
            log.append(str(E(V=V, U=U).run(samples=a, min_factors=b, max_factors=c)))
        out.append((["estimate"], estimate))
    else:
        out.append((["analysis-input", "metrics"], None))
        out.append((["analysis-input", "plot-feature"], None))
    A = core.esat("esat.data.analysis")
    path = os.path.join(proj, output_of(n), f"{n}.pkl")
    if n in s["batch"] and have and s["batch"][n][1] == src:
        cfg = s["cfg"]
        out.group = ("solution", s["batch"][n])
        batch = lambda: ref.BatchSA.load(path)
        out.append((["analysis-batch", "plot-loss"], lambda log: A.BatchAnalysis(batch_sa=batch()).plot_loss()))
        out.append((["analysis-batch", "plot-distribution"], lambda log: A.BatchAnalysis(batch_sa=batch()).plot_loss_distribution()))

        def ma(sel):
            b = batch()
            i = b.best_model if sel is None else sel
            return A.ModelAnalysis(datahandler=mk(), model=b.results[i], selected_model=i)

        def add(args, call):
            for sel in [None] + list(range(BATCH[cfg]["models"])):
                opt = [] if sel is None else ["-m", str(sel)]
                out.append((["analysis-solution"] + args[:1] + opt + args[1:], lambda log, sel=sel: call(ma(sel), log)))

        def statistics(m, log):
            m.calculate_statistics()
            log.append(str(m.statistics))
        add(["statistics"], statistics)
        add(["plot-fingerprints"], lambda m, log: m.plot_factor_fingerprints())
        add(["plot-composition"], lambda m, log: m.plot_factor_composition())
        for f in [None] + list(range(k)):
            o, v = ([], 0) if f is None else (["-i", str(f)], f)
            add(["plot-residuals"] + o, lambda m, log, v=v: m.plot_residual_histogram(feature_idx=v))
            add(["plot-estimated"] + o, lambda m, log, v=v: m.plot_estimated_observed(feature_idx=v))
            add(["plot-timeseries"] + o, lambda m, log, v=v: m.plot_estimated_timeseries(feature_idx=v))
            add(["plot-contributions"] + o, lambda m, log, v=v: m.plot_factor_contributions(feature_idx=v))
        q = BATCH[cfg]["factors"]
        for f in [None] + list(range(1, q + 1)):
            o, v = ([], 1) if f is None else (["-i", str(f)], f)
            add(["plot-profile"] + o, lambda m, log, v=v: m.plot_factor_profile(factor_idx=v))
            add(["plot-surface"] + o, lambda m, log, v=v: m.plot_factor_surface(factor_idx=v))
        add(["plot-surface", "-i", "-1", "-f", "1"], lambda m, log: m.plot_factor_surface(factor_idx=None, feature_idx=2))
        add(["plot-gspace"], lambda m, log: m.plot_g_space(1, 2))
        add(["plot-gspace", "-x", "2", "-y", "1"], lambda m, log: m.plot_g_space(2, 1))
        if q == 3:
            add(["plot-gspace", "-x", "3"], lambda m, log: m.plot_g_space(3, 2))
            add(["plot-gspace", "-y", "3"], lambda m, log: m.plot_g_space(1, 3))
    elif n not in s["batch"]:
        for a in (["analysis-batch", "plot-loss"], ["analysis-solution", "statistics"], ["analysis-solution", "plot-profile"]):
            out.append((a, None))
    if s["comp"] is not None:
        out.group = ("compare", s["gen"], s["comp"])
        sim = lambda: ref.Sim.load(os.path.join(proj, "esat_simulator.pkl"))
        out.append((["simulator", "plot"], lambda log: sim().plot_comparison()))
    elif s["gen"] is not None:
        out.append((["simulator", "plot"], None))
    q = BATCH[s["cfg"]]["factors"]
    for w, mod, cls in (("disp", "displacement", "Displacement"), ("bs", "bootstrap", "Bootstrap"), ("bsdisp", "bs_disp", "BSDISP")):
        if n in s[w]:
            out.group = (w, s[w][n], present)
            obj = lambda w=w, mod=mod, cls=cls: getattr(core.esat("esat.error." + mod), cls).load(os.path.join(proj, "error", f"{w}-{n}.pkl"))
            out.append((["analysis-error", "summary", "--" + w], lambda log, obj=obj: obj().summary()))
            for f in [None] + list(range(1, q + 1)):
                o = [] if f is None else ["--factor_idx", str(f)]
                out.append((["analysis-error", "error-results", "--" + w] + o, lambda log, obj=obj, f=f: obj().plot_results(factor=f or 1)))
        else:
            out.append((["analysis-error", "summary", "--" + w], None))
            out.append((["analysis-error", "error-results", "--" + w], None))
    out.append((["run-error"], None))         # no method asked for: nothing is estimated
    out.append((["analysis-error", "summary"], None))
    out.append((["analysis-error", "error-results", "--disp", "--bs"], None))
    if n in s["constrained"]:
        out.group = ("constrained", s["constrained"][n])
        con = lambda: core.esat("esat.rotational.constrained").ConstrainedModel.load(os.path.join(proj, "constrained", f"constrained_model-{n}.pkl"))
        c = "analysis-constrained"
        out.append(([c, "summary"], lambda log: con().display_results()))
        out.append(([c, "plot-q"], lambda log: con().plot_Q(Qtype="Aux")))
        for t in ("True", "Robust", "Aux"):
            out.append(([c, "plot-q", "-q", t], lambda log, t=t: con().plot_Q(Qtype=t)))
        out.append(([c, "eval-constraints"], lambda log: con().evaluate_constraints()))
        if CON[s["constrained"][n][0]]["expressions"]:
            out.append(([c, "eval-expressions"], lambda log: con().evaluate_expressions()))
        out.append(([c, "plot-fingerprints"], lambda log: con().plot_factor_fingerprints()))
        for f in [None] + list(range(1, q + 1)):
            o = [] if f is None else ["-i", str(f)]
            out.append(([c, "plot-profile"] + o, lambda log, f=f: con().plot_profile_contributions(f or 1)))
        k = 3 if s["cfg"] == "A" else None
        for f in [None, 0, 1]:
            o = [] if f is None else ["-i", str(f)]
            out.append(([c, "plot-contributions"] + o, lambda log, f=f: con().plot_factor_contributions(f or 0)))
        for o, kw in (([], (1, 2, True, True)), (["-x", "2", "-y", "1", "--hide_delta"], (2, 1, True, False)),
                      (["--hide_base", "--hide_delta"], (1, 2, False, False)), (["--hide_delta", "--show_base"], (1, 2, True, False))):
            out.append(([c, "plot-gspace"] + o, lambda log, kw=kw: con().plot_g_space(*kw)))
    else:
        for v in ("summary", "plot-q", "plot-fingerprints"):
            out.append((["analysis-constrained", v], None))
    return out


def tidy(messages):
    return [plain(m) for m in messages]


def contains(log, part):
    """part occurs in log, in this order"""
    it = iter(log)
    return all(any(m == p for m in it) for p in part)


_looked = set()


def look(ctx, ref, s, proj, where, what):
    """the analysis commands; those of an artefact that was already looked at are not repeated"""
    before = read(proj)
    for args, call, group in views(ref, s, proj):
        k = (where == "proj", tuple(args), group)
        if k in _looked:
            continue
        _looked.add(k)
        ctx.alive()
        code, exc, figs, log = command(*args, where)
        ctx.step()
        name = f"{what}: {' '.join(args)}"
        ctx.expect(read(proj) == before, f"{name} changed the project", lambda: different(read(proj), before))
        if call is None:
            ctx.expect(not figs, f"{name} showed something that does not exist")
            ctx.expect(exc is None or isinstance(exc, (Exception, SystemExit)), f"{name}: {exc!r}")
            continue
        if not ctx.expect(exc is None and code == 0, f"{name} failed: {exc!r}", {"exit": code}):
            continue
        try:
            with library() as (rfigs, rlog):
                call(rlog)
        except (Exception, SystemExit) as e:
            ctx.crash(e, f"{name}: the library call")
            continue
        ctx.expect(figures(figs) == figures(rfigs), f"{name} shows other figures than the library", {"shown": len(figs), "library": len(rfigs)})
        ctx.expect(contains(tidy(log), tidy(rlog)), f"{name} logs other messages than the library", lambda: {"library": rlog[-3:], "command": log[-3:]})
        ctx.outcome((args[:2], repr(figures(figs))[:3000] if figs else tuple(tidy(log))))


# --------------------------------------------------------------------------------------------------------------
# exploration
# --------------------------------------------------------------------------------------------------------------
BUILD = ["setup A", "setup B", "sim 1", "sim 2", "generate", "run", "compare"]
LATER = ["error 1", "error 2", "est disp", "est bs", "est bsdisp", "est bs bsdisp", "est disp bs bsdisp", "constrain 1", "constrain 2", "runc"]


def edits(s, op, proj, root):
    if op in ("setup A", "setup B"):
        v = run_text(op[-1], root)
        if op[-1] == "B":
            v["project"] = {**v.get("project", {}), "directory": os.path.join(proj, "results")}
            os.makedirs(os.path.join(proj, "results"), exist_ok=True)
            open(os.path.join(proj, "results", NOTES), "w").close()
        edit(os.path.join(proj, "run_config.toml"), v)
    elif op.startswith("sim "):
        edit(os.path.join(proj, "sim_config.toml"), SIM_TEXT[op[-1]])
        edit(os.path.join(proj, "run_config.toml"), run_text("S", root))
    elif op.startswith("error "):
        v = {k: dict(x) for k, x in ERROR_TEXT[op[-1]].items()}
        if op[-1] == "2":
            v["bsdisp"]["bootstrap_output"] = os.path.join(proj, "error", f"bs-{NAME[s['cfg']]}.pkl")
        edit(os.path.join(proj, "error_config.toml"), v)
    elif op.startswith("constrain "):
        edit(os.path.join(proj, "constrained_config.toml"), CON_TEXT[op[-1]])


def setup_files(tpl, op, proj):
    """configuration files that a setup command writes"""
    if op in ("setup A", "setup B"):
        c = {k: dict(v) for k, v in tpl["run_config"].items()}
        c["project"]["directory"] = proj
        return {"run_config.toml": c}
    if op.startswith("sim "):
        a, b = ({k: dict(v) for k, v in tpl[x].items()} for x in ("sim_config", "run_config"))
        a["project"]["directory"] = b["project"]["directory"] = proj
        b["data"]["input_path"] = os.path.join(proj, "synthetic_data.csv")
        b["data"]["uncertainty_path"] = os.path.join(proj, "synthetic_uncertainty.csv")
        return {"sim_config.toml": a, "run_config.toml": b}
    f, t = ("error_config.toml", "error_config") if op.startswith("error ") else ("constrained_config.toml", "constrained_config")
    c = {k: dict(v) for k, v in tpl[t].items()}
    c["project"]["project_config"] = os.path.join(proj, "run_config.toml")
    return {f: c}


def explore(ctx, prefix, alphabet, depth, relative, key):
    with core.scratch() as root:
        root = os.path.realpath(root)
        data_files(root)
        ref = Reference(root)
        tpl = templates()
        proj = os.path.join(root, "proj")
        here = os.getcwd()
        where = "proj" if relative else proj
        os.chdir(root)
        try:
            def apply(s, op, files, hist):
                """run one command in a project with these files; (state, files) or None"""
                t, ok = next_state(s, op)
                if t is None:
                    return None
                if files is None:
                    shutil.rmtree(proj, ignore_errors=True)
                    files = {}
                else:
                    write(proj, files)
                what = f"{' > '.join(hist)}"
                ctx.alive()
                code, exc, figs, log = command(*args_of(s, op, where))
                ctx.step()
                now = read(proj)
                configs = {k: v for k, v in now.items() if k.endswith(".toml")}
                conf0 = {k: v for k, v in files.items() if k.endswith(".toml")}
                if ok:
                    ctx.expect(code == 0 and exc is None, f"{what} failed: {exc!r}", {"exit": code, "log": log[-2:]})
                if op.startswith(("setup", "sim", "error", "constrain")):
                    new = setup_files(tpl, op, proj)
                    want = {**{k: content(k, v) for k, v in conf0.items()}, **new}
                    got = {k: content(k, v) for k, v in configs.items()}
                    ctx.expect(got == want, f"{what}: the configuration files are not the templates of this project", lambda: different(got, want))
                else:
                    ctx.expect(configs == conf0, f"{what} changed a configuration file", lambda: different(configs, conf0))
                if not ok:
                    ctx.expect(not figs, f"{what}: showed something without results")
                with ctx.guard(f"{what}: comparison"):
                    want = expected(ref, t, proj)
                    got = actual(now)
                    bad = different(got, want)
                    ctx.expect(not bad, f"{what}: the results differ from those of the library: {bad[:6]}",
                               lambda: {k: first_difference(got.get(k), want.get(k)) for k in bad[:2]})
                # files that are not results of this command keep their bytes
                touched = {k for k in now if k in files and now[k] != files[k] and not k.endswith(".toml")}
                allowed = {"generate": ("",), "run": ("output", "results/output", ""), "compare": ("",), "runc": ("constrained",)}.get(op, ("error",) if op.startswith("est") else ())
                ctx.expect(all(os.path.dirname(k) in allowed for k in touched), f"{what} rewrote other files", sorted(touched))
                edits(t, op, proj, root)
                return t, read(proj)

            s, files = EMPTY, None
            hist = []
            for op in prefix:
                hist.append(op)
                r = apply(s, op, files, hist)
                s, files = r
            seen = {frozen(s)}
            if prefix:
                write(proj, files)
                look(ctx, ref, s, proj, where, " > ".join(hist))
            level = [(s, files, hist)]
            for d in range(depth):
                nxt = []
                for s, files, hist in level:
                    for op in alphabet:
                        if not applicable(s, op):
                            continue
                        r = apply(s, op, files, hist + [op])
                        if r is None:
                            continue
                        t, f = r
                        ctx.state((relative, frozen(t)))
                        if frozen(t) in seen:
                            continue
                        seen.add(frozen(t))
                        write(proj, f)
                        look(ctx, ref, t, proj, where, " > ".join(hist + [op]))
                        nxt.append((t, f, hist + [op]))
                level = nxt
        finally:
            os.chdir(here)


def first_difference(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
    if isinstance(a, str) and isinstance(b, str):
        for x, y in zip(a.split("\n"), b.split("\n")):
            if x != y:
                return path, x[:200], y[:200]
    return path, repr(a)[:200], repr(b)[:200]


def run(ctx):
    core.boot()
    core.esat("esat_eval.simulator")
    core.esat("esat.cli.esat_cli")
    jobs = []
    for args in (("setup",), ("simulator", "setup"), ("simulator", "generate"), ("simulator", "compare"), ("simulator", "plot"), ("setup-error",), ("setup-constrained",), ("run",)):
        if ctx.case("no such folder", *args):
            with ctx.guard("a project in a folder that cannot be created"), core.scratch() as root:
                code, exc, figs, log = command(*args, os.path.join(root, "no", "such", "project"))
                ctx.expect(os.listdir(root) == [] and not figs and (exc is None or isinstance(exc, SystemExit)), f"{args}: {code} {exc!r}, files {os.listdir(root)}")
                if args[0] in ("setup", "simulator"):
                    ctx.expect(any("workflow directory" in t for t in log) and code == 0, f"{args}: the user is not told, {log}")
                ctx.step()
    d = 3 if not ctx.thorough else 4
    for rel in (False, True):
        for first in BUILD[:4]:
            jobs.append(((first,), BUILD, d, rel))
    d = 2 if not ctx.thorough else 3
    for pre in (("setup A", "run"), ("setup B", "run"), ("sim 1", "run"), ("sim 2", "generate", "run")):
        for first in LATER:
            s = EMPTY
            for op in pre:
                s, _ = next_state(s, op)
            if applicable(s, first):
                jobs.append((pre + (first,), LATER, d, pre[0][-1] in "B2"))
    # error estimation of a constrained model
    for pre in (("setup A", "run", "constrain 1", "runc"), ("setup B", "run", "constrain 2", "runc"), ("sim 1", "run", "constrain 2", "runc")):
        jobs.append((pre + ("error 2",), [x for x in LATER if x.startswith(("est", "error 1"))], 2 if ctx.thorough else 1, pre[0][-1] in "A1"))

    def one(c, job):
        key = (*job[0], job[3])
        if c.case(*key):
            explore(c, job[0], job[1], job[2], job[3], key)
    core.shards(ctx, one, jobs)
