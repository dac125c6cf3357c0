"""
The extension module of esat: rust/lib.rs of the repository, compiled unchanged against stand-ins of the crates it uses
(rustshim/), loaded through a C interface and offered to Python under its own name.
"""
import ctypes
import inspect
import json
import os
import subprocess
import sys
import types
import numpy as np
import core

SHIM = os.path.join(core.VERIF, "rustshim")


class CArg(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("i", ctypes.c_int64), ("f", ctypes.c_double), ("p", ctypes.c_void_p),
                ("ndim", ctypes.c_int32), ("shape", ctypes.c_int64 * 4), ("strides", ctypes.c_int64 * 4)]


class PanicException(BaseException):
    """what pyo3 raises for a panic"""


CB = ctypes.CFUNCTYPE(None, ctypes.c_char_p)


def build(directory):
    """compiles; returns the path of the library, or None and the compiler's messages"""
    r = subprocess.run(["bash", os.path.join(SHIM, "build.sh"), os.path.join(core.REPO, "rust", "lib.rs"), directory],
                       capture_output=True, text=True, timeout=600)
    path = os.path.join(directory, "libesat_rust.so")
    if r.returncode or not os.path.exists(path):
        return None, r.stderr
    return path, r.stderr


def to_arg(x, keep):
    a = CArg()
    if x is None:
        a.kind = 0
    elif isinstance(x, (bool, np.bool_)):
        a.kind, a.i = 1, int(x)
    elif isinstance(x, (int, np.integer)):
        a.kind, a.i = 2, int(x)
    elif isinstance(x, (float, np.floating)):
        a.kind, a.f = 3, float(x)
    elif isinstance(x, str):
        b = ctypes.create_string_buffer(x.encode())
        keep.append(b)
        a.kind, a.p = 6, ctypes.cast(b, ctypes.c_void_p)
    elif isinstance(x, np.ndarray):
        a.kind = {"float32": 4, "float64": 7}.get(x.dtype.name, -1)
        if x.ndim > 4 or any(s < 0 for s in x.strides):
            raise NotImplementedError("array with negative strides")
        keep.append(x)
        a.p, a.ndim = x.ctypes.data, x.ndim
        for k in range(x.ndim):
            a.shape[k], a.strides[k] = x.shape[k], x.strides[k] // x.itemsize
    elif callable(x):
        def fire(s, f=x):
            try:
                f(*json.loads(s.decode()))
            except Exception:       # call1 returns the error to the extension
                pass
        c = CB(fire)
        keep.append(c)
        a.kind, a.p = 5, ctypes.cast(c, ctypes.c_void_p)
    else:
        a.kind = -1
    return a


def value(v):
    if isinstance(v, list):
        return [value(x) for x in v]
    if isinstance(v, dict) and "dict" in v:
        return {k: value(x) for k, x in v["dict"].items()}
    if isinstance(v, dict):
        d = np.array(v["data"], dtype=v["dtype"])
        return np.lib.stride_tricks.as_strided(d, v["shape"], [s * d.itemsize for s in v["strides"]]).copy(order="K")
    return v


def signature(text):
    """inspect.Signature of a function, from what the macro noted"""
    params, extra = text.split("#", 1)
    names = [p.split(":")[0].strip() for p in params.split("|") if p]
    defaults = {}
    if "signature" in extra:
        inner = extra[extra.index("(", extra.index("signature")) + 1:]
        for part in inner.split(")")[0].split(","):
            if "=" in part:
                k, v = part.split("=", 1)
                v = v.strip()
                defaults[k.strip()] = {"None": None, "true": True, "false": False}.get(v) if v in ("None", "true", "false") else float(v)
    return inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD,
                                                default=defaults.get(n, inspect.Parameter.empty)) for n in names])


def load(path):
    lib = ctypes.CDLL(path)
    lib.shim_free.argtypes = [ctypes.c_void_p]

    def text(fn, *a):
        fn.restype = ctypes.c_void_p
        p = fn(*a)
        s = ctypes.string_at(p).decode()
        lib.shim_free(p)
        return s

    mod = types.ModuleType("esat_rust")
    for name in text(lib.shiminit).split("|"):
        sig = signature(text(getattr(lib, "shimsig_" + name)))
        entry = getattr(lib, "shimcall_" + name)

        def call(*args, __sig=sig, __entry=entry, **kw):
            b = __sig.bind(*args, **kw)             # TypeError as for any function
            b.apply_defaults()
            keep = []
            arr = (CArg * max(1, len(b.args)))(*[to_arg(x, keep) for x in b.args])
            out = json.loads(text(__entry, arr, ctypes.c_size_t(len(b.args))))
            if "ok" in out:
                return value(out["ok"])
            kinds = {"RuntimeError": RuntimeError, "TypeError": TypeError, "ValueError": ValueError,
                     "OverflowError": OverflowError, "PanicException": PanicException, "IndexError": IndexError}
            raise kinds.get(out["error"], Exception)(out["msg"])

        call.__name__ = call.__qualname__ = name
        call.__module__ = "esat_rust"
        setattr(mod, name, call)
    return mod


class Installed:
    """while active, esat finds the extension"""
    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        sys.modules["esat_rust"] = self.mod
        return self.mod

    def __exit__(self, *a):
        sys.modules.pop("esat_rust", None)
        return False
