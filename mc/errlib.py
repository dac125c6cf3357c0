"""base models for the error estimation checks"""
import numpy as np
import core, lib, c01, c02


def base_model(m, n, f, method="ls-nmf", k=0, iters=6, seed=4, hold=False):
    """a small trained base model"""
    V = c02.shaped(m, n, k)
    if method == "ws-nmf":
        V = V - 2.0
    U = c01.unc(V, "mixed") * (1.0 + 0.2 * k)
    sa = lib.SA(V, U, f, method=method, seed=seed)
    sa.initialize(H=c01.start_h(f, n, k), W=np.abs(c01.start_h(m, f, k)))
    # in some models the stopping rule ends the training (of the model, and of those retrained like it) early
    sa.train(max_iter=iters, converge_delta=2.0 if k == 2 else 1e-3, converge_n=3)
    return sa


def snapshot(sa):
    return tuple(np.array(x) for x in (sa.V, sa.U, sa.We, sa.W, sa.H, sa.WH)) + (float(sa.Qtrue), float(sa.Qrobust))


def unchanged(sa, snap):
    now = snapshot(sa)
    return all(lib.same(a, b) for a, b in zip(now[:6], snap[:6])) and now[6:] == snap[6:]


def retrain(V, U, sa, seed, H):
    """the model that a resampling or displacement run has to end with"""
    r = lib.SA(V, U, sa.factors, method=sa.method, seed=seed)
    r.initialize(H=None if H is None else np.array(H))
    r.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
            converge_n=sa.metadata["converge_n"])
    return r
