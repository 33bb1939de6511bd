"""P01: every oversampler, setting, dataset and random answer gives a well-formed result."""
import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
HANG_IS_VIOLATION = True
TASK_LIMIT = {"quick": 200, "thorough": 900}
RULE, BOUNDS, ASSUMPTIONS = sweep.RULE, sweep.BOUNDS, sweep.ASSUMPTIONS


def judge(name, params, dsname, obj, X, y, tag):
    bad = sweep.Bad(name, params, dsname, tag)
    try:
        Xs, ys = obj.sample(X.copy(), y.copy())
    except Exception as exc:  # pylint: disable=broad-except
        bad("error", f"{type(exc).__name__}: {exc}")
        return bad.viol, "error"
    Xs, ys = np.asarray(Xs), np.asarray(ys)
    if Xs.ndim != 2 or ys.ndim != 1 or len(Xs) != len(ys) or len(Xs) == 0:
        bad("shape", f"shapes {Xs.shape} {ys.shape}")
        return bad.viol, "shape"
    try:
        finite = bool(np.all(np.isfinite(Xs.astype(float))))
    except (TypeError, ValueError):
        finite = False
    if not finite:
        bad("finite", "non-finite or non-numeric feature values")
    if not set(np.unique(ys).tolist()) <= set(np.unique(y).tolist()):
        bad("labels", f"labels {np.unique(ys).tolist()} not in the input")
    try:
        dim = np.asarray(obj.preprocessing_transform(X.copy())).shape
        if dim != (len(X), Xs.shape[1]):
            bad("dim", f"result has {Xs.shape[1]} features, transformed data has shape {dim}")
    except Exception as exc:  # pylint: disable=broad-except
        bad("transform", f"preprocessing_transform: {type(exc).__name__}: {exc}")
    return bad.viol, data.digest(Xs, ys) if finite else "nonfinite"


def tasks(tier):
    return sweep.space(tier)


def run(task):
    return sweep.explore(task, judge)
