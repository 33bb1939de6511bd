"""P02: sampling leaves the caller's objects alone and its result does not alias them."""
import copy

import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 900}
RULE, BOUNDS, ASSUMPTIONS = sweep.RULE, sweep.BOUNDS, sweep.ASSUMPTIONS


def run(task):
    return sweep.explore(task, judge)


def judge(name, params, dsname, obj, X, y, tag):
    bad = sweep.Bad(name, params, dsname, tag)
    Xc, yc = X.copy(order="K"), y.copy()
    handed = copy.deepcopy(params)
    try:
        mine = data.cls(name)(random_state=getattr(obj, "_random_state_init", 5) if not tag.startswith("rng") else obj.random_state,
                              **handed)
        Xs, ys = mine.sample(Xc, yc)
    except Exception:  # pylint: disable=broad-except
        return [], "error"  # P01's business
    if not (Xc.dtype == X.dtype and Xc.shape == X.shape and np.array_equal(Xc, X)):
        bad("features", f"the caller's feature matrix was changed in {int(np.sum(Xc != X)) if Xc.shape == X.shape else 'shape'}")
    if not (yc.dtype == y.dtype and yc.shape == y.shape and np.array_equal(yc, y)):
        bad("labels", "the caller's label vector was changed")
    if handed != params:
        bad("params", f"the caller's parameters were changed to {handed}")
    Xs, ys = np.asarray(Xs), np.asarray(ys)
    for what, res, src in (("features", Xs, Xc), ("labels", ys, yc)):
        if np.shares_memory(res, src):
            bad("alias", f"the returned {what} share memory with the caller's")
    return bad.viol, data.digest(Xs, ys)


def tasks(tier):
    # besides the common space: settings with which the dataset is returned as it is
    early = [{"mode": "cfg", "cls": "ADASYN", "params": {"d_th": 0.1}, "datasets": ["gen", "hi", "m3"]}]
    return sweep.space(tier, rng=(tier == "thorough")) + early
