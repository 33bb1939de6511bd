"""P05: seeded sampling is a function of seed, parameters and data, and leaves the process-wide generators alone."""
import random

import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 900}
RULE = ("execution = one sample() call; for every oversampler x setting (<=1 parameter deviation; thorough 2) x dataset the "
        "histories {global generator state A, state B after foreign runs of the same class with another seed and of another "
        "class, seed given as generator object, two jobs instead of one} are all executed and must agree; the states of "
        "numpy's and Python's process-wide generators are compared before and after each call")
BOUNDS = {"quick": "1 parameter deviation, 7 datasets, 4 histories", "thorough": "2 parameter deviations, 26 datasets, 5 histories"}
ASSUMPTIONS = ["single machine, same library versions; results are compared up to 1e-9 across job counts and exactly otherwise",
               "DEAGO, DSRBF and AMSCO in the thorough tier only"]
DSETS = ("gen", "sep", "m3", "dup2", "hi", "lattice", "outlier")


def gstate():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4]), random.getstate()


def sample(obj, X, y, bad, where):
    before = gstate()
    try:
        Xs, ys = obj.sample(X.copy(), y.copy())
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__, None
    after = gstate()
    if before[0] != after[0]:
        bad("global", f"numpy's global generator was changed ({where})")
    if before[1] != after[1]:
        bad("global", f"Python's global generator was changed ({where})")
    return np.asarray(Xs, float), np.asarray(ys)


def same(a, b, exact=True):
    if isinstance(a[0], str) or isinstance(b[0], str):
        return isinstance(a[0], str) and isinstance(b[0], str)
    if a[0].shape != b[0].shape or not np.array_equal(a[1], b[1]):
        return False
    return np.array_equal(a[0], b[0], equal_nan=True) if exact else data.close(a[0], b[0])


def judge(name, prm, dsname, jobs, insts):
    bad = sweep.Bad(name, prm, dsname, "")
    X, y = data.DS[dsname]
    n = 0
    try:
        data.make(name, prm)
    except Exception:  # pylint: disable=broad-except
        return [], "ctor", 0
    np.random.seed(1)
    random.seed(1)
    ref = sample(data.make(name, prm), X, y, bad, "first run")
    # another process-wide state, and other runs in between
    np.random.seed(987)
    random.seed(654)
    oX, oy = data.DS["m3" if dsname != "m3" else "gen"]
    sample(data.make(name, prm, 77), oX, oy, bad, "foreign run")
    sample(data.make("SMOTE", {}, 3), oX, oy, bad, "foreign SMOTE")
    np.random.random_sample(5)
    random.random()
    got = sample(data.make(name, prm), X, y, bad, "second run")
    n += 4
    if not same(ref, got):
        bad("repeat", "two runs with the same seed differ")
    if insts:
        one = sample(data.make(name, prm, np.random.RandomState(5)), X, y, bad, "generator object")
        np.random.seed(4321)
        two = sample(data.make(name, prm, np.random.RandomState(5)), X, y, bad, "generator object")
        n += 2
        if not same(one, two):
            bad("instance", "two runs with equal generator objects differ")
    if jobs and "n_jobs" in data.ctor_params(data.cls(name)):
        par = sample(data.make(name, {**prm, "n_jobs": 2}), X, y, bad, "two jobs")
        n += 1
        if not same(ref, par, exact=False):
            bad("jobs", "the result depends on the number of jobs")
    sig = ref[0] if isinstance(ref[0], str) else data.digest(*ref)
    return bad.viol, sig, n


def tasks(tier):
    out = []
    for name in data.oversampler_names(3.0 if tier == "quick" else 30.0):
        cost = data.SLOW.get(name, 0.05)
        devs = data.deviations(name, (0.5,))
        dsets = list(DSETS) if tier == "quick" else list(data.NAMED)
        if cost >= 1.0:
            devs, dsets = (devs[:1], ["gen"]) if tier == "quick" else (devs[:3], ["gen", "m3"])
        if name == "DEAGO":
            devs, dsets = [{}], ["gen"]
        if tier == "thorough" and cost < 1.0:
            devs = devs + data.pairs(name, 25)
        for i, prm in enumerate(devs):
            use = dsets
            if tier == "quick" and set(prm) & {"ss_params", "nn_params"}:
                use = ["gen", "hi"]
            out.append({"cls": name, "params": prm, "datasets": use, "jobs": (i == 0 and cost < 1.0) or tier == "thorough", "insts": i == 0 or tier == "thorough"})
            if i == 0 and cost < 1.0 and tier == "quick":
                out.append({"cls": name, "params": {}, "datasets": ["one_d", "m2", "bal", "dupmin", "large"], "jobs": False, "insts": False})
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.05) * len(t["datasets"]))
    return out


def run(task):
    viol, sigs, n = [], [], 0
    for dsname in task["datasets"]:
        v, sig, k = judge(task["cls"], task["params"], dsname, task["jobs"] and dsname in ("gen", "hi"), task["insts"])
        viol += v
        sigs.append(f"{task['cls']}/{sig}")
        n += k
    if task["jobs"]:
        stop_loky()
    return {"n": n, "t": 3 * n, "out": sigs, "v": viol}


def stop_loky():
    """the idle workers of joblib would keep this process alive for minutes"""
    try:
        from joblib.externals.loky import reusable_executor
        if getattr(reusable_executor, "_executor", None) is not None:
            reusable_executor._executor.shutdown(wait=True, kill_workers=True)
    except Exception:  # pylint: disable=broad-except
        pass
