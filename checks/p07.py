"""P07: relabelling the classes renames the labels of the result and changes nothing else."""
import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 900}
RULE = ("execution = one sample() call; for every oversampler x setting (<=1 parameter deviation) x dataset all label pairs of "
        "the alphabet are executed and compared with the (0,1) run: same rows in the same order, labels renamed")
BOUNDS = {"quick": "label pairs (1,0),(-1,1),(2,5),(5,2),(1,2),(0,7),(100,-3) x 25 datasets; 2 pairs on all placements of 4+3 and 5+2 points on 3 planar places and class sizes 1..8 x 1..15; 3 pairs for deviating settings",
          "thorough": "all pairs x 26 datasets x all 1-parameter deviations"}
ASSUMPTIONS = ["unequal class sizes", "methods that train classifiers whose own behaviour depends on the order of the labels "
               "are compared under order preserving relabellings only"]
PAIRS = [(1, 0), (-1, 1), (2, 5), (5, 2), (1, 2), (0, 7), (100, -3)]
ORDERED_ONLY = {"SMMO", "SMOTE_IPF", "SMOTE_PSO", "SMOTE_PSOBAT", "AMSCO", "DSRBF"}
HEAVY = {"SMOTE_PSO", "DSMOTE", "E_SMOTE", "SMOTE_AMSR", "ADG", "MOT2LD", "Supervised_SMOTE"}


def sample(name, prm, X, y):
    try:
        Xs, ys = data.make(name, prm).sample(X.copy(), y.copy())
    except Exception as exc:  # pylint: disable=broad-except
        return None, type(exc).__name__
    return np.asarray(Xs, float), np.asarray(ys)


def tasks(tier):
    out = []
    for name in data.oversampler_names(3.0 if tier == "quick" else 30.0):
        cost = data.SLOW.get(name, 0.05)
        devs = data.deviations(name, (0.5,))
        dsets = [d for d in data.NAMED if d not in ("bal",)]
        if cost >= 1.0:
            devs, dsets = devs[:1], ["gen"]
        for i, prm in enumerate(devs):
            pairs, use = PAIRS, dsets
            if tier == "quick" and i > 0:
                pairs, use = [(1, 0), (2, 5), (5, 2)], [d for d in dsets if d in ("gen", "sep", "m3", "hi", "wide")]
            elif cost >= 1.0:
                pairs = [(1, 0), (2, 5)]
            if tier == "quick" and name in HEAVY:
                use = [d for d in use if d not in data.BIG and (i == 0 or d in ("gen", "m3"))]
                pairs = [(5, 2), (2, 5), (100, -3)] if name not in ORDERED_ONLY else [(2, 5), (0, 7)]
            for k in range(0, len(use), 5):
                out.append({"cls": name, "params": prm, "datasets": use[k:k + 5], "pairs": [list(p) for p in pairs]})
        if cost < 1.0 and (tier == "thorough" or name not in HEAVY):
            sets = [d for d in data.tiny(tier) if (d[0] == "S" and d.split(".")[1] != d.split(".")[2]) or d[0] == "L"]
            for k in range(0, len(sets), 100):
                out.append({"cls": name, "params": {}, "datasets": sets[k:k + 100], "pairs": [[5, 2], [2, 5]] if name not in ORDERED_ONLY | {"SVM_balance"} else [[2, 5]]})
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.05) * len(t["datasets"]) * len(t["pairs"]))
    return out


def run(task):
    name, prm = task["cls"], task["params"]
    viol, sigs, n = [], [], 0
    try:
        data.make(name, prm)
    except Exception:  # pylint: disable=broad-except
        return {"n": 0, "t": 0, "out": [], "v": []}
    for dsname in task["datasets"]:
        X, y = data.DS[dsname]
        ref = sample(name, prm, X, y)
        n += 1
        sigs.append(f"{name}/{prm}/{dsname}/{ref[1] if ref[0] is None else data.digest(*ref)}")
        for big, small in task["pairs"]:
            if name in ORDERED_ONLY and big > small:
                continue
            bad = sweep.Bad(name, prm, dsname, f"labels {big}/{small}")
            got = sample(name, prm, X, data.encode(y, (big, small)))
            n += 1
            if ref[0] is None or got[0] is None:
                if (ref[0] is None) != (got[0] is None):
                    bad("error", f"one labelling fails: {ref[1] if ref[0] is None else got[1]}")
            elif ref[0].shape != got[0].shape or not data.close(ref[0], got[0], 1e-6, 1e-9):
                bad("rows", f"rows differ from those for labels 0/1 (shapes {ref[0].shape} {got[0].shape})")
            elif not np.array_equal(data.encode(ref[1], (big, small)), got[1]):
                bad("labels", f"labels are not the renamed ones: {np.unique(got[1]).tolist()}")
            viol += bad.viol
    return {"n": n, "t": 3 * n, "out": sigs, "v": viol}
