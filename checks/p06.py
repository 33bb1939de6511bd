"""P06: histories of calls on one object leave no trace on the next sampling."""
import copy
import itertools
import json

import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 900}
OPS = ("A", "B", "C", "D", "params", "transform")
RULE = ("operation sequences on one object over {sample datasets A,B (other dimension),C (too few minority samples),D "
        "(balanced), get_params and descriptor, preprocessing_transform, another proportion and back} through all entry points (sample, fit_resample, sample_with_timing) up to the stated length; after each sequence the seed is reset and "
        "sampling a probe dataset must equal a fresh object's, as must its transformation of new data and the reported "
        "parameters; plus all sequences on two objects sharing their parameter dictionaries; state = (sequence, result)")
BOUNDS = {"quick": "all sequences of length <=2, 2 probes, default setting and one setting per structured parameter",
          "thorough": "all sequences of length <=3, 4 probes, all 1-parameter deviations for length <=1"}
ASSUMPTIONS = ["DEAGO, DSRBF and AMSCO in the thorough tier only"]
SETS = {"A": "gen", "B": "hi", "C": "m2", "D": "bal", "E": "sep", "F": "one_d"}


def plain(params):
    return json.loads(json.dumps(params, default=str, sort_keys=True))


def reset(obj, seed=5):
    if hasattr(obj, "set_random_state"):
        obj.set_random_state(seed)


ENTRY = {"A": "sample_with_timing", "B": "fit_resample"}  # the other entry points; everything else uses sample


def outcome(obj, key, entry="sample"):
    X, y = data.DS[SETS[key]]
    try:
        Xs, ys = getattr(obj, entry)(X.copy(), y.copy())
    except Exception as exc:  # pylint: disable=broad-except
        return ("error", type(exc).__name__)
    try:
        tr = np.asarray(obj.preprocessing_transform(X.copy()), float)
    except Exception as exc:  # pylint: disable=broad-except
        tr = type(exc).__name__
    return (np.asarray(Xs, float), np.asarray(ys), tr)


def same(a, b):
    if len(a) != len(b):
        return False
    if a[0] is None or isinstance(a[0], str) or isinstance(b[0], str):
        return a[0] == b[0] if isinstance(a[0], str) and isinstance(b[0], str) else False
    if a[0].shape != b[0].shape or not np.array_equal(a[0], b[0], equal_nan=True) or not np.array_equal(a[1], b[1]):
        return False
    if isinstance(a[2], str) or isinstance(b[2], str):
        return isinstance(a[2], str) and isinstance(b[2], str)
    return data.close(a[2], b[2])


def apply(obj, op, bad, name):
    if op == "params":
        try:
            obj.get_params()
            str(obj)
            obj.descriptor()
        except Exception as exc:  # pylint: disable=broad-except
            bad("params", f"get_params raised {type(exc).__name__}: {exc}")
    elif op == "transform":
        try:
            obj.preprocessing_transform(data.DS[SETS["A"]][0].copy())
        except Exception:  # pylint: disable=broad-except
            pass  # nothing was fitted yet, or another dimension was
    elif op == "prop":
        if "proportion" in data.ctor_params(data.cls(name)):
            old = obj.get_params().get("proportion")
            obj.set_params(proportion=0.5)
            outcome(obj, "B")
            obj.set_params(proportion=old)
    else:
        outcome(obj, op, ENTRY.get(op, "sample"))


def tasks(tier):
    out = []
    for name in data.oversampler_names(3.0 if tier == "quick" else 30.0):
        cost = data.SLOW.get(name, 0.05)
        devs = data.deviations(name, (0.5,))
        struct = [d for d in devs if any(isinstance(v, (dict, list)) for v in d.values())]
        if cost < 1.0:
            length, probes = (2, ["A", "E"]) if tier == "quick" else (3, ["A", "B", "E", "C"])
            if name in ("E_SMOTE", "SOMO", "SMOTE_PSO", "SVM_balance", "LVQ_SMOTE", "CE_SMOTE"):
                length, probes = (2, ["A"]) if tier == "quick" else (3, ["A", "C"])
            seqs = [s for k in range(length + 1) for s in itertools.product(OPS, repeat=k)]
            seqs += [("prop",), ("prop", "A"), ("A", "prop"), ("prop", "C")]
            for i in range(0, len(seqs), 15):
                out.append({"cls": name, "params": {}, "seqs": [list(s) for s in seqs[i:i + 15]], "probes": probes, "two": i == 0})
            more = struct[:3] if tier == "quick" else devs[1:]
            for prm in more:
                out.append({"cls": name, "params": prm, "seqs": [[], ["A"], ["B"], ["C"], ["A", "C"], ["C", "B"]],
                            "probes": ["A"] if tier == "quick" else probes, "two": True})
        elif cost < 3.0:
            out.append({"cls": name, "params": {}, "seqs": [["C"], ["A"]], "probes": ["A"], "two": False})
        else:
            out.append({"cls": name, "params": {}, "seqs": [["C"], ["A"]], "probes": ["A"], "two": False})
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.05))
    return out


def run(task):
    name, prm = task["cls"], task["params"]
    viol, sigs, n, steps = [], [], 0, 0
    fresh, rep = {}, None
    try:
        rep = plain(data.make(name, prm).get_params())
    except Exception:  # pylint: disable=broad-except
        return {"n": 0, "t": 0, "out": [], "v": []}
    for probe in task["probes"]:
        fresh[probe] = outcome(data.make(name, prm), probe)
        n += 1
        if task["two"]:
            for entry in ("fit_resample", "sample_with_timing"):
                n += 1
                if not same(fresh[probe], outcome(data.make(name, prm), probe, entry)):
                    bad = sweep.Bad(name, prm, SETS[probe], entry)
                    bad("entry", f"{entry} differs from sample on a fresh object")
                    viol += bad.viol
    for seq in task["seqs"]:
        for probe in task["probes"]:
            bad = sweep.Bad(name, prm, SETS[probe], "after " + ",".join(seq))
            obj = data.make(name, prm)
            for op in seq:
                apply(obj, op, bad, name)
            if plain(obj.get_params()) != rep:
                bad("reported", f"reported parameters changed: {[k for k, v in plain(obj.get_params()).items() if rep.get(k) != v]}")
            reset(obj)
            got = outcome(obj, probe)
            if not same(fresh[probe], got):
                bad("history", "sampling after resetting the seed differs from a fresh object's")
            viol += bad.viol
            n += 1
            steps += len(seq) + 2
            sigs.append(f"{name}/{prm}/{seq}/{probe}")
    if task["two"]:
        # two objects that share their parameter dictionaries, used alternately
        for probe in task["probes"]:
            bad = sweep.Bad(name, prm, SETS[probe], "two objects")
            shared = copy.deepcopy(prm)
            one = data.cls(name)(random_state=5, **shared)
            two = data.cls(name)(random_state=5, **shared)
            outcome(one, "B")
            outcome(one, probe)
            got = outcome(two, probe)
            reset(one)
            back = outcome(one, probe)
            if not same(fresh[probe], got) or not same(fresh[probe], back):
                bad("shared", "one object's use changed the other's result")
            if plain(two.get_params()) != rep:
                bad("shared", "one object's use changed the other's parameters")
            viol += bad.viol
            n += 4
            steps += 5
    return {"n": n, "t": steps, "out": sigs, "v": viol}
