"""P08: parameters are reported back, rebuild an equivalent object, and are validated at construction."""
import copy
import importlib
import itertools
import json
import os

import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 900}
RULE = ("state = (class, parameter combination): every offered combination (full product where it has at most the stated "
        "number of members, otherwise all pairs of values) is constructed, its report compared, an object rebuilt from the "
        "report directly, through JSON and through instantiate_obj; for all 1-parameter deviations the rebuilt object's "
        "results are compared; every value of a boundary grid is offered to every numeric, string, job-count and seed "
        "parameter and acceptance compared with the documented domain (table checks/p08_domain.json)")
BOUNDS = {"quick": "full products up to 2500 combinations per class, else all pairs; 13-value boundary grid",
          "thorough": "full products up to 20000 combinations per class, else all pairs; 13-value boundary grid"}
ASSUMPTIONS = ["the table of documented domains was derived from the docstrings and range checks of the repaired tree and reviewed",
               "parameters whose report is nested (classifier specifications) are compared after JSON normalisation"]
INTS = [-2, -1, 0, 1, 2, 3, 5]
FLOATS = [-2.0, -1.0, -0.1, -1e-9, 0.0, 0.1, 0.5, 0.9, 1.0, 1.1, 1.5, 2.0, 5.0]
DOMAIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "p08_domain.json")


def classes():
    sv = data.sv()
    us = importlib.import_module("smote_variants.undersampling")
    out = {c.__name__: c for c in list(sv.get_all_oversamplers()) + list(sv.get_all_noisefilters())}
    for name in ("RandomUndersampling", "OversamplingDrivenUndersampling"):
        if hasattr(us, name):
            out[name] = getattr(us, name)
    return out


def plain(params):
    return json.loads(json.dumps(params, default=str, sort_keys=True))


NOISE = {
    "TomekLinkRemoval": {"strategy": ["remove_majority", "remove_both"], "n_jobs": [1, 2]},
    "EditedNearestNeighbors": {"remove": ["both", "min", "maj"], "n_jobs": [1, 2]},
    "CondensedNearestNeighbors": {"n_jobs": [1, 2]}, "CNNTomekLinks": {"n_jobs": [1, 2]},
    "NeighborhoodCleaningRule": {"n_jobs": [1, 2], "nn_params": [{}, {"metric": "precomputed", "metric_learning_method": "id"}]},
    "OneSidedSelection": {"n_jobs": [1, 2]},
}


def space_of(name, klass):
    if name in NOISE:
        return NOISE[name]
    return data.raw_space(klass)


def combos(name, klass, limit):
    space = space_of(name, klass)
    keys = sorted(space)
    total = 1
    for k in keys:
        total *= len(space[k])
    if total <= limit:
        return [dict(zip(keys, vals)) for vals in itertools.product(*[space[k] for k in keys])]
    out = [{}]
    for a, b in itertools.combinations(keys, 2):
        out += [{a: va, b: vb} for va in space[a] for vb in space[b]]
    return out


def required(name):
    return {"oversampler_specification": ("smote_variants", "SMOTE", {"random_state": 5})} if name == "OversamplingDrivenUndersampling" else {}


def candidates(klass, name):
    """param -> values offered at the boundary"""
    dflt = data.defaults(klass)
    out = {}
    for p in data.ctor_params(klass):
        v = dflt.get(p)
        if p == "n_jobs":
            out[p] = [-2, -1, 0, 1, 2, None]
        elif p == "random_state":
            out[p] = [-1, 0, 1, None, 1.5, "a"]
        elif p == "proportion":
            out[p] = FLOATS
        elif isinstance(v, bool):
            continue
        elif isinstance(v, int):
            out[p] = INTS
        elif isinstance(v, float):
            out[p] = FLOATS
        elif isinstance(v, str):
            vals = space_of(name, klass).get(p, [])
            out[p] = [x for x in vals if isinstance(x, str)] + ["nonsense"]
    return out


def accepted(klass, name, p, value):
    try:
        klass(**{**required(name), p: value})
        return "yes"
    except ValueError:
        return "no"
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__


def make_table():
    table = {}
    for name, klass in sorted(classes().items()):
        table[name] = {p: [v for v in vals if accepted(klass, name, p, v) == "yes"] for p, vals in candidates(klass, name).items()}
    return table


def tasks(tier):
    limit = 2500 if tier == "quick" else 20000
    out = []
    for name, klass in classes().items():
        allc = combos(name, klass, limit)
        for i in range(0, len(allc), 400):
            out.append({"mode": "combo", "cls": name, "combos": allc[i:i + 400]})
        out.append({"mode": "domain", "cls": name})
        cost = data.SLOW.get(name, 0.05)
        if cost < (1.5 if tier == "quick" else 3.0):
            if name in NOISE or "Undersampling" in name:
                devs = combos(name, klass, 500)
            else:
                devs = data.deviations(name, (0.5, 2.0))
                if cost >= 1.0 and tier == "quick":
                    devs = devs[:2]
            for i in range(0, len(devs), 8):
                out.append({"mode": "behave", "cls": name, "combos": devs[i:i + 8], "datasets": ["gen"] if tier == "quick" else ["gen", "hi", "sep"]})
    out.append({"mode": "checker", "cls": "ParametersMixin"})
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.05))
    return out


def build(klass, prm):
    return klass(**copy.deepcopy(prm))


def result(klass, prm, dsname):
    X, y = data.DS[dsname]
    obj = build(klass, prm)
    meth = getattr(obj, "sample", None) or obj.remove_noise
    try:
        Xs, ys = meth(X.copy(), y.copy())
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__
    return np.asarray(Xs, float), np.asarray(ys)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return a[0].shape == b[0].shape and np.array_equal(a[0], b[0], equal_nan=True) and np.array_equal(a[1], b[1])


def run(task):
    name = task["cls"]
    viol, sigs, n, steps = [], [], 0, 0
    if task["mode"] == "checker":
        return checker()
    klass = classes().get(name)
    if klass is None:
        return {"n": 0, "t": 0, "out": [], "v": []}

    def bad(kind, msg, prm):
        viol.append(dict(kind=kind, key={"cls": name, "kind": kind, "params": str(prm)}, msg=f"{name}({prm}): {msg}"))

    has_rs = "random_state" in data.ctor_params(klass)
    if task["mode"] == "combo":
        from smote_variants.base import instantiate_obj
        for prm in task["combos"]:
            prm = copy.deepcopy(prm)
            full = {**required(name), **prm, **({"random_state": 7} if has_rs else {})}
            n += 1
            steps += 4
            try:
                obj = build(klass, full)
            except Exception as exc:  # pylint: disable=broad-except
                bad("refused", f"offered combination refused: {type(exc).__name__}: {exc}", prm)
                continue
            try:
                rep = obj.get_params()
                for k, v in full.items():
                    if k not in rep:
                        bad("missing", f"parameter {k} is not reported", prm)
                    elif isinstance(v, dict) and isinstance(rep[k], dict):
                        if any(plain(rep[k]).get(kk) != plain(vv) for kk, vv in v.items()):
                            bad("changed", f"parameter {k}={v!r} is reported as {rep[k]!r}", prm)
                    elif plain(rep[k]) != plain(v):
                        bad("changed", f"parameter {k}={v!r} is reported as {rep[k]!r}", prm)
                again = build(klass, rep).get_params()
                if plain(again) != plain(rep):
                    bad("rebuild", f"an object built from the report reports {diff(rep, again)}", prm)
                text = build(klass, json.loads(json.dumps(rep))).get_params()
                if plain(text) != plain(rep):
                    bad("text", f"an object built from the JSON report reports {diff(rep, text)}", prm)
                module = "smote_variants" if hasattr(data.sv(), name) else klass.__module__
                inst = instantiate_obj((module, name, copy.deepcopy(rep))).get_params()
                if plain(inst) != plain(rep):
                    bad("instantiate", f"instantiate_obj gives {diff(rep, inst)}", prm)
            except Exception as exc:  # pylint: disable=broad-except
                bad("error", f"{type(exc).__name__}: {exc}", prm)
            sigs.append(f"{name}/{json.dumps(plain(prm), sort_keys=True)}")
    elif task["mode"] == "behave":
        for prm in task["combos"]:
            full = {**required(name), **copy.deepcopy(prm), **({"random_state": 7} if has_rs else {})}
            try:
                rep = build(klass, full).get_params()
                rep_text = json.loads(json.dumps(rep))
                build(klass, rep)
                build(klass, rep_text)
            except Exception:  # pylint: disable=broad-except
                continue  # reported by the combination task, or a refused structured setting
            for dsname in task["datasets"]:
                one = result(klass, full, dsname)
                two = result(klass, rep, dsname)
                three = result(klass, rep_text, dsname)
                n += 3
                steps += 6
                if not same(one, two):
                    bad("behaviour", f"the object built from the report behaves differently on {dsname}", prm)
                if not same(one, three):
                    bad("behaviour", f"the object built from the JSON report behaves differently on {dsname}", prm)
            sigs.append(f"{name}/{plain(prm)}/behave")
    else:
        with open(DOMAIN, encoding="utf-8") as fh:
            table = json.load(fh).get(name, {})
        params = data.ctor_params(klass)
        for p, vals in candidates(klass, name).items():
            if p not in table or p not in params:
                continue
            for v in vals:
                n += 1
                steps += 1
                got = accepted(klass, name, p, v)
                want = any(type(w) is type(v) and w == v for w in table[p])
                if want and got != "yes":
                    bad("refused", f"allowed value {p}={v!r} refused ({got})", {p: v})
                if not want and got == "yes":
                    bad("accepted", f"value {p}={v!r} outside the documented domain accepted", {p: v})
                if not want and got not in ("yes", "no"):
                    bad("errortype", f"value {p}={v!r} refused with {got} instead of a value error", {p: v})
                sigs.append(f"{name}/{p}={v}/{got}")
    return {"n": n, "t": steps, "out": sigs, "v": viol}


def diff(a, b):
    a, b = plain(a), plain(b)
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def checker():
    """the shared validation helpers, over a grid of values and limits"""
    from smote_variants.base import OverSampling
    obj = OverSampling()
    grid = [-1, -0.5, 0, 0.5, 1, 2]
    rules = {
        "check_greater_or_equal": lambda v, lim: v >= lim, "check_greater": lambda v, lim: v > lim,
        "check_less_or_equal": lambda v, lim: v <= lim, "check_less": lambda v, lim: v < lim,
    }
    viol, n = [], 0

    def test(fname, args, want):
        nonlocal n
        n += 1
        fun = getattr(obj, fname, None)
        if fun is None:
            return
        try:
            fun(*args)
            got = True
        except ValueError:
            got = False
        if got != want:
            viol.append(dict(kind="checker", key={"cls": "ParametersMixin", "kind": "checker", "params": fname},
                             msg=f"{fname}{args} {'accepts' if got else 'refuses'}"))

    for v in grid:
        for lim in grid:
            for fname, rule in rules.items():
                test(fname, (v, "p", lim), rule(v, lim))
                test(fname + "_par", (v, "p", lim, "q"), rule(v, lim))
        for lo in grid:
            for hi in grid:
                if lo <= hi:
                    test("check_in_range", (v, "p", [lo, hi]), lo <= v <= hi)
                    test("check_out_range", (v, "p", [lo, hi]), not lo <= v <= hi)
        test("check_isin", (v, "p", [0, 1]), v in (0, 1))
    return {"n": n, "t": n, "out": [f"checker{i}" for i in range(len(rules) + 3)], "v": viol}
