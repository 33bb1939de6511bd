"""The space the oversampler properties have in common: oversampler x setting x dataset, array layouts, and one
deviating answer of the random number generator."""
from vlib import data
from vlib.rng import PATTERNS, ScriptedState

RULE = ("execution = one sample() call of a fresh object; space: oversampler x settings deviating in <=1 (thorough 2) "
        "parameters from the default x dataset family (all placements of a few points on a few places, duplicated, collinear, constant, separated, balanced, large), "
        "array layouts, and default settings x one deviating (extreme) random number answer at every call position up to "
        "the bound; state = distinct result, transition = library call or random number request")
BOUNDS = {"quick": "1 parameter deviation, 26 datasets, 5 array layouts; all placements of 4+3 and 5+2 points on 3 planar and 3 collinear places, class sizes 1..8 x 1..15; 1 RNG deviation among the first 8 calls x 4 patterns, 2 datasets",
          "thorough": "2 parameter deviations, 26 datasets, 5 layouts; all placements also of 5+3 points on 4 and 6+4 points on 3 places; 1 RNG deviation among the first 40 calls x 4 patterns, 6 datasets"}
ASSUMPTIONS = ["numeric finite input, two integer classes",
               "the scripted generator answers one call with an extreme value (2^-30, 1-2^-30, first/last choice, "
               "+-3 sigma) and all others from a seeded generator",
               "DEAGO (tensorflow autoencoder), DSRBF and AMSCO take seconds per call and are run in the thorough tier only"]
SMALL = ("gen", "sep", "dupmin", "m1", "m2", "bal2", "hi")


def space(tier, names=None, rng=True, props=(0.1, 0.5, 1.0, 2.0), layouts=True, dsets=None, small=SMALL,
          n_pos=None, slow=None, tiny=True):
    out = []
    slow = slow or (3.0 if tier == "quick" else 30.0)
    for name in data.oversampler_names(slow):
        if names is not None and name not in names:
            continue
        cost = data.SLOW.get(name, 0.05)
        use = [d for d in (dsets or data.NAMED)]
        if cost >= 1.0:
            keep = ["gen", "m1", "m2", "bal", "dupmin"] if tier == "quick" else \
                ["gen", "sep", "one_d", "dupmin", "m1", "m2", "m3", "bal", "big", "const"]
            use = [d for d in keep if d in use]
        if cost > 3.0:
            use = use[:4]
        devs = data.deviations(name, props)
        if cost >= 1.0 and tier == "quick":
            devs = devs[:1] + [d for d in devs[1:] if "proportion" in d][:2]
        if name == "DEAGO":
            devs, use = [{}], use[:2]
        for prm in devs:
            here = use
            if tier == "quick" and cost < 1.0:
                if set(prm) & {"ss_params", "nn_params"}:
                    here = [d for d in use if d in small]
                elif prm:
                    here = [d for d in use if d not in data.BIG]
            out.append({"mode": "cfg", "cls": name, "params": prm, "datasets": here})
        if cost < 1.0:
            if layouts:
                out.append({"mode": "layout", "cls": name, "params": {}, "datasets": ["gen", "hi"]})
            if tiny:
                some = name in ("SMOTE_PSO", "E_SMOTE", "SMOTE_AMSR")
                sets = data.tiny(tier, 0 if some and tier == "quick" else 1)
                size = 40 if some else 140
                for i in range(0, len(sets), size):
                    out.append({"mode": "cfg", "cls": name, "params": {}, "datasets": sets[i:i + size]})
            if tier == "thorough":
                for prm in data.pairs(name, 60):
                    out.append({"mode": "cfg", "cls": name, "params": prm, "datasets": [d for d in use if d not in data.BIG]})
            if rng:
                pos, rds = (8, ["gen", "m3"]) if tier == "quick" else (40, ["gen", "m3", "sep", "m2", "lattice", "dup2"])
                for dsname in rds:
                    out.append({"mode": "rng", "cls": name, "dataset": dsname, "n_pos": n_pos or pos})
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.05) * len(t.get("datasets", range(8))))
    return out


def explore(task, judge):
    """judge(name, params, dataset name, object, X, y, tag) -> (violations, signature)"""
    name = task["cls"]
    viol, sigs, n, steps = [], [], 0, 0
    if task["mode"] in ("cfg", "layout"):
        prm = task["params"]
        extra = bool(set(prm) & {"ss_params", "nn_params"})
        for dsname in task["datasets"]:
            X, y = data.DS[dsname]
            variants = {"": (X, y)} if task["mode"] == "cfg" else data.forms(X, y)
            for tag, (Xv, yv) in variants.items():
                try:
                    obj = data.make(name, prm)
                except Exception as exc:  # pylint: disable=broad-except
                    if extra and isinstance(exc, ValueError):
                        break  # a setting this method refuses
                    viol.append(dict(kind="ctor", msg=f"{name}({prm}): {type(exc).__name__}: {exc}",
                                     key={"cls": name, "params": str(prm), "kind": "ctor"}))
                    break
                v, sig = judge(name, prm, dsname, obj, Xv, yv, tag)
                viol += v
                sigs.append(f"{name}/{sig}")
                n += 1
                steps += 3
    else:
        X, y = data.DS[task["dataset"]]
        rs = ScriptedState(5)
        obj = data.make(name, {}, rs)
        v, sig = judge(name, {}, task["dataset"], obj, X, y, "rng-base")
        viol += v
        sigs.append(f"{name}/{sig}")
        n, steps = 1, rs.calls + 2
        for pos in range(min(rs.calls, task["n_pos"])):
            for pat in PATTERNS:
                st = ScriptedState(5, pos, pat)
                obj = data.make(name, {}, st)
                v, sig = judge(name, {}, task["dataset"], obj, X, y, f"rng@{pos}:{pat}")
                viol += v
                sigs.append(f"{name}/{sig}")
                n += 1
                steps += st.calls + 2
    return {"n": n, "t": steps, "out": sigs, "v": viol}


class Bad:
    """collects violations with the common key"""

    def __init__(self, name, params, dsname, tag):
        self.key = {"cls": name, "dataset": dsname, "params": str(params), "tag": tag}
        self.head = f"{name}({params}) on {dsname} {tag}"
        self.viol = []

    def __call__(self, kind, msg):
        self.viol.append(dict(kind=kind, key={**self.key, "kind": kind}, msg=f"{self.head}: {msg}"))
