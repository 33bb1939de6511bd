"""P23: the catalogue functions list exactly the methods matching the request."""
import inspect
import itertools
import json

import numpy as np

from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 1800}
RULE = ("every combination of filter values and every list size is asked and compared with the definition of the filter evaluated on the classes of the "
        "package one by one; every listed entry is constructed")
BOUNDS = {"quick": "all list sizes from 0 to beyond the catalogue for every query; 11 x 11 x 3 x 9 combinations of simplex filters; parameter shortlists for "
                   "every class, sizes 0-8 and 12, 3 seeds, 2 formats, and for lists of classes",
          "thorough": "the same with 12 seeds and sizes up to 40"}
ASSUMPTIONS = ["the catalogue is made of the public oversampler classes of the package apart from the pass-through NoSMOTE",
               "runtimes of equal value may come in either order"]


def tasks(tier):
    out = [{"part": p} for p in ("catalogue", "filters", "noise", "simplex")]
    n = 4 if tier == "quick" else 16
    for i in range(n):
        out.append({"part": "combinations", "shard": [i, n], "seeds": [5, 0, 9] if tier == "quick" else list(range(12)),
                    "sizes": list(range(9)) + [12] if tier == "quick" else list(range(41))})
    out.append({"part": "lists"})
    return out


def run(task):
    rep = Report(task["part"])
    globals()["do_" + task["part"]](rep, task)
    return rep.done()


def catalogue():
    """the classes by definition"""
    import smote_variants.oversampling as mod
    out = {}
    for name, cls in vars(mod).items():
        if inspect.isclass(cls) and hasattr(cls, "sample") and hasattr(cls, "categories") and hasattr(cls, "parameter_combinations") and name != "NoSMOTE":
            if cls.__name__ == name:
                out[name] = cls
    return out


def names(classes):
    return [c.__name__ for c in classes]


def check_list(rep, desc, got, want):
    """got: list of classes, want: set of classes"""
    g = names(got)
    if len(set(g)) != len(g):
        rep.bad(f"{desc}: listed twice: {sorted(n for n in set(g) if g.count(n) > 1)}", what="twice")
        return False
    if set(got) != set(want):
        rep.bad(f"{desc}: missing {sorted(set(names(want)) - set(g))}, not matching {sorted(set(g) - set(names(want)))}", what="set")
        return False
    return True


def check_sizes(rep, desc, query, full):
    """all list sizes of a query"""
    from smote_variants.queries._runtimes import runtimes
    rt = {c: runtimes[c.__name__] for c in full}
    prev = set()
    for n in range(0, len(full) + 3):
        rep.n += 1
        ok, got = rep.call(query, n, what=f"{desc} n_quickest={n}")
        if not ok:
            return
        if len(got) != min(n, len(full)) or len(set(got)) != len(got) or not set(got) <= set(full):
            rep.bad(f"{desc} n_quickest={n}: {names(got)}", what="size")
            return
        rest = set(full) - set(got)
        if got and rest and max(rt[c] for c in got) > min(rt[c] for c in rest):
            rep.bad(f"{desc} n_quickest={n}: not the quickest: {names(got)}", what="quickest")
            return
        if not prev <= set(got):
            rep.bad(f"{desc} n_quickest={n}: drops {names(prev - set(got))} of the shorter list", what="nested")
            return
        prev = set(got)
        rep.out.add((desc, n))
    ok, got = rep.call(query, -1, what=f"{desc} n_quickest=-1")
    if ok:
        check_list(rep, desc + " n_quickest=-1", got, full)


def do_catalogue(rep, _task):
    import smote_variants as sv
    cat = catalogue()
    ok, got = rep.call(sv.get_all_oversamplers, what="get_all_oversamplers")
    if not ok or not check_list(rep, "get_all_oversamplers", got, cat.values()):
        return
    check_sizes(rep, "get_all_oversamplers", lambda n: sv.get_all_oversamplers(n_quickest=n), list(cat.values()))
    got.clear()  # the caller owns the list
    ok, again = rep.call(sv.get_all_oversamplers, what="get_all_oversamplers again")
    if ok:
        check_list(rep, "get_all_oversamplers after clearing an earlier answer", again, cat.values())
    for name, cls in cat.items():
        rep.n += 1
        if getattr(sv, name, None) is not cls:
            rep.bad(f"{name} cannot be reached by its name", what="name")
            continue
        ok, par = rep.call(lambda: cls().get_params(), what=name)
        if ok and par.get("class_name") != name:
            rep.bad(f"{name} reports class name {par.get('class_name')}", what="name")
        if ok:
            ok, par2 = rep.call(lambda: getattr(sv, par["class_name"])(**par).get_params(), what=f"{name} from its parameters")
            if ok and par2 != par:
                rep.bad(f"{name} from its parameters reports others", what="params")
        rep.out.add(name)


def do_filters(rep, _task):
    import smote_variants as sv
    from smote_variants.base import OverSampling
    cat = catalogue()
    prop = [c for c in cat.values() if "proportion" in c().get_params()]
    metric = [c for c in cat.values() if OverSampling.cat_metric_learning in c.categories]
    multi = [c for c in prop if OverSampling.cat_changes_majority not in c.categories and OverSampling.cat_dim_reduction not in c.categories]
    check_sizes(rep, "get_proportion_oversamplers", lambda n: sv.get_proportion_oversamplers(n_quickest=n), prop)
    check_sizes(rep, "get_metric_learning_oversamplers", lambda n: sv.get_metric_learning_oversamplers(n_quickest=n), metric)
    for strategy in ("eq_1_vs_many_successive", "equalize_1_vs_many"):
        check_sizes(rep, f"get_multiclass_oversamplers {strategy}", lambda n: sv.get_multiclass_oversamplers(strategy=strategy, n_quickest=n), multi)
    check_sizes(rep, "get_multiclass_oversamplers", lambda n: sv.get_multiclass_oversamplers(n_quickest=n), multi)
    for label, query in (("proportion", sv.get_proportion_oversamplers), ("metric learning", sv.get_metric_learning_oversamplers), ("multiclass", sv.get_multiclass_oversamplers)):
        rep.n += 1
        ok, got = rep.call(query, what=label)
        if ok:
            check_list(rep, label, got, {"proportion": prop, "metric learning": metric, "multiclass": multi}[label])


def do_noise(rep, _task):
    import smote_variants as sv
    import smote_variants.noise_removal as nr
    want = [c for n, c in vars(nr).items() if inspect.isclass(c) and issubclass(c, nr.NoiseFilter) and c is not nr.NoiseFilter]
    for _ in range(2):
        rep.n += 1
        ok, got = rep.call(sv.get_all_noisefilters, what="get_all_noisefilters")
        if ok and check_list(rep, "get_all_noisefilters", got, want):
            for cls in got:
                rep.n += 1
                rep.call(lambda: cls(**cls().get_params()), what=cls.__name__)
                rep.out.add(cls.__name__)
            got.clear()


def do_simplex(rep, _task):
    import smote_variants as sv
    from smote_variants.base import SimplexSamplingMixin
    classes = [c for c in catalogue().values() if "ss_params" in inspect.signature(c).parameters]
    par = {}
    for c in classes:
        o = c()
        p = o.get_params().get("ss_params") or getattr(o, "ss_params", None) or SimplexSamplingMixin.get_params(o)["ss_params"]
        par[c] = p
    within = [None, "random", "deterministic", [], ["random"], ["deterministic"], ["random", "deterministic"], "nothing", ["nothing"], ("random",), ["nothing", "deterministic"]]
    dims = [None, 2, 3, 4, [2], [3, 4], [2, 3, 4], [], range(2, 4)]

    def is_in(value, spec):
        return value == spec if isinstance(spec, (str, int)) else value in spec
    for w, e, g, d in itertools.product(within, within, (None, True, False), dims):
        rep.n += 1
        want = [c for c in classes
                if (w is None or is_in(par[c]["within_simplex_sampling"], w)) and (e is None or not is_in(par[c]["within_simplex_sampling"], e))
                and (g is None or bool(par[c]["gaussian_component"]) == g) and (d is None or is_in(par[c]["n_dim"], d))]
        desc = f"simplex within={w} exclude={e} gaussian={g} n_dim={d}"
        kw = dict(within_simplex_sampling=w, exclude_within_simplex_sampling=e, with_gaussian_component=g, n_dim_range=d)
        ok, got = rep.call(sv.get_simplex_sampling_oversamplers, what=desc, **kw)
        if not ok or not check_list(rep, desc, got, want):
            return
        rep.out.add(str(sorted(names(got))))
        if e is None and not isinstance(w, (list, tuple)):
            check_sizes(rep, desc, lambda n: sv.get_simplex_sampling_oversamplers(n_quickest=n, **kw), want)
            if rep.viol:
                return


def canon(p):
    return json.dumps(p, sort_keys=True, default=str)


def check_combinations(rep, classes, size, seed, desc):
    import smote_variants as sv
    from smote_variants.base import instantiate_obj
    rep.n += 1
    gen = lambda fmt: sv.generate_parameter_combinations(classes, n_max_comb=size, result_format=fmt, random_seed=seed)  # noqa: E731
    state = np.random.get_state()[1].tolist()
    ok, val = rep.call(lambda: (gen("dict"), gen("dict"), gen("smote_variants")), what=desc)
    if not ok:
        return False
    if np.random.get_state()[1].tolist() != state:
        rep.bad(f"{desc}: the global random state was used", what="global state")
        return False
    a, b, c = val
    if [canon(p) for p in a] != [canon(p) for p in b] or [("smote_variants", p["class_name"], canon(p)) for p in a] != [(m, n, canon(p)) for m, n, p in c]:
        rep.bad(f"{desc}: formats or repetitions differ", what="formats")
        return False
    pos = 0
    for cls in classes:
        allowed = [canon(cls(**pc).get_params()) for pc in cls.parameter_combinations()]
        n = min(size, len(allowed))
        part = a[pos: pos + n]
        pos += n
        if len(part) != n or any(p["class_name"] != cls.__name__ for p in part):
            rep.bad(f"{desc}: {len(part)} settings of {cls.__name__} instead of {n}", what="number")
            return False
        left = list(allowed)
        for p in part:
            if canon(p) not in left:
                rep.bad(f"{desc}: setting {p} of {cls.__name__} is not offered (or listed too often)", what="offered")
                return False
            left.remove(canon(p))
    if pos != len(a):
        rep.bad(f"{desc}: {len(a)} settings instead of {pos}", what="number")
        return False
    for m, n, p in c[:3]:
        ok, obj = rep.call(instantiate_obj, (m, n, p), what=f"{desc}: {n}")
        if not ok or canon(obj.get_params()) != canon(p):
            rep.bad(f"{desc}: {n} constructed from {p} reports {obj and obj.get_params()}", what="construct")
            return False
    return True


def do_combinations(rep, task):
    i, n = task["shard"]
    for cls in [c for _, c in sorted(catalogue().items())][i::n]:
        n_all = len(cls.parameter_combinations())
        chosen = set()
        for seed in task["seeds"]:
            for size in task["sizes"] if seed == task["seeds"][0] else (1, 3, n_all, n_all + 1):
                if not check_combinations(rep, [cls], size, seed, f"{cls.__name__} {size} settings, seed {seed}"):
                    return
                chosen.add(size)
        rep.out.add((cls.__name__, len(chosen)))


def do_lists(rep, _task):
    import smote_variants as sv
    full = sv.get_all_oversamplers()
    for classes in ([], full[:1], full[:2], full[1::-1], full[10:14], full[::9], [full[0], full[0]]):
        for size in (0, 1, 2, 7):
            if not check_combinations(rep, list(classes), size, 5, f"{names(classes)} {size} settings"):
                return
            rep.out.add((str(names(classes)), size))
