"""P21: summary tables average exactly the folds of a candidate; model selection returns the best candidate."""
import itertools
import json
import math
import os
import shutil
import tempfile
from ast import literal_eval

import numpy as np

from vlib import evalref
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 3000}
RULE = ("state = (score of every candidate in every fold, order of the candidates, chosen score, storage): every such table over a small grid is pushed "
        "through the real aggregation and through complete model selections with classifiers of prescribed quality, and compared with plain means and maxima")
BOUNDS = {"quick": "tables of 1-3 candidates x 1-3 folds over 4 score values (incl. undefined), every order of the records; model selections over all "
                   "tables of 2 oversamplers x 2 classifiers x 2 folds with 2 qualities, all orders of 2 x 3 candidates, every score name",
          "thorough": "4 score values with 4 candidates, 3 qualities"}
ASSUMPTIONS = ["on a tie any of the best candidates may be returned", "both classes occur in every fold"]


class Prescribed:
    """classifier whose number of wrong predictions is read from a table indexed by (training rows, fold)"""

    def __init__(self, table=None, name=None):
        self.table, self.name = table, name

    def fit(self, X, _y):
        self.n = len(X)
        return self

    def predict_proba(self, X):
        truth = X[:, 0] > 0.5
        fold = "a" if np.any(np.abs(X[:, 1]) < 1e-9) else "b"
        wrong = 0
        for n, f, w in self.table:
            if n == self.n and f == fold:
                wrong = w
        p = np.where(truth, 0.8, 0.2)
        order = np.argsort(X[:, 1])
        p[order[:wrong]] = 1 - p[order[:wrong]] + 0.01
        return np.vstack([1 - p, p]).T

    def get_params(self, deep=False):
        _ = deep
        return {"table": self.table, "name": self.name}


def tasks(tier):
    quick = tier == "quick"
    out = []
    for cand in range(1, 4 if quick else 5):
        for folds in range(1, 4 if cand < 3 else 3):
            out.append({"part": "table", "cand": cand, "folds": folds})
    for i in range(8):
        out.append({"part": "selection", "levels": 2 if quick else 3, "shard": i})
    for fmt in (None, "json", "pickle"):
        for part in range(3):
            out.append({"part": "orders", "fmt": fmt, "shard": part})
    for fmt in (None, "json", "pickle"):
        out.append({"part": "real", "fmt": fmt})
    out.append({"part": "summary"})
    out.append({"part": "cache"})
    return out


def run(task):
    rep = Report(task["part"])
    scratch = tempfile.mkdtemp(prefix="verif_p21_")
    try:
        globals()["do_" + task["part"]](rep, task, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.done()


# -- aggregation of given records ---------------------------------------------------------------------------------------
CANDS = [("SMOTE", {"class_name": "SMOTE", "proportion": 1.0}, "m1", "A", {"k": 1}), ("SMOTE", {"class_name": "SMOTE", "proportion": 0.5}, "m1", "A", {"k": 1}),
         ("SMOTE", {"class_name": "SMOTE", "proportion": 1.0}, "m1", "A", {"k": 2}), ("SMOTE", {"class_name": "SMOTE", "proportion": 1.0}, "m2", "A", {"k": 1})]
GRID = [0.0, 0.25, 1.0, None]


def record(cand, fold, value, dataset="d"):
    from smote_variants.base import all_scores
    return {"fold_descriptor": {"name": dataset, "fold_idx": fold % 2, "repeat_idx": fold // 2, "split_idx": fold},
            "oversampler": cand[0], "oversampler_params": dict(cand[1]), "oversampler_module": "smote_variants",
            "oversampling_error": None, "oversampling_warning": None, "oversampling_runtime": 0.1, "runtime": 0.1,
            "classifier_module": cand[2], "classifier": cand[3], "classifier_params": dict(cand[4]),
            "scores": {s: (None if value is None else value + 10.0 * j) for j, s in enumerate(all_scores)},
            "y_pred": [0.1 * fold], "y_test": [fold], "error": None, "warning": None}


def number(x):
    if x is None:
        return None
    x = float(x)
    return None if math.isnan(x) else x


def means(values):
    vals = [v for v in values if v is not None]
    if not vals:
        return None, None
    m = sum(vals) / len(vals)
    return m, math.sqrt(sum((v - m) ** 2 for v in vals) / (len(vals) - 1)) if len(vals) > 1 else None


def row_key(row):
    return (row["dataset"], row["oversampler_module"], row["oversampler"], str(row["oversampler_params"]), row["classifier_module"], row["classifier"],
            str(row["classifier_params"]))


def check_table(rep, recs, pdf, desc):
    """pdf against the plain means of recs"""
    from smote_variants.base import all_scores
    groups = {}
    for r in recs:
        groups.setdefault((r["fold_descriptor"]["name"], r["oversampler_module"], r["oversampler"], str(r["oversampler_params"]), r["classifier_module"],
                           r["classifier"], str(r["classifier_params"])), []).append(r)
    rows = [row for _, row in pdf.iterrows()]
    keys = [row_key(row) for row in rows]
    if sorted(keys) != sorted(groups):
        rep.bad(f"{desc}: rows {sorted(keys)} instead of {sorted(groups)}", what="rows")
        return False
    for row in rows:
        for s in all_scores:
            mean, std = means([number(r["scores"][s]) for r in groups[row_key(row)]])
            for got, want, name in ((number(row[f"{s}_mean"]), mean, "mean"), (number(row[f"{s}_std"]), std, "std")):
                if (got is None) != (want is None) or (got is not None and abs(got - want) > 1e-9):
                    rep.bad(f"{desc}: {s}_{name} of {row_key(row)} is {got} instead of {want}", what=name)
                    return False
    return True


def do_table(rep, task, scratch):
    from smote_variants.evaluation import do_parse_results
    n, f = task["cand"], task["folds"]
    grid = GRID if n * f <= 4 else [0.0, 1.0, None] if n * f <= 6 else [0.0, 1.0]
    for idx, vals in enumerate(itertools.product(grid, repeat=n * f)):
        if all(v is None for v in vals):
            continue
        recs = [record(CANDS[c], k, vals[c * f + k], dataset="d" if c < 3 else "e") for c in range(n) for k in range(f)]
        shuffled = [recs[::-1], recs[1::2] + recs[::2], recs][idx % 3]
        rep.n += 1
        ok, pdf = rep.call(do_parse_results, [json.loads(json.dumps(r)) for r in shuffled], True, "json", what=f"table {vals}")
        if not ok or not check_table(rep, recs, pdf, f"table {vals}"):
            return
        rep.out.add(str(vals))
        if idx % 50 == 0:  # the same from files
            files = []
            for k, r in enumerate(shuffled):
                files.append(os.path.join(scratch, f"evaluation_{k}.json"))
                with open(files[-1], "w", encoding="utf-8") as fh:
                    json.dump(r, fh)
            ok, pdf = rep.call(do_parse_results, files, True, "json", what=f"table {vals} from files")
            if not ok or not check_table(rep, recs, pdf, f"table {vals} from files"):
                return
            ok, same = rep.call(do_parse_results, files, False, "json", what="unparsed")
            if ok and same != files:
                rep.bad("unparsed results are changed", what="unparsed")
    if n * f <= 4:  # every order of the records
        vals = [0.1, 0.7, 0.4, 0.9][: n * f]
        recs = [record(CANDS[c], k, vals[c * f + k]) for c in range(n) for k in range(f)]
        for perm in itertools.permutations(recs):
            rep.n += 1
            ok, pdf = rep.call(do_parse_results, [dict(r) for r in perm], True, "json", what="order")
            if not ok or not check_table(rep, recs, pdf, "record order"):
                return


# -- complete selections ------------------------------------------------------------------------------------------------
def dataset():
    """feature 0 is the class, feature 1 the row number"""
    y = np.array([0] * 12 + [1] * 8)
    order = np.random.RandomState(3).permutation(20)
    y = y[order]
    return {"data": np.vstack([y.astype(float), np.arange(20.0), np.random.RandomState(5).normal(size=20)]).T, "target": y, "name": "sel", "DESCR": "sel"}


VP = {"n_repeats": 1, "n_splits": 2, "random_state": 5}
# training rows: 10 as they are, 12 when balanced (6 majority, 4 minority), 11 with half the difference
OVERS = {10: ("smote_variants", "NoSMOTE", {"random_state": 5}), 12: ("smote_variants", "SMOTE", {"random_state": 5}),
         11: ("smote_variants", "SMOTE", {"random_state": 5, "proportion": 0.5})}


def select(overs, clfs, score, **kw):
    from smote_variants.evaluation import model_selection
    sink = open(os.devnull, "w", encoding="utf-8")
    import contextlib
    with sink, contextlib.redirect_stdout(sink):
        return model_selection(dataset(), overs, clfs, score=score, validator_params=VP, scaler=None, **kw)


def matches(got, overs, clfs):
    """index of the candidate that was returned, or a message"""
    sampler, clf = got
    oi = [i for i, o in enumerate(overs) if type(sampler).__name__ == o[1] and all(sampler.get_params().get(k) == v for k, v in o[2].items())
          and sampler.get_params() == evalref.build(o).get_params()]
    ci = [i for i, c in enumerate(clfs) if type(clf).__name__ == c[1] and all(clf.get_params().get(k) == v for k, v in c[2].items())]
    return oi, ci


def best(ref_scores, score):
    vals = {k: means([s[score] for s in v])[0] for k, v in ref_scores.items()}
    vals = {k: v for k, v in vals.items() if v is not None}
    top = max(vals.values())
    return [k for k, v in vals.items() if v >= top - 1e-9], vals


def reference_scores(overs, clfs):
    """{(oversampler index, classifier index): [scores per fold]} from a plain run"""
    from smote_variants.base import calculate_all_scores
    ref = evalref.reference(dataset(), overs, clfs, None, VP)
    out = {}
    for (o, c), _ in itertools.product(itertools.product(range(len(overs)), range(len(clfs))), [0]):
        full = evalref.canon({**overs[o][2], **evalref.build(overs[o]).get_params()})
        recs = [r for k, r in ref.items() if k[3] == overs[o][1] and k[4] == full and k[5] == clfs[c][0] + "." + clfs[c][1] and k[6] == evalref.canon(clfs[c][2])]
        out[(o, c)] = [{k: number(v) for k, v in calculate_all_scores(r["y_test"], r["y_pred"]).items()} for r in recs]
    return out


def check_selection(rep, overs, clfs, score, desc, scores=None, **kw):
    rep.n += 1
    ok, got = rep.call(select, overs, clfs, score, what=desc, **kw)
    if not ok:
        return False
    scores = scores or reference_scores(overs, clfs)
    tops, vals = best(scores, score)
    ok, oc = rep.call(matches, got, overs, clfs, what=desc)
    if not ok:
        return False
    if not any((o, c) in tops for o in oc[0] for c in oc[1]):
        rep.bad(f"{desc}: returned candidate {oc} ({type(got[0]).__name__} {got[0].get_params().get('proportion')}, {got[1].get_params()}); the best by {score} is {tops} of {vals}",
                what="selection", score=score)
        return False
    rep.out.add((str(tops), score))
    return True


def fixed(levels, name, overs=(10, 12)):
    """a classifier with levels[training rows][fold] wrong predictions"""
    return ("checks.p21", "Prescribed", {"table": [[n, f, levels[i * 2 + j]] for i, n in enumerate(overs) for j, f in enumerate("ab")], "name": name})


def do_selection(rep, task, _scratch):
    for idx, cells in enumerate(itertools.product([0, 3, 5][: task["levels"]], repeat=8)):
        if idx % 8 != task["shard"]:
            continue
        clfs = [fixed(cells[:4], "first"), fixed(cells[4:], "second")]
        overs = [OVERS[10], OVERS[12]]
        if not check_selection(rep, overs, clfs, ("auc", "acc", "brier")[idx // 8 % 3], f"qualities {cells}"):
            return


def do_orders(rep, task, scratch):
    from smote_variants.base import all_scores
    overs = [OVERS[10], OVERS[12], OVERS[11]]
    keys = (10, 12, 11)
    clfs = [fixed([4, 3, 2, 2, 1, 2], "first", keys), fixed([0, 5, 3, 1, 0, 1], "second", keys), ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5, "max_depth": 1})]
    combos = [(po, pc) for po in itertools.permutations(range(3)) for pc in itertools.permutations(range(3))]
    for idx, (po, pc) in enumerate(combos):
        if idx % 3 != task["shard"]:
            continue
        o2, c2 = [overs[i] for i in po], [clfs[i] for i in pc]
        kw = {} if task["fmt"] is None else dict(cache_path=tempfile.mkdtemp(dir=scratch), serialization=task["fmt"])
        scores = reference_scores(o2, c2)
        for score in (all_scores if idx < 3 else ["auc", "f1"]):
            if not any(s[score] is not None for v in scores.values() for s in v):
                continue
            if not check_selection(rep, o2, c2, score, f"orders {po} {pc} {task['fmt']} by {score}", scores, **kw):
                return


def do_real(rep, task, scratch):
    """ordinary classifiers, all subsets of candidates, and the table of a whole evaluation"""
    from smote_variants.evaluation import evaluate_oversamplers
    clfs = [("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}), ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3, "weights": "distance"}),
            ("sklearn.naive_bayes", "GaussianNB", {})]
    overs = list(OVERS.values()) + [("smote_variants", "SMOTE", {"random_state": 6, "ss_params": {"n_dim": 2, "simplex_sampling": "random",
                                                                                                  "within_simplex_sampling": "random", "gaussian_component": {}}})]
    for no in range(1, len(overs) + 1):
        for nc in range(1, len(clfs) + 1):
            kw = {} if task["fmt"] is None else dict(cache_path=tempfile.mkdtemp(dir=scratch), serialization=task["fmt"])
            for score in ("auc", "f1", "mcc"):
                if not check_selection(rep, overs[:no], clfs[:nc], score, f"{no} x {nc} candidates {task['fmt']} by {score}", **kw):
                    return
    dss = [dataset(), evalref.make_dataset("other", 13, 8, 2, 4)]
    kw = {} if task["fmt"] is None else dict(cache_path=tempfile.mkdtemp(dir=scratch), serialization=task["fmt"])
    rep.n += 1
    ok, val = rep.call(lambda: (evaluate_oversamplers(dss, overs, clfs, validator_params=VP, parse_results=True, verbosity=0, **kw),
                                evalref.load(evaluate_oversamplers(dss, overs, clfs, validator_params=VP, parse_results=False, verbosity=0, **kw))), what="evaluation table")
    if ok and check_table(rep, val[1], val[0], "evaluation table"):
        for _, row in val[0].iterrows():
            ok, _ = rep.call(lambda: (literal_eval(row["oversampler_params"]), literal_eval(row["classifier_params"])), what="parameters in the table")
            if not ok:
                return


def do_summary(rep, _task, _scratch):
    import pandas as pd
    from smote_variants.evaluation import create_summary
    cands = CANDS + [("NoSMOTE", {"class_name": "NoSMOTE"}, "m1", "A", {"k": 1}),
                     ("SMOTE", {"class_name": "SMOTE", "ss_params": {"within_simplex_sampling": "deterministic"}}, "m1", "A", {"k": 1})]
    for size in (1, 2, 3):
        for chosen in itertools.combinations(range(len(cands)), size):
            for folds in (1, 2, 4, 6):
                recs = [record(cands[c], k, 0.01 * (10 * c + k)) for c in chosen for k in range(folds)]
                for order in (recs, recs[::-1], recs[1::2] + recs[::2]):
                    rep.n += 1
                    desc = f"summary of candidates {chosen}, {folds} folds"
                    ok, pdf = rep.call(lambda: create_summary(pd.DataFrame([json.loads(json.dumps(r)) for r in order]), scores=["auc", "acc"],
                                                              columns_to_serialize=["auc", "acc", "y_pred", "y_test", "oversampling_runtime"]), what=desc)
                    if not ok:
                        return
                    want = {}
                    for r in recs:
                        want.setdefault((r["oversampler"], str(r["oversampler_params"]), r["classifier_module"], r["classifier"], str(r["classifier_params"])), []).append(
                            (r["scores"]["auc"], r["scores"]["acc"], r["y_pred"][0], r["y_test"][0]))
                    got = {}
                    for _, row in pdf.iterrows():
                        got[(row["oversampler"], str(row["oversampler_params"]), row["classifier_module"], row["classifier"], str(row["classifier_params"]))] = list(
                            zip(row["auc"], row["acc"], [p[0] for p in row["y_pred"]], [t[0] for t in row["y_test"]]))
                    if len(pdf) != len(want) or set(got) != set(want):
                        rep.bad(f"{desc}: rows {sorted(got)} instead of {sorted(want)}", what="summary rows")
                        return
                    for k, v in want.items():
                        if sorted(got[k]) != sorted(v):
                            rep.bad(f"{desc}: {k} lists {got[k]} instead of {v}", what="summary values")
                            return
                    rep.out.add((chosen, folds))


def do_cache(rep, _task, scratch):
    """the stored records are found again: all of them, by dataset"""
    from smote_variants.evaluation import datasets_in_cache, evaluate_oversamplers, load_dataset_data
    dss = [dataset(), evalref.make_dataset("other", 13, 8, 2, 4)]
    clfs = [("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}), ("sklearn.naive_bayes", "GaussianNB", {})]
    for fmt in ("json", "pickle"):
        for n in (1, 2):
            for clean in ("oversamplings", "all", "none"):
                cache = tempfile.mkdtemp(dir=scratch)
                rep.n += 1

                def go():
                    recs = evalref.load(evaluate_oversamplers(dss[:n], list(OVERS.values()), clfs, cache_path=cache, serialization=fmt, clean_up=clean,
                                                              validator_params=VP, parse_results=False, verbosity=0))
                    where = datasets_in_cache(cache)
                    return recs, where, {k: load_dataset_data(p) for k, p in where.items()}
                ok, val = rep.call(go, what=f"cache {fmt} {clean}")
                if not ok:
                    return
                recs, where, data = val
                if set(where) != {d["name"] for d in dss[:n]}:
                    rep.bad(f"datasets in the cache: {sorted(where)}", what="cache")
                    return
                for name, pdf in data.items():
                    want = sorted(str(evalref.record_key(r)) for r in recs if r["fold_descriptor"]["name"] == name)
                    got = sorted(str(evalref.record_key(row)) for _, row in pdf.iterrows())
                    if want != got:
                        rep.bad(f"cache {fmt} {clean}: {name} has {len(got)} stored records instead of {len(want)}", what="cache")
                        return
                rep.out.add((fmt, n, clean))
