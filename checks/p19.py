"""P19: cached results are reused only for the very same request (search over histories of evaluations in one directory)."""
import itertools
import json
import os
import pickle
import shutil
import tempfile

import numpy as np

from vlib import evalref
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 3000}
RULE = ("depth-first search over all sequences of evaluations (alphabet below) sharing one cache directory; after every step the records returned are "
        "compared with an independent plain run of that step's request alone; clean-up, recomputation and time-out substitutes are explored the same way")
BOUNDS = {"quick": "alphabet of 17 evaluations differing in one component each (oversampler, its parameters, classifier, its parameters, scaler, validator, "
                   "data, dataset, order, format); all sequences of length 2 in 2 formats x 3 clean-up modes, length 3 over an alphabet of 7",
          "thorough": "all sequences of length 3 over 17 evaluations, length 4 over 7"}
ASSUMPTIONS = ["oversamplers and classifiers are seeded", "a time-out does not belong to the request", "runtimes, warnings and file names are not compared"]

S = ("sklearn.preprocessing", "StandardScaler", {})
M = ("sklearn.preprocessing", "MinMaxScaler", {})
K1 = ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1})
K3 = ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3})
RN = ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3, "weights": "distance"})
DT = ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5})
GN = ("sklearn.naive_bayes", "GaussianNB", {})


def sm(name="SMOTE", **kw):
    return ("smote_variants", name, {"random_state": 5, **kw})


VP = {"n_repeats": 1, "n_splits": 2, "random_state": 5}
BASE = dict(ds="a", overs=[sm()], clfs=[K3], scaler=S, vp=VP)
ALPHABET = {
    "base": {}, "proportion": dict(overs=[sm(proportion=0.5)]), "neighbors": dict(overs=[sm(n_neighbors=2)]), "seed": dict(overs=[sm(random_state=6)]),
    "method": dict(overs=[sm("Borderline_SMOTE1")]), "nosmote": dict(overs=[sm("NoSMOTE")]), "classifier": dict(clfs=[GN]), "clf_params": dict(clfs=[K1]),
    "clf_more": dict(clfs=[RN]), "minmax": dict(scaler=M), "unscaled": dict(scaler=None), "validator_seed": dict(vp={**VP, "random_state": 8}),
    "splits": dict(vp={**VP, "n_splits": 3}), "repeats": dict(vp={**VP, "n_repeats": 2}), "data": dict(ds="b"), "dataset": dict(ds="c"),
    "several": dict(overs=[sm("NoSMOTE"), sm(), sm(proportion=0.5)], clfs=[DT, K3, K1]),
}
SMALL = ["base", "proportion", "classifier", "minmax", "splits", "data", "several"]
DATASETS = {"a": evalref.make_dataset("alpha", 9, 6, 2, 3), "b": evalref.make_dataset("alpha", 9, 6, 2, 4), "c": evalref.make_dataset("gamma", 9, 6, 2, 5)}
_REF = {}


def tasks(tier):
    quick = tier == "quick"
    out = []
    for fmt in ("json", "pickle"):
        for clean in ("oversamplings", "all", "none"):
            for first in ALPHABET:
                out.append({"part": "history", "fmt": fmt, "clean": clean, "first": [first], "names": list(ALPHABET), "depth": 2 if quick else 3})
        for first in SMALL:
            if quick:
                out.append({"part": "history", "fmt": fmt, "clean": "oversamplings", "first": [first], "names": SMALL, "depth": 3})
            else:
                for second in SMALL:
                    for clean in ("oversamplings", "none"):
                        out.append({"part": "history", "fmt": fmt, "clean": clean, "first": [first, second], "names": SMALL, "depth": 4})
        out.append({"part": "reuse", "fmt": fmt})
        out.append({"part": "reset", "fmt": fmt})
        out.append({"part": "timeout", "fmt": fmt})
    out.append({"part": "formats"})
    out.append({"part": "cleanup"})
    return out


def request(name):
    return {**BASE, **ALPHABET[name]}


def reference(name):
    if name not in _REF:
        r = request(name)
        _REF[name] = evalref.reference(DATASETS[r["ds"]], r["overs"], r["clfs"], r["scaler"], r["vp"])
    return _REF[name]


def evaluate(name, cache, fmt, clean):
    from smote_variants.evaluation import evaluate_oversamplers
    r = request(name)
    ds = DATASETS[r["ds"]]
    return evaluate_oversamplers([dict(ds, data=ds["data"].copy(), target=ds["target"].copy())], r["overs"], r["clfs"], cache_path=cache,
                                 validator_params=r["vp"], scaler=r["scaler"], serialization=fmt, clean_up=clean, parse_results=False, verbosity=0)


def run(task):
    rep = Report(task["part"])
    scratch = tempfile.mkdtemp(prefix="verif_p19_")
    try:
        globals()["do_" + task["part"]](rep, task, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.done()


def step(rep, name, hist, cache, fmt, clean):
    """one evaluation; True when its records are right"""
    desc = f"{fmt} clean_up={clean}: {name} after {hist or 'nothing'}"
    key = dict(fmt=fmt, step=name, after="+".join(hist))
    rep.n += 1
    ok, res = rep.call(lambda: evalref.load(evaluate(name, cache, fmt, clean)), what=desc, key=key)
    if not ok:
        return False
    rep.t += len(res)
    return evalref.compare(res, reference(name), evalref.score_model, desc, lambda m, **k: rep.bad(m, **{**key, **k}))


def do_history(rep, task, scratch):
    fmt, clean = task["fmt"], task["clean"]

    def image(src):
        path = tempfile.mkdtemp(dir=scratch)
        os.rmdir(path)
        shutil.copytree(src, path)
        return path

    def explore(hist, cache):
        rep.out.add(("+".join(sorted(set(hist))), fmt, clean))
        if len(hist) == task["depth"]:
            return
        for name in task["names"]:
            nxt = image(cache)
            good = step(rep, name, hist, nxt, fmt, clean)
            if good:
                explore(hist + [name], nxt)
            shutil.rmtree(nxt, ignore_errors=True)

    start = tempfile.mkdtemp(dir=scratch)
    hist = []
    for name in task["first"]:
        if not step(rep, name, hist, start, fmt, clean):
            return
        hist.append(name)
    explore(hist, start)


def snapshot(path):
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            with open(os.path.join(root, f), "rb") as fh:
                out[os.path.relpath(os.path.join(root, f), path)] = fh.read()
    return out


def do_reuse(rep, task, scratch):
    """the same request again is answered from the directory: the very same records, runtimes included"""
    fmt = task["fmt"]
    for clean in ("oversamplings", "all", "none"):
        for name in ALPHABET:
            cache = tempfile.mkdtemp(dir=scratch)
            desc = f"{fmt} clean_up={clean}: {name} twice"

            def go():
                a = evalref.load(evaluate(name, cache, fmt, clean))
                b = evalref.load(evaluate(name, cache, fmt, clean))
                return a, b
            rep.n += 1
            ok, val = rep.call(go, what=desc)
            if not ok:
                continue
            a, b = ({evalref.record_key(r): r for r in v} for v in val)
            rep.out.add(desc)
            if set(a) != set(b):
                rep.bad(f"{desc}: different records", what="reuse", step=name)
            elif any(a[k]["runtime"] != b[k]["runtime"] for k in a):
                rep.bad(f"{desc}: the evaluation was computed again", what="reuse", step=name)
            shutil.rmtree(cache, ignore_errors=True)


def do_formats(rep, _task, scratch):
    """histories that change the storage format or the clean-up mode on the way"""
    for hist in itertools.product(itertools.product(("base", "proportion", "several"), ("json", "pickle"), ("oversamplings", "none")), repeat=2):
        cache = tempfile.mkdtemp(dir=scratch)
        done = []
        for name, fmt, clean in hist:
            if not step(rep, name, list(done), cache, fmt, clean):
                break
            done.append(f"{name}/{fmt}/{clean}")
        rep.out.add(str(done))
        shutil.rmtree(cache, ignore_errors=True)


def do_cleanup(rep, _task, scratch):
    """every combination of files in the directory and mode: exactly the intermediate files named by the mode go"""
    from smote_variants.evaluation import do_clean_up
    names = ["oversampling_0000_0000_ab.json", "oversampling_0001_0001_cd.pickle", "fold_0000_0000.json", "fold_0001_0000.pickle",
             "evaluation_0000_0000_ab.json", "evaluation_0001_0000_ef.pickle", "notes.txt"]
    for mask in range(2 ** len(names)):
        for mode in ("oversamplings", "all", "none", "", None):
            d = tempfile.mkdtemp(dir=scratch)
            sub = os.path.join(d, "ds")
            other = os.path.join(d, "other")
            os.makedirs(sub)
            os.makedirs(other)
            here = [n for i, n in enumerate(names) if mask >> i & 1]
            for n in here:
                for p in (sub, other):
                    with open(os.path.join(p, n), "w", encoding="utf-8") as fh:
                        fh.write("{}")
            rep.n += 1
            ok, _ = rep.call(do_clean_up, sub, mode, what=f"do_clean_up({mode!r}) with {here}")
            if ok:
                gone = ("oversampling",) if mode == "oversamplings" else ("oversampling", "fold") if mode == "all" else ()
                want = sorted(n for n in here if not n.startswith(gone or ("\0",)))
                got = sorted(os.listdir(sub))
                if got != want or sorted(os.listdir(other)) != sorted(here):
                    rep.bad(f"do_clean_up({mode!r}) with {here} leaves {got} instead of {want}", mode=mode)
                rep.out.add((str(got), mode))
            shutil.rmtree(d)
    # whole evaluations next to files of other origin
    for fmt in ("json", "pickle"):
        for mode in ("oversamplings", "all", "none"):
            cache = tempfile.mkdtemp(dir=scratch)
            os.makedirs(os.path.join(cache, "alpha"))
            for p in ("alpha/notes.txt", "alpha/evaluation_mine.txt", "oversampling_elsewhere.json"):
                with open(os.path.join(cache, p), "w", encoding="utf-8") as fh:
                    fh.write("mine")
            rep.n += 1
            ok, res = rep.call(evaluate, "several", cache, fmt, mode, what=f"evaluation {fmt} clean_up={mode}")
            if not ok:
                continue
            left = snapshot(cache)
            for p in ("alpha/notes.txt", "alpha/evaluation_mine.txt", "oversampling_elsewhere.json"):
                if left.get(p) != b"mine":
                    rep.bad(f"clean_up={mode} {fmt} touched {p}", mode=mode)
            base = [os.path.basename(p) for p in left if p.startswith("alpha/")]
            for pre, modes in (("oversampling", ("oversamplings", "all")), ("fold", ("all",))):
                there = any(b.startswith(pre) for b in base)
                if there != (mode not in modes):
                    rep.bad(f"clean_up={mode} {fmt}: {pre} files {'remain' if there else 'are gone'}", mode=mode)
            if not all(os.path.exists(r) for r in res):
                rep.bad(f"clean_up={mode} {fmt}: evaluation files are gone", mode=mode)


def write(path, fmt, doc):
    if fmt == "json":
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(doc, fh)
    else:
        with open(path, "wb") as fh:
            pickle.dump(doc, fh)


def read(path):
    from smote_variants.base import load_dict
    return load_dict(path)


def floats(a):
    return np.asarray(a, float)


def do_reset(rep, task, scratch):
    """a stored result that differs from what the request computes is replaced exactly when a recomputation is asked for"""
    from smote_variants.evaluation import EvaluationJob, Folding, SamplingJob
    fmt = task["fmt"]
    ds = DATASETS["a"]
    for as_file in (False, True):
        for over in (sm(), sm(proportion=0.5), sm("NoSMOTE"), sm("NoSMOTE", raise_value_error=True), sm("ISOMAP_Hybrid", n_neighbors=3)):
            for timeout_first in (False, True):
                for reset in (False, True):
                    path = tempfile.mkdtemp(dir=scratch)
                    desc = f"{fmt} {over[1]} fold from file={as_file} reset={reset} timeout result stored first={timeout_first}"
                    rep.n += 1

                    def job(flag):
                        fobj = Folding(ds, validator_params=VP, cache_path=os.path.join(path, "f"), serialization=fmt)
                        fold = fobj.folding_files()[0] if as_file else next(iter(fobj.fold()))
                        return SamplingJob(fold, over[1], over[2], scaler=S, cache_path=os.path.join(path, "o"), serialization=fmt, reset=flag)

                    def go():
                        name = job(False).timeout() if timeout_first else job(False).execute()
                        right = read(job(True).execute())
                        doc = dict(right)
                        doc["X_train"] = (floats(doc["X_train"]) + 1.0).tolist() if fmt == "json" else floats(doc["X_train"]) + 1.0
                        write(name, fmt, doc)
                        first = read(job(reset).execute())
                        ev = EvaluationJob(name, [K3], cache_path=os.path.join(path, "e"), serialization=fmt).do_evaluation()[0]
                        evd = read(ev)
                        wrong = dict(evd)
                        wrong["runtime"] = -7.0
                        write(ev, fmt, wrong)
                        last = read(EvaluationJob(name, [K3], cache_path=os.path.join(path, "e"), serialization=fmt, reset=reset).do_evaluation()[0])
                        return right, first, last
                    ok, val = rep.call(go, what=desc)
                    if not ok:
                        continue
                    right, first, last = val
                    shift = 0.0 if reset else 1.0
                    if not np.allclose(floats(first["X_train"]), floats(right["X_train"]) + shift):
                        rep.bad(f"{desc}: the oversampling was {'not recomputed' if reset else 'recomputed'}", what="oversampling", reset=reset)
                    if (last["runtime"] == -7.0) == reset:
                        rep.bad(f"{desc}: the evaluation was {'not recomputed' if reset else 'recomputed'}", what="evaluation", reset=reset)
                    rep.out.add(desc)
                    shutil.rmtree(path, ignore_errors=True)
    for reset in (False, True):  # folds
        path = tempfile.mkdtemp(dir=scratch)

        def folds():
            files = Folding(ds, validator_params=VP, cache_path=path, serialization=fmt).folding_files()
            docs = [read(f) for f in files]
            bad = dict(docs[0])
            bad["X_test"] = (floats(bad["X_test"]) + 1.0).tolist() if fmt == "json" else floats(bad["X_test"]) + 1.0
            write(files[0], fmt, bad)
            again = [read(f) for f in Folding(ds, validator_params=VP, cache_path=path, serialization=fmt, reset=reset).folding_files()]
            return docs, again
        rep.n += 1
        ok, val = rep.call(folds, what=f"folds {fmt} reset={reset}")
        if ok and reset and not all(np.array_equal(floats(a["X_test"]), floats(b["X_test"])) for a, b in zip(*val)):
            rep.bad(f"folds {fmt}: not recomputed with reset", what="fold")


def do_timeout(rep, task, scratch):
    """the substitute of an oversampling that ran out of time: the scaled fold itself, marked as failed; finished results are kept"""
    from smote_variants.evaluation import Folding, SamplingJob
    fmt = task["fmt"]
    ds = DATASETS["a"]
    for over in (sm(), sm("ISOMAP_Hybrid", n_neighbors=3)):
        for scaler in (S, M, None):
            for as_file in (False, True):
                for cached in (False, True):
                    path = tempfile.mkdtemp(dir=scratch)
                    fobj = Folding(ds, validator_params=VP, cache_path=os.path.join(path, "f"), serialization=fmt)
                    for idx, fold in enumerate(list(fobj.fold())):
                        src = fobj.folding_files()[idx] if as_file else fold

                        def job():
                            return SamplingJob(src, over[1], over[2], scaler=scaler, cache_path=os.path.join(path, "o") if cached else None, serialization=fmt)
                        desc = f"{fmt} {over[1]} scaler={scaler and scaler[1]} fold {idx} from file={as_file} cached={cached}"

                        def go():
                            res = job().timeout()
                            res = read(res) if isinstance(res, str) else res
                            later = None
                            if cached:
                                shutil.rmtree(os.path.join(path, "o"))
                                done = read(job().execute())
                                later = (done, read(job().timeout()))
                            return res, later
                        rep.n += 1
                        ok, val = rep.call(go, what=desc)
                        if not ok:
                            continue
                        res, later = val
                        Xtr, Xte = fold["X_train"], fold["X_test"]
                        if scaler is not None:
                            sc = evalref.build(scaler).fit(Xtr)
                            Xtr, Xte = sc.transform(Xtr), sc.transform(Xte)
                        for k, v in (("X_train", Xtr), ("X_test", Xte), ("y_train", fold["y_train"]), ("y_test", fold["y_test"])):
                            if floats(res[k]).shape != v.shape or not np.allclose(floats(res[k]), v):
                                rep.bad(f"{desc}: {k} of the substitute is not that of the scaled fold", what=k)
                        if not res["error"]:
                            rep.bad(f"{desc}: the substitute is not marked as failed", what="error")
                        want = fold["fold_descriptor"]
                        if any(res["fold_descriptor"].get(k) != want[k] for k in ("repeat_idx", "fold_idx", "name")):
                            rep.bad(f"{desc}: fold descriptor {res['fold_descriptor']}", what="fold_descriptor")
                        if later and (later[1]["error"] != later[0]["error"] or not np.array_equal(floats(later[1]["X_train"]), floats(later[0]["X_train"]))):
                            rep.bad(f"{desc}: a finished oversampling was replaced by the substitute", what="replaced")
                        rep.out.add(desc)
                    shutil.rmtree(path, ignore_errors=True)
