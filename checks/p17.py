"""P17: evaluation records are those of a plain scale-oversample-fit-score run, however the evaluation is organised."""
import os
import shutil
import tempfile

from vlib import evalref
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 1800}
RULE = ("state = (storage: none/json/pickle, jobs, cache cold/warm/partly filled, clean-up mode, scaler, oversamplers, classifiers): the whole "
        "evaluation is executed in every state and each record compared with an independent plain run of the same pipeline")
BOUNDS = {"quick": "3 scalers x {memory, json, pickle} x {1, 2 jobs} x {cold, warm, oversamplings only, evaluations only} x 3 clean-up modes, "
                   "7 oversamplers (plain, dimension reducing, feature selecting, failing) x 5 classifiers (one failing) x 2 datasets",
          "thorough": "the same with 4 validators, all oversamplers of up to 0.5 s as singles, and 4 jobs"}
ASSUMPTIONS = ["classes are labelled 0 (majority) and 1 (minority) as the evaluation requires", "oversamplers and classifiers are seeded",
               "runtimes, warnings and file names in the records are not compared"]

OVERS = [("smote_variants", "SMOTE", {"random_state": 5}), ("smote_variants", "SMOTE", {"random_state": 5, "proportion": 0.5}),
         ("smote_variants", "NoSMOTE", {"random_state": 5}), ("smote_variants", "ISOMAP_Hybrid", {"random_state": 5}),
         ("smote_variants", "SMOTE_ENN", {"random_state": 5}),
         ("smote_variants", "NoSMOTE", {"random_state": 5, "raise_value_error": True}),
         ("smote_variants", "NoSMOTE", {"random_state": 5, "raise_runtime_error": True})]
CLFS = [("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3}), ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}),
        ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5, "max_depth": 2}),
        ("sklearn.naive_bayes", "GaussianNB", {}),
        ("smote_variants.classifiers", "ErrorWarningClassifier", {"raise_value_error": True})]
SCALERS = [("sklearn.preprocessing", "StandardScaler", {}), ("sklearn.preprocessing", "MinMaxScaler", {}), None]
VP = {"n_repeats": 2, "n_splits": 2, "random_state": 5}
VPS = [VP, {"n_repeats": 1, "n_splits": 4, "random_state": 7}, {"n_repeats": 3, "n_splits": 3, "random_state": 1}, {"n_repeats": 1, "n_splits": 2, "random_state": 9}]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for v in range(1 if quick else 4):
        for s in range(3):
            for fmt in (None, "json", "pickle"):
                for clean in ((None,) if fmt is None else ("oversamplings", "all", "none")):
                    for piece in range(3):
                        out.append({"part": "sequential", "fmt": fmt, "scaler": s, "clean": clean, "vp": v, "piece": piece})
    for s in ((0,) if quick else range(3)):
        for fmt in (None, "json", "pickle"):
            out.insert(0, {"part": "parallel", "fmt": fmt, "scaler": s, "n_jobs": 2, "vp": 0})
            if not quick:
                out.insert(0, {"part": "parallel", "fmt": fmt, "scaler": s, "n_jobs": 4, "vp": 1})
    for d in range(2):
        for fmt in ("json", "pickle"):
            for s in range(3):
                out.insert(0, {"part": "jobs", "ds": d, "fmt": fmt, "scaler": s})
    out.append({"part": "esmote"})
    if not quick:
        from vlib import data
        for n in data.oversampler_names(0.5):
            out.append({"part": "single", "name": n})
    return out


def datasets():
    return [evalref.make_dataset("evalds", 17, 9, 3, 3), evalref.make_dataset("other", 12, 7, 2, 8, 1.5)]


def evaluate(dss, overs, clfs, **kw):
    from smote_variants.evaluation import evaluate_oversamplers
    return evaluate_oversamplers(dss, overs, clfs, parse_results=False, verbosity=0, **kw)


def ref_for(dss, overs, clfs, scaler, vp):
    out = {}
    for ds in dss:
        out.update(evalref.reference(ds, overs, clfs, scaler, vp))
    return out


def run(task):
    rep = Report(task["part"])
    scratch = tempfile.mkdtemp(prefix="verif_p17_")
    try:
        globals()["do_" + task["part"]](rep, task, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.done()


def one(rep, dss, overs, clfs, ref, desc, key, **kw):
    rep.n += 1
    ok, res = rep.call(lambda: evalref.load(evaluate(dss, overs, clfs, **kw)), what=desc, key=key)
    if not ok:
        return False
    rep.t += len(res)
    rep.out.add(desc)
    ok, same = rep.call(evalref.compare, res, ref, evalref.score_model, desc, lambda m, **k: rep.bad(m, **{**key, **k}), what=desc, key=key)
    return ok and same


def remove(path, prefix):
    for root, _, files in os.walk(path):
        for f in files:
            if f.startswith(prefix):
                os.remove(os.path.join(root, f))


def do_sequential(rep, task, scratch):
    dss = datasets()
    overs = [OVERS[:3], OVERS[3:5] + OVERS[:1], OVERS[5:] + OVERS[:1]][task["piece"]]
    scaler, vp, fmt = SCALERS[task["scaler"]], VPS[task["vp"]], task["fmt"]
    ref = ref_for(dss, overs, CLFS, scaler, vp)
    key = dict(fmt=fmt, jobs=1)
    if fmt is None:
        one(rep, dss, overs, CLFS, ref, f"in memory, scaler {scaler}", key, scaler=scaler, validator_params=vp)
        return
    kw = dict(scaler=scaler, validator_params=vp, cache_path=os.path.join(scratch, "c"), serialization=fmt, clean_up=task["clean"])
    base = f"{fmt} clean_up={task['clean']} scaler={scaler and scaler[1]} piece={task['piece']}"
    for history in ("cold", "warm", "no oversamplings", "no evaluations", "no folds", "other order"):
        if history == "no oversamplings":
            remove(scratch, "oversampling")
        if history == "no evaluations":
            remove(scratch, "evaluation")
        if history == "no folds":
            remove(scratch, "fold")
        o = overs[::-1] if history == "other order" else overs
        if not one(rep, dss, o, CLFS, ref, f"{base} {history}", key, **kw):
            return


def do_parallel(rep, task, scratch):
    dss = datasets()[:1]
    overs = OVERS
    scaler, vp, fmt = SCALERS[task["scaler"]], VPS[task["vp"]], task["fmt"]
    ref = ref_for(dss, overs, CLFS, scaler, vp)
    kw = dict(scaler=scaler, validator_params=vp, n_jobs=task["n_jobs"])
    key = dict(fmt=fmt, jobs=task["n_jobs"])
    sink, saved = os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(sink, 2)  # the library's worker processes log to stderr
    try:
        if fmt is None:
            one(rep, dss, overs, CLFS, ref, f"in memory, {task['n_jobs']} jobs", key, **kw)
        else:
            kw.update(cache_path=scratch, serialization=fmt)
            for history in ("cold", "warm"):
                for timeout in (-1, 300, None):
                    if not one(rep, dss, overs, CLFS, ref, f"{fmt} {history}, {task['n_jobs']} jobs, timeout {timeout}", key, timeout=timeout, **kw):
                        return
                    if history == "cold":
                        remove(scratch, "")
            one(rep, dss, overs, CLFS, ref, f"{fmt} sequential after parallel", key, **{**kw, "n_jobs": 1})
    finally:
        try:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        except Exception:  # pylint: disable=broad-except
            pass
        os.dup2(saved, 2)
        os.close(saved)
        os.close(sink)


def do_jobs(rep, task, scratch):
    """the job classes used directly, with folds and oversamplings given as dictionary and as file"""
    from smote_variants.evaluation import EvaluationJob, Folding, SamplingJob
    for ds in [datasets()[task["ds"]]]:
        for fmt in [task["fmt"]]:
            for scaler in [SCALERS[task["scaler"]]]:
                ref = ref_for([ds], OVERS, CLFS, scaler, VP)
                for fold_file in (False, True):
                    for os_file in (False, True):
                        for ev_file in (False, True):
                            path = tempfile.mkdtemp(dir=scratch)
                            fobj = Folding(ds, validator_params=VP, cache_path=os.path.join(path, "f"), serialization=fmt)

                            def go():
                                res = []
                                for fold in (fobj.folding_files() if fold_file else fobj.fold()):
                                    for o in OVERS:
                                        samp = SamplingJob(fold, o[1], o[2], scaler=scaler, cache_path=os.path.join(path, "o") if os_file else None,
                                                           serialization=fmt).execute()
                                        res += EvaluationJob(samp, CLFS, cache_path=os.path.join(path, "e") if ev_file else None, serialization=fmt).do_evaluation()
                                return evalref.load(res)
                            desc = f"jobs {fmt} scaler={scaler and scaler[1]} files: fold={fold_file} oversampling={os_file} evaluation={ev_file}"
                            rep.n += 1
                            ok, res = rep.call(go, what=desc)
                            shutil.rmtree(path, ignore_errors=True)
                            if not ok or not evalref.compare(res, ref, evalref.score_model, desc, rep.bad):
                                return
                            rep.t += len(res)
                            rep.out.add((ds["name"], desc))


def do_esmote(rep, _task, scratch):
    """a feature selecting oversampler"""
    overs = [("smote_variants", "E_SMOTE", {"random_state": 5, "min_features": 1})]
    for fmt in (None, "json", "pickle"):
        for scaler in SCALERS:
            dss = datasets()[1:]
            vp = VPS[3]
            ref = ref_for(dss, overs, CLFS[:2], scaler, vp)
            kw = {} if fmt is None else dict(cache_path=tempfile.mkdtemp(dir=scratch), serialization=fmt)
            if not one(rep, dss, overs, CLFS[:2], ref, f"E_SMOTE {fmt} {scaler and scaler[1]}", dict(fmt=fmt), scaler=scaler, validator_params=vp, **kw):
                return


def do_single(rep, task, scratch):
    overs = [("smote_variants", task["name"], {"random_state": 5})]
    for fmt in (None, "json", "pickle"):
        dss = datasets()
        ref = ref_for(dss, overs, CLFS, SCALERS[0], VP)
        kw = {} if fmt is None else dict(cache_path=tempfile.mkdtemp(dir=scratch), serialization=fmt)
        if not one(rep, dss, overs, CLFS, ref, f"{task['name']} {fmt}", dict(fmt=fmt), validator_params=VP, **kw):
            return
