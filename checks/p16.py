"""P16: folds partition the data, describe themselves correctly and come back from storage unchanged."""
import glob
import itertools
import os
import shutil
import tempfile

import numpy as np

from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 1500}
RULE = ("state = (class sizes, splits, repeats, labels, row order) for the partition and descriptor law; for storage additionally the "
        "format and every subset of fold files present before the files are asked for, and every order of two interleaved iterations")
BOUNDS = {"quick": "n_min 2..7, n_maj n_min..12, 2..5 splits, 1..3 repeats, 5 label pairs; storage: both formats, all subsets of up to 6 files, "
                   "all interleavings of two iterations of 4 folds",
          "thorough": "n_min 2..12, n_maj n_min..25, 2..8 splits, 1..4 repeats, 5 label pairs; storage: all subsets of up to 9 files, "
                      "all interleavings of two iterations of 6 folds"}
ASSUMPTIONS = ["classes have at least as many members as there are splits (the validator warns otherwise)",
               "classes of equal size: the larger label is the minority", "stored labels and features may come back as floating point numbers"]
LABELS = [(0, 1), (1, 0), (-1, 1), (2, 5), (5, 2)]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for n_min in range(2, 8 if quick else 13):
        for lab in range(len(LABELS)):
            out.append({"part": "memory", "n_min": n_min, "lab": lab, "n_maj": 12 if quick else 25, "splits": 5 if quick else 8,
                        "repeats": 3 if quick else 4})
    shapes = [(1, 2), (1, 4), (2, 2), (2, 3), (3, 2), (1, 6)] + ([] if quick else [(2, 4), (3, 3), (4, 2), (1, 9)])
    for rep, spl in shapes:
        for fmt in ("json", "pickle"):
            for lab in ((0, 1, 3) if quick else range(5)):
                out.append({"part": "storage", "repeats": rep, "splits": spl, "fmt": fmt, "lab": lab})
            out.append({"part": "subsets", "repeats": rep, "splits": spl, "fmt": fmt})
    out.append({"part": "interleave", "n": 4 if quick else 6})
    out.append({"part": "default"})
    out.append({"part": "reset"})
    return out


def dataset(n_min, n_maj, lab, d=2, name="scratch_ds", order=1):
    rs = np.random.RandomState(100 * n_min + n_maj)
    n = n_min + n_maj
    X = np.round(rs.normal(size=(n, d)), 6) + np.arange(n)[:, None]
    m = np.array([1] * n_min + [0] * n_maj)
    if order:
        m = m[rs.permutation(n)]
    return {"data": X, "target": np.array(lab)[m], "name": name, "DESCR": name}


def folding(ds, **kw):
    from smote_variants.evaluation import Folding
    return Folding(ds, **kw)


def rows_of(ds):
    return {tuple(r): i for i, r in enumerate(ds["data"])}


def check_fold(rep, ds, fold, idx, repeats, splits, desc, rows):
    """returns the test indices, None after a violation"""
    try:
        tr = [rows.get(tuple(r), -1) for r in np.asarray(fold["X_train"], float)]
        te = [rows.get(tuple(r), -1) for r in np.asarray(fold["X_test"], float)]
        ytr, yte = np.asarray(fold["y_train"]), np.asarray(fold["y_test"])
        fd = fold["fold_descriptor"]
    except Exception as exc:  # pylint: disable=broad-except
        rep.bad(f"{desc}: fold {idx} unusable: {type(exc).__name__} {exc}", what="form")
        return None
    n = len(ds["data"])
    if -1 in tr + te or sorted(tr + te) != list(range(n)):
        rep.bad(f"{desc}: fold {idx}: training and test part are not a partition of the data", what="partition")
        return None
    if len(ytr) != len(tr) or len(yte) != len(te) or any(ds["target"][i] != v for i, v in list(zip(tr, ytr)) + list(zip(te, yte))):
        rep.bad(f"{desc}: fold {idx}: labels do not belong to the rows", what="labels")
        return None
    vals, cnt = np.unique(ds["target"], return_counts=True)
    n_min, n_maj = int(cnt.min()), int(cnt.max())
    want = {"db_n": n, "db_n_attr": ds["data"].shape[1], "name": ds["name"], "label_stats": {"min_label": n_min, "maj_label": n_maj},
            "n_repeats": repeats, "n_splits": splits, "split_idx": idx, "repeat_idx": idx // splits, "fold_idx": idx % splits}
    for k, v in want.items():
        if fd.get(k) != v:
            rep.bad(f"{desc}: fold {idx}: descriptor {k} = {fd.get(k)!r} instead of {v!r}", what="descriptor", field=k)
            return None
    if abs(fd.get("imbalance_ratio", -1) - n_maj / n_min) > 1e-12:
        rep.bad(f"{desc}: fold {idx}: imbalance ratio {fd.get('imbalance_ratio')}", what="descriptor", field="imbalance_ratio")
        return None
    return te


def check_all(rep, ds, folds, repeats, splits, desc):
    rows = rows_of(ds)
    if len(folds) != repeats * splits:
        rep.bad(f"{desc}: {len(folds)} folds instead of {repeats * splits}", what="number")
        return False
    tests = [check_fold(rep, ds, f, i, repeats, splits, desc, rows) for i, f in enumerate(folds)]
    if None in tests:
        return False
    for r in range(repeats):
        part = tests[r * splits:(r + 1) * splits]
        if sorted(sum(part, [])) != list(range(len(ds["data"]))):
            rep.bad(f"{desc}: the test parts of repetition {r} do not partition the data", what="cover")
            return False
        for v in np.unique(ds["target"]):
            c = [sum(ds["target"][i] == v for i in p) for p in part]
            if max(c) - min(c) > 1:
                rep.bad(f"{desc}: class {v} is spread unevenly over the folds: {c}", what="stratified")
                return False
    rep.out.add((repeats, splits, tuple(map(tuple, tests))))
    rep.t += len(folds)
    return True


def equal_fold(a, b):
    return all(np.array_equal(np.asarray(a[k], float), np.asarray(b[k], float)) for k in ("X_train", "y_train", "X_test", "y_test")) \
        and a["fold_descriptor"] == b["fold_descriptor"]


def run(task):
    rep = Report(task["part"])
    scratch = tempfile.mkdtemp(prefix="verif_p16_")
    try:
        globals()["do_" + task["part"]](rep, task, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.done()


def do_memory(rep, task, _scratch):
    lab = LABELS[task["lab"]]
    for n_maj in range(task["n_min"], task["n_maj"] + 1):
        for splits in range(2, min(task["splits"], task["n_min"]) + 1):
            for repeats in range(1, task["repeats"] + 1):
                ds = dataset(task["n_min"], n_maj, lab, d=1 + n_maj % 3, order=splits % 2)
                X0, y0 = ds["data"].copy(), ds["target"].copy()
                vp = {"n_repeats": repeats, "n_splits": splits, "random_state": 5}
                vp0 = dict(vp)
                desc = f"n_min={task['n_min']} n_maj={n_maj} splits={splits} repeats={repeats} labels={lab}"
                rep.n += 1
                ok, folds = rep.call(lambda: list(folding(ds, validator_params=vp).fold()), what=desc)
                if not ok:
                    continue
                if not check_all(rep, ds, folds, repeats, splits, desc):
                    return
                if vp != vp0 or not np.array_equal(ds["data"], X0) or not np.array_equal(ds["target"], y0):
                    rep.bad(f"{desc}: the arguments were changed", what="input")
                    return
                ok, again = rep.call(lambda: list(folding(ds, validator_params=vp).fold()), what=desc)
                if ok and not all(equal_fold(a, b) for a, b in zip(folds, again)):
                    rep.bad(f"{desc}: other folds with the same seed", what="seed")
                    return


def do_storage(rep, task, scratch):
    from smote_variants.base import load_dict
    lab = LABELS[task["lab"]]
    splits, repeats, fmt = task["splits"], task["repeats"], task["fmt"]
    for n_min, n_maj in ((splits, splits), (splits, splits + 3), (splits + 1, 3 * splits + 1)):
        for d in (1, 3):
            ds = dataset(n_min, n_maj, lab, d=d, name=f"ds{n_min}.{n_maj}_{d}")
            X0, y0 = ds["data"].copy(), ds["target"].copy()
            vp = {"n_repeats": repeats, "n_splits": splits, "random_state": 7}
            desc = f"{fmt} n_min={n_min} n_maj={n_maj} splits={splits} repeats={repeats} labels={lab} columns={d}"
            ref = list(folding(ds, validator_params=vp).fold())
            fobj = folding(ds, validator_params=vp, cache_path=os.path.join(scratch, "c"), serialization=fmt)
            for how in ("files", "again", "cache", "fold"):
                rep.n += 1
                ok, files = rep.call(lambda: (fobj.cache_foldings() if how == "cache" else list(fobj.fold()) if how == "fold" else None) and None or fobj.folding_files(), what=desc)
                if not ok:
                    return
                ok, loaded = rep.call(lambda: [load_dict(f, fmt, ["X_train", "y_train", "X_test", "y_test"]) for f in files], what=desc)
                if not ok:
                    return
                if not check_all(rep, ds, loaded, repeats, splits, desc + " stored"):
                    return
                if not all(equal_fold(a, b) for a, b in zip(ref, loaded)):
                    rep.bad(f"{desc}: stored folds differ from those in memory", what="stored")
                    return
            if not np.array_equal(ds["data"], X0) or not np.array_equal(ds["target"], y0):
                rep.bad(f"{desc}: the dataset was changed", what="input")
                return


def do_subsets(rep, task, scratch):
    from smote_variants.base import load_dict
    splits, repeats, fmt = task["splits"], task["repeats"], task["fmt"]
    ds = dataset(splits + 1, 2 * splits + 1, (0, 1))
    vp = {"n_repeats": repeats, "n_splits": splits, "random_state": 7}
    ref = list(folding(ds, validator_params=vp).fold())
    n = splits * repeats
    master = os.path.join(scratch, "master")
    files = folding(ds, validator_params=vp, cache_path=master, serialization=fmt).folding_files()
    for bits in range(2 ** n):
        path = os.path.join(scratch, f"s{bits}")
        fobj = folding(ds, validator_params=vp, cache_path=path, serialization=fmt)
        os.makedirs(os.path.join(path, ds["name"]), exist_ok=True)
        for i, f in enumerate(files):
            if (bits >> i) & 1:
                shutil.copy(f, os.path.join(path, ds["name"], os.path.basename(f)))
        rep.n += 1
        desc = f"{fmt} splits={splits} repeats={repeats} files present={bits:0{n}b}"
        ok, got = rep.call(fobj.folding_files, what=desc)
        if ok:
            ok, loaded = rep.call(lambda: [load_dict(f, fmt, ["X_train", "y_train", "X_test", "y_test"]) for f in got], what=desc)
        if not ok:
            return
        if len(loaded) != n or not all(equal_fold(a, b) for a, b in zip(sorted(loaded, key=lambda f: f["fold_descriptor"]["split_idx"]), ref)):
            rep.bad(f"{desc}: {len(loaded)} files, or not the folds of the dataset", what="complete")
            return
        rep.out.add((n, bits))
        shutil.rmtree(path, ignore_errors=True)


def do_interleave(rep, task, scratch):
    """two iterations of one object, in every order of their steps, and descriptors changed by the consumer"""
    n = task["n"]
    ds = dataset(n + 1, 2 * n, (0, 1))
    vp = {"n_repeats": 1, "n_splits": n, "random_state": 3}
    for steps in itertools.combinations(range(2 * n), n):
        fobj = folding(ds, validator_params=vp)
        its = [fobj.fold(), fobj.fold()]
        got = [[], []]
        rep.n += 1
        ok = True
        for k in range(2 * n):
            which = 0 if k in steps else 1
            ok, fold = rep.call(next, its[which], what=f"interleaving {steps}")
            if not ok:
                return
            got[which].append(fold)
        for folds in got:
            if not check_all(rep, ds, folds, 1, n, f"interleaving {steps}"):
                return
    folds = list(folding(ds, validator_params=vp).fold())
    for i, fold in enumerate(folds):
        before = [dict(f["fold_descriptor"]) for f in folds]
        fold["fold_descriptor"]["name"] = "changed"
        fold["fold_descriptor"]["fold_idx"] = 99
        rep.n += 1
        if any(f["fold_descriptor"] != b for j, (f, b) in enumerate(zip(folds, before)) if j != i):
            rep.bad("changing the descriptor of one fold changes another's", what="shared")
            return


def do_default(rep, _task, scratch):
    """default validator: two repetitions of five folds, with and without storage"""
    ds = dataset(6, 11, (0, 1))
    rep.n += 2
    ok, folds = rep.call(lambda: list(folding(ds).fold()), what="default validator")
    if ok:
        check_all(rep, ds, folds, 2, 5, "default validator")
    ok, files = rep.call(lambda: folding(ds, cache_path=scratch).folding_files(), what="default storage")
    if ok and len(files) != 10:
        rep.bad(f"{len(files)} fold files by default", what="default")


def do_reset(rep, _task, scratch):
    """reset removes the folds of this dataset only"""
    from smote_variants.base import load_dict
    for fmt in ("json", "pickle"):
        a, b = dataset(4, 7, (0, 1), name="a"), dataset(5, 9, (0, 1), name="ab")
        vp = {"n_repeats": 1, "n_splits": 3, "random_state": 3}
        fa = folding(a, validator_params=vp, cache_path=scratch, serialization=fmt).folding_files()
        fb = folding(b, validator_params=vp, cache_path=scratch, serialization=fmt).folding_files()
        keep = os.path.join(scratch, "other.txt")
        open(keep, "w").close()
        stray = os.path.join(scratch, "a", "fold_0009_0009." + fmt)
        open(stray, "w").close()
        rep.n += 1
        ok, fobj = rep.call(lambda: folding(a, validator_params=vp, cache_path=scratch, serialization=fmt, reset=True), what="reset")
        if not ok:
            return
        if os.path.exists(stray) or glob.glob(os.path.join(scratch, "a", "fold*")):
            rep.bad("reset leaves old folds behind", what="reset")
        if not all(map(os.path.exists, fb)) or not os.path.exists(keep):
            rep.bad("reset removes foreign files", what="reset")
        ok, files = rep.call(fobj.folding_files, what="files after reset")
        if ok:
            ok, loaded = rep.call(lambda: [load_dict(f, fmt, ["X_train", "y_train", "X_test", "y_test"]) for f in files], what="reset")
            if ok:
                check_all(rep, a, loaded, 1, 3, "after reset")
        rep.out.add(fmt)
        assert fa
