"""The plain scale - oversample - fit - score run that evaluation records are compared with."""
import importlib
import json
import math

import numpy as np
from sklearn.model_selection import RepeatedStratifiedKFold


def build(spec):
    return getattr(importlib.import_module(spec[0]), spec[1])(**spec[2])


def make_dataset(name="evalds", n_maj=17, n_min=9, d=3, seed=3, off=0.8):
    rs = np.random.RandomState(seed)
    X = np.vstack([rs.normal(size=(n_maj, d)), rs.normal(size=(n_min, d)) + off]) * np.arange(1, d + 1) * 3
    y = np.array([0] * n_maj + [1] * n_min)
    p = rs.permutation(len(y))
    return {"data": X[p], "target": y[p], "name": name, "DESCR": name}


def canon(params):
    """order and list/tuple insensitive key of a parameter dictionary"""
    return json.dumps(params, sort_keys=True, default=str)


def reference(ds, oversamplers, classifiers, scaler, vp):
    """{(dataset, repeat, fold, oversampler, its params, classifier, its params): record}"""
    out = {}
    splits = vp["n_splits"]
    for idx, (tr, te) in enumerate(RepeatedStratifiedKFold(**vp).split(ds["data"], ds["target"])):
        Xtr, ytr, Xte, yte = ds["data"][tr], ds["target"][tr], ds["data"][te], ds["target"][te]
        if scaler is not None:
            sc = build(scaler)
            Xtr = sc.fit_transform(Xtr, ytr)
            Xte = sc.transform(Xte)
        for os_ in oversamplers:
            obj = build(os_)
            os_err = None
            try:
                Xs, ys = obj.sample(Xtr.copy(), ytr.copy())
                Xt = obj.preprocessing_transform(Xte)
            except (ValueError, RuntimeError) as exc:
                Xs, ys, Xt, os_err = Xtr, ytr, Xte, str(exc)
            full = {**os_[2], **obj.get_params()}
            for cl in classifiers:
                err = None
                try:
                    prob = build(cl).fit(Xs, ys).predict_proba(Xt)[:, 1]
                except (ValueError, RuntimeError) as exc:
                    prob, err = np.zeros(len(yte)), str(exc)
                key = (ds["name"], idx // splits, idx % splits, os_[1], canon(full), cl[0] + "." + cl[1], canon(cl[2]))
                out[key] = {"y_pred": np.asarray(prob), "y_test": yte, "os_error": os_err, "error": err}
    return out


def record_key(rec):
    fd = rec["fold_descriptor"]
    return (fd["name"], fd["repeat_idx"], fd["fold_idx"], rec["oversampler"], canon(rec["oversampler_params"]),
            rec["classifier_module"] + "." + rec["classifier"], canon(rec["classifier_params"]))


def compare(records, ref, score_model, desc, bad):
    """bad(msg, what=...) for every difference; True when equal"""
    seen = {}
    for rec in records:
        k = record_key(rec)
        if k in seen:
            bad(f"{desc}: two records for {k}", what="twice")
            return False
        seen[k] = rec
    if set(seen) != set(ref):
        lost, extra = sorted(set(ref) - set(seen)), sorted(set(seen) - set(ref))
        bad(f"{desc}: records missing {lost[:2]} and unexpected {extra[:2]} ({len(lost)}/{len(extra)})", what="set")
        return False
    for k, r in ref.items():
        rec = seen[k]
        yp, yt = np.asarray(rec["y_pred"], float), np.asarray(rec["y_test"], float)
        if not np.array_equal(yt, np.asarray(r["y_test"], float)):
            bad(f"{desc}: {k}: y_test {yt.tolist()} instead of {r['y_test'].tolist()}", what="y_test")
            return False
        if yp.shape != r["y_pred"].shape or not np.allclose(yp, r["y_pred"], atol=1e-7):
            bad(f"{desc}: {k}: y_pred {np.round(yp, 4).tolist()} instead of {np.round(r['y_pred'], 4).tolist()}", what="y_pred")
            return False
        for field, mine in (("oversampling_error", "os_error"), ("error", "error")):
            if (rec[field] is None) != (r[mine] is None) or (r[mine] is not None and str(rec[field]) != r[mine]):
                bad(f"{desc}: {k}: {field} = {rec[field]!r} instead of {r[mine]!r}", what=field)
                return False
        for s, v in score_model(yt.astype(int), yp).items():
            got = rec["scores"].get(s)
            if v is not None and (got is None or abs(float(got) - v) > 1e-7 * max(1, abs(v))):
                bad(f"{desc}: {k}: score {s} = {got!r} instead of {v!r}", what="score")
                return False
            if got is not None and math.isinf(float(got)):
                bad(f"{desc}: {k}: score {s} = {got!r}", what="score")
                return False
    return True


def score_model(y_test, y_pred):
    """the scores that do not depend on how ties are broken"""
    from checks.p14 import model_labels, model_probs
    auc, brier, ll, _ = model_probs(y_test.tolist(), y_pred.tolist())
    out = {"auc": auc, "brier": brier}
    if not np.any(y_pred == 0.5):
        pred = (y_pred > 0.5).astype(int)
        cm = [int(np.sum((y_test == a) & (pred == b))) for a, b in ((1, 1), (1, 0), (0, 1), (0, 0))]
        lab = model_labels(*cm)
        out.update({k: lab[k] for k in ("acc", "sens", "spec", "bacc", "gacc", "f1", "mcc", "tp", "tn", "fp", "fn")})
    if ll is not None and np.all((y_pred > 1e-12) & (y_pred < 1 - 1e-12)):  # the library clips closer ones
        out["log_loss"] = ll
    return out


def load(results):
    from smote_variants.base import load_dict
    return [load_dict(r) if isinstance(r, str) else r for r in results]
