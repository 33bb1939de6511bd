"""P13: multiclass oversampling keeps all samples and equalises the classes, for all small class size vectors."""
import itertools

import numpy as np

from checks.p04 import EXACT, OR_NONE
from checks.p09 import seg_dist
from vlib import data
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 1500}
RULE = ("state = (class size vector, labels, row order, strategy, inner oversampler): the real multiclass sampler is run on all of them; "
        "counting model: every class ends with the size of the largest; the originals are kept with their labels; new samples of the "
        "interpolating methods lie between originals of their own class")
BOUNDS = {"quick": "2 classes with 1..9, 3 classes with 2..6, 4 classes with 3..5, 5 classes with 3..4 members for SMOTE; 13 vectors for "
                   "every other multiclass oversampler; both strategies; 5 label sets; 2 row orders",
          "thorough": "2 classes with 1..14, 3 classes with 1..9, 4 classes with 2..6, 5 classes with 3..5 members for SMOTE; 60 vectors for "
                      "every other multiclass oversampler"}
ASSUMPTIONS = ["classes with fewer than three members may be left alone (the oversamplers report that sampling is impossible)",
               "exact equality is required of the inner methods that generate exactly the requested amount (see P04)"]
LABELS = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (7, -1, 3, 10, 2), (1, 2, 3, 4, 5), (0.0, 2.0, 1.0, 3.0, 5.0)]
STRATEGIES = ("eq_1_vs_many_successive", "equalize_1_vs_many")
VECTORS = [(5, 5), (8, 4), (3, 9), (8, 5, 3), (4, 8, 8), (9, 9, 4), (6, 6, 6), (3, 2, 10), (1, 5, 4), (12, 7, 7, 5), (4, 6, 5, 6), (14, 3, 3),
           (3, 4, 5, 6, 7)]
SEGMENT = ("SMOTE", "distance_SMOTE")


def vectors(tier):
    quick = tier == "quick"
    out = []
    for k, lo, hi in ((2, 1, 9), (3, 2, 6), (4, 3, 5), (5, 3, 4)) if quick else ((2, 1, 14), (3, 1, 9), (4, 2, 6), (5, 3, 5)):
        out += list(itertools.product(range(lo, hi + 1), repeat=k))
    return out


def tasks(tier):
    quick = tier == "quick"
    vecs = vectors(tier)
    out = [{"part": "smote", "vecs": vecs[i::32], "strategy": s} for i in range(32) for s in STRATEGIES]
    import smote_variants as sv
    more = VECTORS if quick else VECTORS + vecs[::max(1, len(vecs) // 47)]
    names = [c.__name__ for c in sv.get_multiclass_oversamplers() if data.SLOW.get(c.__name__, 0.1) < (0.5 if quick else 2.0)]
    out += [{"part": "inner", "name": n, "vecs": more, "strategy": s} for n in sorted(names) for s in STRATEGIES if n != "DEAGO"]
    out += [{"part": "params", "strategy": s} for s in STRATEGIES]
    return out


def dataset(sizes, labels, order):
    rs = np.random.RandomState(sum(s * 7 ** i for i, s in enumerate(sizes)) % 10007)
    X = np.vstack([rs.normal(size=(s, 2)) * 0.8 + [3.0 * i, 2.0 * (i % 2)] for i, s in enumerate(sizes)])
    y = np.hstack([np.repeat(labels[i], s) for i, s in enumerate(sizes)])
    if order:
        perm = rs.permutation(len(y))
        X, y = X[perm], y[perm]
    return X, y


def judge(rep, name, params, strategy, sizes, labels, order, exact):
    import smote_variants as sv
    key = dict(inner=name, strategy=strategy)
    X0, y0 = dataset(sizes, labels, order)
    X, y = X0.copy(), y0.copy()
    given = {k: v for k, v in params.items()}
    desc = f"{strategy}/{name} sizes={sizes} labels={labels[:len(sizes)]} order={order}"
    rep.n += 1
    ok, res = rep.call(lambda: sv.MulticlassOversampling(name, given, strategy=strategy).sample(X, y), what=desc, key=key)
    if not ok:
        return
    Xs, ys = np.asarray(res[0]), np.asarray(res[1])
    if given != params:
        rep.bad(f"{desc}: the parameter dictionary of the caller was changed", what="params", **key)
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        rep.bad(f"{desc}: the input was changed", what="input", **key)
        return
    if len(Xs) != len(ys) or not np.all(np.isfinite(Xs)):
        rep.bad(f"{desc}: {len(Xs)} rows for {len(ys)} labels, or non-finite values", what="shape", **key)
        return
    if not set(ys.tolist()) <= set(y0.tolist()):
        rep.bad(f"{desc}: labels {sorted(set(ys.tolist()))} not all in the input", what="labels", **key)
        return
    left = {}
    for r, l in zip(map(tuple, Xs), ys.tolist()):
        left[(r, l)] = left.get((r, l), 0) + 1
    for r, l in zip(map(tuple, X0), y0.tolist()):
        left[(r, l)] = left.get((r, l), 0) - 1
    if any(v < 0 for v in left.values()):
        rep.bad(f"{desc}: an original sample is lost or relabelled", what="lost", **key)
        return
    top = max(sizes)
    got = tuple(int(np.sum(ys == labels[i])) for i in range(len(sizes)))
    rep.t += sum(got)
    rep.out.add((name, strategy, sizes, got))
    for i, s in enumerate(sizes):
        if s == top and got[i] != s:
            rep.bad(f"{desc}: a largest class grew, final sizes {got}", what="top", **key)
            return
        if exact and (got[i] != top if s >= 3 and exact == 2 else got[i] not in (s, top)):
            rep.bad(f"{desc}: final sizes {got}, largest class {top}", what="count", **key)
            return
    if name in SEGMENT:
        for i in range(len(sizes)):
            orig = X0[y0 == labels[i]]
            if name == "distance_SMOTE":
                lo, hi = X0[y0 == labels[i]].min(0), X0[y0 == labels[i]].max(0)
                mine = Xs[ys == labels[i]]
                off = np.max(np.maximum(lo - mine, mine - hi)) if len(mine) else 0.0
            else:
                off = seg_dist(Xs[ys == labels[i]], orig, orig).max()
            if off > 1e-7:
                rep.bad(f"{desc}: a sample of class {labels[i]} does not lie between members of that class", what="segment", **key)
                return


def run(task):
    rep = Report(task["part"])
    if task["part"] == "params":
        return refuse(rep)
    name = task.get("name", "SMOTE")
    exact = 2 if name in EXACT and name != "Assembled_SMOTE" else int(name in EXACT or name in OR_NONE)
    for n, sizes in enumerate(task["vecs"]):
        sizes = tuple(sizes)
        labs = LABELS if task["part"] == "smote" and len(sizes) <= 3 else [LABELS[n % len(LABELS)]]
        for li, labels in enumerate(labs):
            for order in (0, 1) if li == 0 else (1,):
                judge(rep, name, {"random_state": 5}, task["strategy"], sizes, labels, order, exact)
        if len(rep.viol) >= rep.limit:
            break
    return rep.done()


def refuse(rep):
    import smote_variants as sv
    with_prop = {c.__name__ for c in sv.get_proportion_oversamplers()}
    for cls in sv.get_all_oversamplers():
        name = cls.__name__
        if name in with_prop:
            continue
        rep.n += 1
        try:
            sv.MulticlassOversampling(name, {})
        except ValueError:
            continue
        except Exception:  # pylint: disable=broad-except
            continue
        rep.bad(f"{name} without a proportion parameter is accepted", inner=name)
    try:
        sv.MulticlassOversampling("SMOTE", {}, strategy="nonsense")
        rep.bad("an unknown strategy is accepted")
    except ValueError:
        pass
    return rep.done()
