"""P11: every noise filter returns exactly the subset its rule defines, on all small labelled point configurations."""
import itertools

import numpy as np

from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 1500}
RULE = ("state = (points, labelling, row order, filter setting): each is given to the rule model and to the filter (one filter object "
        "is used for a whole series, so histories are included); the kept rows must be the model's")
BOUNDS = {"quick": "all subsets of 2-7 marks of a tie-free 1-d ruler x all labellings with both classes x 2 row orders (7 marks: 1), "
                   "4 planar sets of 8-9 points x all labellings, ruler of 9 marks x all labellings; 10 filter settings, 3 metrics",
          "thorough": "all subsets of 2-9 marks of a 9-mark ruler x all labellings x 3 row orders, 8 planar sets of 10 points x all "
                      "labellings; 10 filter settings, 3 metrics"}
ASSUMPTIONS = ["configurations have no distance ties (the order of equally distant neighbours is not specified)",
               "classes of equal size: the class whose label sorts second counts as the minority, as everywhere in the package",
               "the order of the rows returned by the condensing filters is not specified"]

RULER = [0, 1, 5, 12, 25, 27, 35, 41, 44]  # optimal Golomb ruler: all distances differ
LABELS = [(0, 1), (7, 3), (-1, 1), (0.0, 1.0), (2, 5)]
SETTINGS = [("TomekLinkRemoval", {"strategy": "remove_majority"}), ("TomekLinkRemoval", {"strategy": "remove_both"}),
            ("CondensedNearestNeighbors", {}), ("CNNTomekLinks", {}), ("OneSidedSelection", {}),
            ("EditedNearestNeighbors", {"remove": "both"}), ("EditedNearestNeighbors", {"remove": "min"}),
            ("EditedNearestNeighbors", {"remove": "maj"}), ("NeighborhoodCleaningRule", {}), ("TomekLinkRemoval", {})]
ORDERLESS = ("CondensedNearestNeighbors", "CNNTomekLinks", "OneSidedSelection")


def planar(i, n):
    rs = np.random.RandomState(70 + i)
    return np.round(rs.normal(size=(n, 2)) * [3, 1], 4)


def tasks(tier):
    quick = tier == "quick"
    out = []
    for s in range(len(SETTINGS)):
        for n in range(2, 8 if quick else 10):
            for order in range(1 if n == 7 and quick else (2 if quick else 3)):
                parts = 1 if n < 6 or quick else 6
                out += [{"part": "ruler", "s": s, "n": n, "order": order, "marks": 8 if quick else 9, "piece": [i, parts]} for i in range(parts)]
        if quick:
            out.append({"part": "ruler", "s": s, "n": 9, "order": 0, "marks": 9, "piece": [0, 1]})
        for i in range(4 if quick else 8):
            for metric in ((None, "tensor", "cov") if SETTINGS[s][0] not in ORDERLESS else (None,)):
                out.append({"part": "planar", "s": s, "i": i, "n": 8 + i % 2 if quick else 10, "metric": metric, "order": i % 2})
    out.append({"part": "catalogue"})
    return sorted(out, key=lambda t: -t.get("n", 0))


# the rule model -------------------------------------------------------------------------------------------------
def roles(y):
    """minority and majority as everywhere in the package: on equal counts the second label is the minority"""
    a, b = sorted(set(y))
    na, nb = int(np.sum(y == a)), int(np.sum(y == b))
    return (a, b) if na < nb else (b, a)


def m_tomek(D, y, idx, mn, both):
    near = {i: min((j for j in idx if j != i), key=lambda j: D[i, j]) for i in idx} if len(idx) > 1 else {}
    drop = {i for i in near if near[near[i]] == i and y[i] != y[near[i]] and (both or y[i] != mn)}
    return [i for i in idx if i not in drop]


def m_cnn(D, y, idx, mn):
    maj = [i for i in idx if y[i] != mn]
    if not maj:
        return list(idx)
    keep, rest = [i for i in idx if y[i] == mn] + maj[:1], maj[1:]
    while True:
        wrong = [i for i in rest if y[min(keep, key=lambda j: D[i, j])] == mn]
        if not wrong:
            return sorted(keep)
        keep += wrong
        rest = [i for i in rest if i not in wrong]


def m_vote(D, y, i):
    order = [j for j in np.argsort(D[i]) if j != i][:3]
    return order


def model(name, params, D, y):
    idx = list(range(len(y)))
    mn, mj = roles(y)
    if name == "TomekLinkRemoval":
        return m_tomek(D, y, idx, mn, params.get("strategy") == "remove_both")
    if name == "CondensedNearestNeighbors":
        return m_cnn(D, y, idx, mn)
    if name == "CNNTomekLinks":
        return m_tomek(D, y, m_cnn(D, y, idx, mn), mn, False)
    if name == "OneSidedSelection":
        return m_cnn(D, y, m_tomek(D, y, idx, mn, False), mn)
    if len(y) < 4:
        return idx
    drop = set()
    for i in idx:
        near = m_vote(D, y, i)
        vote = mn if sum(y[j] == mn for j in near) >= 2 else mj
        if vote == y[i]:
            continue
        if name == "EditedNearestNeighbors":
            if params["remove"] == "both" or (params["remove"] == "min") == (y[i] == mn):
                drop.add(i)
        elif y[i] == mj:
            drop.add(i)
        else:
            drop.update(j for j in near if y[j] == mj)
    return [i for i in idx if i not in drop]


# executions -----------------------------------------------------------------------------------------------------
def distances(X, tensor):
    diff = X[:, None] - X[None]
    return np.sqrt(np.einsum("ijk,kl,ijl->ij", diff, np.eye(X.shape[1]) if tensor is None else tensor, diff))


def build(task):
    import smote_variants.noise_removal as nr
    name, params = SETTINGS[task["s"]]
    cls = getattr(nr, name, None)
    params = dict(params)
    tensor = None
    if task.get("metric") == "tensor":
        tensor = np.array([[2.0, 0.6], [0.6, 0.5]])
        params["nn_params"] = {"metric": "precomputed", "metric_tensor": tensor}
    elif task.get("metric") == "cov":
        params["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"}
    return name, params, cls, tensor


def configurations(task):
    if task["part"] == "ruler":
        subsets = list(itertools.combinations(RULER[:task["marks"]], task["n"]))[task["piece"][0]::task["piece"][1]]
        for pts in subsets:
            X = np.array(pts, dtype=float)[:, None]
            yield X
    else:
        yield planar(task["i"], task["n"])


def reorder(n, order):
    if order == 0:
        return list(range(n))
    if order == 1:
        return list(range(1, n, 2)) + list(range(0, n, 2))[::-1]
    return list(range(n))[::-1]


def run(task):
    rep = Report(task["part"])
    if task["part"] == "catalogue":
        return catalogue(rep)
    name, params, cls, tensor = build(task)
    if cls is None:
        rep.bad(f"{name} is not available", filter=name)
        return rep.done()
    obj = cls(**params)
    count = 0
    for X0 in configurations(task):
        n = len(X0)
        X0 = X0[reorder(n, task["order"])]
        t = tensor
        if task.get("metric") == "cov":
            t = np.linalg.inv(np.cov(X0, rowvar=False))
        D = distances(X0, t)
        rows = {tuple(r): i for i, r in enumerate(X0)}
        for bits in range(1, 2 ** n - 1):
            lab = LABELS[count % len(LABELS)]
            count += 1
            y0 = np.array([lab[(bits >> i) & 1] for i in range(n)])
            X, y = X0.copy(), y0.copy()
            rep.n += 1
            key = dict(filter=name, params=params.get("strategy", params.get("remove", "")))
            desc = f"{name}({params}) on X={X0.tolist()} y={y0.tolist()}"
            ok, res = rep.call(obj.remove_noise, X, y, what=desc, key=key)
            if not ok:
                continue
            want = model(name, params, D, y0)
            rep.t += len(want)
            rep.out.add(f"{n}:{bits}:{len(want)}:{task['s']}")
            try:
                Xr, yr = res
                Xr, yr = np.asarray(Xr), np.asarray(yr)
                got = [rows.get(tuple(r), -1) for r in Xr]
            except Exception as exc:  # pylint: disable=broad-except
                rep.bad(f"{desc}: unusable result {type(exc).__name__}: {exc}", **key)
                continue
            if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
                rep.bad(f"{desc}: the input was changed", what="input", **key)
            elif len(Xr) != len(yr) or -1 in got:
                rep.bad(f"{desc}: the result is not a subset of the rows", what="subset", **key)
            elif any(yr[k] != y0[g] for k, g in enumerate(got)):
                rep.bad(f"{desc}: a kept row has another label", what="label", **key)
            elif (sorted(got) if name in ORDERLESS else got) != want:
                rep.bad(f"{desc}: kept rows {got}, the rule keeps {want}", what="rule", **key)
            else:
                if len(Xr):
                    Xr[:] = 99.0
                if not np.array_equal(X, X0):
                    rep.bad(f"{desc}: the result shares memory with the input", what="alias", **key)
            if len(rep.viol) >= rep.limit:
                return rep.done()
    return rep.done()


def catalogue(rep):
    """every registered filter is known to the model; unknown ones are held to the subset law"""
    import smote_variants as sv
    names = {c.__name__ for c in sv.get_all_noisefilters()}
    known = {n for n, _ in SETTINGS}
    rep.n += len(names | known)
    for missing in sorted(known - names):
        rep.bad(f"{missing} is not listed by get_all_noisefilters", filter=missing)
    for cls in sv.get_all_noisefilters():
        for i in range(4):
            X0 = planar(i, 12)
            for lab in LABELS:
                y0 = np.array([lab[int(k % 3 == 0)] for k in range(12)])
                X, y = X0.copy(), y0.copy()
                rep.n += 1
                ok, res = rep.call(cls().remove_noise, X, y, what=cls.__name__, key={"filter": cls.__name__})
                if not ok:
                    continue
                rows = {tuple(r): j for j, r in enumerate(X0)}
                got = [rows.get(tuple(r), -1) for r in res[0]]
                rep.out.add(f"{cls.__name__}{got}")
                if -1 in got or len(set(got)) != len(got) or any(a != y0[g] for a, g in zip(res[1], got)):
                    rep.bad(f"{cls.__name__}: not a subset of the rows with their labels", filter=cls.__name__)
    return rep.done()
