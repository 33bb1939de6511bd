"""P15: distances and neighbour queries equal the brute-force definition for every metric, query and chunk size."""
import itertools

import numpy as np

from vlib import data
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 1500}
RULE = ("state = (points, query points, metric, chunk size, neighbour count or radius): all of a bounded space are evaluated by the "
        "implementation and by the brute-force definition; every metric the package builds is checked to be symmetric and positive; "
        "oversamplers are run under all chunk sizes of a list")
BOUNDS = {"quick": "point sets of 1..6 rows x 1..3 columns (queries of 1..5 rows), 8 tensors, all chunk sizes 1..(elements+2); all neighbour "
                   "counts; 7 radii; metrics of 9 learning methods on 14 datasets; every oversampler x 3 chunk sizes x 2 metrics",
          "thorough": "point sets of 1..12 rows x 1..4 columns (queries of 1..9 rows), 8 tensors, all chunk sizes; 9 learning methods on 24 "
                      "datasets; every oversampler x 8 chunk sizes x 3 metrics x 3 datasets"}
ASSUMPTIONS = ["equally distant neighbours may be returned in any order", "queries name their query points explicitly when a metric tensor is used",
               "metrics learnt from data that carries no information (constant data, one minority sample) are not required to be definite",
               "the ITML_mi method multiplies two tensors and is not a metric; it is not offered by any oversampler and not covered"]


def tensors(d):
    rs = np.random.RandomState(50 + d)
    A = rs.normal(size=(d, d))
    low = np.tril(A) + np.eye(d) * 2
    out = [None, np.eye(d), 4.0 * np.eye(d), np.diag(np.arange(1, d + 1).astype(float)), A @ A.T + 0.1 * np.eye(d),
           low @ low.T, 1e-3 * (A @ A.T + 0.5 * np.eye(d)), np.diag([100.0] + [0.01] * (d - 1))]
    return out


def points(n, d, salt=0):
    rs = np.random.RandomState(97 * n + 13 * d + salt)
    return np.round(rs.normal(size=(n, d)) * 2, 3)


def tasks(tier):
    quick = tier == "quick"
    nmax, mmax, dmax = (6, 5, 3) if quick else (12, 9, 4)
    out = []
    for n in range(1, nmax + 1):
        for d in range(1, dmax + 1):
            out.append({"part": "pairwise", "n": n, "d": d, "m": mmax, "other": nmax})
            out.append({"part": "queries", "n": n, "d": d, "m": mmax})
    names = ["gen", "sep", "one_d", "const", "line", "hi", "wide", "scaled", "med", "cross", "dup2", "bal", "minfirst", "sorted"]
    if not quick:
        names = [n for n in data.NAMED if n not in ("m1", "dupmin")]
    for ds in names:
        out.append({"part": "metric", "ds": ds})
    for name in data.oversampler_names(0.5 if quick else 1.0):
        out.append({"part": "oversampler", "name": name, "ds": ["hi", "gen"] if quick else ["hi", "gen", "wide"],
                    "chunks": [1, 17, 60] if quick else [1, 2, 5, 17, 30, 60, 200, 1000]})
    out += [{"part": "matrix"}, {"part": "border"}, {"part": "config"}]
    return out


def brute(X, Y, T):
    T = np.eye(X.shape[1]) if T is None else T
    out = np.zeros((len(X), len(Y)))
    for i, x in enumerate(X):
        for j, y in enumerate(Y):
            out[i, j] = np.sqrt(max(float((x - y) @ T @ (x - y)), 0.0))
    return out


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * (1 + np.abs(b))))


def base():
    import smote_variants.base as b
    return b


def chunk(value):
    import smote_variants.config as c
    return c.distance_matrix_max_memory_chunk(value)


def run(task):
    rep = Report(task["part"])
    old = chunk(None)
    try:
        globals()["do_" + task["part"]](rep, task)
    finally:
        chunk(old)
    return rep.done()


def do_pairwise(rep, task):
    b = base()
    n, d = task["n"], task["d"]
    X = points(n, d)
    for ti, T in enumerate(tensors(d)):
        cases = [(None, X)] + [(points(m, d, 5), points(m, d, 5)) for m in range(1, task["m"] + 1)]
        for Y, Yref in cases:
            want = brute(X, Yref, T)
            for size in range(1, n * d * len(Yref) + 3):
                chunk(size)
                for opt in (True, False):
                    rep.n += 1
                    desc = f"{n}x{d} against {'itself' if Y is None else len(Yref)} tensor {ti} chunk {size} optimized={opt}"
                    ok, got = rep.call(b.pairwise_distances_mahalanobis, X, Y=Y, tensor=T, optimized=opt, what=desc)
                    if ok and not near(got, want):
                        rep.bad(f"{desc}: {np.asarray(got).tolist()} instead of {want.tolist()}", what="pairwise")
                        return
            rep.out.add((n, d, ti, len(Yref), Y is None))
        Y = points(n, d, 9)
        rep.n += 1
        ok, got = rep.call(b.distances_mahalanobis, X, Y, T, what=f"distances {n}x{d} tensor {ti}")
        if ok and not near(got, np.diag(brute(X, Y, T))):
            rep.bad(f"distances_mahalanobis {n}x{d} tensor {ti}: {np.asarray(got).tolist()}", what="rowwise")


def check_neighbours(rep, got, D, k, desc, with_dist):
    try:
        dist, ind = got if with_dist else (None, got)
        ind = np.asarray(ind)
        if ind.shape != (len(D), k):
            rep.bad(f"{desc}: {ind.shape} indices instead of {(len(D), k)}", what="shape")
            return False
        for i, row in enumerate(ind):
            real = D[i][row]
            want = np.sort(D[i])[:k]
            if len(set(row.tolist())) != k or not near(real, want):
                rep.bad(f"{desc}: query {i} gives {row.tolist()} at {real.tolist()}, nearest are at {want.tolist()}", what="knn")
                return False
            if with_dist and not near(dist[i], want):
                rep.bad(f"{desc}: query {i} reports distances {np.asarray(dist[i]).tolist()}, they are {want.tolist()}", what="dist")
                return False
    except Exception as exc:  # pylint: disable=broad-except
        rep.bad(f"{desc}: unusable answer {type(exc).__name__}: {exc}", what="answer")
        return False
    return True


def do_queries(rep, task):
    b = base()
    n, d = task["n"], task["d"]
    X = points(n, d)
    for n_queries in range(1, task["m"] + 1):
        for Q, same in ((points(n_queries, d, 3), False), (X[:n_queries], True)):
            for ti, T in enumerate(tensors(d)):
                D, m = brute(Q, X, T), len(Q)
                kinds = [("minkowski", None)] if T is None else [("precomputed", T)]
                for metric, tensor in kinds:
                    for size in (1, d + 1, 3 * d * n - 1, 10 ** 7):
                        chunk(size)
                        for k in range(1, n + 1):
                            for with_dist in (True, False):
                                for via_ctor in (True, False):
                                    rep.n += 1
                                    desc = f"{k} neighbours of {m} queries among {n}x{d} tensor {ti} chunk {size}"
                                    nn = b.NearestNeighborsWithMetricTensor(n_neighbors=k if via_ctor else 1, metric=metric, metric_tensor=tensor)
                                    ok, got = rep.call(lambda: nn.fit(X).kneighbors(Q, None if via_ctor else k, return_distance=with_dist), what=desc)
                                    if ok and not check_neighbours(rep, got, D, k, desc, with_dist):
                                        return
                        flat = np.sort(np.unique(np.round(D.ravel(), 9)))
                        radii = [flat[0] / 2, flat[-1] + 1.0] + [(flat[j] + flat[j + 1]) / 2 for j in range(0, len(flat) - 1, max(1, len(flat) // 5))]
                        for r in radii:
                            if np.min(np.abs(D - r)) < 1e-7:
                                continue
                            for with_dist in (True, False):
                                rep.n += 1
                                desc = f"radius {r:.4g} of {m} queries among {n}x{d} tensor {ti} chunk {size}"
                                nn = b.NearestNeighborsWithMetricTensor(n_neighbors=1, metric=metric, metric_tensor=tensor, radius=r)
                                ok, got = rep.call(lambda: nn.fit(X).radius_neighbors(Q, return_distance=with_dist), what=desc)
                                if not ok:
                                    continue
                                ind = got[1] if with_dist else got
                                if len(ind) != m or any(sorted(int(v) for v in ind[i]) != np.where(D[i] <= r)[0].tolist() for i in range(m)):
                                    rep.bad(f"{desc}: {[list(map(int, v)) for v in ind]} instead of {[np.where(D[i] <= r)[0].tolist() for i in range(m)]}", what="radius")
                                    return
                                if with_dist and any(not near(got[0][i], D[i][[int(v) for v in ind[i]]]) for i in range(m)):
                                    rep.bad(f"{desc}: wrong distances", what="radius")
                                    return
                    rep.out.add((n, d, m, ti, same))


METHODS = ("id", "cov", "cov_min", "rf", "ITML", "LSML", "NCA", "gmean", "MI_weighted")


def do_metric(rep, task):
    b = base()
    X, y = data.DS[task["ds"]]
    vals, cnt = np.unique(y, return_counts=True)
    for method in METHODS:
        for enc in ((0, 1), (1, 0), (5, 2)):
            if enc != (0, 1) and method in ("ITML", "LSML", "NCA", "gmean", "MI_weighted", "rf"):
                continue
            yy = np.where(y == vals[0], enc[0], enc[1])
            rep.n += 1
            desc = f"{method} on {task['ds']} labels {enc}"
            X1, y1 = X.copy(), yy.copy()
            ok, T = rep.call(lambda: b.MetricTensor(metric_learning_method=method).tensor(X1, y1), what=desc, key={"method": method})
            if not ok:
                continue
            T = np.asarray(T, dtype=float)
            if not (np.array_equal(X1, X) and np.array_equal(y1, yy)):
                rep.bad(f"{desc}: the data was changed", what="input", method=method)
            if T.shape != (X.shape[1], X.shape[1]) or not np.all(np.isfinite(T)):
                rep.bad(f"{desc}: tensor {T.tolist()}", what="shape", method=method)
                continue
            scale = max(np.abs(T).max(), 1e-12)
            if np.abs(T - T.T).max() > 1e-7 * scale:
                rep.bad(f"{desc}: not symmetric: {T.tolist()}", what="symmetric", method=method)
            low = np.linalg.eigvalsh((T + T.T) / 2).min()
            strict = method in ("id", "cov", "cov_min", "rf", "ITML", "LSML", "gmean")
            if low < -1e-9 * scale or (strict and low <= 0):
                rep.bad(f"{desc}: smallest eigenvalue {low}", what="definite", method=method)
            want = None
            if method == "id":
                want = np.eye(X.shape[1])
            if method in ("cov", "cov_min"):
                mn = (enc[1] if cnt[0] > cnt[1] else enc[0]) if cnt[0] != cnt[1] else max(enc)
                S = np.atleast_2d(np.cov(X if method == "cov" else X[yy == mn], rowvar=False))
                if np.linalg.eigvalsh(S).min() > 1e-3:
                    want = np.linalg.inv(S)
            if want is not None and not np.allclose(T, want, rtol=1e-6, atol=1e-9):
                rep.bad(f"{desc}: {T.tolist()} instead of {want.tolist()}", what="definition", method=method)
            rep.out.add((task["ds"], method, enc))


def do_oversampler(rep, task):
    """the chunk size changes no result of any oversampler"""
    name = task["name"]
    params = data.ctor_params(data.cls(name))
    settings = [{}]
    if "nn_params" in params:
        settings = [{"nn_params": s} for s in ({}, {"metric": "precomputed", "metric_learning_method": "cov"})]
    for ds in task["ds"]:
        X, y = data.DS[ds]
        for kw in settings:
            ref = None
            for size in [50_000_000] + task["chunks"]:
                chunk(size)
                rep.n += 1
                try:
                    Xs, ys = data.make(name, kw).sample(X.copy(), y.copy())
                except Exception as exc:  # pylint: disable=broad-except
                    if ref is None:
                        break  # P01 decides
                    rep.bad(f"{name}({kw}) on {ds} with chunk {size} raised {type(exc).__name__}: {exc}", what="oversampler", name=name)
                    break
                if ref is None:
                    ref = (Xs, ys)
                    rep.out.add((name, ds, str(kw), data.digest(Xs)))
                elif not (data.close(ref[0], Xs, 1e-6, 1e-7) and np.array_equal(ref[1], ys)):
                    rep.bad(f"{name}({kw}) on {ds}: another result with chunk {size}", what="oversampler", name=name)
                    break


def do_matrix(rep, task):
    b = base()
    for d in (1, 2, 3, 4):
        for ti, T in enumerate(tensors(d)):
            if T is None:
                continue
            for shift in (0.0, -2.0, -10.0):
                M = T + shift * np.eye(d)
                rep.n += 1
                ok, F = rep.call(b.fix_pd_matrix, M.copy(), what=f"fix_pd_matrix {M.tolist()}")
                if not ok:
                    continue
                F = np.asarray(F)
                ev = np.linalg.eigvalsh((F + F.T) / 2)
                if np.abs(F - F.T).max() > 1e-9 * max(1, np.abs(F).max()) or ev.min() < 0.9e-4:
                    rep.bad(f"fix_pd_matrix({M.tolist()}) = {F.tolist()} is not positive definite", what="fix")
                if np.linalg.eigvalsh(M).min() > 1e-3 and not np.allclose(F, M, rtol=1e-8, atol=1e-9):
                    rep.bad(f"fix_pd_matrix changes the positive definite {M.tolist()}", what="fix")
                rep.out.add((d, ti, shift))
            if ti:
                ok, R = rep.call(b.psd_mean, [T, np.eye(d)], what="psd_mean")
                if ok and not np.allclose(R, (T + np.eye(d)) / 2, rtol=1e-7, atol=1e-9):
                    rep.bad(f"psd_mean of {T.tolist()} and the identity is {np.asarray(R).tolist()}", what="mean")
        # a dissimilarity that is a Mahalanobis distance is recovered
        for n in (8, 14, 30, 60):
            for ti in (1, 3, 4, 5):
                T = tensors(d)[ti]
                X = points(n, d, 21)
                rep.n += 1
                ok, res = rep.call(b.construct_tensor, X, brute(X, X, T), what="construct_tensor")
                if ok and not np.allclose(res[0], T, rtol=1e-5, atol=1e-6):
                    rep.bad(f"construct_tensor from {n} distances under {T.tolist()} gives {np.asarray(res[0]).tolist()}", what="construct")


def do_border(rep, task):
    """ClosestNeighborsInClasses: the points with a neighbour of the other class"""
    b = base()
    for n in (5, 6, 7):
        X = points(n, 2, 33)
        D = brute(X, X, None)
        for bits in range(1, 2 ** n - 1):
            y = np.array([(bits >> i) & 1 for i in range(n)])
            for k in range(1, n + 1):
                rep.n += 1
                desc = f"border of labels {y.tolist()} with {k} neighbours"
                ok, res = rep.call(b.ClosestNeighborsInClasses(n_neighbors=k).fit_transform, X, y, what=desc)
                if not ok:
                    continue
                want = {i for i in range(n) if any(y[j] != y[i] for j in np.argsort(D[i])[:k])}
                rows = {tuple(r): i for i, r in enumerate(X)}
                got = [rows.get(tuple(r), -1) for r in res[0]]
                if set(got) != want or len(got) != len(want) or any(l != y[g] for g, l in zip(got, res[1])):
                    rep.bad(f"{desc}: {got}, definition gives {sorted(want)}", what="border")
                    return
            rep.out.add((n, bits))


def do_config(rep, task):
    import smote_variants.config as c
    for f in (c.distance_matrix_max_memory_chunk, c.suppress_external_warnings, c.suppress_internal_warnings):
        old = f()
        for v in ((1, 7, 10 ** 6) if f is c.distance_matrix_max_memory_chunk else (True, False)):
            others = [g() for g in (c.distance_matrix_max_memory_chunk, c.suppress_external_warnings, c.suppress_internal_warnings) if g is not f]
            rep.n += 1
            if f(v) != v or f() != v:
                rep.bad(f"{f.__name__}({v}) is not in force afterwards", what="config")
            if others != [g() for g in (c.distance_matrix_max_memory_chunk, c.suppress_external_warnings, c.suppress_internal_warnings) if g is not f]:
                rep.bad(f"{f.__name__}({v}) changes another setting", what="config")
            rep.out.add((f.__name__, v))
        f(old)
