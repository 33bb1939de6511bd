"""P10: simplex enumeration, allocation and in-simplex sampling against executable models."""
import collections
import importlib
import itertools

import numpy as np
from scipy.optimize import nnls

from vlib import data
from vlib.rng import PATTERNS, ScriptedState

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 900}
RULE = ("state = (input, model answer): every input of the bounded space is given to the model and to the implementation: "
        "candidate simplices for all (bases, neighbours, vertices); all neighbour tables; all weight vectors over a grid x "
        "requested counts; deterministic and random sampling on point sets x weights x scripted random answers")
BOUNDS = {"quick": "bases<=5, neighbours<=6, vertices<=4; all tables of 3 bases with <=3 of 4 neighbours; weight vectors of length<=4 "
                   "over {0,1,2,3,7}, counts 1..12; 4 random patterns x first 3 calls; 6 noise settings x 3 noise values",
          "thorough": "bases<=7, neighbours<=8, vertices<=5; weight vectors of length<=5 over {0,1,2,3,5,7}, counts 1..25; "
                      "4 random patterns x first 6 calls"}
ASSUMPTIONS = ["helpers that no longer exist under their name are skipped; the behaviour they provide is still checked through "
               "sample_simplex and the oversamplers (P04, P09)"]


def lib():
    return importlib.import_module("smote_variants.base")


def fun(name):
    mod = lib()
    if hasattr(mod, name):
        return getattr(mod, name)
    try:
        return getattr(importlib.import_module("smote_variants.base._simplexsampling"), name)
    except (ImportError, AttributeError):
        return None


class Report:
    def __init__(self, part):
        self.part, self.viol, self.n, self.out = part, [], 0, []

    def bad(self, msg, **key):
        if len(self.viol) < 5:
            self.viol.append(dict(kind=self.part, key={"kind": self.part, **{k: str(v) for k, v in key.items()}}, msg=f"{self.part}: {msg}"))

    def done(self):
        return {"n": self.n, "t": self.n, "out": self.out, "v": self.viol}


def tasks(tier):
    quick = tier == "quick"
    out = [{"part": "enumerate", "nb": 5 if quick else 7, "nn": 6 if quick else 8, "nd": 4 if quick else 5}]
    for nb in (1, 2, 3):
        for k in (1, 2, 3):
            out.append({"part": "tables", "nb": nb, "k": k})
    grid = [0, 1, 2, 3, 7] if quick else [0, 1, 2, 3, 5, 7]
    for length in range(1, 5 if quick else 6):
        for first in grid:
            out.append({"part": "allocate", "length": length, "first": first, "grid": grid, "counts": 12 if quick else 25})
    out.append({"part": "allocate_long", "sizes": [7, 10, 33, 100] if quick else [7, 10, 33, 100, 250, 1000]})
    for ds in range(4 if quick else 8):
        for weights in ("none", "base", "simplex", "vertex", "both"):
            for vert in (False, True):
                out.append({"part": "deterministic", "ds": ds, "weights": weights, "vertices": vert,
                            "counts": [1, 2, 3, 5, 8, 13] if quick else list(range(1, 31))})
                out.append({"part": "random", "ds": ds, "weights": weights, "vertices": vert, "n_pos": 3 if quick else 6,
                            "counts": [1, 4] if quick else [1, 2, 4, 9]})
    out += [{"part": "volume"}, {"part": "helpers"}, {"part": "degenerate"}]
    out += [{"part": "noise", "ds": ds} for ds in range(4 if quick else 8)]
    return out


def expected_simplices(indices, n_dim):
    out = collections.Counter()
    for i, row in enumerate(indices):
        for comb in itertools.combinations(row[1:], n_dim - 1):
            out[(i,) + tuple(sorted(comb))] += 1
    return out


def as_counter(simplices):
    return collections.Counter((int(r[0]),) + tuple(sorted(int(v) for v in r[1:])) for r in simplices)


# point sets -----------------------------------------------------------------------------------------------------
def points(ds):
    rs = np.random.RandomState(40 + ds)
    n, d, k = [(3, 2, 2), (4, 2, 3), (5, 3, 4), (4, 1, 2), (6, 2, 3), (5, 2, 5), (7, 4, 3), (3, 3, 3)][ds]
    X = rs.normal(size=(n, d))
    D = ((X[:, None] - X[None]) ** 2).sum(-1)
    ind = np.argsort(D, axis=1)[:, :k]
    V = rs.normal(size=(n + 1, d)) + 3.0
    Dv = ((X[:, None] - V[None]) ** 2).sum(-1)
    indv = np.hstack([np.arange(n)[:, None], np.argsort(Dv, axis=1)[:, :k - 1]])
    w = rs.randint(0, 4, size=n).astype(float)
    w[0] += 1
    sw = np.hstack([np.ones((n, 1)), rs.randint(0, 4, size=(n, k - 1)).astype(float)])
    sw[0, 1:] += 1
    vw = np.array([0.25, 0.5, 1.0, 0.75, 0.9, 0.1, 0.6, 0.3])
    return X, ind, V, indv, w, sw, vw


def setup(task):
    X, ind, V, indv, w, sw, vw = points(task["ds"])
    kw = {"indices": indv if task["vertices"] else ind}
    if task["vertices"]:
        kw["X_vertices"] = V
    n_other = len(V) if task["vertices"] else len(X)
    if task["weights"] in ("base", "both"):
        kw["base_weights"] = w / w.sum()
    if task["weights"] in ("simplex", "both"):
        kw["simplex_weights"] = sw
    if task["weights"] in ("vertex", "both"):
        kw["vertex_weights"] = vw[:n_other]
    return X, kw


def model_weights(X, kw, n_dim, sampling):
    """weight of each candidate simplex, in the order base by base, combination by combination"""
    ind = kw["indices"]
    V = kw.get("X_vertices")
    keys, ws = [], []
    for i, row in enumerate(ind):
        for comb in itertools.combinations(range(1, len(row)), n_dim - 1):
            wt = 1.0
            if kw.get("base_weights") is not None:
                wt = kw["base_weights"][i]
            elif sampling == "volume":
                verts = [X[i]] + [(V if V is not None else X)[row[c]] for c in comb]
                wt = volume(np.array(verts))
            if kw.get("simplex_weights") is not None:
                wt *= np.prod([kw["simplex_weights"][i][c] for c in comb])
            keys.append((i,) + tuple(int(row[c]) for c in comb))
            ws.append(wt)
    ws = np.array(ws)
    if ws.sum() == 0:
        ws = np.ones(len(ws))
    return keys, ws / ws.sum()


def volume(S):
    A = S[:-1] - S[-1]
    det = np.linalg.det(A @ A.T)
    fact = 1
    for i in range(2, len(S)):
        fact *= i
    return np.sqrt(max(det, 0.0)) / fact


def sampler(n_dim, simplex, within, rs=5, gauss=None):
    return data.cls("SMOTE")(ss_params={"n_dim": n_dim, "simplex_sampling": simplex, "within_simplex_sampling": within,
                                        "gaussian_component": gauss}, random_state=rs)


def lexsorted(A):
    A = np.round(np.asarray(A, float), 9) + 0.0
    return A[np.lexsort(A.T[::-1])]


def even_model(X, kw, alloc):
    """alloc: Counter of directed (base, neighbour) pairs -> the evenly spaced samples"""
    V = kw.get("X_vertices")
    vw = kw.get("vertex_weights")
    other = X if V is None else V
    merged = collections.Counter()
    for (a, b), c in alloc.items():
        merged[(a, b) if (V is not None or vw is not None) else tuple(sorted((a, b)))] += c
    out = []
    for (a, b), c in merged.items():
        w = 1.0 if vw is None else vw[b]
        out += [X[a] + (other[b] - X[a]) * w * k / (c + 1) for k in range(1, c + 1)]
    return out


class Recorder(ScriptedState):
    """records the distributions given to choice"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dists = []

    def choice(self, a, size=None, replace=True, p=None):
        out = super().choice(a, size, replace, p)
        self.dists.append((np.arange(a) if np.ndim(a) == 0 else np.asarray(a), None if p is None else np.asarray(p, float), np.asarray(out)))
        return out


def run(task):
    rep = Report(task["part"])
    globals()["part_" + task["part"]](task, rep)
    return rep.done()


def part_enumerate(task, rep):
    f = fun("base_idx_neighbor_idx_simplices")
    if f is None:
        return
    for nb in range(1, task["nb"] + 1):
        for nn in range(1, task["nn"] + 1):
            for nd in range(2, task["nd"] + 1):
                if nd - 1 > nn - 1:
                    continue
                rep.n += 1
                got = collections.Counter(tuple(int(v) for v in r) for r in np.asarray(f(nb, nn, nd)))
                want = collections.Counter((i,) + c for i in range(nb) for c in itertools.combinations(range(1, nn), nd - 1))
                rep.out.append(f"enum/{nb}/{nn}/{nd}/{len(want)}")
                if got != want:
                    rep.bad(f"n_base={nb} n_neighbors={nn} n_dim={nd}: {len(got)} candidates, {len(want)} expected", case=(nb, nn, nd))


def part_tables(task, rep):
    f = fun("all_neighbor_simplices_real_idx")
    if f is None:
        return
    nb, k = task["nb"], task["k"]
    rows = [list(itertools.permutations([j for j in range(5) if j != i][:4], k)) for i in range(nb)]
    if nb == 3:
        rows = [r[:: max(1, len(r) // 8)] for r in rows]
    for table in itertools.product(*rows):
        ind = np.array([[i] + list(r) for i, r in enumerate(table)])
        for nd in range(2, k + 2):
            rep.n += 1
            src = ind.copy()
            got = as_counter(np.asarray(f(nd, src)))
            if got != expected_simplices(ind, nd):
                rep.bad(f"neighbour table {ind.tolist()} n_dim={nd}: {dict(got)}", case=(ind.tolist(), nd))
            if not np.array_equal(src, ind):
                rep.bad(f"neighbour table changed for {ind.tolist()}", case=ind.tolist())
    rep.out += [f"table/{nb}/{k}/{i}" for i in range(rep.n)]


def check_alloc(rep, f, p, n, label):
    rep.n += 1
    choices = np.arange(len(p)) * 10 + 3
    try:
        got = np.asarray(f(choices, n, p))
    except Exception as exc:  # pylint: disable=broad-except
        rep.bad(f"weights {label} count {n}: {type(exc).__name__}: {exc}", case=(label, n))
        return
    cnt = collections.Counter(got.tolist())
    if len(got) != n or not set(cnt) <= set(choices.tolist()):
        rep.bad(f"weights {label}: {len(got)} of {n} samples allocated", case=(label, n))
        return
    for c, pi in zip(choices.tolist(), p):
        if pi == 0 and cnt.get(c, 0):
            rep.bad(f"weights {label} count {n}: zero-weight candidate chosen", case=(label, n))
        if abs(cnt.get(c, 0) - n * pi) > 1 + 1e-9:
            rep.bad(f"weights {label} count {n}: candidate with share {n * pi:.3f} got {cnt.get(c, 0)}", case=(label, n))


def part_allocate(task, rep):
    f = fun("deterministic_sample")
    if f is None:
        return
    for rest in itertools.product(task["grid"], repeat=task["length"] - 1):
        w = np.array((task["first"],) + rest, float)
        if w.sum() == 0:
            continue
        for n in range(1, task["counts"] + 1):
            check_alloc(rep, f, w / w.sum(), n, w.tolist())
        rep.out.append(f"alloc/{w.tolist()}")


def part_allocate_long(task, rep):
    f = fun("deterministic_sample")
    if f is None:
        return
    for m in task["sizes"]:
        for kind in range(4):
            w = [np.ones(m), np.arange(1, m + 1.0), (np.arange(m) % 3).astype(float), np.where(np.arange(m) % 5 == 0, 1000.0, 1.0)][kind]
            for n in (1, 2, m // 2 + 1, m - 1, m, m + 1, 2 * m + 3, 5 * m):
                if n > 0:
                    check_alloc(rep, f, w / w.sum(), n, f"pattern {kind} length {m}")
            rep.out.append(f"alloclong/{m}/{kind}")


def part_deterministic(task, rep):
    X, kw = setup(task)
    keys, p = model_weights(X, kw, 2, "deterministic")
    for n in task["counts"]:
        rep.n += 1
        Xc = X.copy()
        args = {k: v.copy() for k, v in kw.items()}
        try:
            got = np.asarray(sampler(2, "deterministic", "deterministic").sample_simplex(Xc, n_to_sample=n, **args))
        except Exception as exc:  # pylint: disable=broad-except
            rep.bad(f"{task} n={n}: {type(exc).__name__}: {exc}", case=(task["ds"], task["weights"], n))
            continue
        if not np.array_equal(Xc, X) or any(not np.array_equal(args[k], kw[k]) for k in kw):
            rep.bad(f"{task} n={n}: inputs changed", case=(task["ds"], task["weights"], n))
        if got.shape != (n, X.shape[1]):
            rep.bad(f"{task}: {got.shape[0]} samples for {n} requested", case=(task["ds"], task["weights"], n))
            continue
        sim = sampler(2, "deterministic", "deterministic")
        inner = {k: v for k, v in kw.items() if k != "vertex_weights"}
        try:
            chosen = np.asarray(sim.simplices(X.copy(), n, n_dim=2, **{k: v.copy() for k, v in inner.items()}))
        except Exception:  # pylint: disable=broad-except
            continue  # the inner function has another form; counts were checked above
        alloc = collections.Counter((int(r[0]), int(r[1])) for r in chosen)
        for key, pi in zip(keys, p):
            same = sum(pj for kj, pj in zip(keys, p) if kj == key)
            if abs(alloc.get(key, 0) - n * same) > 1 + 1e-9 or (same == 0 and alloc.get(key, 0)):
                rep.bad(f"{task} n={n}: segment {key} with share {n * same:.3f} got {alloc.get(key, 0)}", case=(task["ds"], task["weights"], n))
        if not set(alloc) <= set(keys):
            rep.bad(f"{task} n={n}: segment {set(alloc) - set(keys)} is no candidate", case=(task["ds"], task["weights"], n))
            continue
        want = even_model(X, kw, alloc)
        if not data.close(lexsorted(got), lexsorted(want), 1e-6, 1e-7):
            rep.bad(f"{task} n={n}: samples are not evenly spaced on their segments", case=(task["ds"], task["weights"], n))
        rep.out.append(f"det/{task['ds']}/{task['weights']}/{task['vertices']}/{n}/{sorted(alloc.items())}")


def part_random(task, rep):
    X, kw = setup(task)
    V = kw.get("X_vertices")
    vw = kw.get("vertex_weights")
    other = X if V is None else V
    for n_dim in (2, 3):
        if kw["indices"].shape[1] < n_dim:
            continue
        for simplex in ("random", "volume"):
            keys, p = model_weights(X, kw, n_dim, simplex)
            dist = collections.Counter()
            for k, pi in zip(keys, p):
                dist[k] += pi
            for n in task["counts"]:
                for pos in [None] + list(range(task["n_pos"])):
                    for pat in PATTERNS if pos is not None else PATTERNS[:1]:
                        rep.n += 1
                        rs = Recorder(5, pos, pat)
                        case = (task["ds"], task["weights"], task["vertices"], n_dim, simplex, n, pos, pat)
                        args = {k: v.copy() for k, v in kw.items()}
                        Xc = X.copy()
                        try:
                            got = np.asarray(sampler(n_dim, simplex, "random", rs).sample_simplex(Xc, n_to_sample=n, **args))
                        except Exception as exc:  # pylint: disable=broad-except
                            rep.bad(f"{case}: {type(exc).__name__}: {exc}", case=case)
                            continue
                        if not np.array_equal(Xc, X) or any(not np.array_equal(args[k], kw[k]) for k in kw):
                            rep.bad(f"{case}: inputs changed", case=case)
                        if got.shape != (n, X.shape[1]):
                            rep.bad(f"{case}: shape {got.shape}", case=case)
                            continue
                        # each sample is a convex combination of the (reweighted) vertices of a candidate of positive weight
                        for q in got:
                            best = np.inf
                            for key in dist:
                                if dist[key] <= 0:
                                    continue
                                S = [X[key[0]]] + [X[key[0]] + (other[j] - X[key[0]]) * (1.0 if vw is None else vw[j]) for j in key[1:]]
                                A = np.vstack([np.array(S).T, np.full(len(S), 10.0)])
                                best = min(best, nnls(A, np.append(q, 10.0))[1])
                                if best < 1e-6:
                                    break
                            if best > 1e-6:
                                rep.bad(f"{case}: {q.tolist()} is in no candidate simplex (off by {best:.3g})", case=case)
                                break
                        # the distribution the candidates are drawn from
                        if pos is None and len(rs.dists) == 1 and rs.dists[0][1] is not None and len(rs.dists[0][1]) == len(p):
                            if not np.allclose(np.sort(rs.dists[0][1]), np.sort(p), atol=1e-9):
                                rep.bad(f"{case}: candidates are drawn from another distribution than their weights", case=case)
                        rep.out.append(f"rnd/{case}")


def part_volume(task, rep):
    f1, f2 = fun("simplex_volume"), fun("simplex_volumes")
    grid = [np.array(v, float) for v in itertools.product(range(3), repeat=2)]
    tri = [np.array(c) for c in itertools.permutations(grid, 3)]
    seg = [np.array(c) for c in itertools.product(grid, repeat=2)]
    tet = [np.array(c, float) for c in itertools.combinations(list(itertools.product((0, 1, 3), repeat=3)), 4)][::23]
    for group in (seg, tri, tet):
        want = np.array([volume(s) for s in group])
        rep.n += len(group)
        if f2 is not None:
            got = np.nan_to_num(np.asarray(f2(np.array(group))), nan=0.0)
            if not np.allclose(got, want, atol=1e-6):
                rep.bad(f"volumes of {len(group[0])}-vertex simplices are wrong", case=len(group[0]))
        if f1 is not None:
            for s, w in zip(group, want):
                with np.errstate(invalid="ignore"):
                    g = f1(s)
                if not (np.isnan(g) and w < 1e-6) and abs(g - w) > 1e-6:
                    rep.bad(f"volume of {s.tolist()} is {g}, not {w}", case=s.tolist())
                    break
    rep.out += [f"vol{i}" for i in range(rep.n)]


def part_helpers(task, rep):
    vc, cp, aai = fun("vector_choice"), fun("cartesian_product"), fun("array_array_index")
    if vc is not None:
        for p in itertools.product((0.0, 0.25, 0.5, 1.0), repeat=3):
            if abs(sum(p) - 1) > 1e-12:
                continue
            for u in (0.0, 0.2, 0.25, 0.4999, 0.5, 0.7, 0.999):
                class Fixed(np.random.RandomState):
                    def rand(self, *a, _u=u):
                        return np.full(a, _u)

                    def random_sample(self, size=None, _u=u):
                        return np.full(size, _u)

                    def uniform(self, low=0, high=1, size=None, _u=u):
                        return low + (high - low) * np.full(size, _u)
                rep.n += 1
                arr = np.array([5, 7, 9])
                got = np.asarray(vc(arr, np.array([p, p]), Fixed(1)))
                cum = np.cumsum(p)
                want = arr[[i for i in range(3) if u < cum[i]][0]]
                if got.tolist() != [want, want]:
                    rep.bad(f"vector_choice p={p} u={u} gives {got.tolist()}", case=(p, u))
    if cp is not None:
        for sizes in itertools.product((1, 2, 3), repeat=3):
            arrs = [np.arange(s) * 10 ** i for i, s in enumerate(sizes)]
            rep.n += 1
            if [tuple(r) for r in np.asarray(cp(*arrs)).tolist()] != list(itertools.product(*[a.tolist() for a in arrs])):
                rep.bad(f"cartesian product of sizes {sizes}", case=sizes)
    if aai is not None:
        arr = np.arange(12).reshape(3, 4) * 7
        for cols in (1, 2, 3):
            for row in itertools.product(range(4), repeat=cols):
                ind = np.array([row, row[::-1], [(r + 1) % 4 for r in row]])
                rep.n += 1
                want = [[int(arr[i, j]) for j in ind[i]] for i in range(3)]
                if np.asarray(aai(arr.copy(), ind)).tolist() != want:
                    rep.bad(f"row-wise indexing by {ind.tolist()}", case=ind.tolist())
    rep.out += [f"help{i}" for i in range(rep.n)]


class Constant(np.random.RandomState):
    """answers every request for a normally distributed number with the same number of standard deviations"""

    def __init__(self, value):
        super().__init__(5)
        self.value = value

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(loc, scale).shape if size is None else size
        out = loc + scale * np.full(shape, self.value)
        return float(out) if np.ndim(out) == 0 else out

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *dims):
        return self.normal(size=dims if dims else None)


def part_noise(task, rep):
    """Gaussian noise of the requested deviations is added to the samples of the simplices; simplices of one vertex are the bases"""
    X, ind, _, _, w, _, _ = points(task["ds"])
    d = X.shape[1]
    noises = [({}, 0.0), (None, 0.0), ({"sigma": 0.5}, np.full(d, 0.5)), ({"sigma": 2.0}, np.full(d, 2.0)),
              ({"sigmas": 0.25 * (1 + np.arange(d))}, 0.25 * (1 + np.arange(d))), ({"sigmas": np.arange(d) * 3.0}, np.arange(d) * 3.0)]
    for n_dim, simplex, within, n in itertools.product((1, 2, 3), ("random", "volume", "deterministic"), ("random", "deterministic"), (1, 5)):
        if within == "deterministic" and n_dim > 2 or ind.shape[1] < n_dim:
            continue
        wt = w / w.sum()
        for gauss, sig in noises:
            for c in (0.0, 1.0, -2.5):
                case = (task["ds"], n_dim, simplex, within, n, str(gauss), c)
                rep.n += 1
                try:
                    got, bare = [np.asarray(sampler(n_dim, simplex, within, Constant(c), g).sample_simplex(
                        X.copy(), indices=ind.copy(), n_to_sample=n, base_weights=wt.copy())) for g in (gauss, None)]
                except Exception as exc:  # pylint: disable=broad-except
                    rep.bad(f"{case}: {type(exc).__name__}: {exc}", case=case)
                    continue
                if got.shape != (n, d) or not data.close(got, bare + c * sig, 1e-9, 1e-9):
                    rep.bad(f"{case}: the noise added is not {c} standard deviations", case=case)
                if n_dim == 1 and any(min(np.abs(q - X[i]).max() for i in range(len(X)) if wt[i] > 0) > 1e-9 for q in bare):
                    rep.bad(f"{case}: a sample of a simplex with one vertex is no base sample", case=case)
    rep.out += [f"noise{i}" for i in range(rep.n)]


def part_degenerate(task, rep):
    """few neighbours, coinciding points, zero requested, simplex order larger than the neighbourhood"""
    for n_dim, simplex, within, cols, n in itertools.product((1, 2, 3, 4), ("random", "volume", "deterministic"), ("random", "deterministic"),
                                                             (2, 3), (0, 1, 6)):
        if within == "deterministic" and min(n_dim, cols) > 2:
            continue
        for X in (np.arange(6.0).reshape(3, 2), np.zeros((3, 2)), np.array([[0.0, 0], [0, 0], [1, 1]])):
            ind = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]])[:, :cols]
            rep.n += 1
            case = (n_dim, simplex, within, cols, n, X.tolist())
            try:
                got = np.asarray(sampler(n_dim, simplex, within).sample_simplex(X.copy(), indices=ind.copy(), n_to_sample=n))
            except Exception as exc:  # pylint: disable=broad-except
                rep.bad(f"{case}: {type(exc).__name__}: {exc}", case=case)
                continue
            if got.shape != (n, 2) or not np.all(np.isfinite(got)):
                rep.bad(f"{case}: {got.tolist()}", case=case)
            elif n and np.any(np.maximum(X.min(0) - got, got - X.max(0)) > 1e-9):
                rep.bad(f"{case}: samples outside the points", case=case)
    rep.out += [f"deg{i}" for i in range(rep.n)]
