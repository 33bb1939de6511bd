"""P25: rule based methods generate from exactly the base samples and neighbours their rule admits."""
import itertools

import numpy as np
from scipy.cluster.hierarchy import linkage
from sklearn.cluster import OPTICS
from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier

from vlib import data
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 2400}
RULE = ("state = (labelling of a fixed set of points in general position, method, number of neighbours, metric, label pair): on every "
        "one the generated samples are compared with the set of segments, boxes or rows that an independent model of the published "
        "rule admits; the generator of random numbers answers every selection with all its options in turn, so that each admissible "
        "pair has to be reached (and none else); with deterministic simplex selection each pair has to get its share")
BOUNDS = {"quick": "all minority subsets of 3 and 4 of 9 planar points, a third of those of 10 points in three dimensions (every second of these for the slower methods); 1-3 neighbours; every 200th minority subset of 7 of 16 planar points with 2 and 5 neighbours; 2 metrics; both label orders",
          "thorough": "all minority subsets of 3 and 4 of 9 planar points, of 3 and 4 of 10 points in three dimensions and of 3 and 5 of 11 planar points; 1-4 neighbours; every 20th subset of 7 of 16 points; 2 metrics; both label orders"}
ASSUMPTIONS = ["no distance ties (their resolution is not specified)", "a method may return the dataset unchanged where its rule leaves nothing to generate from"]

POINTS = {}
for _n, _d, _s in ((9, 2, 3), (10, 3, 4), (11, 2, 8), (16, 2, 9)):
    POINTS[f"{_n}x{_d}"] = np.round(np.random.RandomState(_s).normal(size=(_n, _d)) * np.array([2.0, 1.0, 1.5])[:_d] + 3.0, 4)
METHODS = ["SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "ADASYN", "Safe_Level_SMOTE", "MSMOTE", "Random_SMOTE", "distance_SMOTE", "ISMOTE",
           "polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus", "SMOTE_D", "NRSBoundary_SMOTE", "SMOTE_TomekLinks", "SMOTE_ENN", "SPY", "Stefanowski",
           "SMOTE_OUT", "ADOMS", "ProWSyn", "Selected_SMOTE", "SN_SMOTE", "SDSMOTE", "MCT", "Edge_Det_SMOTE", "LN_SMOTE", "CBSO", "MWMOTE", "kmeans_SMOTE",
           "OUPS", "SOI_CJ", "Lee", "MSYN", "SL_graph_SMOTE", "V_SYNTH", "CE_SMOTE", "ANS", "NT_SMOTE", "TRIM_SMOTE", "NRAS", "CCR", "VIS_RST", "NDO_sampling", "Assembled_SMOTE",
           "G_SMOTE", "SMOBD", "RWO_sampling", "ROSE", "SYMPROD", "AND_SMOTE", "cluster_SMOTE", "SMOTE_Cosine", "DBSMOTE", "LVQ_SMOTE", "AHC",
           "SUNDO", "Gazzah", "Supervised_SMOTE", "SMOTE_RSB", "SMOTEWB", "MDO", "NEATER", "A_SUWO"]
FREE = ("polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus")  # no neighbours
HALF = ("ISMOTE", "Lee", "CBSO", "MWMOTE", "SN_SMOTE", "SDSMOTE", "MCT", "kmeans_SMOTE", "Edge_Det_SMOTE", "MSYN", "SL_graph_SMOTE", "ADOMS", "NDO_sampling", "NRAS", "SYMPROD", "SMOBD", "DBSMOTE", "SMOTEWB", "NEATER", "A_SUWO", "SMOTE_Cosine", "cluster_SMOTE")  # every second case in the quick tier
EPS = 1e-7


class Covering(np.random.RandomState):
    """selections are answered with all admissible options in turn, in such a way that calls of the same size cover all combinations;
    the other numbers come from a seeded generator. `first`: the first selection is answered with this option throughout"""

    def __init__(self, first=None, shift=0):
        super().__init__(11)
        self.first, self.shift, self.stride, self.calls = first, shift, {}, 0

    def choice(self, a, size=None, replace=True, p=None):
        opts = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if size is None or not replace or len(opts) == 0:
            return super().choice(a, size, replace, p)
        ok = np.arange(len(opts)) if p is None else np.where(np.asarray(p) > 0)[0]
        self.calls += 1
        cols = 1 if np.ndim(size) == 0 else int(np.prod(size[1:]))
        n = int(size) if np.ndim(size) == 0 else int(size[0])
        out = []
        for _ in range(cols):
            step = self.stride.get(n, 1)
            idx = ((np.arange(n) + self.shift) // step) % len(ok)
            self.stride[n] = step * len(ok)
            if self.calls == 1 and self.first is not None:
                idx = np.full(n, self.first % len(ok))
                self.stride[n] = step
            out.append(opts[ok[idx]])
        return out[0] if np.ndim(size) == 0 else np.stack(out, axis=1).reshape(size)


class Half(Covering):
    """uniformly distributed numbers are one half"""

    def random_sample(self, size=None):
        return 0.5 if size is None else np.full(size, 0.5)

    random = random_sample

    def rand(self, *dims):
        return self.random_sample(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return (low + high) / 2 * np.ones(np.broadcast(low, high).shape if size is None else size)


class Stratified(np.random.RandomState):
    """gives every option of a weighted selection its share of the answers"""

    def __init__(self, n):
        super().__init__(11)
        self.n, self.used = n, False

    def choice(self, a, size=None, replace=True, p=None):
        opts = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if np.ndim(size) != 0 or size is None or not replace or int(size) != self.n or self.used:
            return super().choice(a, size, replace, p)
        self.used = True
        prob = np.full(len(opts), 1 / len(opts)) if p is None else np.asarray(p, float)
        return opts[np.minimum(np.searchsorted(np.cumsum(prob), (np.arange(self.n) + 0.5) / self.n), len(opts) - 1)]


def tasks(tier):
    quick = tier == "quick"
    out = []
    plan = [("9x2", 3, 1), ("9x2", 4, 1), ("10x3", 3, 3), ("16x2", 7, 200)] if quick else [("9x2", 3, 1), ("9x2", 4, 1), ("10x3", 3, 1), ("10x3", 4, 1), ("11x2", 3, 1), ("11x2", 5, 1), ("16x2", 7, 20)]
    for name in METHODS:
        for pts, m, skip in plan:
            if name == "Stefanowski" and m < 7:  # it wants more minority samples
                continue
            if name == "Stefanowski":
                skip //= 5 if quick else 10
            elif quick:
                skip *= {"CE_SMOTE": 5, "LVQ_SMOTE": 5}.get(name, 2 if name in HALF else 1)
            for shard in range(2 if quick else 6):
                out.append({"cls": name, "pts": pts, "m": m, "skip": skip, "shard": shard, "shards": 2 if quick else 6, "ks": [2, 5] if m == 7 else [1, 2, 3] if quick else [1, 2, 3, 4]})
    return out


# the neighbourhood model -----------------------------------------------------------------------------------------
def matrix(X, metric):
    diff = X[:, None] - X[None]
    if metric == "cov":
        return np.sqrt(np.einsum("ijk,kl,ijl->ij", diff, np.linalg.inv(np.cov(X, rowvar=False)), diff))
    return np.sqrt((diff ** 2).sum(-1))


def near(D, i, among, k):
    """the k nearest of `among` other than i, nearest first"""
    return sorted((j for j in among if j != i), key=lambda j: D[i, j])[:k]


class Model:
    """what the rule admits: segs (a, b), boxes (list of corner pairs), exact rows; `may_stop`: returning the dataset is fine"""

    def __init__(self):
        self.segs, self.boxes, self.rows, self.must, self.share = [], [], None, False, None
        self.open = []  # segments that need not be used


def seg(mod, a, b, t=1.0, share=None):
    mod.segs.append((np.asarray(a, float), np.asarray(a, float) + (np.asarray(b, float) - np.asarray(a, float)) * t))
    if share is not None:
        mod.share = (mod.share or []) + [share]


def danger_noise(D, y, k):
    every, mino = range(len(y)), np.where(y == 1)[0]
    count = {i: sum(y[j] == 0 for j in near(D, i, every, k)) for i in mino}
    kk = min(k, len(y) - 1)
    return [i for i in mino if 2 * count[i] >= kk and count[i] < kk], [i for i in mino if count[i] == kk]


def build(name, X, y, k, D, metric=None, depth=5):
    mod = Model()
    mod.metric = metric
    mod.depth = depth
    every, mino, majo = range(len(y)), [int(i) for i in np.where(y == 1)[0]], [int(i) for i in np.where(y == 0)[0]]
    if name == "SMOTE":
        mod.must = True
        kk = min(k, len(mino) - 1)
        for i in mino:
            for j in near(D, i, mino, k):
                seg(mod, X[i], X[j], share=1 / len(mino) / kk)
    elif name in ("Borderline_SMOTE1", "Borderline_SMOTE2"):
        danger, noise = danger_noise(D, y, k)
        keep = [i for i in mino if i not in noise]
        if len(keep) >= 2 and danger:
            mod.must = True
            for i in danger:
                js = near(D, i, keep if name.endswith("1") else every, k)
                for j in js:
                    seg(mod, X[i], X[j], 1.0 if y[j] else 0.5, share=1 / len(danger) / len(js))
    elif name == "ADASYN":
        r = {i: sum(y[j] == 0 for j in near(D, i, every, k)) for i in mino}
        if sum(r.values()):
            mod.must = True
            for i in mino:
                if r[i]:
                    for j in near(D, i, mino, k):
                        seg(mod, X[i], X[j], share=r[i] / sum(r.values()) / k)
    elif name == "Safe_Level_SMOTE":
        level = {i: sum(y[j] == 1 for j in near(D, i, every, k)) for i in every}
        for p in mino:
            for n in near(D, p, every, k):
                lp, ln = level[p], level[n]
                if lp == 0 and ln == 0:
                    continue
                lo, hi = (0.0, 0.0) if ln == 0 else (0.0, ln / lp) if lp >= ln else (1 - lp / ln, 1.0)
                mod.boxes.append((X[p] + (X[n] - X[p]) * lo, X[p] + (X[n] - X[p]) * hi))
        mod.must = bool(mod.boxes)
    elif name == "MSMOTE":
        for i in mino:
            js = near(D, i, every, k)
            pos = sum(y[j] == 1 for j in js)
            if pos:
                mod.must = True
                for j in js if pos == len(js) else js[:1]:
                    mod.boxes.append((X[i], X[j]))
    elif name == "Random_SMOTE":
        mod.must = True
        for i in mino:
            js = near(D, i, mino, k)
            for a, b in itertools.combinations_with_replacement(js, 2):
                tri = X[[i, a, b]]
                mod.boxes.append((tri.min(0), tri.max(0)))
    elif name == "distance_SMOTE":
        mod.must = True
        for i in mino:
            seg(mod, X[i], X[near(D, i, mino, k)].mean(0), share=1 / len(mino))
    elif name == "cluster_SMOTE":  # a single cluster; whether the sample itself counts as one of the neighbours is left open
        mod.must = k > 1
        for i in mino:
            for r, j in enumerate(near(D, i, mino, k)):
                seg(mod, X[i], X[j])
                mod.open.append(r == k - 1)
    elif name == "AND_SMOTE":
        for i in mino:
            depth = and_depth(X, y, i, near(D, i, every, min(len(mino), k + 3) - 1))
            for j in near(D, i, mino, depth):
                mod.must = True
                seg(mod, X[i], X[j])
    elif name in FREE:
        mod.must = True
        mod.rows = lambda n: free_rows(name, X[mino], n)
    elif name == "SMOTE_D":
        for i in mino:
            for j in near(D, i, mino, k):
                seg(mod, X[i], X[j])
    elif name == "NRSBoundary_SMOTE":
        E = D.copy()
        np.fill_diagonal(E, np.inf)
        delta = E.min(1) + 0.005 * (D.max(1) - E.min(1))
        bound = [i for i in mino if any(y[j] == 0 and D[i, j] <= delta[i] for j in every)]
        for i in bound:
            for j in near(D, i, mino, k):
                seg(mod, X[i], X[j])
    elif name == "ANS":
        first = {i: min(D[i, j] for j in mino if j != i) for i in mino}
        out = {i: sum(D[i, j] <= first[i] for j in majo) for i in mino}
        n_oc = [-1] + [sum(out[i] >= c for i in mino) for c in range(1, int(0.25 * len(y)))]
        steps = [abs(a - b) for a, b in zip(n_oc[1:], n_oc[:-1])]
        cut = 1 + steps.index(min(steps))
        used = [i for i in mino if out[i] < cut]
        eps = max((first[i] for i in used), default=0)
        for i in used:
            for j in used:
                if j != i and D[i, j] <= eps + 1e-9:
                    seg(mod, X[i], X[j])
                    mod.open.append(D[i, j] > eps - 1e-9)  # whether the border of the ball belongs to it is left open
        mod.must = not all(mod.open)
    elif name == "NDO_sampling":
        mod.must = True
        pairs = [(i, j) for i in mino for j in near(D, i, every, k)]
        inner, outer = ([D[i, j] for i, j in pairs if y[j] == c] for c in (1, 0))
        alpha = 0.0 if not inner else np.inf if not outer else np.mean(inner) / np.mean(outer)
        if abs(alpha - 0.5) < 1e-6:
            return None
        if alpha < 0.5:
            for i in mino:
                for j in near(D, i, mino, k):
                    seg(mod, X[i], X[j])
        else:
            for i, j in pairs:
                seg(mod, X[i], X[j], 0.5)
                if y[j]:
                    seg(mod, X[j], X[i], 0.5)
    elif name == "Assembled_SMOTE":
        border = [i for i in mino if not all(y[j] for j in near(D, i, every, k))]
        mod.must = bool(border)
        parts = assembled_clusters(X, D, border, 2, 0.3) + [[i for i in mino if i not in border]] if border else []
        for part in parts:
            for i in part:
                for j in near(D, i, part, k):
                    seg(mod, X[i], X[j])
            if len(part) == 1:
                mod.segs.append((X[part[0]], X[part[0]]))
    elif name == "G_SMOTE":
        mod.must = True
        main = np.linalg.svd(X[mino] - X[mino].mean(0), full_matrices=False)[2][0]
        for i in mino:
            cosine = {j: abs((X[j] - X[i]) @ main) / np.linalg.norm(X[j] - X[i]) for j in near(D, i, mino, k)}
            seg(mod, X[i], X[max(cosine, key=cosine.get)], share=1 / len(mino))
    elif name == "SMOBD":
        optics = OPTICS(min_samples=min(k, len(mino) - 1), max_eps=2.0).fit(X[mino]) if min(k, len(mino) - 1) > 1 else None
        if optics is None:
            return None
        far = []
        for dist in (optics.core_distances_, optics.reachability_):
            fin = dist[np.isfinite(dist)]
            if not len(fin):
                return mod
            if np.any(np.abs(dist - 1.1 * fin.mean()) < 1e-9):
                return None
            far.append(dist > 1.1 * fin.mean())
        noise = far[0] & far[1]
        mod.must = not noise.all()
        for p, i in enumerate(mino):
            if not noise[p] or noise.all():
                for j in near(D, i, mino, k):
                    mod.boxes.append((X[i], X[j]))
    elif name == "TRIM_SMOTE":
        seeds = trim_seeds(X, y)
        if seeds is None:
            return None
        best = [s for s in seeds if y[s].mean() > 0.3] or []
        if not best:  # the threshold is lowered step by step
            return None
        mod.must = True
        rows = [int(i) for s in best for i in s if y[i] == 1]
        for i in rows:
            js = near(D, i, rows, k)
            for j in js:
                seg(mod, X[i], X[j], share=1 / len(rows) / len(js))
            if len(rows) == 1:
                mod.segs.append((X[i], X[i]))
                mod.share = [1.0]
    elif name == "SMOTE_OUT":
        mod.must = True
        for i in mino:
            for x in near(D, i, mino, k):
                for v in near(D, i, majo, k + 1):
                    far = X[i] + 0.3 * (X[i] - X[v])
                    cand = np.stack([X[x], X[x] + 0.5 * (X[i] - X[x]), X[x] + 0.5 * (far - X[x])])
                    mod.boxes.append((cand.min(0), cand.max(0)))
    elif name == "ADOMS":
        mod.must = True
        for i in mino:
            js = near(D, i, mino, k)
            nb = X[[i] + js]
            _, _, vt = np.linalg.svd(nb - nb.mean(0), full_matrices=False)
            for j in js:
                diff = X[j] - X[i]
                sgn = np.sign(diff @ vt[0])
                seg(mod, X[i], X[i] + sgn * np.linalg.norm(diff) * vt[0])
    elif name == "ProWSyn":
        left = list(mino)
        mod.parts = []  # (level, first segment, last segment + 1)
        for lev in range(mod.depth):
            part = sorted({j for v in majo for j in near(D, v, left, k)}) if left else []
            left = [j for j in left if j not in part]
            if part:
                first = len(mod.segs)
                cluster(mod, X, part)
                mod.parts.append((lev, first, len(mod.segs)))
        if left:
            first = len(mod.segs)
            cluster(mod, X, left)
            mod.parts.append((mod.depth - 1, first, len(mod.segs)))
        mod.must = True
    elif name == "SN_SMOTE":
        mod.must = True
        for i in mino:
            order = near(D, i, mino, 10 * k - 1)
            got, total = order[:1], X[order[0]].copy()
            best = norm(X[i] - total, X, mod.metric)
            for j in order[1:]:
                dist = norm(X[i] - (total + X[j]) / (len(got) + 1), X, mod.metric)
                if len(got) < k and dist < best:
                    got, total, best = got + [j], total + X[j], dist
            for j in got:
                seg(mod, X[i], X[j])
    elif name == "SDSMOTE":
        mod.must = True
        limit = D[np.ix_(mino, majo)].mean()
        weighted(mod, X, D, mino, k, {i: (D[i, majo] <= limit).sum() for i in mino})
    elif name == "MCT":
        mod.must = True
        dist = np.linalg.norm(X[mino] - np.median(X[mino], axis=0), axis=1)
        weighted(mod, X, D, mino, k, dict(zip(mino, dist.sum() - dist)))
    elif name == "Edge_Det_SMOTE":
        mod.must = True
        mag = np.zeros(len(y))
        for d in range(X.shape[1]):
            order = np.argsort(X[:, d])
            for a, i, b in zip(order[:-2], order[1:-1], order[2:]):
                mag[i] += y[a] != y[b]
        weighted(mod, X, D, mino, k, {i: np.sqrt(mag[i]) for i in mino})
    elif name == "kmeans_SMOTE":
        mod.must = True
        weighted(mod, X, D, mino, k, {i: 1.0 for i in mino})
    elif name == "LN_SMOTE":
        pos = lambda js: sum(y[j] == 1 for j in js)
        for p in mino if k >= 2 else []:
            lp = pos(near(D, p, every, k))
            for n in near(D, p, every, k):
                js = near(D, n, every, k + 1)
                if y[n] == 0 and p in js[:k]:
                    js.remove(p)
                ln = pos(js[:k])
                if lp == 0 or ln == 0:
                    continue
                lo, hi = (0.0, ln / lp) if lp >= ln else (1 - lp / ln, 1.0)
                scale = 1.0 if y[n] == 1 else ln / k
                mod.boxes.append((X[p] + (X[n] - X[p]) * lo * scale, X[p] + (X[n] - X[p]) * hi * scale))
        mod.must = bool(mod.boxes)
    elif name == "CBSO":
        mod.must = True
        E = D[np.ix_(mino, mino)]
        limit = 1.3 * np.mean([D[i, near(D, i, mino, 1)[0]] for i in mino])
        link = E <= limit
        for _ in mino:
            link = link @ link
        weight = {i: sum(y[j] == 0 for j in near(D, i, every, k)) for i in mino}
        if not any(weight.values()):
            weight = {i: 1 for i in mino}
        for a, i in enumerate(mino):
            if weight[i]:
                others = [j for b, j in enumerate(mino) if link[a, b] and j != i]
                for j in others or [i]:
                    seg(mod, X[i], X[j])
    elif name == "MWMOTE":
        good = [i for i in mino if any(y[j] == 1 for j in near(D, i, every, k))]
        border = sorted({j for i in good for j in near(D, i, majo, k + 1)})
        info = sorted({j for b in border for j in near(D, b, mino, k)})
        if info:
            mod.must = True
            dist = np.linalg.norm(X[border][:, None] - X[info][None], axis=2) / X.shape[1]
            close = np.minimum(1 / np.maximum(dist, 0.1), 5.0) / 5.0 * 10.0
            weight = (close ** 2 / close.sum(1, keepdims=True)).sum(0)
            weighted(mod, X, D, info, len(mino), dict(zip(info, weight)), mino)
    elif name == "OUPS":
        from sklearn.linear_model import LogisticRegression
        prob = LogisticRegression().fit(X, y).predict_proba(X)[:, 1]
        order = [int(i) for i in np.argsort(-prob)]
        ratio = len(majo) / len(mino)
        pairs = [(a, b, min(1.0, ratio - (b - a - 1))) for a in range(len(y)) if y[order[a]] == 1 for b in range(a + 1, len(y)) if ratio - (b - a - 1) > 1e-9]
        mod.must = bool(pairs)
        for a, b, _ in pairs:
            seg(mod, X[order[a]], X[order[b]])
    elif name == "SOI_CJ":
        for part in soi_clusters(D, X, y, mino, mod.metric):
            if len(part) > 2:
                mod.must = True
                mod.boxes += [(X[a], X[b]) for a, b in itertools.combinations(sorted(part), 2)]
    elif name == "Selected_SMOTE":
        mod.must = True
        mi, ma = X[mino], X[majo]
        width = mi.max(0) - mi.min(0)
        over = np.maximum(0, np.minimum(mi.max(0), ma.max(0)) - np.maximum(mi.min(0), ma.min(0)))
        perc = np.where(width != 0, over / np.where(width != 0, width, 1), 0)
        # half of the attributes are significant, at least one
        lim = np.sort(perc)[-max(1, int(np.rint(0.5 * X.shape[1])))]
        for i in mino:
            for j in near(D, i, mino, k):
                mod.boxes.append((X[i], np.where(perc >= lim, X[j], X[i])))
    return mod


def and_depth(X, y, i, order):
    """the number of minority neighbours at which the share of the minority in the union of the boxes between the sample and its
    neighbours has the largest drop"""
    inside, share = set(), []
    for p, j in enumerate(order):
        if y[j]:
            lo, hi = np.minimum(X[i], X[j]), np.maximum(X[i], X[j])
            inside |= {q for q in [i] + order[:p + 1] if (X[q] >= lo).all() and (X[q] <= hi).all()}
            share.append(sum(y[q] for q in inside) / len(inside))
    return 0 if len(share) < 2 else int(np.argmin(np.diff(share))) + 2


def norm(diff, X, metric):
    A = np.linalg.inv(np.cov(X, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])
    return np.sqrt(diff @ A @ diff)


def weighted(mod, X, D, bases, k, weight, among=None):
    """pairs of a base and one of its k nearest, the bases having shares proportional to their weights"""
    if not sum(weight.values()):
        weight = {i: 1.0 for i in bases}
    for i in bases:
        if weight[i]:
            js = near(D, i, bases if among is None else among, k)
            for j in js:
                seg(mod, X[i], X[j], share=weight[i] / sum(weight.values()) / len(js))


def soi_clusters(D, X, y, mino, metric):
    """the minority neighbours nearer than any majority sample, intersecting clusters merged if the ball around both is of minority samples"""
    parts = []
    for i in mino:
        order = [i] + near(D, i, range(len(y)), len(mino) - 1)
        stop = next((p for p, j in enumerate(order) if y[j] == 0), len(order))
        parts.append(set(order[:stop]))
    again = True
    while again:
        again = False
        for a, b in itertools.combinations(range(len(parts)), 2):
            both = parts[a] & parts[b]
            if not both:
                continue
            again = True
            p, q = max(itertools.product(sorted(parts[a]), sorted(parts[b])), key=lambda pq: D[pq])
            mid = (X[p] + X[q]) / 2
            radius = norm(mid - X[p], X, metric)
            inside = [j for j in range(len(y)) if norm(X[j] - mid, X, metric) <= radius + 1e-9]
            if 2 * sum(y[j] == 1 for j in inside) > len(inside):
                parts[a], parts[b] = parts[a] | parts[b], set()
            elif len(parts[a]) > len(parts[b]):
                parts[b] -= both
            else:
                parts[a] -= both
        parts = [p for p in parts if p]
    return parts


def assembled_clusters(X, D, border, pop, thres):
    """the nearest two clusters are merged if one of them is small or their principal directions are similar"""
    parts, link = {i: [i] for i in border}, {(i, j): D[i, j] for i, j in itertools.combinations(border, 2)}
    while link and min(link.values()) < np.inf:
        a, b = min(link, key=link.get)
        pa, pb = (X[parts[c]] - X[parts[c]].mean(0) for c in (a, b))
        if len(pa) >= pop and len(pb) >= pop and abs(np.linalg.svd(pa)[2][0] @ np.linalg.svd(pb)[2][0]) <= thres:
            link[a, b] = np.inf
            continue
        parts[a] = parts[a] + parts.pop(b)
        del link[a, b]
        for c in parts:
            if c != a:
                other = link.pop((min(b, c), max(b, c)))
                link[min(a, c), max(a, c)] = min(link[min(a, c), max(a, c)], other)
    return list(parts.values())


def cluster(mod, X, part):
    if len(part) == 1:
        mod.segs.append((X[part[0]], X[part[0]]))
    for a, b in itertools.combinations(part, 2):
        seg(mod, X[a], X[b])


def free_rows(name, M, n):
    kdx = max(1, int(np.rint(n / len(M))))
    ts = np.arange(1, kdx + 1) / (kdx + 1)
    ends = [(a, M.mean(0)) for a in M] if name.endswith("star") else list(zip(M[:-1], M[1:]))
    return np.array([a + (b - a) * t for a, b in ends for t in ts])


# the judgement ----------------------------------------------------------------------------------------------------
def seg_dist(P, a, b):
    d = b - a
    dd = d @ d
    t = np.clip((P - a) @ d / dd, 0, 1) if dd > 0 else np.zeros(len(P))
    return np.linalg.norm(a + t[:, None] * d - P, axis=1)


def box_dist(P, a, b):
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    return np.max(np.maximum(np.maximum(lo - P, P - hi), 0), axis=1)


def membership(mod, P):
    tab = [seg_dist(P, a, b) for a, b in mod.segs] + [box_dist(P, a, b) for a, b in mod.boxes]
    return np.array(tab) <= EPS * 10 if tab else np.zeros((0, len(P)), bool)


def same_pairs(segs):
    """groups of segments that cover each other (the same pair in both directions)"""
    groups = []
    for i, (a, b) in enumerate(segs):
        for g in groups:
            c, d = segs[g[0]]
            if np.allclose(a, d) and np.allclose(b, c) or np.allclose(a, c) and np.allclose(b, d):
                g.append(i)
                break
        else:
            groups.append([i])
    return groups


KEY_K = {"Borderline_SMOTE1": ("n_neighbors", "k_neighbors"), "Borderline_SMOTE2": ("n_neighbors", "k_neighbors"), "SMOTE_D": ("k",), "Edge_Det_SMOTE": ("k",), "MWMOTE": ("k1", "k2", "k3"),
         "OUPS": (), "SOI_CJ": (), "V_SYNTH": (), "ANS": (), "NT_SMOTE": (), "CCR": (), "RWO_sampling": (), "ROSE": (), "SYMPROD": (), "SMOBD": ("min_samples",), "NEATER": ("smote_n_neighbors", "b"), "AND_SMOTE": (), "AHC": (), "SUNDO": (), "Supervised_SMOTE": (), "SMOTEWB": (), "Gazzah": ("n_components",), "MDO": ("K2",), "DBSMOTE": ("min_samples",)}
NO_METRIC = FREE + ("AHC", "Gazzah", "Supervised_SMOTE", "SMOTE_Cosine", "DBSMOTE", "OUPS", "V_SYNTH", "CE_SMOTE", "CCR", "NRAS", "RWO_sampling", "ROSE", "SYMPROD")
NO_K = FREE + ("AHC", "SUNDO", "Supervised_SMOTE", "SMOTEWB", "Stefanowski", "OUPS", "SOI_CJ", "V_SYNTH", "CE_SMOTE", "ANS", "NT_SMOTE", "CCR", "RWO_sampling", "ROSE", "SYMPROD")
REACH = ("SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "ADASYN", "Safe_Level_SMOTE", "MSMOTE", "distance_SMOTE", "ISMOTE", "SMOTE_OUT", "ProWSyn", "Selected_SMOTE",
         "SN_SMOTE", "SDSMOTE", "MCT", "Edge_Det_SMOTE", "kmeans_SMOTE", "LN_SMOTE", "CBSO", "MWMOTE", "OUPS", "SOI_CJ", "ANS", "TRIM_SMOTE", "NDO_sampling", "Assembled_SMOTE", "SMOBD", "G_SMOTE", "AND_SMOTE", "cluster_SMOTE")
SHARE = ("SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "ADASYN", "distance_SMOTE", "SDSMOTE", "MCT", "Edge_Det_SMOTE", "kmeans_SMOTE", "MWMOTE", "TRIM_SMOTE", "G_SMOTE")


def settings(name, k, metric, n_maj, n_min, n_new):
    prm = {}
    if name not in ("SPY", "Stefanowski", "ISMOTE", "AHC", "SUNDO"):
        prm["proportion"] = (n_new + 0.5) / (n_maj - n_min)
    if name not in FREE + ("Stefanowski", "SMOTE_ENN"):
        for key in KEY_K.get(name, ("n_neighbors",)):
            prm[key] = k
    if name == "SMOTE_ENN":
        prm["n_neighbors"] = k
    prm.update({"MWMOTE": {"M": 1}, "kmeans_SMOTE": {"n_clusters": 1, "irt": 1000.0}, "SOI_CJ": {"method": "interpolation"}, "SMOBD": {"t": 1.1, "max_eps": 2.0},
                "AND_SMOTE": {"K": k + 3}, "cluster_SMOTE": {"n_clusters": 1}, "DBSMOTE": {"eps": 1.0}, "LVQ_SMOTE": {"n_clusters": max(3, n_min)},
                "Supervised_SMOTE": {"classifier": ("sklearn.linear_model", "LogisticRegression", {})}, "MDO": {"K1_frac": 0.5}}.get(name, {}))
    if name == "Selected_SMOTE":
        prm["perc_sign_attr"] = 0.5
    if metric == "cov" and name not in NO_METRIC:
        prm["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"}
    return prm


class Exchanged:
    """the method sees the two labels exchanged, the model does not"""

    def __init__(self, obj):
        self.obj = obj

    def sample(self, X, y):
        Xs, ys = self.obj.sample(X, 1 - y)
        return Xs, 1 - np.asarray(ys)


def make(rep, *args):
    obj = data.make(*args)
    return Exchanged(obj) if rep.flip else obj


def extended(rep, desc, key, X, y, Xs, ys):
    """the new rows of a method that only extends"""
    if len(Xs) < len(X) or not np.array_equal(Xs[:len(X)], X) or not np.array_equal(ys[:len(X)], y) or np.any(ys[len(X):] != 1):
        rep.bad(f"{desc}: does not just extend the dataset by minority samples", **key)
        return None
    return Xs[len(X):]


def check_threshold(rep, X, y, k, metric, must, desc, key):
    """ADASYN generates nothing if the classes are balanced better than the threshold"""
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    for d_th in (0.97 * n_min / n_maj, 1.03 * n_min / n_maj):
        prm = {"d_th": d_th, **settings("ADASYN", k, metric, n_maj, n_min, 20)}
        prm["beta"] = prm.pop("proportion")
        rep.n += 1
        ok, res = rep.call(lambda: make(rep, "ADASYN", prm, 5).sample(X.copy(), y.copy()), what=f"{desc} threshold {d_th:.3g}", key=key)
        if not ok:
            return
        got, want = len(res[0]) - len(X), 20 if d_th > n_min / n_maj and must else 0
        if got != want:
            rep.bad(f"{desc}: {got} samples with class sizes {n_min} and {n_maj} and threshold {d_th:.3g}", what="threshold", **key)
            return


def check_model(rep, name, X, y, k, metric, desc, key):
    D = matrix(X, metric)
    mod = build(name, X, y, k, D, metric)
    if mod is None:
        rep.out.add((name, "the rule leaves a choice"))
        return
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    if name == "ADASYN":
        check_threshold(rep, X, y, k, metric, mod.must, desc, key)
    for n_new in (1, n_min - 1, 2 * n_min) if name in FREE else ():
        rep.n += 1
        ok, res = rep.call(lambda n=n_new: make(rep, name, settings(name, k, metric, n_maj, n_min, n), 5).sample(X.copy(), y.copy()), what=f"{desc} {n_new} requested", key=key)
        if ok and rows_of(res[0][len(X):], res[1][len(X):]) != rows_of(mod.rows(n_new), np.ones(len(mod.rows(n_new)))):
            rep.bad(f"{desc}: {len(res[0]) - len(X)} generated rows are not the {len(mod.rows(n_new))} of the rule for {n_new}", what="rows", **key)
            return
    n_new = 900 if name == "NDO_sampling" else 240 if name in ("SMOTE_OUT", "CBSO", "LN_SMOTE", "SOI_CJ", "SN_SMOTE", "Assembled_SMOTE", "NDO_sampling") else 60
    prm = settings(name, k, metric, n_maj, n_min, n_new)
    runs = [("cover", Covering())]
    if name in ("MSMOTE", "ProWSyn", "CBSO", "SOI_CJ", "SN_SMOTE"):
        runs += [(f"first={i}", Covering(first=i)) for i in range(n_min)]
    reached = np.zeros(len(mod.segs) + len(mod.boxes), bool)
    varied = np.array([np.abs(a - b) < EPS for a, b in mod.boxes])  # whether some sample of the box left its base in the coordinate
    some = False
    for tag, rng in runs:
        rep.n += 1
        ok, res = rep.call(lambda r=rng: make(rep, name, prm, r).sample(X.copy(), y.copy()), what=f"{desc} {tag}", key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        new = extended(rep, desc, key, X, y, Xs, ys)
        if new is None:
            return
        if mod.rows is not None:
            want = mod.rows(n_new)
            if len(want) != len(new) or not np.allclose(np.sort(new.round(8), axis=0), np.sort(want.round(8), axis=0), atol=1e-6) \
                    or np.abs(new[:, None] - want[None]).max(2).min(1).max() > 1e-6 or np.abs(want[:, None] - new[None]).max(2).min(1).max() > 1e-6:
                rep.bad(f"{desc}: {len(new)} generated rows are not the {len(want)} of the rule", what="rows", **key)
            rep.out.add((name, "rows", len(want)))
            return
        some = some or len(new) > 0
        if len(new):
            tab = membership(mod, new)
            if not tab.any(axis=0).all():
                i = int(np.where(~tab.any(axis=0))[0][0])
                rep.bad(f"{desc}: {new[i].tolist()} does not come from an admissible pair ({int((~tab.any(axis=0)).sum())} of {len(new)}; "
                        f"{len(tab)} pairs are admissible)", what="outside", **key)
                return
            # copies of the base do not show that the pair is used
            moved = tab.copy()
            for i, (a, b) in enumerate(mod.segs + mod.boxes):
                if np.abs(a - b).max() > EPS * 100:
                    moved[i] &= np.abs(new - a).max(axis=1) > EPS * 20
            reached |= moved.any(axis=1)
            for i, (a, _) in enumerate(mod.boxes):
                varied[i] |= (np.abs(new[tab[len(mod.segs) + i]] - a) > EPS / 10).any(axis=0)
    if name == "Random_SMOTE" and k > 1 and some:
        # halfway between the base and the middle of any two neighbours
        rep.n += 1
        prm = settings(name, k, metric, n_maj, n_min, 240)
        ok, res = rep.call(lambda: make(rep, name, prm, Half()).sample(X.copy(), y.copy()), what=f"{desc} middle", key=key)
        if ok:
            new = np.asarray(res[0], float)[len(X):]
            mino = np.where(y == 1)[0]
            for i in mino:
                for a, b in itertools.combinations(near(D, i, mino, k), 2):
                    if np.abs(new - (X[i] / 2 + X[a] / 4 + X[b] / 4)).max(axis=1).min() > 1e-6:
                        rep.bad(f"{desc}: two neighbours {a}, {b} of {i} are never used together", what="second", **key)
                        return
    if mod.must and not some:
        rep.bad(f"{desc}: nothing generated although {len(reached)} pairs are admissible", what="nothing", **key)
        return
    reached[:len(mod.open)] |= np.array(mod.open, bool)
    if name in REACH and mod.must and not reached.all():
        ends = (mod.segs + mod.boxes)[int(np.where(~reached)[0][0])]
        rep.bad(f"{desc}: whatever is drawn, nothing is generated between {ends[0].tolist()} and {ends[1].tolist()}", what="unreached", **key)
        return
    if name in REACH and mod.must and not varied.all():
        i = int(np.where(~varied.all(axis=1))[0][0])
        rep.bad(f"{desc}: whatever is drawn, coordinates {np.where(~varied[i])[0].tolist()} never vary between {mod.boxes[i][0].tolist()} and {mod.boxes[i][1].tolist()}", what="fixed", **key)
        return
    rep.out.add((name, k, metric, len(mod.segs), len(mod.boxes), mod.must))
    if name in SHARE and mod.must:
        n_share = 120
        prm = settings(name, k, metric, n_maj, n_min, n_share)
        prm["ss_params"] = {"n_dim": 2, "simplex_sampling": "deterministic", "within_simplex_sampling": "random", "gaussian_component": None}
        rep.n += 1
        ok, res = rep.call(lambda: make(rep, name, prm, 5).sample(X.copy(), y.copy()), what=desc + " deterministic selection", key=key)
        if not ok:
            return
        new = np.asarray(res[0], float)[len(X):]
        tab = membership(mod, new)
        for g in same_pairs(mod.segs):
            got, want = int(tab[g].any(axis=0).sum()), n_share * sum(mod.share[i] for i in g)
            if abs(got - want) > len(g) + 1e-6:
                a, b = mod.segs[g[0]]
                rep.bad(f"{desc}: with deterministic selection {got} of {len(new)} samples between {a.tolist()} and {b.tolist()}, its share is {want:.4g}", what="share", **key)
                return


def check_smote_d(rep, X, y, k, metric, desc, key):
    """the number of samples of a pair: n * share of the base (deviation of its distances) * share of the partner (distance)"""
    D = matrix(X, metric)
    mino = [int(i) for i in np.where(y == 1)[0]]
    near_of = {i: near(D, i, mino, k) for i in mino}
    dev = np.array([np.std(D[i, near_of[i]]) for i in mino])
    dev = dev / dev.sum() if dev.sum() > 1e-12 else np.full(len(mino), 1 / len(mino))
    for n in (10, 57):
        rep.n += 1
        prm = settings("SMOTE_D", k, metric, len(X) - len(mino), len(mino), n)
        ok, res = rep.call(lambda p=prm: make(rep, "SMOTE_D", p, 5).sample(X.copy(), y.copy()), what=f"{desc} {n} requested", key=key)
        if not ok:
            return
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        used = np.zeros(len(new), bool)
        for i, share in zip(mino, dev):
            for j in near_of[i]:
                c = n * share * D[i, j] / D[i, near_of[i]].sum()
                steps = [1 / (c + 1 - m) for m in range(int(np.ceil(c - 1e-9)))]
                for m, t in enumerate(steps):
                    hit = np.abs(new - (X[i] + (X[j] - X[i]) * t)).max(axis=1) < 1e-6
                    used |= hit
                    if not hit.any() and c - m >= 1 + 1e-9:
                        rep.bad(f"{desc}: {c:.3f} samples are due between {i} and {j}, the one at {t:.3f} of the way is missing", what="missing", **key)
                        return
        if not used.all():
            rep.bad(f"{desc}: {new[~used][0].tolist()} is at no position of the rule", what="position", **key)
            return
    rep.out.add(("SMOTE_D", k, metric))


def check_prowsyn(rep, X, y, k, metric, desc, key):
    """the partitions of each proximity level, and their shares"""
    n = 90
    for depth, theta in ((1, 1.0), (2, 0.5), (5, 1.0)):
        D = matrix(X, metric)
        mod = build("ProWSyn", X, y, k, D, metric, depth)
        prm = settings("ProWSyn", k, metric, int((y == 0).sum()), int((y == 1).sum()), n)
        prm.update({"L": depth, "theta": theta})
        rng = Stratified(n)
        what = f"{desc} L={depth} theta={theta}"
        rep.n += 1
        ok, res = rep.call(lambda: make(rep, "ProWSyn", prm, rng).sample(X.copy(), y.copy()), what=what, key=key)
        if not ok:
            return
        new = np.asarray(res[0], float)[len(X):]
        tab = membership(mod, new)
        if not tab.any(axis=0).all():
            rep.bad(f"{what}: a generated sample does not lie between samples of the same partition", what="outside", **key)
            return
        wts = np.array([np.exp(-theta * lev) for lev, _, _ in mod.parts])
        for (lev, a, b), w in zip(mod.parts, wts / wts.sum()):
            got = int(tab[a:b].any(axis=0).sum())
            if rng.used and abs(got - n * w) > 1 + 1e-6:
                rep.bad(f"{what}: {got} of {n} samples in the partition of level {lev + 1}, its share is {n * w:.4g}", what="share", **key)
                return
    rep.out.add(("ProWSyn", k, metric, len(mod.parts)))


def check_ismote(rep, X, y, k, metric, desc, key):
    """the majority samples farthest from the minority are removed, the others interpolated with"""
    D = matrix(X, metric)
    mino, majo = np.where(y == 1)[0], np.where(y == 0)[0]
    n = int((len(majo) - len(mino)) / 2 + 0.5)
    far = sorted(majo, key=lambda i: -D[i, mino].mean())
    keep = far[n:]
    rest = list(keep) + list(mino)
    mod = Model()
    weight = 0.3
    for i in mino:
        for j in near(D, i, rest, k):
            seg(mod, X[i], X[j], weight if y[j] else 1 - weight)
    prm = settings("ISMOTE", k, metric, len(majo), len(mino), 0)
    prm["minority_weight"] = weight
    reached = np.zeros(len(mod.segs), bool)
    for shift in range(0, len(mod.segs) + n, n):
        rep.n += 1
        ok, res = rep.call(lambda s=shift: make(rep, "ISMOTE", prm, Covering(shift=s)).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        old = sorted(map(tuple, X[rest]))
        if len(Xs) != len(rest) + n or sorted(map(tuple, Xs[:len(rest)])) != old or list(ys[:len(rest)]).count(0) != len(keep) or np.any(ys[len(rest):] != 1):
            rep.bad(f"{desc}: the kept rows are not those of the rule", what="kept", **key)
            return
        tab = membership(mod, Xs[len(rest):])
        if not tab.any(axis=0).all():
            rep.bad(f"{desc}: a generated sample does not come from an admissible pair", what="outside", **key)
            return
        reached |= tab.any(axis=1)
    if not reached.all():
        a, b = mod.segs[int(np.where(~reached)[0][0])]
        rep.bad(f"{desc}: whatever is drawn, nothing is generated between {a.tolist()} and {b.tolist()}", what="unreached", **key)
    rep.out.add(("ISMOTE", k, metric, len(mod.segs)))


def rows_of(X, y):
    return sorted((tuple(np.round(r, 9)), int(lab)) for r, lab in zip(np.asarray(X, float), np.asarray(y)))


def check_filtered(rep, name, X, y, k, metric, desc, key):
    """SMOTE, then the filter"""
    from checks import p11
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    n_new = n_maj - n_min
    prm = settings(name, k, metric, n_maj, n_min, n_new)
    rep.n += 1
    plain = {q: prm[q] for q in ("proportion", "n_neighbors", "nn_params") if q in prm}
    try:
        Xn, yn = make(rep, "SMOTE", plain, 5).sample(X.copy(), y.copy())
    except Exception:  # pylint: disable=broad-except  # reported by the model of SMOTE
        return
    ok, res = rep.call(lambda: make(rep, name, prm, 5).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    # the metric is learnt from the original data
    diff = Xn[:, None] - Xn[None]
    A = np.linalg.inv(np.cov(X, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])
    D = np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", diff, A, diff), 0))
    if name == "SMOTE_TomekLinks":
        # on equal class sizes both ways of naming the classes remove the same pairs
        keep = p11.model("TomekLinkRemoval", {"strategy": "remove_both"}, D, yn)
        want = (Xn[keep], yn[keep]) if keep else (X, y)
    else:
        keep = p11.model("EditedNearestNeighbors", {"remove": "both"}, D, yn)
        lab = yn[keep]
        if sum(lab == 0) < sum(lab == 1) or len(set(lab)) < 2:
            want = (X, y)
        else:
            want = (Xn[keep], lab)
    if rows_of(*res) != rows_of(*want):
        rep.bad(f"{desc}: {len(res[0])} rows, SMOTE followed by the filter gives {len(want[0])} (or others)", what="filter", **key)
    rep.out.add((name, k, metric, len(Xn) - len(keep)))


def check_spy(rep, X, y, k, metric, desc, key):
    D = matrix(X, metric)
    for thr in (0.3, 0.5, 0.7):
        want = {}
        for kk in (k, k + 1):  # the fraction is that of the neighbours, with or without the sample itself
            lab = y.copy()
            for i in np.where(y == 1)[0]:
                js = [j for j in near(D, i, range(len(y)), k) if y[j] == 0]
                if len(js) < thr * kk:
                    lab[js] = 1
            want[kk] = lab
        prm = {"n_neighbors": k, "threshold": thr}
        if metric == "cov":
            prm["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"}
        rep.n += 1
        ok, res = rep.call(lambda p=prm: make(rep, "SPY", p, 5).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok:
            return
        if not np.array_equal(res[0], X) or not any(np.array_equal(res[1], w) for w in want.values()):
            rep.bad(f"{desc} threshold {thr}: labels {list(map(int, res[1]))}, expected {list(map(int, want[k + 1]))}", **key)
            return
        rep.out.add(("SPY", k, thr, metric, int(sum(res[1]))))


def check_stefanowski(rep, X, y, metric, desc, key):
    D = matrix(X, metric)
    every = range(len(y))
    n3 = {i: near(D, i, every, 3) for i in every}
    n5 = {i: near(D, i, every, 5) for i in every}
    safe = {i: sum(y[j] == y[i] for j in n3[i]) >= 2 for i in every}
    mino = [i for i in every if y[i] == 1]
    for strategy in ("weak_amp", "weak_amp_relabel", "strong_amp"):
        lab, drop, copies = y.copy(), {i for i in every if y[i] == 0 and not safe[i]}, []
        smaj = lambda js: sum(y[j] == 0 and safe[j] for j in js)
        if strategy.startswith("weak"):
            for i in mino:
                if not safe[i]:
                    copies += [i] * smaj(n3[i])
            if strategy.endswith("relabel"):
                for i in mino:
                    if not safe[i]:
                        for j in n3[i]:
                            if y[j] == 0 and not safe[j]:
                                lab[j] = 1
                                drop.discard(j)
        else:
            for i in mino:
                wrong5 = not safe[i] and sum(y[j] == 1 for j in n5[i]) < 3
                copies += [i] * smaj(n5[i] if wrong5 else n3[i])
        keep = [i for i in every if i not in drop]
        want = (np.vstack([X[keep], X[copies]]), np.hstack([lab[keep], np.ones(len(copies), int)]))
        if len(set(lab[keep])) < 2:
            want = (X, y)
        prm = {"strategy": strategy}
        if metric == "cov":
            prm["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"}
        rep.n += 1
        ok, res = rep.call(lambda p=prm: make(rep, "Stefanowski", p, 5).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok:
            return
        if rows_of(*res) != rows_of(*want):
            rep.bad(f"{desc} {strategy}: rows {len(res[0])}, expected {len(want[0])} (or other ones)", **key)
            return
        rep.out.add(("Stefanowski", strategy, metric, len(drop), len(copies)))


def learnt(prm, metric):
    if metric == "cov":
        prm["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"}
    return prm


def check_lee(rep, name, X, y, k, metric, desc, key):
    """SMOTE, samples in majority neighbourhoods rejected (the level is relaxed only where hardly anything passes)"""
    D = matrix(X, metric)
    mino = [int(i) for i in np.where(y == 1)[0]]
    if k > len(mino):
        return
    dist = matrix_to(X, metric)
    frac = lambda P: (y[np.argsort(dist(P), axis=1)[:, :k]] == 0).mean(1)
    segs = [(X[i], X[j]) for i in mino for j in near(D, i, mino, k)]
    grid = np.vstack([a + (b - a) * np.linspace(0.005, 0.995, 60)[:, None] for a, b in segs])
    for level in (0.3, 0.5, 0.7):
        passed = (frac(grid) < level).mean()
        rep.n += 1
        prm = learnt({"n_neighbors": k, "rejection_level": level, "proportion": 40.5 / (len(y) - 2 * len(mino))}, metric)
        ok, res = rep.call(lambda p=prm: make(rep, name, p, 5).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok:
            return
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        mod = Model()
        mod.segs = segs
        if not membership(mod, new).any(axis=0).all():
            rep.bad(f"{desc} rejection level {level}: a generated sample does not come from an admissible pair", what="outside", **key)
            return
        if passed > 0.4 and (frac(new) >= level).any():
            rep.bad(f"{desc} rejection level {level}: {int((frac(new) >= level).sum())} of {len(new)} generated samples have too many majority neighbours", what="level", **key)
            return
        rep.out.add((name, k, level, round(float(passed), 1)))


def matrix_to(X, metric):
    A = np.linalg.inv(np.cov(X, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])

    def dist(P):
        diff = P[:, None] - X[None]
        return np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", diff, A, diff), 0))
    return dist


def check_msyn(rep, name, X, y, k, metric, desc, key):
    """three times as many samples of SMOTE, those with the best margins kept"""
    D = matrix(X, metric)
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    n_new = 12
    press = (n_new + 0.5) / (n_maj - n_min)
    try:
        Xn = np.asarray(make(rep, "SMOTE", learnt({"proportion": press * 3, "n_neighbors": k}, metric), 5).sample(X.copy(), y.copy())[0])[len(X):]
    except Exception:  # pylint: disable=broad-except  # reported by the model of SMOTE
        return
    E = D.copy()
    np.fill_diagonal(E, np.inf)
    hit = np.array([E[i, y == y[i]].min() for i in range(len(y))])
    miss = np.array([E[i, y != y[i]].min() for i in range(len(y))])
    to_new = matrix_to(X, metric)(Xn)
    score = []
    for row in to_new:
        d_min = sum(0.5 * (miss[i] - min(hit[i], row[i])) - 0.5 * (miss[i] - hit[i]) for i in np.where(y == 1)[0])
        d_maj = sum(0.5 * (min(miss[i], row[i]) - hit[i]) - 0.5 * (miss[i] - hit[i]) for i in np.where(y == 0)[0])
        score.append(-d_maj / (d_min + 0.01))
    score = np.array(score)
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, learnt({"pressure": press, "n_neighbors": k}, metric), 5).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    last = np.sort(score)[n_new - 1]
    match = np.abs(new[:, None] - Xn[None]).max(2) < 1e-9
    if len(new) != n_new or not match.any(1).all():
        rep.bad(f"{desc}: {len(new)} samples, {n_new} of those of SMOTE expected", what="kept", **key)
    elif any(score[row].min() > last + 1e-9 for row in match):
        rep.bad(f"{desc}: a sample is kept although {n_new} others have better margins", what="margin", **key)
    rep.out.add((name, k, metric, round(float(last), 3)))


def check_slgraph(rep, name, X, y, k, metric, desc, key):
    """borderline or safe level SMOTE, depending on the skewness of the safe levels"""
    from scipy.stats import skew
    D = matrix(X, metric)
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    # a sample is its own first neighbour
    level = [sum(y[j] == 1 for j in near(D, i, range(len(y)), k - 1)) + 1 for i in np.where(y == 1)[0]]
    skewness = skew(level) if len(set(level)) > 1 else 0.0
    prm = learnt({"proportion": 20.5 / (n_maj - n_min), "n_neighbors": k}, metric)
    want = make(rep, "Safe_Level_SMOTE" if skewness < -1e-9 else "Borderline_SMOTE1", prm, 5).sample(X.copy(), y.copy())
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, prm, 5).sample(X.copy(), y.copy()), what=desc, key=key)
    if ok and abs(skewness) > 1e-9 and rows_of(*res) != rows_of(*want):
        rep.bad(f"{desc}: skewness {skewness:.3g} of the safe levels {level}, the result is not that of {'Safe_Level_SMOTE' if skewness < 0 else 'Borderline_SMOTE1'}", **key)
    rep.out.add((name, k, metric, round(float(skewness), 3)))


def check_vsynth(rep, name, X, y, k, metric, desc, key):
    """a sample is in the Voronoi cell of a minority sample; with and without a pair of coinciding vectors"""
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    prm = {"proportion": 40.5 / (n_maj - n_min)}
    for where, (Xv, yv) in {"": (X, y), "duplicated": (np.vstack([X[:1], X]), np.hstack([y[:1], y]))}.items():
        if len(set(yv)) < 2 or sum(yv == 1) >= sum(yv == 0):
            continue
        rep.n += 1
        ok, res = rep.call(lambda a=Xv, b=yv: make(rep, name, prm, 5).sample(a.copy(), b.copy()), what=desc, key=key)
        if not ok:
            return
        new = extended(rep, desc, key, Xv, yv, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        if len(new):
            dist = matrix_to(Xv, None)(new)
            bad = dist[:, yv == 1].min(1) > dist[:, yv == 0].min(1) + 1e-7
            if bad.any():
                rep.bad(f"{desc} {where}: {int(bad.sum())} of {len(new)} samples are nearer to a majority sample than to any minority sample", what="cell", **key)
                return
        rep.out.add((name, where, len(new) > 0))


def check_ce(rep, name, X, y, k, metric, desc, key):
    """where all the clusterings agree no sample is at the boundary: nothing is generated"""
    m = int((y == 1).sum())
    for n_clusters in (2, 3, 4):
        # well separated clusters along the diagonal, three or more samples in each
        place = np.arange(len(y)) % n_clusters
        Xc = (X - X.mean(0)) * 0.01 + 10.0 * place[:, None] ** 1.5
        for seed in range(3):
            rep.n += 1
            prm = {"proportion": 20.5 / (len(y) - 2 * m), "k": n_clusters, "h": 5, "alpha": 0.9}
            ok, res = rep.call(lambda a=Xc, p=prm, s=seed: make(rep, name, p, s).sample(a.copy(), y.copy()), what=desc, key=key)
            if not ok:
                return
            if len(res[0]) != len(X):
                rep.bad(f"{desc}: {n_clusters} clusters all the clusterings agree on, yet {len(res[0]) - len(X)} samples generated at inconsistent ones", what="consistency", **key)
                return
    rep.out.add((name, m))


def trim_seeds(X, y):
    """the regions left after splitting while the squared number of minority samples per sample increases; None if there are ties"""
    def best_split(rows, border):
        value, found, tie = y[rows].sum() ** 2 / len(rows), None, False
        top = 0.0
        for d in range(X.shape[1]):
            order = sorted(rows, key=lambda i: X[i, d])
            for cut in range(1, len(order)):
                left, right = order[:cut], order[cut:]
                if border and y[left[-1]] == y[right[0]]:
                    continue
                gain = max(y[left].sum() ** 2 / len(left), y[right].sum() ** 2 / len(right))
                if abs(gain - top) < 1e-12:
                    tie = tie or {frozenset(left), frozenset(right)} != {frozenset(f) for f in found}
                elif gain > top:
                    top, found, tie = gain, (left, right), False
        return (found, tie) if found and top > value else (None, False)

    leafs, seeds = [list(range(len(y)))], []
    while leafs:
        cands, grown = [], []
        for leaf in leafs:
            if len(leaf) > 1:
                parts, tie = best_split(leaf, True)
                if tie:
                    return None
                if parts:
                    grown += [p for p in parts if y[p].any()]
                else:
                    cands.append(leaf)
        for cand in cands:
            parts, tie = best_split(cand, False)
            if tie:
                return None
            if parts:
                grown += [p for p in parts if y[p].any()]
            else:
                seeds.append(cand)
        leafs = grown
    return seeds


def check_nt(rep, name, X, y, k, metric, desc, key):
    """a sample is in the triangle of a minority sample and its two nearest minority neighbours"""
    D = matrix(X, metric)
    mino = [int(i) for i in np.where(y == 1)[0]]
    n_min, n_maj = len(mino), len(y) - len(mino)
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, n_maj, n_min, 60), Covering()).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    inside = np.zeros((n_min, len(new)), bool)
    tris = [X[[i] + near(D, i, mino, 2)] for i in mino]
    for t, tri in enumerate(tris):
        sol = np.linalg.lstsq(np.vstack([tri.T, np.ones(3)]), np.vstack([new.T, np.ones(len(new))]), rcond=None)[0]
        inside[t] = (sol.min(0) > -1e-6) & (np.abs(tri.T @ sol - new.T).max(0) < 1e-6) & (sol.max(0) < 1 - 1e-9)
    if not inside.any(0).all() or not inside.any(1).all():
        rep.bad(f"{desc}: {int((~inside.any(0)).sum())} of {len(new)} samples outside of the triangles, {int((~inside.any(1)).sum())} of {n_min} triangles never used", what="triangle", **key)
    elif all(len(set(map(tuple, t.tolist()))) == 3 for t in tris) and not any((sol_min(tri, new) > 1e-3).any() for tri in tris):
        rep.bad(f"{desc}: no sample is in the interior of a triangle", what="interior", **key)
    rep.out.add((name, metric, n_min))


def sol_min(tri, new):
    sol = np.linalg.lstsq(np.vstack([tri.T, np.ones(3)]), np.vstack([new.T, np.ones(len(new))]), rcond=None)[0]
    return sol.min(0)


def check_nras(rep, name, X, y, k, metric, desc, key):
    """minority samples with too small a share of minority neighbours (the propensity being one more coordinate) are removed; the
    others are bases of pairs with their neighbours of both classes"""
    Z = (X - X.min(0)) / (X.max(0) - X.min(0))
    labels = 1 - y if rep.flip else y
    reg = LogisticRegression(random_state=None).fit(Z, labels)
    P = np.column_stack([Z, reg.predict_proba(Z)[:, list(reg.classes_).index(1 - rep.flip)]])
    D = matrix(P, metric)
    every, mino = range(len(y)), [int(i) for i in np.where(y == 1)[0]]
    n_min, n_maj = len(mino), len(y) - len(mino)
    for t in (0.3, 0.5, 0.8):
        hits = {i: sum(y[j] for j in near(D, i, every, k)) for i in mino}
        out = [i for i in mino if hits[i] < t * k - 1e-9]
        keep = [i for i in mino if i not in out]
        mod = Model()
        for i in keep:
            for j in near(D, i, every, k):
                seg(mod, X[i], X[j])
        rep.n += 1
        ok, res = rep.call(lambda t=t: make(rep, name, {**settings(name, k, metric, n_maj, n_min, 60), "t": t}, Covering()).sample(X.copy(), y.copy()), what=f"{desc} t={t}", key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        if len(keep) < 2:
            if len(Xs) != len(X):
                rep.bad(f"{desc} t={t}: {len(Xs)} rows though all minority samples but {len(keep)} are noise", what="noise", **key)
                return
            continue
        kept = [i for i in every if y[i] == 0] + keep
        if len(Xs) != len(kept) + 60 + len(out) or np.abs(Xs[:len(kept)] - X[kept]).max() > 1e-7 or not np.array_equal(ys[:len(kept)], y[kept]) or not (ys[len(kept):] == 1).all():
            rep.bad(f"{desc} t={t}: not the majority, the minority samples {keep} and {60 + len(out)} new minority samples", what="kept", **key)
            return
        new = Xs[len(kept):]
        tab = membership(mod, new)
        moved = tab & np.array([np.abs(new - a).max(1) > EPS * 20 for a, _ in mod.segs])
        if not tab.any(0).all():
            rep.bad(f"{desc} t={t}: {int((~tab.any(0)).sum())} of {len(new)} samples do not come from an admissible pair", what="outside", **key)
            return
        if not all(moved[i].any() for i, (a, b) in enumerate(mod.segs) if not any(np.array_equal(b, X[o]) for o in out)):
            rep.bad(f"{desc} t={t}: some admissible pairs are never used", what="unreached", **key)
            return
        rep.out.add((name, t, len(keep), len(mod.segs)))


class Fixed(np.random.RandomState):
    """all uniform numbers have the same value, permutations are the identity"""

    def __init__(self, value):
        super().__init__(5)
        self.value = value

    def rand(self, *shape):
        return np.full(shape, self.value) if shape else self.value

    def random_sample(self, size=None):
        return self.value if size is None else np.full(size, self.value)

    random = random_sample

    def permutation(self, x):
        return np.arange(x) if np.ndim(x) == 0 else np.array(x)


def ccr_radius(dist, energy):
    """the sphere grows, each unit costing one more than the number of majority samples inside"""
    radius = 0.0
    for inside, d in enumerate(sorted(dist)):
        if energy <= (d - radius) * (inside + 1):
            return radius + energy / (inside + 1)
        energy -= (d - radius) * (inside + 1)
        radius = d
    return radius + energy / len(dist)


def check_ccr(rep, name, X, y, k, metric, desc, key):
    """the radius of each minority sample follows from the energy and the majority samples passed; small spheres get more samples"""
    mino, majo = X[y == 1], X[y == 0]
    for energy in (0.5, 2.0, 8.0, 40.0):
        radius = np.array([ccr_radius(np.abs(majo - m).sum(1), energy) for m in mino])
        want = 60 / len(mino) / radius * radius.mean()
        counts, ends = {}, {}
        for value in (0.5, 0.0, 1.0 - 1e-12):
            rep.n += 1
            prm = {**settings(name, k, metric, len(majo), len(mino), 60), "energy": energy}
            ok, res = rep.call(lambda p=prm, v=value: make(rep, name, p, Fixed(v)).sample(X.copy(), y.copy()), what=f"{desc} energy {energy}", key=key)
            if not ok:
                return
            new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
            if new is None:
                return
            if value == 0.5:
                counts = [int((np.abs(new - m).max(1) < 1e-9).sum()) for m in mino]
                if sum(counts) != len(new) or any(abs(c - w) > 0.5 + 1e-6 for c, w in zip(counts, want)):
                    rep.bad(f"{desc} energy {energy}: {counts} samples around the minority samples, {want.round(3).tolist()} are due", what="counts", **key)
                    return
            else:
                base = np.repeat(np.arange(len(mino)), counts)
                ends = np.abs(new - mino[base]).max(1) if len(new) == len(base) else np.zeros(0)
                if len(ends) != len(base) or np.abs(ends - radius[base]).max() > 1e-6:
                    rep.bad(f"{desc} energy {energy}: the samples reach {np.unique(ends.round(4)).tolist()}, the radii are {radius.round(4).tolist()}", what="radius", **key)
                    return
        rep.out.add((name, energy, tuple(counts)))


class Ones(Covering):
    """all normal numbers are 1"""

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * np.ones(size)

    def standard_normal(self, size=None):
        return np.ones(size)


def check_spread(rep, name, X, y, k, metric, desc, key):
    """normal noise of the deviation given by the rule around the minority samples"""
    M, d = X[y == 1], X.shape[1]
    if name == "ROSE":
        scales = [M.std(0) * (4 / ((d + e) * len(M))) ** (1 / (d + 4)) for e in (1, 2)]
    else:
        scales = [M.std(0) / np.sqrt(len(M)), M.std(0, ddof=1) / np.sqrt(len(M))]
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, int((y == 0).sum()), len(M), 60), Ones()).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    for scale in scales:
        hit = np.abs(new[:, None] - (M + scale)[None]).max(2) < 1e-7
        if hit.any(1).all() and hit.any(0).all():
            break
    else:
        rep.bad(f"{desc}: with normal numbers of 1 the samples are not the minority samples plus {scales[0].tolist()}", what="spread", **key)
    rep.out.add((name, len(M)))


def check_symprod(rep, name, X, y, k, metric, desc, key):
    """a sample is made from a minority sample and its neighbours: none between two distant groups of minority samples; a class is not
    removed completely as outliers"""
    groups = [X[y == 0][:2] * 100 + np.random.RandomState(g).normal(size=(14, X.shape[1]))[:, None] for g in range(2)]
    groups = [groups[0][:, 0], groups[1][:, 1]]
    maj = X[y == 0].mean(0) * 100 + 20 * np.random.RandomState(7).normal(size=(40, X.shape[1]))
    Xg, yg = np.vstack([maj] + groups), np.repeat([0, 1], [40, 28])
    for tag, (Xv, yv) in {"": (Xg, yg), "regular majority": (np.vstack([np.column_stack([np.tile([-1.0, 1.0], 20), maj[:, 1:] / 100]), np.random.RandomState(3).normal(size=(28, X.shape[1]))]), yg)}.items():
        rep.n += 1
        prm = {"proportion": 5.0, "m_neighbors": 2, "std_outliers": 1 if tag else 3}
        ok, res = rep.call(lambda a=Xv, b=yv, p=prm: make(rep, name, p, 5).sample(a.copy(), b.copy()), what=f"{desc} {tag}", key=key)
        if not ok:
            return
        new = extended(rep, desc, key, Xv, yv, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        rep.out.add((name, tag, len(new)))
        if len(new) != 60:
            rep.bad(f"{desc} {tag}: {len(new)} samples generated, 60 requested", what="count", **key)
            return
        if tag:
            continue
        inside = np.array([((new >= g.min(0) - 1e-6) & (new <= g.max(0) + 1e-6)).all(1) for g in groups])
        if len(new) and not inside.any(0).all():
            rep.bad(f"{desc}: {int((~inside.any(0)).sum())} of {len(new)} samples between two distant groups of minority samples", what="groups", **key)
            return


def check_vis(rep, name, X, y, k, metric, desc, key):
    """majority samples with minority neighbours become minority; then safe samples or those in danger are extrapolated, depending on
    how many are in danger, and the samples with majority neighbours are dropped"""
    Z = (X - X.mean(0)) / X.std(0)
    D = matrix(Z, metric)
    every = range(len(y))
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    lab = y.copy()
    for i in every:
        if y[i] == 0 and any(y[j] for j in near(D, i, every, k)):
            lab[i] = 1
    mino = [i for i in every if lab[i] == 1]
    count = {i: sum(lab[j] == 0 for j in near(D, i, every, k)) for i in mino}
    noise = [i for i in mino if count[i] == k]
    safe = [i for i in mino if 2 * count[i] < k and count[i] < k]
    danger = [i for i in mino if i not in noise and i not in safe]
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, n_maj, n_min, 60), Covering()).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
    stop = 2 * sum(lab) >= len(lab) or len(noise) == len(mino)
    if len(Xs) < len(X) or np.abs(Xs[:len(X)] - X).max() > 1e-9 or not np.array_equal(ys[:len(X)], y if stop else lab) or not (ys[len(X):] == 1).all():
        rep.bad(f"{desc}: labels {ys.tolist()}, of the original samples {(y if stop else lab).tolist()} expected", what="labels", **key)
        return
    new = Xs[len(X):]
    rep.out.add((name, stop, len(safe), len(danger), len(new) > 0))
    if stop:
        if len(new):
            rep.bad(f"{desc}: samples generated although nothing is left to generate from", what="stop", **key)
        return
    pair, copy = (mino, []) if not safe else (safe, danger) if len(danger) > 0.3 * len(mino) else (danger, safe)
    mod = Model()
    for i in pair:
        for j in near(D, i, mino, k):
            seg(mod, X[i], X[j])
    for i in copy:
        mod.segs.append((X[i], X[i]))
    if len(new) and not membership(mod, new).any(0).all():
        tab = membership(mod, new)
        i = int(np.where(~tab.any(0))[0][0])
        rep.bad(f"{desc}: {new[i].tolist()} comes neither from a pair of {pair} nor is it one of {copy}", what="outside", **key)
        return
    Q = (new - X.mean(0)) / X.std(0)
    for q in Q:
        diff = Z - q
        A = np.linalg.inv(np.cov(Z, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])
        order = np.argsort(np.einsum("ij,jk,ik->i", diff, A, diff))
        if any(lab[j] == 0 for j in order[1:k]):  # whether the first of the neighbours counts is left open
            rep.bad(f"{desc}: a sample with majority samples among its neighbours was kept", what="kept", **key)
            return


def same_rows(rep, new, want, name, desc, key, what):
    """the generated rows are exactly those expected, in any number"""
    far = np.abs(new[:, None] - want[None]).max(2) if len(new) and len(want) else np.full((len(new), len(want)), np.inf)
    if not len(new) or far.min(1).max() > 1e-7:
        rep.bad(f"{desc}: {what} {new[int(far.min(1).argmax())].tolist() if len(new) else 'nothing'} generated, none of the {len(want)} of the rule", what="outside", **key)
        return False
    if far.min(0).max() > 1e-7:
        rep.bad(f"{desc}: {what} {want[int(far.min(0).argmax())].tolist()} is never generated", what="unreached", **key)
        return False
    return True


def check_cosine(rep, name, X, y, k, metric, desc, key):
    """the base is moved away from a majority neighbour by up to 0.3 of the distance, the sample is between that and another minority
    sample, at most half way"""
    D = matrix(X, None)
    mino, majo = [int(i) for i in np.where(y == 1)[0]], [int(i) for i in np.where(y == 0)[0]]
    want = np.array([X[j] + 0.25 * (X[i] + 0.15 * (X[i] - X[v]) - X[j]) for i in mino for v in near(D, i, majo, k) for j in mino if j != i])
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, len(majo), len(mino), 2 * len(want)), Half()).sample(X.copy(), y.copy()), what=desc, key=key)
    if ok:
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is not None and same_rows(rep, new, want, name, desc, key, "half way"):
            rep.out.add((name, k, len(want)))


def check_dbsmote(rep, name, X, y, k, metric, desc, key):
    """half way on the edges of the shortest paths from the centre of each cluster; the centre and unconnected samples are repeated"""
    eps = 1.0
    Z = (X - X.mean(0)) / X.std(0)
    mino = [int(i) for i in np.where(y == 1)[0]]
    D = matrix(Z, None)
    core = [i for i in mino if sum(D[i, j] <= eps for j in mino) >= k]
    left, parts = set(core), []
    while left:
        part, todo = set(), [left.pop()]
        while todo:
            a = todo.pop()
            part.add(a)
            for j in mino:
                if a in core and D[a, j] <= eps and j not in part:
                    todo.append(j)
        left -= part
        parts.append(sorted(part))
    if not parts or sum(map(len, parts)) != len(set().union(*parts)):  # relaxed, or a sample on the border of two clusters
        rep.out.add((name, "the rule leaves a choice"))
        return
    mod = Model()
    for part in parts:
        if len(part) == 2:  # either one may be the centre
            seg(mod, X[part[0]], X[part[1]])
            continue
        centre = min(part, key=lambda i: ((Z[i] - Z[part].mean(0)) ** 2).sum())
        cost, prev = {centre: 0.0}, {}
        for _ in part:
            for i in list(cost):
                for j in near(D, i, part, k):
                    if D[i, j] < eps and cost[i] + D[i, j] < cost.get(j, np.inf) - 1e-12:
                        cost[j], prev[j] = cost[i] + D[i, j], i
        for i in part:
            seg(mod, X[i], X[prev.get(i, i)])
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, int((y == 0).sum()), len(mino), 600), Covering()).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    tab = membership(mod, new)
    inner = np.array([(tab[s] & ((np.abs(new - a).max(1) > 1e-6) | (np.abs(a - b).max() < 1e-9))).any() for s, (a, b) in enumerate(mod.segs)])
    if len(new) != 600 or not tab.any(0).all() or not inner.all():
        bad = int((~tab.any(0)).sum())
        rep.bad(f"{desc}: {bad} of {len(new)} samples are not on the shortest paths from the centres of the clusters {parts}, {int((~inner).sum())} of {len(inner)} edges are never used", what="paths", **key)
        return
    rep.out.add((name, k, len(parts), len(mod.segs)))


def check_lvq(rep, name, X, y, k, metric, desc, key):
    """the offset of a minority sample from one of a pair with a similar difference is applied to a member of another pair; with as many
    clusters as minority samples each of these is a code"""
    D = matrix(X, metric)
    mino = [int(i) for i in np.where(y == 1)[0]]
    fixed, maybe = [], []
    for a, b in itertools.permutations(mino, 2):
        rest = [(i, j) for i in mino for j in mino if not {i, j} & {a, b}]
        gap = [np.linalg.norm(X[a] - X[b] - X[i] + X[j]) for i, j in rest]
        best = [rest[q] for q in range(len(rest)) if gap[q] < min(gap) + 1e-9]
        for i, j in best:
            for o in {i, j}:
                (maybe if len(best) > 1 else fixed).extend(X[a] + X[r] - X[o] for r in [o] + near(D, o, mino, min(k, len(mino)) - 1))
    n_new = {3: 260, 4: 800}.get(len(mino), 60)
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, int((y == 0).sum()), len(mino), n_new), Covering()).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    far = np.abs(new[:, None] - np.array(fixed + maybe)[None]).max(2)
    if len(new) != n_new or far.min(1).max() > 1e-6:
        rep.bad(f"{desc}: {new[int(far.min(1).argmax())].tolist()} generated, none of the translated samples of the rule", what="outside", **key)
    elif len(fixed) and n_new > 60 and far[:, :len(fixed)].min(0).max() > 1e-6:
        rep.bad(f"{desc}: {fixed[int(far[:, :len(fixed)].min(0).argmax())].tolist()} is never generated", what="unreached", **key)
    rep.out.add((name, k, len(mino), len(fixed) > 0))


def check_ahc(rep, name, X, y, k, metric, desc, key):
    """the centres of all merged groups of minority samples are added, the majority is replaced by centres of its clusters"""
    mino, majo = X[y == 1], X[y == 0]
    groups = {i: [i] for i in range(len(mino))}
    for a, b, _, _ in linkage(mino, "ward"):
        groups[len(groups)] = groups[int(a)] + groups[int(b)]
    centres = [mino[g].mean(0) for g in groups.values() if len(g) > 1]
    for strategy in ("min", "maj", "minmaj"):
        rep.n += 1
        ok, res = rep.call(lambda s=strategy: make(rep, name, {"strategy": s}, 5).sample(X.copy(), y.copy()), what=f"{desc} {strategy}", key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        want = np.vstack([mino] + ([] if strategy == "maj" else [np.array(centres)]))
        got = Xs[ys == 1]
        if len(got) != len(want) or np.abs(got[:, None] - want[None]).max(2).min(0).max() > 1e-7 or np.abs(got[:, None] - want[None]).max(2).min(1).max() > 1e-7:
            rep.bad(f"{desc} {strategy}: the minority class has {len(got)} rows, not the {len(mino)} original ones and the centres of the merged groups", what="minority", **key)
            return
        low = Xs[ys == 0]
        if strategy == "min":
            fine = len(low) == len(majo) and rows_of(low, np.zeros(len(low))) == rows_of(majo, np.zeros(len(majo)))
        else:
            member = ((majo[:, None] - low[None]) ** 2).sum(2).argmin(1) if len(low) else np.zeros(0)
            fine = len(low) == min(len(majo), len(want)) and all((member == c).any() and np.abs(majo[member == c].mean(0) - low[c]).max() < 1e-6 for c in range(len(low)))
        if not fine:
            rep.bad(f"{desc} {strategy}: {len(low)} majority rows, not the original ones or the centres of as many clusters as there are minority ones", what="majority", **key)
            return
        rep.out.add((name, strategy, len(got), len(low)))


class Trials(Covering):
    """normal numbers are the same in one row, the rows cycle through three values"""
    VALUES = np.array([0.6, -1.3, 2.1])

    def normal(self, loc=0.0, scale=1.0, size=None):
        size = (1,) if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        rows = int(np.prod(size[:-1]))
        pos = getattr(self, "pos", 0)
        self.pos = pos + rows
        return loc + scale * np.repeat(self.VALUES[(pos + np.arange(rows)) % 3], size[-1]).reshape(size)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *dims):
        return self.normal(size=dims)


def check_sundo(rep, name, X, y, k, metric, desc, key):
    """half of the difference is generated, of three normal trials the one most distant from the majority, and one of each of the
    closest majority pairs is removed"""
    mino, majo = X[y == 1], X[y == 0]
    n_new = (len(majo) - len(mino) + 1) // 2 if (len(majo) - len(mino)) % 2 else None
    n_new = int(np.rint(0.5 * (len(majo) - len(mino)) + 0.5)) if n_new is None else n_new
    A = np.linalg.inv(np.cov(X, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])
    Z = (majo - majo.min(0)) / (majo.max(0) - majo.min(0))
    pairs = sorted(itertools.combinations(range(len(majo)), 2), key=lambda p: (Z[p[0]] - Z[p[1]]) @ A @ (Z[p[0]] - Z[p[1]]))[:n_new]
    keep = [i for i in range(len(majo)) if i not in {a for a, _ in pairs}]
    std = mino.std(0)
    want = []
    for m in mino:
        cand = [m + v * std for v in Trials.VALUES]
        want.append(max(cand, key=lambda c: min((c - q) @ A @ (c - q) for q in majo)))
    want, seen = np.array(want), np.zeros(len(mino), bool)
    for shift in range(0, len(mino), n_new):
        rep.n += 1
        ok, res = rep.call(lambda s=shift: make(rep, name, settings(name, k, metric, len(majo), len(mino), 0), Trials(shift=s)).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        if rows_of(Xs[ys == 0], np.zeros(sum(ys == 0))) != rows_of(majo[keep], np.zeros(len(keep))):
            rep.bad(f"{desc}: {int((ys == 0).sum())} majority samples left, without the first ones of the {n_new} closest pairs there are {len(keep)}", what="removed", **key)
            return
        low = Xs[ys == 1]
        if len(low) != len(mino) + n_new or np.abs(low[:len(mino)] - mino).max() > 1e-9:
            rep.bad(f"{desc}: {len(low)} minority samples, {len(mino)} and {n_new} new ones expected", what="minority", **key)
            return
        far = np.abs(low[len(mino):, None] - want[None]).max(2)
        if far.min(1).max() > 1e-7:
            rep.bad(f"{desc}: {low[len(mino) + int(far.min(1).argmax())].tolist()} generated, not the trial most distant from the majority", what="trial", **key)
            return
        seen |= far.min(0) < 1e-7
    if not seen.all():
        rep.bad(f"{desc}: nothing is generated from the minority samples {np.where(~seen)[0].tolist()}", what="unreached", **key)
    rep.out.add((name, len(keep), n_new))


def check_gazzah(rep, name, X, y, k, metric, desc, key):
    """the new samples are those of the star topology, the majority samples far from their centre in the principal components are removed"""
    mino, majo = X[y == 1], X[y == 0]
    new = free_rows("polynom_fit_SMOTE_star", mino, 60)
    C = majo - majo.mean(0)
    T = C @ np.linalg.svd(C, full_matrices=False)[2][:k].T
    dist, R = np.linalg.norm(T, axis=1), np.sqrt(T.var(0).sum())
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, len(majo), len(mino), 60), 5).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
    left = majo[dist <= R]
    if rows_of(Xs[ys == 0], np.zeros(sum(ys == 0))) != rows_of(left, np.zeros(len(left))):
        rep.bad(f"{desc}: {int((ys == 0).sum())} majority samples left, {len(left)} are near enough", what="removed", **key)
    elif not all(np.abs(Xs[ys == 1] - r).max(1).min() < 1e-7 for r in new) or not all(np.abs(np.vstack([new, mino]) - r).max(1).min() < 1e-7 for r in Xs[ys == 1]):
        rep.bad(f"{desc}: the {int((ys == 1).sum())} minority samples are not the {len(new)} of the rule", what="rows", **key)
    rep.out.add((name, k, len(left)))


def check_supervised(rep, name, X, y, k, metric, desc, key):
    """only samples whose probability is between the thresholds are accepted, from all pairs of minority samples"""
    mino = [int(i) for i in np.where(y == 1)[0]]
    clf = LogisticRegression().fit(X, y)
    mod = Model()
    for a, b in itertools.combinations(mino, 2):
        seg(mod, X[a], X[b])
    ts = np.linspace(0, 1, 101)[:, None]
    prob = np.array([clf.predict_proba(a + (b - a) * ts)[:, 1] for a, b in mod.segs])
    for lo, hi in ((np.quantile(prob, 0.3), 1.0), (0.0, np.quantile(prob, 0.6)), (np.quantile(prob, 0.3), np.quantile(prob, 0.8))):
        rep.n += 1
        prm = {**settings(name, k, metric, int((y == 0).sum()), len(mino), 240), "th_lower": float(lo), "th_upper": float(hi)}
        ok, res = rep.call(lambda p=prm: make(rep, name, p, Covering()).sample(X.copy(), y.copy()), what=f"{desc} {lo:.3f} to {hi:.3f}", key=key)
        if not ok:
            return
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        p = clf.predict_proba(new)[:, 1] if len(new) else np.zeros(0)
        tab = membership(mod, new)
        due = ((prob > lo) & (prob < hi)).mean(1) > 0.25
        if len(new) != 240 or not tab.any(0).all() or p.min() < lo - 1e-3 or p.max() > hi + 1e-3 or not tab[due].any(1).all():
            rep.bad(f"{desc} {lo:.3f} to {hi:.3f}: {len(new)} samples, {int((~tab.any(0)).sum())} off the pairs, probabilities {p.min() if len(p) else 0:.3f} to {p.max() if len(p) else 0:.3f}, "
                    f"{int((~tab[due].any(1)).sum())} pairs not used", what="supervised", **key)
            return
        rep.out.add((name, len(mino), round(lo, 1), round(hi, 1)))


EVEN = {"n_dim": 2, "simplex_sampling": "deterministic", "within_simplex_sampling": "deterministic", "gaussian_component": None}


def check_rsb(rep, name, X, y, k, metric, desc, key):
    """of the SMOTE samples those are kept that are not similar to any majority sample; the similarity allowed grows until there are enough"""
    mino, majo = X[y == 1], X[y == 0]
    prm = {**settings(name, k, metric, len(majo), len(mino), 0), "ss_params": EVEN}
    for prop in (1.0, 4.0):
        prm["proportion"] = prop
        rep.n += 2
        ok, sm = rep.call(lambda: make(rep, "SMOTE", prm, 5).sample(X.copy(), y.copy()), what=desc + " SMOTE", key=key)
        ok2, res = rep.call(lambda: make(rep, name, prm, 5).sample(X.copy(), y.copy()), what=desc, key=key)
        if not ok or not ok2:
            return
        S = sm[0][len(X):]
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None or len(S) == 0:
            return
        width = S.max(0) - S.min(0)
        sim = (1 - (np.abs(S[:, None] - majo[None]) / np.where(width == 0, np.maximum(S.max(0), 1), width)).sum(2) / X.shape[1]).max(1)
        need, got, bound = len(majo) - len(mino), [], 0.4
        if np.abs(sim[:, None] - (0.4 + 0.05 * np.arange(12))[None]).min() < 1e-9:
            continue
        while len(got) < need and bound < 0.9 + 1e-6:
            got += [i for i in range(len(S)) if sim[i] <= bound and i not in got]
            bound += 0.05
            if abs(bound - 0.95) < 1e-6:
                break
        last = [i for i in got if sim[i] > 0.9 - 0.05 - 1e-6]  # the last step is reached or not, depending on rounding
        want = S[got[:need]]
        alt = S[[i for i in got if i not in last][:need]]
        if not any(len(new) == len(w) and (len(w) == 0 or np.abs(new[:, None] - w[None]).max(2).min(1).max() < 1e-7 and np.abs(new[:, None] - w[None]).max(2).min(0).max() < 1e-7) for w in (want, alt)):
            rep.bad(f"{desc} proportion {prop}: {len(new)} of the {len(S)} samples of SMOTE kept, not the {len(want)} least similar ones", what="similar", **key)
            return
        rep.out.add((name, k, prop, len(want)))


BOOST = {}


def boost(X, y, depth, rounds):
    """the weights of the samples after boosting trees, None if they depend on how the trees resolve ties"""
    key = (len(X), X.shape[1], tuple(y), depth, rounds)
    if key in BOOST:
        return BOOST[key]
    first, same = None, True
    for state in range(30):
        w = np.full(len(y), 1 / len(y))
        rng = np.random.RandomState(state)
        for _ in range(rounds):
            w = w * (1 + 1e-9 * rng.normal(size=len(w)))  # ties up to rounding
            wrong = DecisionTreeClassifier(random_state=state, max_depth=depth, min_samples_split=3).fit(X, y, sample_weight=w).predict(X) != y
            err = w[wrong].sum()
            if err == 0:
                w = np.zeros(len(y))
                break
            w[wrong] *= np.sqrt((1 - err) / err)
            w /= w.sum()
        first = w if first is None else first
        if not np.allclose(w, first, atol=1e-6):
            same = False
            break
    BOOST[key] = first if same else None
    return BOOST[key]


def check_wb(rep, name, X, y, k, metric, desc, key):
    """samples with large weights after boosting are noise; each other minority sample has as many neighbours as there are minority ones
    before the first majority one, and gets the same number of samples; those without are repeated unless they are noise"""
    n_min, n_maj = int((y == 1).sum()), int((y == 0).sum())
    D = matrix(X, metric)
    for rounds in (1, 4):
        w = boost(X, y, 3, rounds)
        limit = np.where(y == 1, 2 * n_maj, 2 * n_min) / len(y) ** 2
        if w is None or np.abs(w - limit).min() < 1e-6:
            rep.out.add((name, "the rule leaves a choice"))
            continue
        noise = w > limit
        clean = [i for i in range(len(y)) if not noise[i]]
        mod, bases = Model(), []
        if not clean:
            continue
        for i in np.where(y == 1)[0]:
            order = near(D, i, clean, n_maj // n_min + (1 if noise[i] else 0))
            stop = next((p for p, j in enumerate(order) if y[j] == 0), len(order))
            js = order[:min(stop, n_maj // n_min)]
            if js or not noise[i]:
                bases.append((int(i), [int(j) for j in js]))
        if not bases or any(noise[i] for i, _ in bases):  # how far a noisy sample looks is left open
            continue
        rep.n += 1
        prm = {**settings(name, k, metric, n_maj, n_min, 60), "max_depth": 3, "n_iters": rounds}
        ok, res = rep.call(lambda p=prm: make(rep, name, p, Covering()).sample(X.copy(), y.copy()), what=f"{desc} {rounds} rounds", key=key)
        if not ok:
            return
        new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
        if new is None:
            return
        for i, js in bases:
            for j in js or [i]:
                seg(mod, X[i], X[j])
        tab = membership(mod, new)
        moved = tab & np.array([(np.abs(new - a).max(1) > EPS) | (np.abs(a - b).max() == 0) for a, b in mod.segs])
        if len(new) != 60 or not tab.any(0).all() or not moved.any(1).all():
            rep.bad(f"{desc} {rounds} rounds: {len(new)} samples, {int((~tab.any(0)).sum())} off the pairs of {bases}, {int((~moved.any(1)).sum())} pairs not used", what="pairs", **key)
            return
        pos = 0
        for i, js in bases:
            rows = [t for t, s in enumerate(mod.segs) if np.array_equal(s[0], X[i])]
            most = int(tab[rows].any(0).sum())
            if most < 60 // len(bases):
                rep.bad(f"{desc} {rounds} rounds: {most} samples from minority sample {i}, {60 / len(bases):.3g} are its share", what="share", **key)
                return
            pos += len(js)
        rep.out.add((name, rounds, int(noise.sum()), len(bases), pos))


class Even(np.random.RandomState):
    """each option of a weighted selection of one is given its share in n of them; uniform numbers are 1"""

    def __init__(self, n):
        super().__init__(11)
        self.n, self.pos = n, 0

    def choice(self, a, size=None, replace=True, p=None):
        opts = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        prob = np.full(len(opts), 1 / len(opts)) if p is None else np.asarray(p, float)
        count = 1 if size is None else int(np.prod(size))
        at = (self.pos + np.arange(count) + 0.5) / self.n % 1
        self.pos += count
        out = opts[np.minimum(np.searchsorted(np.cumsum(prob), at), len(opts) - 1)]
        return out[0] if size is None else out.reshape(size)

    def random_sample(self, size=None):
        return 1.0 if size is None else np.ones(size)

    random = random_sample

    def rand(self, *dims):
        return self.random_sample(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return high * np.ones(np.broadcast(low, high).shape if size is None else size)


def check_mdo(rep, name, X, y, k, metric, desc, key):
    """minority samples with enough minority neighbours are bases, weighted by the number of these; the samples have the Mahalanobis
    distance of their base (planar points, numbers on the border)"""
    if X.shape[1] != 2:
        return
    D = matrix(X, metric)
    mino = [int(i) for i in np.where(y == 1)[0]]
    count = {i: sum(y[j] == 1 for j in near(D, i, range(len(y)), k)) for i in mino}
    sel = [i for i in mino if count[i] >= int(k * 0.5)]
    total = sum(count[i] for i in sel)
    if sel and total == 0:
        rep.out.add((name, "the rule leaves a choice"))
        return
    rep.n += 1
    ok, res = rep.call(lambda: make(rep, name, settings(name, k, metric, int((y == 0).sum()), len(mino), 120), Even(120)).sample(X.copy(), y.copy()), what=desc, key=key)
    if not ok:
        return
    new = extended(rep, desc, key, X, y, np.asarray(res[0], float), np.asarray(res[1]))
    if new is None:
        return
    if len(sel) < 3 or np.linalg.eigvalsh(np.cov(X[sel].T, bias=True)).min() < 2e-3:
        if bool(len(new)) != bool(sel):
            rep.bad(f"{desc}: {len(new)} samples with {len(sel)} bases", what="bases", **key)
        return
    A = np.linalg.inv(np.cov(X[sel].T, bias=True))
    maha = lambda P: np.einsum("ij,jk,ik->i", P - X[sel].mean(0), A, P - X[sel].mean(0))
    alpha, got = maha(X[sel]), maha(new)
    for a in alpha:
        due = 120 * sum(count[i] for i, b in zip(sel, alpha) if abs(a - b) < 1e-6) / total
        n = int((np.abs(got - a) < 1e-6).sum())
        if len(new) != 120 or abs(n - due) > sum(abs(alpha - a) < 1e-6) + 1e-6:
            rep.bad(f"{desc}: {n} of {len(new)} samples at the distance {a:.4f} of a base, its share is {due:.3f}", what="ellipse", **key)
            return
    rep.out.add((name, k, len(sel)))


def check_neater(rep, name, X, y, k, metric, desc, key):
    """the samples of SMOTE and ADASYN play a game with their neighbours, those of the original samples being known, and get the label
    of the better strategy"""
    mino = [int(i) for i in np.where(y == 1)[0]]
    if k > len(mino) - 1:
        return
    D = matrix(X, metric)
    A = np.linalg.inv(np.cov(X, rowvar=False)) if metric == "cov" else np.eye(X.shape[1])
    mod = Model()
    for i in mino:
        for j in near(D, i, mino, k):
            seg(mod, X[i], X[j])
    for alpha, rounds in ((0.1, 3), (0.6, 12)):
        rep.n += 1
        prm = {**settings(name, k, metric, int((y == 0).sum()), len(mino), 12), "alpha": alpha, "h": rounds}
        ok, res = rep.call(lambda p=prm: make(rep, name, p, 5).sample(X.copy(), y.copy()), what=f"{desc} alpha {alpha}", key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        n = len(X)
        if len(Xs) <= n or not np.array_equal(Xs[:n], X) or not np.array_equal(ys[:n], y) or not membership(mod, Xs[n:]).any(0).all():
            rep.bad(f"{desc} alpha {alpha}: not the original samples followed by those of SMOTE and ADASYN", what="samples", **key)
            return
        diff = Xs[:, None] - Xs[None]
        dist = np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", diff, A, diff), 0))
        order = np.argsort(dist, axis=1)
        ranked = np.take_along_axis(dist, order, 1)[n:, :k + 2]
        if (np.diff(ranked, axis=1) < 1e-7).any():
            continue
        minority = np.concatenate([(y == 1).astype(float), np.full(len(Xs) - n, 0.5)])
        for _ in range(rounds):
            after = minority.copy()
            for i in range(n, len(Xs)):
                u = {0: 0.0, 1: 0.0}
                for j in order[i][1:k + 1]:
                    sim = min(alpha, 1 / dist[i, j])
                    u[1] += minority[j] + sim * (1 - minority[j])
                    u[0] += (1 - minority[j]) + sim * minority[j]
                a, b = minority[i] * (alpha + u[1]), (1 - minority[i]) * (alpha + u[0])
                after[i] = a / (a + b)
            minority = after
        sure = np.abs(minority - 0.5) > 1e-6
        if ((minority > 0.5) != (ys == 1))[sure].any():
            i = int(np.where(sure & ((minority > 0.5) != (ys == 1)))[0][0])
            rep.bad(f"{desc} alpha {alpha}: sample {Xs[i].tolist()} has label {ys[i]}, the probability of the minority is {minority[i]:.4f}", what="label", **key)
            return
        rep.out.add((name, k, alpha, int((ys[n:] == 1).sum()), len(ys) - n))


def check_asuwo(rep, name, X, y, k, metric, desc, key):
    """samples without neighbours of their class are dropped; minority clusters are merged unless a majority cluster is between them;
    clusters are weighted by the errors of a classifier, their members by the nearness of the majority"""
    D = matrix(X, metric)
    every = range(len(y))
    keep = [i for i in every if any(y[j] == y[i] for j in near(D, i, every, k))]
    mino, majo = [i for i in keep if y[i] == 1], [i for i in keep if y[i] == 0]
    if not mino or len(majo) < 3:
        return
    n_maj = 3
    groups = {i: [i] for i in range(len(majo))}
    for step, (a, b, _, _) in enumerate(linkage(X[majo], "ward")):
        if len(majo) - step <= n_maj:
            break
        groups[len(majo) + step] = groups.pop(int(a)) + groups.pop(int(b))
    lows = [[majo[i] for i in g] for g in groups.values()]
    limit = np.mean([np.median([D[i, j] for j in mino]) for i in mino]) * 1.2
    parts, link = {i: [i] for i in mino}, {(i, j): D[i, j] for i, j in itertools.combinations(mino, 2)}
    gap = {(i, c): min(D[i, j] for j in low) for i in mino for c, low in enumerate(lows)}
    while link and min(link.values()) <= limit:
        a, b = min(link, key=link.get)
        d = link[a, b]
        if any(gap[a, c] < d and gap[b, c] < d for c in range(len(lows))):
            link[a, b] = np.inf
            continue
        parts[a] = parts[a] + parts.pop(b)
        del link[a, b]
        for c in parts:
            if c != a:
                link[min(a, c), max(a, c)] = min(link[min(a, c), max(a, c)], link.pop((min(b, c), max(b, c))))
        for c in range(len(lows)):
            gap[a, c] = min(gap[a, c], gap[b, c])
    parts = list(parts.values())
    if any(len(p) > 5 for p in parts):  # the folds are random
        rep.out.add((name, "the rule leaves a choice"))
        return
    eps = []
    for p in parts:
        wrong = 0
        for i in p if len(p) > 1 else ():
            rest = [j for j in p if j != i]
            lda = LinearDiscriminantAnalysis().fit(X[majo + rest], [0] * len(majo) + [1] * len(rest))
            score = lda.decision_function(X[[i]])[0]
            if abs(score) < 1e-6:
                return
            wrong += score < 0
        eps.append(wrong / len(p) if len(p) > 1 else 1.0)
    eps = np.array(eps) if sum(eps) else np.ones(len(parts))
    near_maj = {i: 1 / min(D[i, j] for j in majo) for i in mino}
    mod = Model()
    for p, e in zip(parts, eps / eps.sum()):
        top = np.mean([near_maj[i] for i in p])
        w = {i: min(near_maj[i], top) for i in p}
        for i in p if e else ():
            js = near(D, i, p, k)
            if not js:
                seg(mod, X[i], X[i], share=e)
                mod.open.append(False)
            for r, j in enumerate(js):
                seg(mod, X[i], X[j], share=e * w[i] / sum(w.values()) / len(js))
                mod.open.append(r == k - 1)
    n_new = 240
    for tag, rng, ss in (("", Covering(), {}), (" weights", Stratified(n_new), {"ss_params": {**EVEN, "within_simplex_sampling": "random"}})):
        rep.n += 1
        prm = {**settings(name, k, metric, int((y == 0).sum()), int((y == 1).sum()), n_new), "n_clus_maj": n_maj, "c_thres": 1.2, **ss}
        ok, res = rep.call(lambda p=prm, r=rng: make(rep, name, p, r).sample(X.copy(), y.copy()), what=desc + tag, key=key)
        if not ok:
            return
        Xs, ys = np.asarray(res[0], float), np.asarray(res[1])
        if len(Xs) != len(keep) + n_new or not np.array_equal(Xs[:len(keep)], X[keep]) or not np.array_equal(ys[:len(keep)], y[keep]) or not (ys[len(keep):] == 1).all():
            rep.bad(f"{desc}: {len(Xs)} rows, not the {len(keep)} that are no noise and {n_new} new minority samples", what="noise", **key)
            return
        new = Xs[len(keep):]
        tab = membership(mod, new)
        moved = tab & np.array([(np.abs(new - a).max(1) > EPS * 10) | (np.abs(a - b).max() == 0) for a, b in mod.segs])
        idle = [i for i, o in enumerate(mod.open) if not o and not moved[i].any()]
        if not tab.any(0).all() or not tag and idle:
            rep.bad(f"{desc}: {int((~tab.any(0)).sum())} of {n_new} samples are off the pairs in the clusters {parts}, {len(idle)} pairs not used", what="clusters", **key)
            return
        if tag:
            for p, e in zip(parts, eps / eps.sum()):
                rows = [t for t, (a, _) in enumerate(mod.segs) if any(np.array_equal(a, X[i]) for i in p)]
                got = int(tab[rows].any(0).sum()) if rows else 0
                if abs(got - n_new * e) > 1 + 1e-6:
                    rep.bad(f"{desc}: {got} samples in the cluster {p}, its share is {n_new * e:.3f}", what="sizes", **key)
                    return
            for g in same_pairs(mod.segs):
                a, b = mod.segs[g[0]]
                if any(len(p) <= k and any(np.array_equal(a, X[i]) for i in p) for p in parts):
                    got, want = int(tab[g].any(0).sum()), n_new * sum(mod.share[i] for i in g)
                    if abs(got - want) > len(g) + 1 + 1e-6:
                        rep.bad(f"{desc}: {got} samples between {a.tolist()} and {b.tolist()}, its share is {want:.3f}", what="share", **key)
                        return
    rep.out.add((name, k, len(keep), len(parts), len(mod.segs)))


OTHER = {"NEATER": check_neater, "A_SUWO": check_asuwo, "LVQ_SMOTE": check_lvq, "AHC": check_ahc, "SUNDO": check_sundo, "Gazzah": check_gazzah, "Supervised_SMOTE": check_supervised, "SMOTE_RSB": check_rsb,
         "SMOTEWB": check_wb, "MDO": check_mdo, "SMOTE_Cosine": check_cosine, "DBSMOTE": check_dbsmote, "Lee": check_lee, "MSYN": check_msyn, "SL_graph_SMOTE": check_slgraph, "V_SYNTH": check_vsynth, "CE_SMOTE": check_ce, "NT_SMOTE": check_nt, "NRAS": check_nras, "CCR": check_ccr,
         "VIS_RST": check_vis, "RWO_sampling": check_spread, "ROSE": check_spread, "SYMPROD": check_symprod}


def run(task):
    rep = Report("rule")
    name, X = task["cls"], POINTS[task["pts"]]
    subsets = list(itertools.combinations(range(len(X)), task["m"]))[::task["skip"]]
    for s, sub in enumerate(subsets):
        if s % task["shards"] != task["shard"]:
            continue
        y = np.zeros(len(X), int)
        y[list(sub)] = 1
        for k in task["ks"] if name not in NO_K else [0]:
            if k > len(sub) - 1 and name in ("ADASYN", "ProWSyn"):
                continue
            for metric, flip in [(None, 0), (None, 1)] + ([("cov", 0)] if name not in NO_METRIC else []):
                rep.flip = flip
                desc = f"{name} {k} neighbours metric {metric}{' labels exchanged' if flip else ''} on {task['pts']} minority {list(sub)}"
                key = {"cls": name}
                if name == "ISMOTE":
                    check_ismote(rep, X, y, k, metric, desc, key)
                elif name in ("SMOTE_TomekLinks", "SMOTE_ENN"):
                    check_filtered(rep, name, X, y, k, metric, desc, key)
                elif name == "SPY":
                    check_spy(rep, X, y, k, metric, desc, key)
                elif name == "SMOTE_D":
                    check_smote_d(rep, X, y, k, metric, desc, key)
                elif name == "ProWSyn":
                    check_model(rep, name, X, y, k, metric, desc, key)
                    check_prowsyn(rep, X, y, k, metric, desc, key)
                elif name in OTHER:
                    OTHER[name](rep, name, X, y, k, metric, desc, key)
                elif name == "Stefanowski":
                    check_stefanowski(rep, X, y, metric, desc, key)
                else:
                    check_model(rep, name, X, y, k, metric, desc, key)
                if len(rep.viol) >= 5:
                    return rep.done()
    return rep.done()
