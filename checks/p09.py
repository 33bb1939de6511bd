"""P09: interpolating oversamplers stay inside the region they interpolate, for every random draw."""
import numpy as np
from scipy.optimize import nnls

from vlib import data, sweep
from vlib.rng import PATTERNS, ScriptedState

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 900}
RULE = ("every minority row of every execution is checked against its method's region model (segment between two minority "
        "points; minority point to any point; minority hull; bounding box; for SMOTE additionally: the segment joins a sample "
        "and one of its k nearest minority neighbours under the metric). Space: " + sweep.RULE)
BOUNDS = {"quick": "1 parameter deviation; default settings on all placements of 4+3 and 5+2 points on 3 places; 1 RNG deviation among the first 10 calls x 4 patterns on 3 datasets",
          "thorough": "2 parameter deviations; default settings on all placements also of 5+3 points on 4 and 6+4 on 3 places; 1 RNG deviation among the first 60 calls x 4 patterns on 8 datasets, 2 RNG "
                      "deviations among the first 6 calls for the segment methods"}
ASSUMPTIONS = sweep.ASSUMPTIONS + ["settings with a Gaussian component leave the segment by design and are not held to the region",
                                   "with simplices of more than two vertices the region is the minority hull"]

SEGMENT = """A_SUWO ADASYN AND_SMOTE ANS ASMOBD Assembled_SMOTE Borderline_SMOTE1 CBSO CE_SMOTE cluster_SMOTE DBSMOTE
E_SMOTE Edge_Det_SMOTE G_SMOTE polynom_fit_SMOTE_mesh polynom_fit_SMOTE_bus kmeans_SMOTE Lee MOT2LD MSYN MWMOTE NEATER
NRSBoundary_SMOTE ProWSyn SDSMOTE SMOTE_D SMOTE_ENN SMOTE_IPF SMOTE_RSB SMOTE_TomekLinks SMOTE SN_SMOTE SOMO
Supervised_SMOTE SVM_balance TRIM_SMOTE SMOTEWB""".split()
HULL = "CURE_SMOTE distance_SMOTE polynom_fit_SMOTE_star Gazzah LLE_SMOTE NT_SMOTE SMMO".split()
ANY = "Borderline_SMOTE2 ISMOTE NDO_sampling NRAS OUPS SMOTE_FRST_2T VIS_RST".split()
BOX_MIN = "Random_SMOTE Selected_SMOTE SMOBD SMOTE_AMSR".split()
BOX_ALL = "LN_SMOTE Safe_Level_SMOTE MSMOTE DSMOTE SL_graph_SMOTE AHC".split()
REGION = {**{n: "segment" for n in SEGMENT}, **{n: "hull" for n in HULL}, **{n: "any" for n in ANY},
          **{n: "boxmin" for n in BOX_MIN}, **{n: "boxall" for n in BOX_ALL}}
DSETS = ["gen", "sep", "one_d", "const", "line", "m3", "bal2", "big", "hi", "lattice", "cross", "dup2", "sorted", "wide",
         "outlier", "enough", "med"]


def seg_dist(P, A, B):
    """smallest distance of each point to the segments A[i]-B[j] (all pairs)"""
    out = np.full(len(P), np.inf)
    for a in A:
        d = B - a
        dd = np.sum(d * d, axis=1)
        for i, p in enumerate(P):
            t = np.where(dd > 0, np.clip((d @ (p - a)) / np.where(dd > 0, dd, 1), 0, 1), 0)
            out[i] = min(out[i], np.sqrt(np.min(np.sum((a + t[:, None] * d - p) ** 2, axis=1))))
    return out


def hull_dist(P, V):
    scale = max(1.0, np.abs(V).max())
    A = np.vstack([V.T / scale, np.ones(len(V)) * 10])
    return np.array([nnls(A, np.concatenate([p / scale, [10.0]]))[1] * scale for p in P])


def box_dist(P, V):
    return np.max(np.maximum(np.maximum(V.min(0) - P, P - V.max(0)), 0), axis=1)


def neighbours(M, k, metric, X, y):
    """for each minority row its k nearest other minority rows (ties included)"""
    if metric == "cov":
        cov = np.atleast_2d(np.cov(X, rowvar=False))
        inv = np.linalg.inv(cov)
        diff = M[:, None] - M[None]
        D = np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", diff, inv, diff), 0))
    elif metric == "manhattan":
        D = np.abs(M[:, None] - M[None]).sum(-1)
    else:
        D = np.sqrt(((M[:, None] - M[None]) ** 2).sum(-1))
    ok = []
    for i in range(len(M)):
        order = np.sort(np.delete(D[i], i))
        lim = order[min(k, len(order)) - 1] * (1 + 1e-9) + 1e-12
        ok.append([j for j in range(len(M)) if D[i, j] <= lim])
    return ok


def judge(name, params, dsname, obj, X, y, tag):
    bad = sweep.Bad(name, params, dsname, tag)
    ss = params.get("ss_params") or {}
    if ss.get("gaussian_component"):
        return [], "gaussian"
    if "gaussian_component" in params and params["gaussian_component"]:
        return [], "gaussian"
    try:
        Xs, ys = obj.sample(X.copy(), y.copy())
        base = np.asarray(obj.preprocessing_transform(X.copy()), float)
    except Exception:  # pylint: disable=broad-except
        return [], "error"
    Xs, ys = np.asarray(Xs, float), np.asarray(ys)
    region = REGION[name]
    n_dim = obj.get_params().get("ss_params", None) or {}
    n_dim = n_dim.get("n_dim", 2) if isinstance(n_dim, dict) else 2
    if n_dim > 2 and region in ("segment",):
        region = "hull"
    elif n_dim > 2 and region != "boxall":
        region = "hullall"
    minority = 1
    new = Xs[ys == minority]
    if new.shape[1:] != base.shape[1:] or not np.all(np.isfinite(new)):
        return [], "shape"
    M = base[y == minority]
    # original rows are trivially inside
    if len(new):
        known = base if name == "SVM_balance" else M  # SVM_balance relabels rows
        keep = np.array([not np.any(np.all(p == known, axis=1)) for p in new])
        new = new[keep]
    sig = data.digest(Xs, ys)
    if not len(new) or not len(M):
        return [], sig
    tol = 1e-6 * max(1.0, float(np.abs(base).max()))
    if region == "segment":
        dist = seg_dist(new, M, M)
    elif region == "any":
        dist = seg_dist(new, M, base)
    elif region == "hull":
        dist = hull_dist(new, M)
    elif region == "hullall":
        dist = hull_dist(new, base)
    elif region == "boxmin":
        dist = box_dist(new, M)
    else:
        dist = box_dist(new, base)
    if np.any(dist > tol):
        i = int(np.argmax(dist))
        bad("region", f"{int(np.sum(dist > tol))} generated points leave the {region} region, worst {new[i].tolist()} by {dist[i]:.3g}")
    elif name == "SMOTE" and region == "segment":
        prm = obj.get_params()
        nnp = prm.get("nn_params") or {}
        metric = nnp.get("metric_learning_method") if nnp.get("metric") == "precomputed" else nnp.get("metric", "minkowski")
        if metric in ("cov", "id", "minkowski", "euclidean", "manhattan"):
            try:
                nb = neighbours(M, prm["n_neighbors"], metric, X, y)
            except np.linalg.LinAlgError:
                return bad.viol, sig
            for p in new:
                best = min(seg_dist(p[None], M[i:i + 1], M[nb[i]])[0] for i in range(len(M)) if nb[i])
                if best > tol:
                    bad("neighbour", f"{p.tolist()} does not lie between a sample and one of its {prm['n_neighbors']} nearest neighbours")
                    break
    return bad.viol, sig


def tasks(tier):
    out = []
    quick = tier == "quick"
    for name in data.oversampler_names(1.0):
        if name not in REGION:
            continue
        devs = data.deviations(name, (0.5, 2.0))
        if name == "SMOTE":
            devs += [{"n_neighbors": k} for k in (1, 2, 3, 4)] + [{"nn_params": {"metric": "manhattan"}, "n_neighbors": 2},
                                                                {"nn_params": {"metric": "precomputed", "metric_learning_method": "cov"}, "n_neighbors": 1}]
        for i, prm in enumerate(devs):
            use = DSETS if i == 0 or not quick or name == "SMOTE" else [d for d in DSETS if d in ("gen", "sep", "m3", "hi", "wide", "lattice", "outlier", "big")]
            if name in ("E_SMOTE", "SOMO", "LVQ_SMOTE", "SVM_balance", "DSMOTE") and quick:
                use = [d for d in use if d not in data.BIG][: 17 if i == 0 else 3]
            out.append({"mode": "cfg", "cls": name, "params": prm, "datasets": use})
        if name not in ("SMOTE_PSO", "E_SMOTE", "SMOTE_AMSR") or not quick:
            sets = data.tiny(tier)
            for i in range(0, len(sets), 140):
                out.append({"mode": "cfg", "cls": name, "params": {}, "datasets": sets[i:i + 140]})
        if not quick:
            for prm in data.pairs(name, 50):
                out.append({"mode": "cfg", "cls": name, "params": prm, "datasets": DSETS[:15]})
        for dsname in (["gen", "m3", "hi"] if quick else ["gen", "m3", "hi", "sep", "lattice", "one_d", "outlier", "wide"]):
            n_pos = 10 if quick else 60
            if name in ("E_SMOTE", "SVM_balance") and quick:
                n_pos = 5
            out.append({"mode": "rng", "cls": name, "dataset": dsname, "n_pos": n_pos})
        if not quick and REGION[name] == "segment":
            out.append({"mode": "rng2", "cls": name, "dataset": "gen", "n_pos": 6})
    return out


def run(task):
    if task["mode"] != "rng2":
        return sweep.explore(task, judge)
    # two deviating answers
    name = task["cls"]
    X, y = data.DS[task["dataset"]]
    viol, sigs, n, steps = [], [], 0, 0
    for p1 in range(task["n_pos"]):
        for p2 in range(p1 + 1, task["n_pos"]):
            for a in PATTERNS[:2]:
                for b in PATTERNS[:2]:
                    st = TwoState(p1, a, p2, b)
                    v, sig = judge(name, {}, task["dataset"], data.make(name, {}, st), X, y, f"rng@{p1}:{a},{p2}:{b}")
                    viol += v
                    sigs.append(f"{name}/{sig}")
                    n += 1
                    steps += st.calls + 2
    return {"n": n, "t": steps, "out": sigs, "v": viol}


class TwoState(ScriptedState):
    """two deviating positions"""

    def __init__(self, p1, a, p2, b):
        super().__init__(5)
        self.script = {p1: a, p2: b}

    def _hit(self):
        self.calls += 1
        if self.calls - 1 in self.script:
            self.pat = self.script[self.calls - 1]
            return True
        return False
