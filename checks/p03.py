"""P03: extending oversamplers return the original data followed by minority rows."""
import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 900}
RULE, BOUNDS, ASSUMPTIONS = sweep.RULE, sweep.BOUNDS, sweep.ASSUMPTIONS

EXTENDING = """ADASYN ADG ADOMS AND_SMOTE ANS ASMOBD Assembled_SMOTE Borderline_SMOTE1 Borderline_SMOTE2 CBSO CCR CE_SMOTE
cluster_SMOTE CURE_SMOTE DBSMOTE DEAGO distance_SMOTE Edge_Det_SMOTE G_SMOTE GASMOTE Gaussian_SMOTE
polynom_fit_SMOTE_star polynom_fit_SMOTE_bus polynom_fit_SMOTE_poly polynom_fit_SMOTE_mesh KernelADASYN kmeans_SMOTE Lee
LLE_SMOTE LN_SMOTE LVQ_SMOTE MCT MDO MSYN MWMOTE NDO_sampling NRSBoundary_SMOTE NT_SMOTE OUPS PDFOS ProWSyn Random_SMOTE
ROSE RWO_sampling Safe_Level_SMOTE SDSMOTE Selected_SMOTE SL_graph_SMOTE SMMO SMOBD SMOTE_Cosine SMOTE_D SMOTE_OUT
SMOTE_PSO SMOTE_PSOBAT SMOTE_RSB SMOTE SN_SMOTE SOI_CJ SOMO SSO Supervised_SMOTE TRIM_SMOTE V_SYNTH MSMOTE SMOTE_AMSR
SMOTEWB""".split()


def judge(name, params, dsname, obj, X, y, tag):
    bad = sweep.Bad(name, params, dsname, tag)
    vals, cnt = np.unique(y, return_counts=True)
    try:
        Xs, ys = obj.sample(X.copy(), y.copy())
    except Exception:  # pylint: disable=broad-except
        return [], "error"
    Xs, ys = np.asarray(Xs), np.asarray(ys)
    n = len(X)
    if len(Xs) < n or len(ys) < n:
        bad("lost", f"{len(Xs)} rows returned for {n}")
    elif Xs.shape[1:] != X.shape[1:] or not np.array_equal(Xs[:n], X):
        diff = np.where(np.any(Xs[:n] != X, axis=1))[0].tolist() if Xs.shape[1:] == X.shape[1:] else "shape"
        bad("rows", f"original rows changed: {diff}")
    elif not np.array_equal(ys[:n], y):
        bad("relabel", f"original labels changed at {np.where(ys[:n] != y)[0].tolist()}")
    else:
        # on equally large classes either may count as the minority
        allowed = {int(v) for v, c in zip(vals, cnt) if c == min(cnt)}
        new = set(np.unique(ys[n:]).tolist())
        if len(new) > 1 or not new <= allowed:
            bad("newlabel", f"new rows carry labels {sorted(new)}, minority is {sorted(allowed)}")
    return bad.viol, data.digest(Xs, ys)


def tasks(tier):
    return sweep.space(tier, names=set(EXTENDING))


def run(task):
    return sweep.explore(task, judge)
