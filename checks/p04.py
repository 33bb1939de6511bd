"""P04: the number of generated samples is the one the proportion asks for."""
import numpy as np

from vlib import data, sweep

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 900}
RULE = ("execution = one sample() call of a fresh object; space: (a) oversampler x all class size pairs of a grid x all "
        "proportions of a grid, (b) " + sweep.RULE)
BOUNDS = {"quick": "minority 1..8, class size difference {0,1,2,3,5,9}, 9 proportions in 0..2; sweep: " + sweep.BOUNDS["quick"],
          "thorough": "minority 1..12, difference 0..10, 21 proportions in 0..2, 3 data families; sweep: " + sweep.BOUNDS["thorough"]}
ASSUMPTIONS = sweep.ASSUMPTIONS + ["methods whose published scheme rounds per neighbourhood (SMOTE_D, CCR, ADG, SSO, star/bus "
                                   "topologies, NDO, ...) or removes samples are only held to the zero law"]

# exactly int(proportion * (n_maj - n_min)) as soon as there are three minority samples in general position
EXACT = """ADOMS Assembled_SMOTE CBSO DBSMOTE distance_SMOTE E_SMOTE Edge_Det_SMOTE G_SMOTE Gaussian_SMOTE
polynom_fit_SMOTE_poly polynom_fit_SMOTE_mesh Lee LLE_SMOTE LVQ_SMOTE MCT MSYN NT_SMOTE OUPS PDFOS ProWSyn Random_SMOTE ROSE
RWO_sampling Safe_Level_SMOTE SDSMOTE Selected_SMOTE SMOTE_Cosine SMOTE_OUT SMOTE SN_SMOTE Supervised_SMOTE
TRIM_SMOTE V_SYNTH SMOTE_AMSR SMOTEWB""".split()
# exactly that, or the data unchanged where the method finds no usable neighbourhood
OR_NONE = """AND_SMOTE ANS ASMOBD Borderline_SMOTE1 Borderline_SMOTE2 CE_SMOTE cluster_SMOTE CURE_SMOTE KernelADASYN kmeans_SMOTE
LN_SMOTE MDO MWMOTE NRAS NRSBoundary_SMOTE SL_graph_SMOTE SMMO SMOBD SOI_CJ SOMO SYMPROD MSMOTE""".split()
# datasets on which the or-none methods do generate
WORKS = {n: ("gen", "wide", "enough", "large") for n in """AND_SMOTE ANS ASMOBD Borderline_SMOTE1 Borderline_SMOTE2
cluster_SMOTE CURE_SMOTE KernelADASYN kmeans_SMOTE LN_SMOTE MDO MWMOTE NRSBoundary_SMOTE SL_graph_SMOTE SMMO SOMO MSMOTE""".split()}
NAMES = set(EXACT) | set(OR_NONE)
PROPS = (0.0, 0.1, 0.3, 0.5, 0.75, 1.0, 1.5, 1.7, 2.0)


def judge_counts(name, prop, dsname, X, y, Xs, ys, bad, strict):
    n0, n1 = int(np.sum(y == 0)), int(np.sum(y == 1))
    m0, m1 = int(np.sum(ys == 0)), int(np.sum(ys == 1))
    want = int(prop * (n0 - n1)) if n0 > n1 else 0
    got = m1 - n1
    if want == 0:
        if len(ys) > len(y):
            bad("zero", f"{len(ys) - len(y)} samples added though none are requested (sizes {n0}/{n1}, proportion {prop})")
        return
    if name not in NAMES:
        return
    if got == want:
        return
    if got == 0 and m0 == n0 and not strict:
        return
    bad("count", f"{got} samples added, {want} requested (sizes {n0}/{n1}, proportion {prop})")


def judge(name, params, dsname, obj, X, y, tag):
    bad = sweep.Bad(name, params, dsname, tag)
    try:
        Xs, ys = obj.sample(X.copy(), y.copy())
    except Exception:  # pylint: disable=broad-except
        return [], "error"
    if "proportion" not in obj.get_params():
        return [], "no proportion"
    prop = params.get("proportion", obj.get_params()["proportion"])
    plain = set(params) <= {"proportion"}
    strict = plain and (dsname in WORKS.get(name, ()) or name in EXACT and dsname in ("gen", "sep", "big", "hi", "sorted", "wide", "med", "large", "enough", "minfirst"))
    judge_counts(name, prop, dsname, X, y, np.asarray(Xs), np.asarray(ys), bad, strict)
    return bad.viol, f"{dsname}/{sorted(data.counts(ys).items())}"


def tasks(tier):
    out = []
    for name in data.oversampler_names(1.0):
        if "proportion" not in data.ctor_params(data.cls(name)):
            continue
        slowish = name in ("GASMOTE", "SOMO", "CE_SMOTE", "SMOTE_IPF", "LVQ_SMOTE", "E_SMOTE", "SVM_balance")
        if tier == "quick":
            mins, diffs, props, fams = list(range(1, 9)), [0, 1, 2, 3, 5, 9], list(PROPS), [1]
            if slowish:
                mins, props = [1, 2, 3, 5], [0.0, 0.3, 1.0, 1.7]
        else:
            mins, diffs, props, fams = list(range(1, 13)), list(range(11)), [i / 10 for i in range(21)], [1, 2, 3]
            if slowish:
                mins, props, fams = [1, 2, 3, 5, 8], list(PROPS), [1]
        for fam in fams:
            for n_min in mins:
                out.append({"mode": "grid", "cls": name, "n_min": n_min, "diffs": diffs, "props": props, "family": fam})
    out += sweep.space(tier, names=None if tier == "thorough" else NAMES, props=(0.0, 0.5, 2.0), layouts=False, slow=1.0, tiny=False)
    return out


def run(task):
    if task["mode"] != "grid":
        return sweep.explore(task, judge)
    name, n_min = task["cls"], task["n_min"]
    viol, sigs, n = [], [], 0
    dim, off = {1: (2, 1.0), 2: (3, 0.5), 3: (1, 0.5)}[task["family"]]
    for diff in task["diffs"]:
        X, y = data._mk(n_min + diff, n_min, dim, 100 * task["family"] + n_min * 10 + diff, off)
        for prop in task["props"]:
            dsname = f"{n_min + diff}+{n_min}/f{task['family']}"
            bad = sweep.Bad(name, {"proportion": prop}, dsname, "")
            n += 1
            try:
                Xs, ys = data.make(name, {"proportion": prop}).sample(X.copy(), y.copy())
            except Exception:  # pylint: disable=broad-except
                continue
            judge_counts(name, prop, dsname, X, y, np.asarray(Xs), np.asarray(ys), bad,
                         strict=name in EXACT and n_min >= 3 and dim > 1)
            viol += bad.viol
            sigs.append(f"{name}/{dsname}/{len(ys)}")
    return {"n": n, "t": 3 * n, "out": sigs, "v": viol}
