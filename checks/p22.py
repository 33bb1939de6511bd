"""P22: the combined classifiers behave like oversample-then-fit, for every sequence of operations on them."""
import copy
import itertools

import numpy as np

from vlib import evalref
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 3000}
RULE = ("all operation sequences up to a depth over {fit on two datasets, change oversampler, change classifier, sklearn clone, deep copy, switch back to "
        "the original} are executed; after every step all live objects' predictions and parameters are compared with a model that oversamples, fits and transforms plainly")
BOUNDS = {"quick": "sequences of length 4 (5 for one labeling) over 8 operations, 3 labelings; 9 oversamplers x 4 classifiers x 4 labelings fitted twice; cross-validation and grid "
                   "search; MLP wrapper: all parameter combinations of a small grid x 1-9 features, operation sequences of length 4",
          "thorough": "sequences of length 6; every oversampler of up to 0.5 s; MLP sequences of length 5"}
ASSUMPTIONS = ["oversamplers and classifiers are seeded with integers"]

OV = {"S": ("smote_variants", "SMOTE", {"random_state": 5}), "P": ("smote_variants", "SMOTE", {"random_state": 6, "proportion": 0.5}),
      "I": ("smote_variants", "ISOMAP_Hybrid", {"random_state": 5, "n_neighbors": 3}), "N": ("smote_variants", "NoSMOTE", {"random_state": 5}),
      "D": ("smote_variants", "SMOTE_ENN", {"random_state": 5}), "E": ("smote_variants", "E_SMOTE", {"random_state": 5, "min_features": 1}),
      "B": ("smote_variants", "Borderline_SMOTE1", {"random_state": 5}), "A": ("smote_variants", "ADASYN", {"random_state": 5}),
      "G": ("smote_variants", "ADG", {"random_state": 5})}
CL = {"k": ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3}), "t": ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5, "max_depth": 3}),
      "n": ("sklearn.naive_bayes", "GaussianNB", {}), "l": ("sklearn.linear_model", "LogisticRegression", {})}
LABELS = [(0, 1), (1, 0), (-3, 7), (2, 1)]
OPS = ["fit1", "fit2", "over:I", "over:S", "clf:t", "clone", "deepcopy", "back"]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for lab in range(len(LABELS) if not quick else 3):
        for first in OPS:
            for second in OPS:
                out.append({"part": "sequences", "first": [first, second], "depth": (5 if lab == 2 else 4) if quick else 6, "lab": lab})
    for o in "EGSPINDBA":
        out.insert(0, {"part": "fits", "over": list(OV[o])})
    if not quick:
        from vlib import data
        for name in data.oversampler_names(0.5):
            out.append({"part": "fits", "over": ["smote_variants", name, {"random_state": 5}]})
    out.append({"part": "sklearn"})
    for act in ("relu", "tanh"):
        out.append({"part": "mlp", "activation": act})
    out.append({"part": "mlpseq", "depth": 4 if quick else 5})
    return out


def dataset(which, lab, d=3):
    ds = evalref.make_dataset("d", *((11, 6, d, 3) if which == 1 else (9, 7, d, 8)))
    maj, mino = LABELS[lab]
    return ds["data"], np.where(ds["target"] == 1, mino, maj)


_MODEL = {}


def model(over, clf, which, lab, probe, d=3):
    """labels and probabilities of the plain pipeline"""
    key = evalref.canon([over, clf, which, lab, d])
    if key not in _MODEL:
        X, y = dataset(which, lab, d)
        o = evalref.build(over)
        Xs, ys = o.sample(X.copy(), y.copy())
        c = evalref.build(clf).fit(Xs, ys)
        P = o.preprocessing_transform(probe)
        _MODEL[key] = (c.predict(P), c.predict_proba(P), c.classes_)
    return _MODEL[key]


def probes(d=3):
    return np.random.RandomState(11).normal(size=(13, d)) * np.arange(1, d + 1) * 3


def check(rep, obj, over, clf, which, lab, desc, d=3):
    """True when the fitted object predicts as the model does"""
    P = probes(d)
    want = model(over, clf, which, lab, P, d)
    keep = P.copy()
    ok, got = rep.call(lambda: (obj.predict(P), obj.predict_proba(P), obj.classes_), what=desc)
    if not ok:
        return False
    for g, w, name in zip(got, want, ("labels", "probabilities", "classes")):
        g = np.asarray(g)
        if g.shape != w.shape or not (np.array_equal(g, w) if name != "probabilities" else np.allclose(g, w, atol=1e-9)):
            rep.bad(f"{desc}: {name} {g.tolist()[:6]} instead of {w.tolist()[:6]}", what=name)
            return False
    if not np.array_equal(P, keep):
        rep.bad(f"{desc}: the inputs of the prediction were changed", what="input")
        return False
    return True


def run(task):
    rep = Report(task["part"])
    globals()["do_" + task["part"]](rep, task)
    return rep.done()


class State:
    """an object with what the model knows about it"""

    def __init__(self, obj, over, clf, fitted):
        self.obj, self.over, self.clf, self.fitted = obj, over, clf, fitted


def apply(states, cur, op, lab):
    """performs op on states[cur]; returns the index of the current object afterwards"""
    from sklearn.base import clone
    st = states[cur]
    if op.startswith("fit"):
        which = int(op[3])
        X, y = dataset(which, lab)
        res = st.obj.fit(X, y)
        if res is not st.obj:
            raise AssertionError("fit does not return the object")
        st.fitted = (st.over, st.clf, which)
    elif op.startswith("over:"):
        st.obj.set_params(oversampler=OV[op[5:]])
        st.over, st.fitted = op[5:], None
    elif op.startswith("clf:"):
        st.obj.set_params(classifier=CL[op[4:]])
        st.clf, st.fitted = op[4:], None
    elif op == "clone":
        states.append(State(clone(st.obj), st.over, st.clf, None))
        return len(states) - 1
    elif op == "deepcopy":
        states.append(State(copy.deepcopy(st.obj), st.over, st.clf, st.fitted))
        return len(states) - 1
    elif op == "back":
        return 0
    return cur


def do_sequences(rep, task):
    from smote_variants.classifiers import OversamplingClassifier
    lab = task["lab"]
    for rest in itertools.product(OPS, repeat=task["depth"] - 2):
        ops = task["first"] + list(rest)
        if not any(o.startswith("fit") for o in ops):
            continue
        rep.n += 1
        ok, obj = rep.call(OversamplingClassifier, OV["S"], CL["k"], what="construction")
        if not ok:
            return
        states, cur = [State(obj, "S", "k", None)], 0
        for i, op in enumerate(ops):
            rep.t += 1
            ok, nxt = rep.call(apply, states, cur, op, lab, what=f"{ops[: i + 1]}")
            if not ok:
                return
            cur = nxt
        # every live object, not only the last used one
        for k, st in enumerate(states):
            par = st.obj.get_params()
            if tuple(par["oversampler"]) != OV[st.over] or tuple(par["classifier"]) != CL[st.clf]:
                rep.bad(f"{ops}: object {k} reports {par}", what="params")
                return
            if st.fitted is not None:
                o, c, which = st.fitted
                if not check(rep, st.obj, OV[o], CL[c], which, lab, f"labels {LABELS[lab]}, {ops}, object {k}"):
                    return
        rep.out.add(str([(s.over, s.clf, s.fitted) for s in states]))


def do_fits(rep, task):
    from smote_variants.classifiers import OversamplingClassifier
    over = tuple(task["over"])
    for c in CL:
        for lab in range(len(LABELS)):
            for seq in ((1,), (1, 1), (2, 1), (1, 2, 1)):
                rep.n += 1
                obj = OversamplingClassifier(over, CL[c])
                for which in seq:
                    X, y = dataset(which, lab)
                    a, b = X.copy(), y.copy()
                    ok, _ = rep.call(obj.fit, X, y, what=f"{over[1]} {c} fit")
                    if not ok:
                        return
                    if not (np.array_equal(a, X) and np.array_equal(b, y)):
                        rep.bad(f"{over[1]} {c}: fitting changed its input", what="input")
                        return
                if not check(rep, obj, over, CL[c], seq[-1], lab, f"{over[1]} {CL[c][1]} labels {LABELS[lab]} fitted on {seq}"):
                    return
                rep.out.add((over[1], c, lab, seq))


def do_sklearn(rep, _task):
    """the object inside scikit-learn's own machinery"""
    from sklearn.model_selection import GridSearchCV, StratifiedKFold, cross_val_predict
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from smote_variants.classifiers import OversamplingClassifier
    for o, c, lab in itertools.product("SIPD", "ktn", range(3)):
        X, y = dataset(1, lab)
        folds = list(StratifiedKFold(3).split(X, y))
        want = np.empty(len(y), dtype=y.dtype)
        acc = {}
        for tr, te in folds:
            sc = StandardScaler().fit(X[tr])
            ob = evalref.build(OV[o])
            Xs, ys = ob.sample(sc.transform(X[tr]), y[tr])
            want[te] = evalref.build(CL[c]).fit(Xs, ys).predict(ob.preprocessing_transform(sc.transform(X[te])))
            for alt in "SP":
                ob = evalref.build(OV[alt])
                Xs, ys = ob.sample(X[tr], y[tr])
                acc.setdefault(alt, []).append(np.mean(evalref.build(CL[c]).fit(Xs, ys).predict(X[te]) == y[te]))
        rep.n += 1
        ok, got = rep.call(lambda: cross_val_predict(make_pipeline(StandardScaler(), OversamplingClassifier(OV[o], CL[c])), X, y, cv=folds), what=f"cross-validation {o}{c}")
        if ok and not np.array_equal(got, want):
            rep.bad(f"cross-validated {OV[o][1]} {CL[c][1]}: {got.tolist()} instead of {want.tolist()}", what="cross-validation")
        rep.n += 1
        ok, gs = rep.call(lambda: GridSearchCV(OversamplingClassifier(OV["N"], CL[c]), {"oversampler": [OV["S"], OV["P"]]}, cv=folds).fit(X, y), what=f"grid search {c}")
        if ok:
            got = list(gs.cv_results_["mean_test_score"])
            if not np.allclose(got, [np.mean(acc["S"]), np.mean(acc["P"])]):
                rep.bad(f"grid search {CL[c][1]}: {got} instead of {[np.mean(acc['S']), np.mean(acc['P'])]}", what="grid search")
        rep.out.add((o, c, lab))


# -- the MLP wrapper -----------------------------------------------------------------------------------------------------
def mlp_model(par, X, y, P):
    from sklearn.neural_network import MLPClassifier
    d = X.shape[1]
    frac = par["hidden_layer_fraction"]
    size = max(1, int(np.sqrt(d)) if frac == "sqrt" else int(d * frac))
    m = MLPClassifier(hidden_layer_sizes=(size,), max_iter=par["max_iter"], activation=par["activation"], alpha=par["alpha"],
                      learning_rate=par["learning_rate"], random_state=par["random_state"]).fit(X, y)
    return m.predict(P), m.predict_proba(P)


def mlp_check(rep, obj, par, which, lab, d, desc):
    X, y = dataset(which, lab, d)
    P = probes(d)
    want = mlp_model(par, X, y, P)
    ok, got = rep.call(lambda: (obj.predict(P), obj.predict_proba(P)), what=desc)
    if not ok:
        return False
    if not np.array_equal(got[0], want[0]) or not np.allclose(got[1], want[1], atol=1e-9):
        rep.bad(f"{desc}: {np.round(got[1][:3], 3).tolist()} instead of {np.round(want[1][:3], 3).tolist()}", what="mlp")
        return False
    return True


def do_mlp(rep, task):
    from smote_variants.classifiers import MLPClassifierWrapper
    for d in range(1, 10):
        for frac in ("sqrt", 0.1, 0.5, 1.0, 2.0):
            for alpha, rate, it, seed in ((1e-4, "adaptive", 8, 5), (1.0, "constant", 3, 6)):
                par = {"max_iter": it, "activation": task["activation"], "hidden_layer_fraction": frac, "alpha": alpha, "learning_rate": rate, "random_state": seed}
                X, y = dataset(1, 0, d)
                rep.n += 1
                ok, obj = rep.call(lambda: MLPClassifierWrapper(**par).fit(X, y), what=f"MLP {par}")
                if not ok:
                    return
                if obj.get_params() != par or obj.copy().get_params() != par:
                    rep.bad(f"MLP {par}: reports {obj.get_params()}, its copy {obj.copy().get_params()}", what="mlp params")
                    return
                if not mlp_check(rep, obj, par, 1, 0, d, f"MLP {par} with {d} features"):
                    return
                rep.out.add((d, frac, alpha))


def do_mlpseq(rep, task):
    from smote_variants.classifiers import MLPClassifierWrapper
    par = {"max_iter": 6, "activation": "relu", "hidden_layer_fraction": 0.7, "alpha": 0.01, "learning_rate": "constant", "random_state": 5}
    for ops in itertools.product(("fit1", "fit2", "copy", "back", "fit3"), repeat=task["depth"]):
        rep.n += 1
        objs = [[MLPClassifierWrapper(**par), None]]
        cur = 0
        for op in ops:
            rep.t += 1
            if op.startswith("fit"):
                which, d = {"fit1": (1, 3), "fit2": (2, 3), "fit3": (1, 6)}[op]
                X, y = dataset(which, 2, d)
                ok, _ = rep.call(objs[cur][0].fit, X, y, what=f"MLP {ops}")
                if not ok:
                    return
                objs[cur][1] = (which, d)
            elif op == "copy":
                ok, new = rep.call(objs[cur][0].copy, what=f"MLP {ops}")
                if not ok:
                    return
                objs.append([new, None])
                cur = len(objs) - 1
            else:
                cur = 0
        for k, (obj, fitted) in enumerate(objs):
            if obj.get_params() != par:
                rep.bad(f"MLP {ops}: object {k} reports {obj.get_params()}", what="mlp params")
                return
            if fitted and not mlp_check(rep, obj, par, fitted[0], 2, fitted[1], f"MLP {ops} object {k}"):
                return
        rep.out.add(str([f for _, f in objs]))
