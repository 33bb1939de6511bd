"""P12: undersampling keeps the minority intact and balances the classes with distinct original majority rows."""
import itertools

import numpy as np

from vlib.report import Report
from vlib.rng import PATTERNS, ScriptedState

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 1500}
RULE = ("state = (class sizes, row order, labels, undersampler setting, random answers): each undersampler is run on all of them and "
        "the result compared with the selection model (all minority rows, n_min distinct majority rows, own labels; in the farthest "
        "mode the kept majority rows are the nearest to the generated samples)")
BOUNDS = {"quick": "n_min 1..7, n_maj n_min..10, 3 row orders, 5 label pairs, 3 seeds, 1 random deviation x 4 patterns, all subsets "
                   "answered by choice for n_maj<=6; histories of 2 calls",
          "thorough": "n_min 1..12, n_maj n_min..20, 3 row orders, 5 label pairs, 10 seeds, all subsets for n_maj<=9; histories of 3 calls"}
ASSUMPTIONS = ["rows are pairwise different, so that a returned row identifies its original",
               "classes of equal size: both classes are returned completely"]
LABELS = [(0, 1), (1, 0), (-1, 1), (5, 2), (0.0, 1.0)]
SPECS = [None] + [("smote_variants", n, {"random_state": 5}) for n in ("SMOTE", "ADASYN", "Borderline_SMOTE1", "ROSE")]


class SubsetState(np.random.RandomState):
    """answers the first selection without replacement with the given subset"""

    def __init__(self, answer):
        super().__init__(5)
        self.answer, self.used = answer, False

    def choice(self, a, size=None, replace=True, p=None):
        val = super().choice(a, size, replace, p)
        if replace or self.used or np.size(val) != len(self.answer):
            return val
        self.used = True
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return pool[list(self.answer)]

    def permutation(self, x):
        val = super().permutation(x)
        if self.used:
            return val
        self.used = True
        pool = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        rest = [i for i in range(len(pool)) if i not in self.answer]
        return pool[list(self.answer) + rest]


def settings():
    out = []
    for spec in SPECS:
        for mode in ("random", "farthest") if spec else (None,):
            out.append((spec, mode))
    return out


def tasks(tier):
    quick = tier == "quick"
    hi = (7, 10) if quick else (12, 20)
    out = []
    for s in range(len(settings())):
        for n_min in range(1, hi[0] + 1):
            out.append({"part": "grid", "s": s, "n_min": n_min, "n_maj": hi[1], "seeds": 3 if quick else 10})
            out.append({"part": "history", "s": s, "n_min": n_min, "depth": 2 if quick else 3})
        out.append({"part": "subsets", "s": s, "n_maj": 6 if quick else 9})
        out.append({"part": "forms", "s": s})
    return out


def dataset(n_min, n_maj, order, lab, salt=0, dup=False):
    rs = np.random.RandomState(1000 * n_min + 10 * n_maj + salt)
    n = n_min + n_maj
    X = rs.normal(size=(n, 2))
    X[:, 0] += np.arange(n) * 0.01
    mask = np.zeros(n, dtype=int)
    if order == 0:
        mask[:n_min] = 1
    elif order == 1:
        mask[-n_min:] = 1
    else:
        mask[rs.permutation(n)[:n_min]] = 1
    X[mask == 1] += 1.5
    y = np.array([lab[m] for m in mask])
    return X, y


def build(s, random_state):
    import smote_variants.undersampling as us
    spec, mode = settings()[s]
    if spec is None:
        return us.RandomUndersampling(random_state=random_state), None, None
    return us.OversamplingDrivenUndersampling(oversampler_specification=spec, mode=mode, random_state=random_state), spec, mode


def judge(rep, res, X, y, X0, y0, desc, key, kept_model=None):
    rep.n += 1
    try:
        Xr, yr = res
        Xr, yr = np.asarray(Xr), np.asarray(yr)
        rows = {tuple(r): i for i, r in enumerate(X0)}
        got = [rows.get(tuple(r), -1) for r in Xr]
        labels = list(yr)
    except Exception as exc:  # pylint: disable=broad-except
        rep.bad(f"{desc}: unusable result {type(exc).__name__}: {exc}", **key)
        return None
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        rep.bad(f"{desc}: the input was changed", what="input", **key)
        return None
    if len(labels) != len(got):
        rep.bad(f"{desc}: {len(got)} rows, {len(labels)} labels", what="length", **key)
        return None
    if -1 in got:
        rep.bad(f"{desc}: a returned row is not an original row", what="foreign", **key)
        return None
    if len(set(got)) != len(got):
        rep.bad(f"{desc}: a row is returned twice", what="twice", **key)
        return None
    if any(l != y0[g] for l, g in zip(labels, got)):
        rep.bad(f"{desc}: a row has another label", what="label", **key)
        return None
    vals, counts = np.unique(y0, return_counts=True)
    n_min = counts.min()
    for v, c in zip(vals, counts):
        have = sum(y0[g] == v for g in got)
        if have != n_min:
            rep.bad(f"{desc}: {have} rows of class {v} instead of {n_min} (class sizes {dict(zip(vals, counts))})", what="balance", **key)
            return None
    if kept_model is not None:
        dist = kept_model
        kept = [dist[g] for g in got if g in dist]
        left = [d for i, d in dist.items() if i not in got]
        if kept and left and max(kept) > min(left) + 1e-9 * (1 + max(kept)):
            rep.bad(f"{desc}: kept a majority row at distance {max(kept):.4g} and removed one at {min(left):.4g}", what="farthest", **key)
            return None
    rep.out.add((len(y0), tuple(got)))
    alias = np.shares_memory(Xr, X) or np.shares_memory(yr, y)
    if alias:
        rep.bad(f"{desc}: the result shares memory with the input", what="alias", **key)
    return tuple(got)


def farthest_model(spec, mode, X0, y0):
    if mode != "farthest":
        return None
    import smote_variants as sv
    vals, counts = np.unique(y0, return_counts=True)
    if counts[0] == counts[1]:
        return None
    maj = vals[np.argmax(counts)]
    Xs, _ = getattr(sv, spec[1])(**spec[2]).sample(X0.copy(), y0.copy())
    new = Xs[len(X0):]
    if not len(new):
        return None
    return {i: float(np.sqrt(((new - X0[i]) ** 2).sum(1)).min()) for i in range(len(X0)) if y0[i] == maj}


def run(task):
    rep = Report(task["part"])
    s = task["s"]
    key = dict(setting=str(settings()[s]))
    if task["part"] == "grid":
        for n_maj in range(task["n_min"], task["n_maj"] + 1):
            for order in range(3):
                for li, lab in enumerate(LABELS):
                    X0, y0 = dataset(task["n_min"], n_maj, order, lab)
                    states = [3 + k for k in range(task["seeds"] if li == 0 else 1)]
                    if li == 0 and order == 2:
                        states += [(0, p) for p in PATTERNS] + [(1, p) for p in PATTERNS]
                    for st in states:
                        def once():
                            rs = st if isinstance(st, int) else ScriptedState(5, st[0], st[1])
                            obj, _, _ = build(s, rs)
                            X, y = X0.copy(), y0.copy()
                            return obj.sample(X, y), X, y
                        desc = f"{settings()[s]} n_min={task['n_min']} n_maj={n_maj} order={order} labels={lab} rng={st}"
                        _, spec, mode = build(s, 1)
                        ok, res = rep.call(once, what=desc, key=key)
                        if not ok:
                            continue
                        first = judge(rep, res[0], res[1], res[2], X0, y0, desc, key, farthest_model(spec, mode, X0, y0))
                        ok, res = rep.call(once, what=desc, key=key)
                        if ok and first is not None:
                            second = judge(rep, res[0], res[1], res[2], X0, y0, desc, key)
                            if second is not None and second != first:
                                rep.bad(f"{desc}: another result with the same seed", what="seed", **key)
    elif task["part"] == "history":
        # one object used for several datasets in turn: every result obeys the law
        pool = [dataset(task["n_min"], task["n_min"] + d, o, lab, salt=7) for d, o, lab in ((3, 2, (0, 1)), (5, 0, (1, 0)), (0, 1, (4, 9)), (8, 2, (0, 1)))]
        for seq in itertools.product(range(len(pool)), repeat=task["depth"]):
            obj, _, _ = build(s, 11)
            for i in seq:
                X0, y0 = pool[i]
                X, y = X0.copy(), y0.copy()
                desc = f"{settings()[s]} history {seq} n_min={task['n_min']}"
                ok, res = rep.call(obj.sample, X, y, what=desc, key=key)
                if ok:
                    judge(rep, res, X, y, X0, y0, desc, key)
    elif task["part"] == "subsets":
        for n_maj in range(1, task["n_maj"] + 1):
            for n_min in range(1, n_maj + 1):
                X0, y0 = dataset(n_min, n_maj, 2, (0, 1))
                for comb in itertools.combinations(range(n_maj), n_min):
                    obj, _, _ = build(s, SubsetState(comb))
                    X, y = X0.copy(), y0.copy()
                    desc = f"{settings()[s]} n_min={n_min} n_maj={n_maj} selection={comb}"
                    ok, res = rep.call(obj.sample, X, y, what=desc, key=key)
                    if ok:
                        judge(rep, res, X, y, X0, y0, desc, key)
    else:
        for X0, y0, what in forms():
            obj, _, _ = build(s, 3)
            X, y = X0.copy(), y0.copy()
            if what == "fortran":
                X = np.asfortranarray(X)
            if what == "readonly":
                X.setflags(write=False)
                y.setflags(write=False)
            desc = f"{settings()[s]} data={what}"
            ok, res = rep.call(obj.sample, X, y, what=desc, key=key)
            if ok:
                judge(rep, res, X, y, X0, y0, desc, key)
    return rep.done()


def forms():
    X0, y0 = dataset(4, 9, 2, (0, 1))
    yield X0, y0, "fortran"
    yield X0, y0, "readonly"
    yield X0[:, :1], y0, "one feature"
    yield (X0 * 1e6), y0, "big values"
    yield (X0 * 1e-6), y0, "small values"
    yield np.arange(13 * 2).reshape(13, 2), y0, "integers"
    yield X0, np.array(["b", "a"])[y0], "text labels"
    yield X0, y0.astype(bool), "bool labels"
