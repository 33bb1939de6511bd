"""The alphabet: tiny datasets, label encodings, oversampler settings."""
import hashlib
import inspect
import itertools

import numpy as np


def _mk(n_maj, n_min, d, seed, off=1.0, kind="gen", shuffle=True):
    rs = np.random.RandomState(seed)
    X = np.vstack([rs.normal(size=(n_maj, d)), rs.normal(size=(n_min, d)) + off])
    y = np.array([0] * n_maj + [1] * n_min)
    if kind == "dupmin":
        X[n_maj:] = X[n_maj]
    if kind == "dupmaj":
        X[:n_maj] = X[0]
    if kind == "const":
        X[:, 0] = 1.0
    if kind == "line":
        X = np.outer(X[:, 0], np.ones(d))
    if kind == "dup2":
        X[n_maj + 1::2] = X[n_maj]
    if kind == "cross":  # the same point in both classes
        X[n_maj] = X[0]
        X[n_maj + 1] = X[1]
    if kind == "round":
        X = np.round(X)
    if shuffle:
        p = rs.permutation(len(X))
        X, y = X[p], y[p]
    return np.ascontiguousarray(X), y


def datasets():
    """name -> (X, y); label 1 is the smaller class (or as large as class 0)"""
    ds = {
        "gen": _mk(12, 6, 2, 3), "sep": _mk(12, 5, 3, 4, 6.0), "one_d": _mk(9, 5, 1, 5),
        "dupmin": _mk(10, 5, 2, 6, kind="dupmin"), "const": _mk(11, 5, 3, 7, kind="const"),
        "line": _mk(10, 5, 2, 8, kind="line"), "dup2": _mk(12, 6, 2, 9, kind="dup2"),
        "m1": _mk(6, 1, 2, 1), "m2": _mk(6, 2, 2, 1), "m3": _mk(7, 3, 2, 1), "bal": _mk(6, 6, 2, 1),
        "bal2": _mk(7, 6, 2, 2), "big": _mk(24, 4, 2, 11), "hi": _mk(14, 7, 4, 12, 0.3),
        "lattice": _mk(12, 6, 2, 13, kind="round"), "cross": _mk(12, 6, 2, 14, kind="cross"),
        "dupmaj": _mk(9, 5, 2, 15, kind="dupmaj"), "sorted": _mk(13, 6, 2, 16, 0.8, shuffle=False),
        "wide": _mk(20, 9, 3, 17, 0.5),
        "enough": _mk(40, 16, 2, 18, 1.0),
    }
    X, y = _mk(12, 6, 2, 19)
    ds["minfirst"] = (np.ascontiguousarray(X[np.argsort(-y, kind="stable")]), -np.sort(-y))
    X, y = _mk(12, 6, 2, 20)
    ds["scaled"] = (X * np.array([1e4, 1e-4]) + np.array([-3e4, 5.0]), y)
    X, y = _mk(12, 5, 2, 21, 0.0)
    X[np.where(y == 1)[0][0]] = [9.0, 9.0]
    ds["outlier"] = (X, y)
    ds["med"] = _mk(60, 22, 3, 22, 0.7)
    ds["large"] = _mk(150, 40, 2, 23, 0.9)
    ds["rare"] = _mk(40, 3, 2, 24, 0.9)
    return ds


LATTICE = np.array([(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (2.0, 1.0)])


class Family(dict):
    """the named datasets, and tiny ones described by their name: L.<majority places>.<minority places> (points of a
    planar lattice), I.<..>.<..> (points of a line), S.<n_maj>.<n_min>.<dimensions> (general position)"""

    def __missing__(self, name):
        kind, *arg = name.split(".")
        if kind == "S":
            n_maj, n_min, d = map(int, arg)
            self[name] = _mk(n_maj, n_min, d, 10 * n_min + n_maj - n_min)
        else:
            places = [int(c) for c in arg[0] + arg[1]]
            X = LATTICE[places] if kind == "L" else np.array(places, dtype=float)[:, None] / 2.0 + 1.0
            self[name] = (X, np.array([0] * len(arg[0]) + [1] * len(arg[1])))
        return self[name]


def tiny(tier, level=1):
    """all placements of a few points on a few places, and a grid of class sizes; level 0: the grid only"""
    out = [f"S.{m + k}.{m}.2" for m in range(1, 9) for k in range(8) if m + k > 1]
    out += [f"S.{m + k}.{m}.{d}" for m in (1, 2, 3, 5) for k in (0, 1, 4) for d in (1, 5) if m + k > 1]

    def places(kind, n, n_maj, n_min):
        for a in itertools.combinations_with_replacement(range(n), n_maj):
            for b in itertools.combinations_with_replacement(range(n), n_min):
                out.append(f"{kind}.{''.join(map(str, a))}.{''.join(map(str, b))}")
    if level >= 1:
        places("L", 3, 4, 3)
        places("L", 3, 5, 2)
        places("I", 3, 4, 3)
    if tier == "thorough" and level >= 1:
        places("L", 4, 5, 3)
        places("L", 3, 6, 4)
        places("I", 4, 5, 3)
    return out


DS = Family(datasets())
NAMED = list(DS)
BIG = {"large", "med", "enough"}  # run with few settings only


def forms(X, y):
    """the same data in other array layouts"""
    wide = np.zeros((X.shape[0] * 2, X.shape[1] * 2))
    wide[::2, ::2] = X
    yy = np.zeros(len(y) * 2, dtype=y.dtype)
    yy[::2] = y
    return {"fortran": (np.asfortranarray(X), y), "view": (wide[::2, ::2], yy[::2]),
            "f32": (X.astype(np.float32), y), "int": (np.round(X * 3).astype(int), y), "y8": (X, y.astype(np.int8))}


ENC = [(0, 1), (1, 0), (-1, 1), (2, 5), (5, 2), (1, 2)]


def encode(y, enc):
    """enc = (label of the larger class, label of the smaller class)"""
    return np.where(y == 0, enc[0], enc[1])


def sv():
    import smote_variants
    return smote_variants


SLOW = {"DEAGO": 20.0, "DSRBF": 13.0, "AMSCO": 5.0, "SMOTE_PSOBAT": 2.6, "IPADE_ID": 1.8, "GASMOTE": 1.0}


def oversampler_names(slow=1.0):
    """all registered oversamplers whose typical run takes at most `slow` seconds"""
    names = [c.__name__ for c in sv().get_all_oversamplers()]
    return [n for n in names if SLOW.get(n, 0.1) <= slow]


def cls(name):
    return getattr(sv(), name)


def raw_space(klass):
    """param -> list of offered values"""
    raw = klass.parameter_combinations(raw=True)
    if isinstance(raw, dict):
        return {k: list(v) for k, v in raw.items()}
    space = {}
    for combo in raw:
        for k, v in combo.items():
            if v not in space.setdefault(k, []):
                space[k].append(v)
    return space


def ctor_params(klass):
    return [p for p in inspect.signature(klass.__init__).parameters if p not in ("self", "_kwargs", "kwargs")]


def defaults(klass):
    return {k: p.default for k, p in inspect.signature(klass.__init__).parameters.items()
            if p.default is not inspect.Parameter.empty}


SS = [
    {"n_dim": 2, "simplex_sampling": "deterministic", "within_simplex_sampling": "deterministic", "gaussian_component": None},
    {"n_dim": 2, "simplex_sampling": "volume", "within_simplex_sampling": "random", "gaussian_component": None},
    {"n_dim": 3, "simplex_sampling": "random", "within_simplex_sampling": "random", "gaussian_component": None},
    {"n_dim": 2, "simplex_sampling": "random", "within_simplex_sampling": "deterministic", "gaussian_component": None},
    {"n_dim": 2, "simplex_sampling": "random", "within_simplex_sampling": "random", "gaussian_component": {"sigma": 0.1}},
]
NN = [
    {"metric": "precomputed", "metric_learning_method": "cov"},
    {"metric": "precomputed", "metric_learning_method": "cov_min"},
    {"metric": "precomputed", "metric_learning_method": "id"},
]


def deviations(name, props=(0.1, 0.5, 1.0, 2.0), with_ss=True, with_nn=True):
    """all settings that deviate from the default in at most one parameter (offered values, simplex sampling and
    metric settings); proportion values from `props`"""
    klass = cls(name)
    params = ctor_params(klass)
    dflt = defaults(klass)
    out = [{}]
    for k, vals in sorted(raw_space(klass).items()):
        if k == "proportion":
            continue
        for v in vals:
            if not (k in dflt and dflt[k] == v and type(dflt[k]) is type(v)):
                out.append({k: v})
    if "proportion" in params:
        out.extend({"proportion": p} for p in props if p != dflt.get("proportion"))
    if with_ss and "ss_params" in params:
        out.extend({"ss_params": s} for s in SS)
    if with_nn and "nn_params" in params:
        out.extend({"nn_params": s} for s in NN)
    return out


def pairs(name, limit=None):
    """all settings deviating in exactly two offered parameters"""
    klass = cls(name)
    space = {k: v for k, v in sorted(raw_space(klass).items())}
    out = []
    for a, b in itertools.combinations(sorted(space), 2):
        for va in space[a]:
            for vb in space[b]:
                out.append({a: va, b: vb})
    return out if limit is None else out[:: max(1, len(out) // limit)]


def make(name, params, random_state=5):
    import copy
    return cls(name)(random_state=random_state, **copy.deepcopy(params))


def digest(*arrays):
    h = hashlib.md5()
    for a in arrays:
        a = np.asarray(a)
        h.update(str(a.shape).encode())
        h.update(np.ascontiguousarray(np.round(a.astype(float), 9) + 0.0).tobytes())
    return h.hexdigest()[:16]


def counts(y):
    vals, cnt = np.unique(y, return_counts=True)
    return dict(zip(vals.tolist(), cnt.tolist()))


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
