"""P24: the comparison of a dataset with its resampled version labels and draws every vector correctly."""
import itertools

import numpy as np

from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 250, "thorough": 1500}
RULE = ("state = (multiset of original vectors, multiset of resampled vectors): all pairs over a small lattice with 2 or 3 labels are "
        "labelled by the implementation and by a multiset model; relabelling on all small label vectors; the points, colours and "
        "sizes of the drawn figures are compared with the model")
BOUNDS = {"quick": "all pairs of multisets of up to 3 vectors on 3 places x 2 labels (planar data, and 3 features with coinciding displayed "
                   "coordinates), up to 2 vectors x 3 labels; all label vectors over {0,1,2,3} up to length 5; 60 figures",
          "thorough": "up to 3 vectors on 4 places x 2 labels and 3 places x 3 labels, coordinate choices 3; label vectors up to length 7; 400 figures"}
ASSUMPTIONS = ["labels are 0 (majority), 1, 2, ..; coordinates differ by more than the four decimals vectors are compared with"]

PLANAR = [(0.5, 1.0), (0.5, 2.0), (3.25, 1.0), (-1.0, 2.0)]
SPATIAL = [(0.5, 1.0, 7.0), (0.5, 1.0, 8.0), (0.5, 2.0, 7.0), (3.25, 1.0, 8.0)]  # the first two share displayed coordinates


def multisets(places, labels, size):
    cells = [(p, lab) for p in range(places) for lab in range(labels)]
    return [c for k in range(1, size + 1) for c in itertools.combinations_with_replacement(cells, k)]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for kind, places, labels, size, coords in ([("planar", 3, 2, 3, (0, 1)), ("spatial", 3, 2, 3, (0, 1)), ("spatial", 3, 2, 2, (0, 2)),
                                                ("spatial", 2, 2, 3, (2, 1)), ("planar", 2, 3, 2, (1, 0))] if quick else
                                               [("planar", 4, 2, 3, (0, 1)), ("spatial", 4, 2, 3, (0, 1)), ("spatial", 3, 3, 3, (0, 2)),
                                                ("spatial", 4, 2, 3, (2, 1)), ("planar", 3, 3, 3, (1, 0))]):
        n = len(multisets(places, labels, size))
        step = max(1, n // (12 if quick else 60))
        for a in range(0, n, step):
            out.append({"part": "label", "kind": kind, "places": places, "labels": labels, "size": size, "coords": list(coords), "from": a, "to": min(n, a + step)})
    out += [{"part": "names", "length": k} for k in range(1, 6 if quick else 8)]
    for i in range(10 if quick else 50):
        out.append({"part": "plots", "shard": i, "shards": 10 if quick else 50, "n": 60 if quick else 400})
    return out


def arrays(cells, kind, rev=False):
    pts = PLANAR if kind == "planar" else SPATIAL
    cells = list(reversed(cells)) if rev else cells
    return np.array([pts[p] for p, _ in cells], float), np.array([lab for _, lab in cells])


def tally(X, y):
    out = {}
    for row, lab in zip(X, y):
        key = (tuple(map(float, row)), int(lab))
        out[key] = out.get(key, 0) + 1
    return out


def model(X, y, Xs, ys, coords):
    """[((displayed coordinates, label), (flag, old count, new count))], one entry for each different vector"""
    old, new = tally(X, y), tally(Xs, ys)
    out = []
    for key in sorted(set(old) | set(new)):
        a, b = old.get(key), new.get(key)
        flag = "new" if a is None else "removed" if b is None else "untouched" if a == b else "count_changed"
        out.append(((key[0][coords[0]], key[0][coords[1]], key[1]), (flag, a, b)))
    return out


def num(v):
    return None if v is None or v != v else int(v)


def read(frame, coords):
    out = []
    names = [f"coordinate {c}" for c in coords]
    for rec in frame.to_dict("records"):
        key = (float(rec[names[0]]), float(rec[names[1]]), int(rec["y"]))
        out.append((key, (rec["flag"], num(rec["counts_old"]), num(rec["counts"])), rec))
    return out


def label(task, rep):
    from smote_variants.visualization import vector_labeling
    sets = multisets(task["places"], task["labels"], task["size"])
    coords, kind = tuple(task["coords"]), task["kind"]
    for i in range(task["from"], task["to"]):
        X, y = arrays(sets[i], kind)
        for j, other in enumerate(sets):
            Xs, ys = arrays(other, kind, rev=bool((i + j) % 2))
            desc = f"{kind} coordinates {coords} {X.tolist()} {y.tolist()} -> {Xs.tolist()} {ys.tolist()}"
            keep = [a.copy() for a in (X, y, Xs, ys)]
            rep.n += 1
            ok, frame = rep.call(vector_labeling, X, y, Xs, ys, coordinates=coords, what=desc, key={"part": "label"})
            if not ok:
                return
            got, want = read(frame, coords), model(X, y, Xs, ys, coords)
            if any(not np.array_equal(a, b) for a, b in zip(keep, (X, y, Xs, ys))):
                rep.bad(f"{desc}: arguments changed", part="label")
            if sorted(repr((k, v)) for k, v, _ in got) != sorted(map(repr, want)):
                rep.bad(f"{desc}: labelled {[(k, v) for k, v, _ in got]}, expected {want}", part="label")
                return
            for key, (flag, a, _), rec in got:
                flags = {"removed_flag": flag == "removed", "original_flag": a is not None, "new_flag": flag == "new",
                         "untouched_flag": flag == "untouched", "count_changed_flag": flag == "count_changed"}
                if any(f in rec and bool(rec[f]) != v for f, v in flags.items()):
                    rep.bad(f"{desc}: the flags of {key} are {[f for f in flags if rec.get(f)]}", part="label")
                    return
            rep.out.add(("label", kind, tuple(sorted(v[0] for _, v in want)), len(want)))


def names(task, rep):
    from smote_variants.visualization import relabel_y
    for vec in itertools.product(range(4), repeat=task["length"]):
        y = np.array(vec)
        uni = sorted(set(vec))
        if len(uni) == 2 and uni != [0, 1]:
            continue
        rep.n += 1
        ok, got = rep.call(relabel_y, y, what=f"relabel_y({vec})", key={"part": "names"})
        if not ok:
            return
        got = [str(g) for g in got]
        table = {}
        for lab, g in zip(vec, got):
            table.setdefault(lab, set()).add(g)
        flat = [next(iter(s)) for s in table.values()]
        if len(got) != len(vec) or any(len(s) > 1 for s in table.values()) or len(set(flat)) != len(flat) \
                or any((g == "majority") != (lab == 0) or (lab != 0 and not g.startswith("minority")) for lab, g in zip(vec, got)):
            rep.bad(f"relabel_y({vec}) = {got}", part="names")
            return
        rep.out.add(("names", tuple(got)))


def points(coll):
    """[(x, y, colour, size)] of a scatter; removed vectors are drawn paler, so that transparency is left out"""
    offs = np.asarray(coll.get_offsets(), float).reshape(-1, 2)
    cols = [tuple(np.round(c[:3], 4)) for c in coll.get_facecolors()]
    sizes = list(coll.get_sizes())
    n = len(offs)
    if n and len(cols) == 1:
        cols *= n
    if n and len(sizes) == 1:
        sizes *= n
    return [(float(offs[k][0]), float(offs[k][1]), cols[k] if k < len(cols) else None, float(sizes[k]) if k < len(sizes) else None) for k in range(n)]


def drawn(rep, desc, colls, want, sized=False):
    """want: list of (x, y, label, size rank); the same places, one colour per label"""
    pts = [p for c in colls for p in points(c)]
    if sorted((p[0], p[1]) for p in pts) != sorted((w[0], w[1]) for w in want):
        rep.bad(f"{desc}: drawn at {sorted((p[0], p[1]) for p in pts)}, expected {sorted((w[0], w[1]) for w in want)}", part="plots")
        return False
    where = {}
    for w in want:
        where.setdefault((w[0], w[1]), []).append(w)
    colour, size = {}, {}
    for p in pts:
        ws = where[(p[0], p[1])]
        if len({w[2] for w in ws}) == 1:
            colour.setdefault(ws[0][2], set()).add(p[2])
        if sized and len(ws) == 1:
            size.setdefault(ws[0][3], set()).add(p[3])
    flat = [next(iter(s)) for s in colour.values()]
    if any(len(s) > 1 for s in colour.values()) or len(set(flat)) != len(flat):
        rep.bad(f"{desc}: the colours {colour} do not tell the classes apart", part="plots")
        return False
    if sized:
        ranks = sorted(size)
        if any(len(size[r]) > 1 for r in ranks) or any(max(size[a]) >= min(size[b]) for a, b in zip(ranks, ranks[1:])):
            rep.bad(f"{desc}: sizes {size} do not follow the counts", part="plots")
            return False
    return True


def plots(task, rep):
    import matplotlib.pyplot as plt
    from smote_variants import visualization as vis
    sets = [s for s in multisets(3, 2, 3) if {lab for _, lab in s} == {0, 1}]
    todo = [(sets[i % len(sets)], sets[(i * 7 + 3) % len(sets)]) for i in range(task["n"])]
    for i, (orig, resampled) in enumerate(todo):
        if i % task["shards"] != task["shard"]:
            continue
        for kind, coords in (("planar", (0, 1)), ("spatial", (0, 2))):
            X, y = arrays(orig, kind)
            Xs, ys = arrays(resampled, kind)
            Xo, yo = np.vstack([X, Xs]), np.hstack([y, ys])
            desc = f"{kind} {coords} {X.tolist()} {y.tolist()} -> {Xs.tolist()} {ys.tolist()}"
            raw = [(*map(float, r[list(coords)]), int(lab), 1) for r, lab in zip(X, y)]
            rawo = [(*map(float, r[list(coords)]), int(lab), 1) for r, lab in zip(Xo, yo)]
            mod = model(X, y, Xs, ys, coords)
            left = [(k[0], k[1], k[2], a) for k, (_, a, _) in mod if a is not None]
            right = [(k[0], k[1], k[2], b or 0) for k, (_, _, b) in mod]
            key = {"part": "plots"}

            def figure(fun, *args, what, **kw):
                rep.n += 1
                ok, fig = rep.call(fun, *args, what=desc + ": " + what, key=key, **kw)
                return fig if ok else None
            fig = figure(vis.plot_raw, X, y, what="plot_raw", coordinates=coords)
            if fig is None or not drawn(rep, desc + ": plot_raw", fig.axes[0].collections, raw):
                return
            fig = figure(vis.plot_oversampled, X, y, Xo, yo, what="plot_oversampled", coordinates=coords)
            if fig is None or not drawn(rep, desc + ": plot_oversampled", fig.axes[0].collections, rawo):
                return
            plt.close("all")
            try:
                lab0 = vis.vector_labeling(X, y, Xs, ys, coordinates=coords)
                lab1 = vis.vector_labeling(X, y, Xo, yo, coordinates=coords)
            except Exception:  # pylint: disable=broad-except  # reported by the labelling part
                return
            mod1 = model(X, y, Xo, yo, coords)
            right1 = [(k[0], k[1], k[2], b or 0) for k, (_, _, b) in mod1]
            for again in ("", " again"):  # the same labelling is drawn twice
                fig = figure(vis.plot_sampling, lab0, "title", what="plot_sampling" + again)
                if fig is None or not drawn(rep, desc + ": plot_sampling, left" + again, fig.axes[0].collections, left, sized=True) \
                        or not drawn(rep, desc + ": plot_sampling, right" + again, fig.axes[1].collections, right):
                    return
                fig = figure(vis.plot_comparison, lab0, lab1, "a", "b", what="plot_comparison" + again)
                if fig is None or not drawn(rep, desc + ": plot_comparison, left" + again, fig.axes[0].collections, left, sized=True) \
                        or not drawn(rep, desc + ": plot_comparison, middle" + again, fig.axes[1].collections, right) \
                        or not drawn(rep, desc + ": plot_comparison, right" + again, fig.axes[2].collections, right1):
                    return
                plt.close("all")
            rep.out.add(("plots", i, kind))


def run(task):
    rep = Report(task["part"])
    {"label": label, "names": names, "plots": plots}[task["part"]](task, rep)
    return rep.done()
