"""P14: every reported score equals its textbook definition on all small confusion tables, rankings and orders."""
import itertools
import math

import numpy as np

from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 200, "thorough": 1500}
RULE = ("state = confusion table, or (true labels, probabilities): all of a bounded space are given to the implementation and to an "
        "independent model of the definitions; permuted inputs must give the same scores")
BOUNDS = {"quick": "all confusion tables with cells 0..8 plus all tables over {0,1,2,1000,100000,2000000}; all label pairs up to length 6 in "
                   "3 encodings; all label x probability vectors over {0,.2,.5,.7,1} up to length 4 and over {.1,.5,.9} up to length 5; "
                   "all labellings of 10 and 11 ranked samples; all orders of 4 samples",
          "thorough": "cells 0..14; label pairs up to length 8; probability vectors over 5 values up to length 5, over 3 values up to "
                      "length 7; all labellings of 10-16 ranked samples; all orders of 5 samples"}
ASSUMPTIONS = ["both classes occur among the true labels", "scores whose denominator vanishes may be None, not-a-number, 0 or their limit, never an error",
               "predictions with probability exactly one half may go to either class; ties at the 20 percent border may be broken either way",
               "logarithmic loss with probabilities 0 or 1 only has to be finite (clipping is not specified)"]


def tasks(tier):
    quick = tier == "quick"
    n = 8 if quick else 14
    out = [{"part": "table", "tp": tp, "max": n} for tp in range(n + 1)]
    out += [{"part": "bigtable", "grid": [0, 1, 2, 1000, 100000, 2000000]}]
    for length in range(2, 7 if quick else 9):
        out.append({"part": "atoms", "length": length})
    for length in range(2, 5 if quick else 6):
        for first in range(5):
            out.append({"part": "probs", "length": length, "grid": [0.0, 0.2, 0.5, 0.7, 1.0], "first": first})
    for length in range(2, 6 if quick else 8):
        for first in range(3):
            out.append({"part": "probs", "length": length, "grid": [0.1, 0.5, 0.9], "first": first})
    for length in range(10, 12 if quick else 17):
        out.append({"part": "ranked", "length": length})
    out.append({"part": "orders", "length": 4 if quick else 5})
    return out


def xlog(m, v):
    return m * math.log(v)


def model_labels(tp, fn, fp, tn):
    """None marks an undefined score"""
    p, n = tp + fn, fp + tn
    N = p + n
    div = lambda a, b: a / b if b else None
    out = {"tp": tp, "fn": fn, "fp": fp, "tn": tn, "p": p, "n": n}
    out["acc"] = (tp + tn) / N
    out["sens"], out["spec"] = tp / p, tn / n
    out["ppv"], out["npv"] = div(tp, tp + fp), div(tn, tn + fn)
    out["fpr"], out["fnr"] = fp / n, fn / p
    out["fdr"] = div(fp, tp + fp)
    out["bacc"] = (tp / p + tn / n) / 2
    out["gacc"] = math.sqrt(tp / p * tn / n)
    out["f1"] = 2 * tp / (2 * tp + fp + fn)
    den = (tp + fp) * p * n * (tn + fn)
    out["mcc"] = (tp * tn - fp * fn) / math.sqrt(den) if den else None
    out["l"] = N * math.log(N)
    out["ltp"] = xlog(tp, tp / ((tp + fp) * p)) if tp else None
    out["lfp"] = xlog(fp, fp / ((tp + fp) * n)) if fp else None
    out["lfn"] = xlog(fn, fn / (p * (tn + fn))) if fn else None
    out["ltn"] = xlog(tn, tn / (n * (tn + fn))) if tn else None
    out["lp"], out["ln"] = xlog(p, p / N), xlog(n, n / N)
    parts = [out[k] for k in ("ltp", "lfp", "lfn", "ltn")]
    out["uc"] = (out["l"] + sum(parts)) / (out["l"] + out["lp"] + out["ln"]) if None not in parts else None
    out["informedness"] = tp / p + tn / n - 1
    out["markedness"] = out["ppv"] + out["npv"] - 1 if None not in (out["ppv"], out["npv"]) else None
    return out


def same(got, want, scale=1.0):
    if want is None:
        if got is None:
            return True
        return isinstance(got, (int, float, np.floating, np.integer)) and not math.isinf(float(got))
    if got is None or isinstance(got, bool) or not isinstance(got, (int, float, np.floating, np.integer)):
        return False
    return abs(float(got) - want) <= 1e-9 * max(1.0, abs(want), scale)


def compare(rep, got, want, desc):
    for k, w in want.items():
        if k not in got:
            rep.bad(f"{desc}: score {k} is missing", score=k)
            return False
        scale = abs(want["l"]) if k in ("uc",) and "l" in want else 1.0
        if k == "uc" and w is not None:
            scale = 1.0 + abs(want["l"]) / max(1e-9, abs(want["l"] + want["lp"] + want["ln"]))
        if not same(got[k], w, scale):
            rep.bad(f"{desc}: {k} = {got[k]!r}, definition gives {w!r}", score=k)
            return False
    return True


def funcs():
    import smote_variants.base as b
    import smote_variants.base._metrics as m
    return {n: getattr(b, n, getattr(m, n, None)) for n in ("calculate_atoms", "calculate_label_scores", "calculate_prob_scores",
                                                         "calculate_all_scores", "prediction_labels")}


def table(rep, fn, tp, fneg, fp, tn):
    if tp + fneg == 0 or fp + tn == 0:
        return
    rep.n += 1
    desc = f"tp={tp} fn={fneg} fp={fp} tn={tn}"
    ok, got = rep.call(fn["calculate_label_scores"], {"tp": tp, "fn": fneg, "fp": fp, "tn": tn}, what=desc)
    if ok:
        compare(rep, got, model_labels(tp, fneg, fp, tn), desc)
        rep.out.add((tp, fneg, fp, tn))


def model_probs(t, p):
    n = len(t)
    pos = [b for a, b in zip(t, p) if a == 1]
    neg = [b for a, b in zip(t, p) if a == 0]
    auc = sum(1.0 if a > b else 0.5 if a == b else 0.0 for a in pos for b in neg) / (len(pos) * len(neg))
    brier = sum((b - a) ** 2 for a, b in zip(t, p)) / n
    ll = None
    if all(0 < b < 1 for b in p):
        ll = -sum(math.log(b) if a == 1 else math.log(1 - b) for a, b in zip(t, p)) / n
    k = max(int(0.2 * n + 1e-9), 1)
    order = sorted(p, reverse=True)
    border = order[k - 1]
    sure = sum(a for a, b in zip(t, p) if b > border)
    tied = [a for a, b in zip(t, p) if b == border]
    need = k - sum(1 for b in p if b > border)
    lo, hi = sure + max(0, need - tied.count(0)), sure + min(need, tied.count(1))
    return auc, brier, ll, (lo / k, hi / k)


def check_probs(rep, fn, t, p, all_scores=True):
    desc = f"labels={list(t)} probabilities={list(p)}"
    T, P = np.array(t), np.array(p, dtype=float)
    T0, P0 = T.copy(), P.copy()
    rep.n += 1
    auc, brier, ll, top = model_probs(t, p)
    ok, got = rep.call(fn["calculate_prob_scores"], T, P, what=desc)
    if ok:
        want = {"auc": auc, "brier": brier}
        if ll is not None:
            want["log_loss"] = ll
        elif not (got.get("log_loss") is not None and math.isfinite(float(got["log_loss"]))):
            rep.bad(f"{desc}: log_loss = {got.get('log_loss')!r}", score="log_loss")
        compare(rep, got, want, desc)
        if not top[0] - 1e-9 <= got.get("p_top20", math.nan) <= top[1] + 1e-9:
            rep.bad(f"{desc}: p_top20 = {got.get('p_top20')!r}, definition gives {top}", score="p_top20")
    if all_scores:
        ok, lab = rep.call(fn["prediction_labels"], P, what=desc)
        if not ok:
            return
        lab = np.asarray(lab)
        if len(lab) != len(p) or any((b > 0.5 and v != 1) or (b < 0.5 and v != 0) or v not in (0, 1) for v, b in zip(lab, p)):
            rep.bad(f"{desc}: predicted labels {lab.tolist()}", score="labels")
            return
        ok, got = rep.call(fn["calculate_all_scores"], T, P, what=desc)
        if ok:
            cm = [int(np.sum((T == a) & (lab == b))) for a, b in ((1, 1), (1, 0), (0, 1), (0, 0))]
            compare(rep, got, {**model_labels(*cm), "auc": auc, "brier": brier, **({} if ll is None else {"log_loss": ll})}, desc)
    if not (np.array_equal(T, T0) and np.array_equal(P, P0)):
        rep.bad(f"{desc}: the arguments were changed", score="arguments")
    rep.out.add((tuple(t), tuple(p)))


def run(task):
    rep = Report(task["part"])
    fn = funcs()
    part = task["part"]
    if part == "table":
        for fneg, fp, tn in itertools.product(range(task["max"] + 1), repeat=3):
            table(rep, fn, task["tp"], fneg, fp, tn)
    elif part == "bigtable":
        for cells in itertools.product(task["grid"], repeat=4):
            table(rep, fn, *cells)
    elif part == "atoms":
        for t in itertools.product((0, 1), repeat=task["length"]):
            for q in itertools.product((0, 1), repeat=task["length"]):
                for mn, mj in ((1, 0), (0, 1), (-1, 1)):
                    enc = np.array([mj, mn])
                    T, Q = enc[list(t)], enc[list(q)]
                    rep.n += 1
                    ok, got = rep.call(fn["calculate_atoms"], T, Q, mn, what=f"{T.tolist()} {Q.tolist()} min={mn}")
                    if ok:
                        want = {k: sum(1 for a, b in zip(t, q) if (a, b) == c) for k, c in
                                (("tp", (1, 1)), ("fn", (1, 0)), ("fp", (0, 1)), ("tn", (0, 0)))}
                        if {k: got.get(k) for k in want} != want:
                            rep.bad(f"atoms of {T.tolist()} / {Q.tolist()} with minority {mn}: {got}, definition gives {want}", score="atoms")
                        rep.out.add((t, q))
    elif part == "probs":
        for rest in itertools.product(task["grid"], repeat=task["length"] - 1):
            p = (task["grid"][task["first"]],) + rest
            for t in itertools.product((0, 1), repeat=task["length"]):
                if 0 < sum(t) < task["length"]:
                    check_probs(rep, fn, t, p)
    elif part == "ranked":
        n = task["length"]
        p = [(7 * i % n + 0.6) / (n + 1) for i in range(n)] if n % 7 else [(3 * i % n + 0.6) / (n + 1) for i in range(n)]
        for bits in range(1, 2 ** n - 1):
            check_probs(rep, fn, [(bits >> i) & 1 for i in range(n)], p, all_scores=False)
    else:
        orders(rep, fn, task["length"])
    return rep.done()


def orders(rep, fn, n):
    """scores depend on the pairs only"""
    grid = (0.1, 0.3, 0.6, 0.8)
    for p in itertools.product(grid, repeat=n):
        for t in itertools.product((0, 1), repeat=n):
            if not 0 < sum(t) < n or list(zip(t, p)) != sorted(zip(t, p)):
                continue
            ok, ref = rep.call(fn["calculate_all_scores"], np.array(t), np.array(p), what=f"{t} {p}")
            if not ok:
                continue
            top = model_probs(t, p)[3]
            for perm in itertools.permutations(range(n)):
                rep.n += 1
                T, P = np.array(t)[list(perm)], np.array(p)[list(perm)]
                ok, got = rep.call(fn["calculate_all_scores"], T, P, what=f"{T.tolist()} {P.tolist()}")
                if not ok:
                    continue
                for k, v in ref.items():
                    if k == "p_top20" and top[0] != top[1]:
                        continue
                    if (v is None) != (got[k] is None) or (v is not None and abs(v - got[k]) > 1e-9 * max(1, abs(v))):
                        rep.bad(f"{k} = {v!r} for {t} {p}, but {got[k]!r} for the order {perm}", score=k)
            rep.out.add((t, p))
