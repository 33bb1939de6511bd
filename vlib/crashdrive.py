"""Runs under LD_PRELOAD=crashfs.so: forks one evaluation per crash point, then lets fresh evaluations recover."""
import ctypes
import errno
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import evalref  # noqa: E402
from vlib.report import Report  # noqa: E402

LIB = ctypes.CDLL(os.environ["VERIF_CRASHLIB"])
LIB.crash_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int]

OVERS = {"S": ("smote_variants", "SMOTE", {"random_state": 5}), "N": ("smote_variants", "NoSMOTE", {"random_state": 5, "raise_value_error": True}),
         "I": ("smote_variants", "ISOMAP_Hybrid", {"random_state": 5, "n_neighbors": 3}), "P": ("smote_variants", "SMOTE", {"random_state": 5, "proportion": 0.5})}
CLFS = {"1": ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}), "3": ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3}),
        "G": ("sklearn.naive_bayes", "GaussianNB", {})}
FAULTS = {"kill": 0, "EIO": errno.EIO, "ENOSPC": errno.ENOSPC}


class Driver:
    def __init__(self, task, scratch):
        self.task, self.scratch = task, scratch
        self.rep = Report(task["part"])
        self.fmt, self.clean = task["fmt"], task["clean"]
        self.dss = [evalref.make_dataset(n, a, b, 2, s) for n, a, b, s in (("alpha", 7, 5, 3), ("beta", 6, 4, 8))[: task.get("n_ds", 1)]]
        self.overs = [OVERS[c] for c in task["overs"]]
        self.clfs = [CLFS[c] for c in task["clfs"]]
        self.vp = {"n_repeats": task.get("reps", 1), "n_splits": 2, "random_state": 5}
        self.scaler = ("sklearn.preprocessing", "StandardScaler", {})
        self.ref = {}
        for ds in self.dss:
            self.ref.update(evalref.reference(ds, self.overs, self.clfs, self.scaler, self.vp))
        self.key = dict(fmt=self.fmt, fault=task["fault"])
        self.cache = os.path.join(scratch, "cache")
        self.out = os.path.join(scratch, "result")
        self.log = os.path.join(scratch, "log")

    def evaluate(self, overs, clfs):
        from smote_variants.evaluation import evaluate_oversamplers
        res = evaluate_oversamplers([dict(d, data=d["data"].copy(), target=d["target"].copy()) for d in self.dss], overs, clfs, cache_path=self.cache,
                                    validator_params=self.vp, scaler=self.scaler, serialization=self.fmt, clean_up=self.clean,
                                    parse_results=False, verbosity=0)
        return evalref.load(res)

    def child(self, at=-1, keep=0, fault=0, log=False, overs=None, clfs=None):
        """one evaluation in a process of its own: ("died", None), ("ok", records) or ("raised", text)"""
        for f in (self.out, self.log):
            if os.path.exists(f):
                os.remove(f)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.alarm(120)
                fd = os.open(self.log, os.O_WRONLY | os.O_CREAT) if log else -1
                os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                LIB.crash_arm(self.cache.encode(), at, keep, fault, fd)
                try:
                    val = ("ok", self.evaluate(overs or self.overs, clfs or self.clfs))
                except Exception as exc:  # pylint: disable=broad-except
                    where = traceback.extract_tb(exc.__traceback__)[-1]
                    val = ("raised", f"{type(exc).__name__}: {exc} ({where.filename.rsplit('/', 1)[-1]}:{where.name})")
                LIB.crash_disarm()
                with open(self.out, "wb") as fh:
                    pickle.dump((val, LIB.crash_fired()), fh)
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
            return "died", None, 1
        if not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0):
            return "lost", f"status {status}", 0
        with open(self.out, "rb") as fh:
            (kind, val), fired = pickle.load(fh)
        return kind, val, fired

    def reset(self, image=None):
        shutil.rmtree(self.cache, ignore_errors=True)
        if image:
            shutil.copytree(image, self.cache)

    def ops(self):
        with open(self.log, encoding="utf-8") as fh:
            return [(o, n, int(s)) for _, o, n, s in (ln.rstrip("\n").split(" ") for ln in fh)]

    def save(self, name):
        path = os.path.join(self.scratch, name)
        shutil.rmtree(path, ignore_errors=True)
        if os.path.isdir(self.cache):
            shutil.copytree(self.cache, path)
        else:
            os.makedirs(path)
        return path

    def check_recovery(self, desc):
        kind, val, _ = self.child()
        self.rep.n += 1
        if kind != "ok":
            self.rep.bad(f"{desc}: the next evaluation ended with {kind} {val}", what="recovery", **self.key)
            return False
        return evalref.compare(val, self.ref, evalref.score_model, desc + ": the next evaluation", lambda m, **k: self.rep.bad(m, **{**self.key, **k}))

    def keeps(self, size, mode):
        if mode == "all":
            return list(range(size + 1))
        if mode == "half":
            return [size // 2]
        return sorted({0, 1, size // 4, size // 2, 3 * size // 4, size - 1, size})

    def signature(self):
        sig = []
        for root, _, files in os.walk(self.cache):
            for f in files:
                p = os.path.join(root, f)
                size = os.path.getsize(p)
                try:
                    with open(p, "rb") as fh:
                        (json if self.fmt == "json" else pickle).load(fh)
                    state = "whole"
                except Exception:  # pylint: disable=broad-except
                    state = "part" if size else "empty"
                sig.append((f, state))
        return tuple(sorted(sig))

    def start_image(self):
        """the directory the interrupted run starts in"""
        self.reset()
        start = self.task["start"]
        if start == "cold":
            return None
        if start == "warm":  # everything was there already
            self.child()
        if start == "some":  # a smaller evaluation was there
            self.child(overs=self.overs[:1], clfs=self.clfs[:1])
        return self.save("image")

    def explore(self):
        image = self.start_image()
        fault = FAULTS[self.task["fault"]]
        self.reset(image)
        kind, val, _ = self.child(log=True)
        if kind != "ok" or not evalref.compare(val, self.ref, evalref.score_model, "uninterrupted", lambda m, **k: self.rep.bad(m, **{**self.key, **k})):
            if kind != "ok":
                self.rep.bad(f"uninterrupted evaluation: {kind} {val}", **self.key)
            return
        ops = self.ops()
        self.rep.t += len(ops)
        shard, shards = self.task.get("shard", (0, 1))
        seen = set()
        for i, (op, name, size) in enumerate(ops):
            keeps = self.keeps(size, self.task["torn"]) if op == "write" and not fault else [0] if not fault else [0, size // 2] if op == "write" else [0]
            if self.task["torn"] == "all" and op == "write":
                if not self.prefixes(image, i, name, size, shard, shards):
                    return
                continue
            for keep in keeps:
                if (i * 7 + keep) % shards != shard:
                    continue
                self.reset(image)
                kind, val, fired = self.child(at=i, keep=keep, fault=fault)
                if not fired:
                    continue  # the run took fewer operations this time
                desc = f"{self.fmt} start={self.task['start']} clean_up={self.clean} {self.task['fault']} at operation {i} ({op} {name}, {keep} of {size} bytes)"
                if kind == "ok" and not evalref.compare(val, self.ref, evalref.score_model, desc + ": this evaluation", lambda m, **k: self.rep.bad(m, **{**self.key, **k})):
                    return
                sig = self.signature()
                self.rep.out.add((sig, self.task["start"], self.fmt, self.clean))
                if self.task["depth"] == 2:
                    if sig in seen:
                        continue
                    seen.add(sig)
                    mid = self.save("mid")
                    if not self.second(desc, mid):
                        return
                    self.reset(mid)
                if not self.check_recovery(desc):
                    return
                if self.task.get("twice") and not self.check_recovery(desc + " and one more"):
                    return

    def prefixes(self, image, i, name, size, shard, shards):
        """the write was cut after every number of bytes; the states differ in the length of one file only"""
        self.reset(image)
        _, _, fired = self.child(at=i, keep=-1, fault=0, log=True)
        ops = self.ops()
        path = [os.path.join(r, name) for r, _, fs in os.walk(self.cache) if name in fs]
        if not fired or len(path) != 1:
            return True
        mid, full = self.save("mid"), os.path.getsize(path[0])
        size = ops[i][2] if i < len(ops) else size  # measured times are written with varying length
        if ops[i:i + 1] and ops[i][:2] != ("write", name) or size > full:
            return True
        for keep in range(size + 1):
            if (i * 7 + keep) % shards != shard:
                continue
            self.reset(mid)
            os.truncate(path[0], full - size + keep)
            desc = f"{self.fmt} start={self.task['start']} clean_up={self.clean} killed at operation {i} (write {name}, {keep} of {size} bytes)"
            self.rep.out.add((i, name, keep, self.task["start"], self.fmt, self.clean))
            self.rep.n += 1
            ok, val = self.rep.call(self.evaluate, self.overs, self.clfs, what=desc + ": the next evaluation", key=self.key)
            if not ok or not evalref.compare(val, self.ref, evalref.score_model, desc + ": the next evaluation",
                                             lambda m, **k: self.rep.bad(m, **{**self.key, **k})):
                return False
        return True

    def second(self, desc, mid):
        """the recovering evaluation is interrupted as well, at each of its operations"""
        self.reset(mid)
        kind, _, _ = self.child(log=True)
        if kind != "ok":
            return True  # reported by the caller's own recovery check
        ops = self.ops()
        self.rep.t += len(ops)
        for j, (op, name, size) in enumerate(ops):
            self.reset(mid)
            _, _, fired = self.child(at=j, keep=size // 2, fault=0)
            if fired:
                sig = self.signature()
                self.rep.out.add((sig, self.task["start"], self.fmt, self.clean))
                if not self.check_recovery(f"{desc}, then again at operation {j} ({op} {name}, {size // 2} of {size} bytes)"):
                    return False
        return True


def main():
    task = json.loads(sys.argv[1])
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import smote_variants.evaluation  # noqa: F401  pylint: disable=unused-import
    scratch = tempfile.mkdtemp(prefix="verif_p18_", dir=sys.argv[2])
    drv = Driver(task, scratch)
    drv.explore()
    print("RESULT " + json.dumps(drv.rep.done()))


if __name__ == "__main__":
    main()
