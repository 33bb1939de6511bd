"""P20: the process pool runs each job once and returns every result in its place, under every schedule."""
import itertools
import multiprocessing
import os
import signal
import threading
import time

from vlib import vsched
from vlib.report import Report

LEVEL = "model_checking"
TASK_LIMIT = {"quick": 300, "thorough": 3600}
BUDGET = {"quick": 600, "thorough": 10000}
RULE = ("the module's source is executed with stand-ins for threading, multiprocessing, queue and time under a controlled scheduler (virtual threads, "
        "processes, pipes of bounded capacity, asynchronous kill, virtual clock); all executions with at most the given number of deviations from a "
        "default schedule are enumerated, scheduling points being every synchronisation operation and every line (or bytecode) executed in the pool's "
        "threads; a worker dying at every possible moment is a deviation too; the same oracle is applied to runs with real processes")
BOUNDS = {"quick": "all pairs of 11 kinds of job x 1-2 workers x {time limit, none} with 1 deviation at synchronisation operations; selected pools of "
                   "1-3 workers and 1-4 jobs with 1 deviation at every line and bytecode and 2 deviations at synchronisation operations; one worker death at any point",
          "thorough": "all triples of kinds with 1 deviation, all pairs with 2 deviations, selected pools with 2 at every line and 3 at synchronisation operations"}
ASSUMPTIONS = ["computation takes no virtual time; a job that ends in the very instant of the time limit may be reported either way",
               "the operating system is modelled as in vlib/vsched.py (kill is asynchronous, pipes hold 64 KiB, a forked child inherits open pipe ends)",
               "real-process runs validate the stand-ins on a subset of the scenarios"]
LIMIT = 3.0
KINDS = "qmsexdbunlk"
CUR = [None]


class Job:
    """a job of the given kind; results identify the job"""

    def __init__(self, idx, kind):
        self.idx, self.kind = idx, kind

    def execute(self):
        s, k = CUR[0], self.kind
        s.event("exec", self.idx, s.current.proc.pid)
        s.point()
        if k == "m":
            s.sleep(1)
        if k == "s":
            s.sleep(50)
        if k in "el":
            s.sleep(LIMIT)
        if k == "x":
            raise ValueError("job failed")
        if k == "d":
            s.current.proc.die(1)
            raise vsched.Killed()
        if k == "u":
            return lambda: None
        if k == "n":
            return None
        if k == "k":
            s.sleep(2.5)
        return own(self.idx, k)

    def timeout(self):
        s = CUR[0]
        s.event("substitute", self.idx)
        return ("substitute", self.idx)


def own(idx, kind):
    return None if kind == "n" else ("own", idx, "x" * (200000 if kind in "bl" else 1))


def expected(idx, kind, limit, died):
    """the acceptable results"""
    sub = ("substitute", idx)
    if kind in "xdu":
        return [sub]
    if kind == "f":
        return None
    if died:
        return [sub, own(idx, kind)]
    if limit is not None and kind == "s":
        return [sub]
    if limit is not None and kind in "el":
        return [sub, own(idx, kind)]
    return [own(idx, kind)]


def tasks(tier):
    quick = tier == "quick"
    out = []

    def add(pools, bound, trace, mortal=(None,), policies=("low", "high"), cap=10 ** 9, limits=(LIMIT, None)):
        for kinds, n in pools:
            for lim in limits:
                if lim is None and not set(kinds) - set("qxd"):
                    continue  # the limit plays no part
                for m in mortal:
                    if m is not None and m >= len(kinds):
                        continue
                    for pol in policies:
                        out.append({"part": "schedules", "kinds": kinds, "n_jobs": n, "limit": lim, "bound": bound, "trace": trace, "mortal": m, "policy": pol, "cap": cap})
    pairs = ["".join(p) for p in itertools.product(KINDS, repeat=2)]
    singles = list(KINDS)
    core = [("sq", 2), ("qqq", 2), ("sbq", 2), ("qq", 1), ("sq", 1), ("xqb", 2)]
    if quick:
        add([(k, 1) for k in singles], 2, "sync")
        add([(k, n) for k in pairs for n in (1, 2)], 1, "sync", policies=("low",))
        add([("qmsx", 3), ("bbb", 3), ("qqqq", 2), ("fq", 1), ("qfq", 2), ("", 2), ("q", 3)], 1, "sync")
        add(core, 1, "line")
        add([("qq", 2), ("qqq", 2)], 1, "opcode", limits=(LIMIT,))
        add([("qq", 2), ("sq", 1)], 2, "sync", policies=("low",), limits=(LIMIT,))
        add([("q", 1), ("b", 1), ("mb", 2), ("kq", 1), ("eq", 1), ("lq", 2)], 1, "sync", mortal=(0,))
        add([("b", 1), ("e", 1)], 2, "sync", mortal=(0,), limits=(LIMIT,), policies=("low",))
    else:
        add([(k, 1) for k in singles], 3, "sync")
        add([("".join(p), n) for p in itertools.product(KINDS, repeat=3) for n in (2,)], 1, "sync", policies=("low",))
        add([(k, n) for k in pairs for n in (1, 2)], 2, "sync", policies=("low",), limits=(LIMIT,), cap=60000)
        add([("qmsx", 3), ("bbb", 3), ("qqqq", 2), ("fq", 1), ("qfq", 2), ("", 2), ("q", 3)], 2, "sync", cap=60000)
        add(core, 1, "opcode")
        add([("qq", 2), ("sq", 1), ("b", 1), ("qqq", 2)], 2, "line", policies=("low",), limits=(LIMIT,), cap=100000)
        add([("q", 1), ("b", 1), ("mb", 2), ("kq", 1), ("bq", 2), ("lq", 2)], 2, "sync", mortal=(0,), cap=60000)
    out.sort(key=lambda t: (t["bound"], t["trace"] != "sync", len(t["kinds"])), reverse=True)
    if quick:
        # many small tasks: group them
        small = [t for t in out if t["bound"] == 1 and t["trace"] == "sync"]
        out = [t for t in out if t not in small] + [{"part": "group", "of": small[i::24]} for i in range(24)]
    else:
        small = [t for t in out if t["bound"] == 1 and t["trace"] == "sync"]
        out = [t for t in out if t not in small] + [{"part": "group", "of": small[i::64]} for i in range(64)]
    for r in range(len(REAL)):
        out.insert(0, {"part": "real", "which": r})
    out.append({"part": "reuse"})
    return out


def source_path():
    import smote_variants.evaluation as ev
    return os.path.join(os.path.dirname(ev.__file__), "_parallelization.py")


def execute(path, task, choices, rounds=1):
    s = vsched.Sched(choices, policy=task["policy"], trace_file=path if task["trace"] != "sync" else None, opcodes=task["trace"] == "opcode",
                     kill_budget=0 if task["mortal"] is None else 1)
    CUR[0] = s
    mods = vsched.make_modules(s)
    kinds = task["kinds"]

    def on_start(process):
        args = list(process.args) + list(process.kwargs.values())
        job = next((a for a in args if isinstance(a, Job)), None)
        if job is None:
            job = next((a.task for a in args if isinstance(getattr(a, "task", None), Job)), None)
        if job is not None and job.kind == "f":
            raise OSError("no more processes")
        alive = [p for p in s.procs if not p.dead and p not in (s.kernel, s.main)]
        s.event("alive", len(alive) + 1)
        if job is not None and job.idx == task["mortal"]:
            s.will_be_mortal = True

    s.on_start = on_start
    if task["mortal"] is not None:
        orig = s.event

        def event(*what):
            orig(*what)
            if what[0] == "start" and getattr(s, "will_be_mortal", False):
                s.will_be_mortal = False
                s.procs[-1].mortal = True
        s.event = event
    lim = task["limit"]

    def body():
        mod = vsched.load(path, "smote_variants.evaluation", mods)
        pool = mod.ThreadTimeoutProcessPool(task["n_jobs"], lim if lim is not None else task.get("none", -1))
        if task.get("apply"):
            return [pool.apply(lambda t: t.execute(), [Job(i, k) for i, k in enumerate(kinds)]) for _ in range(rounds)]
        res = [pool.execute([Job(i, k) for i, k in enumerate(kinds)]) for _ in range(rounds)]
        s.alive_at_end = [p.pid for p in s.procs if not p.dead and p not in (s.kernel, s.main)]
        return res
    s.run(body)
    return s


def judge(s, task, rounds=1):
    """None, or (what, message)"""
    kinds, lim, n = task["kinds"], task["limit"], task["n_jobs"]
    if s.outcome == "unsupported":
        return ("unsupported", str(s.unsupported))
    if s.outcome != "finished":
        exc = [repr(e) for _, _, e in s.errors]
        return (s.outcome, f"the pool does not finish: {s.outcome} {exc[:2]}")
    died = any(e[1] == "fault" for e in s.events)
    for res in s.result:
        if not isinstance(res, list) or len(res) != len(kinds):
            return ("results", f"result {str(res)[:80]} for {len(kinds)} jobs")
        for i, k in enumerate(kinds):
            want = expected(i, k, lim, died and i == task["mortal"])
            if task.get("apply") and want is not None:
                want = [None if isinstance(w, tuple) and w[0] == "substitute" else w for w in want]
            if want is not None and res[i] not in want:
                return ("result", f"position {i} ({k}) holds {str(res[i])[:60]} instead of {str(want)[:80]}")
    for i, k in enumerate(kinds):
        runs = sum(1 for e in s.events if e[1] == "exec" and e[2] == i)
        least = 0 if k == "f" or (died and i == task["mortal"]) else rounds
        if not least <= runs <= (0 if k == "f" else rounds):
            return ("runs", f"job {i} ({k}) was executed {runs} times in {rounds} round(s)")
    most = max([e[2] for e in s.events if e[1] == "alive"], default=0)
    if most > n:
        return ("workers", f"{most} workers at a time instead of {n}")
    if getattr(s, "alive_at_end", []):
        return ("alive", "a worker is still alive when the pool has finished")
    if lim is not None:
        begin = {e[2]: e[0] for e in s.events if e[1] == "start"}
        for e in s.events:
            if e[1] == "end" and e[0] - begin.get(e[2], e[0]) > 2 * lim:
                return ("late", f"a worker ran for {e[0] - begin[e[2]]} s with a limit of {lim} s")
    return None


def describe(s):
    return [f"{e[0]:g}:" + ",".join(str(x) if not isinstance(x, int) or x < 10 ** 8 else f"p{x - 10 ** 8}" for x in e[1:]) for e in s.events if e[1] != "alive"][:40]


def run(task):
    rep = Report(task["part"])
    globals()["do_" + task["part"]](rep, task)
    skip = getattr(rep, "skip", None)
    res = rep.done()
    if skip:
        res["skip"] = skip
    return res


def do_group(rep, task):
    for t in task["of"]:
        do_schedules(rep, t)


def do_schedules(rep, task):
    path = source_path()
    for _ in range(2 if task["trace"] == "opcode" else 0):  # the interpreter specialises its code on the first runs
        execute(path, task, [])
    first = execute(path, task, [])
    again = execute(path, task, [])
    if first.outcome == "unsupported":
        rep.skip = f"not modelled: {first.unsupported}"
        return
    if (first.events, first.points) != (again.events, again.points):
        rep.skip = "the same schedule gave two different runs"
        return
    name = f"jobs {task['kinds']!r}, {task['n_jobs']} worker(s), limit {task['limit']}"
    for s in vsched.explore(lambda c: execute(path, task, c), task["bound"], task["cap"]):
        rep.n += 1
        rep.t += s.steps
        rep.out.add((name, str([(e[1], e[2]) for e in s.events if e[1] in ("exec", "substitute", "fault")])))
        fault = judge(s, task)
        if fault is None:
            continue
        if fault[0] == "unsupported":
            rep.skip = f"not modelled: {fault[1]}"
            return
        rep.bad(f"{name}, schedule {trim(s.taken)} from policy {task['policy']}/{task['trace']}: {fault[1]}; history {describe(s)}",
                what=fault[0], kinds=task["kinds"], n_jobs=task["n_jobs"])
        return


def trim(choices):
    return [(i, c) for i, c in enumerate(choices) if c]


def do_reuse(rep, _task):
    """the same pool object used again, the function interface, and the spellings of 'no limit'"""
    path = source_path()
    for kinds in ("qsb", "qq", "xsq", "nq", ""):
        for n in (1, 2):
            for lim in (LIMIT, None):
                for extra in ({}, {"apply": True}, {"none": None}):
                    task = {"kinds": kinds, "n_jobs": n, "limit": lim, "trace": "sync", "mortal": None, "policy": "low", **extra}
                    for s in vsched.explore(lambda c: execute(path, task, c, rounds=2), 0 if len(kinds) > 2 else 1, 3000):
                        rep.n += 1
                        rep.t += s.steps
                        rep.out.add((kinds, n, lim, str(extra)))
                        fault = judge(s, task, rounds=2)
                        if fault and fault[0] != "unsupported":
                            rep.bad(f"pool used twice, jobs {kinds!r}, {n} worker(s), limit {lim}, {extra}: {fault[1]}; history {describe(s)}", what=fault[0])
                            break


# -- real processes --------------------------------------------------------------------------------------------------
REAL = [("qqbn", 2, None), ("qhbx", 2, 6.0), ("du", 1, None), ("hhq", 3, 4.0), ("bbbb", 3, 20.0), ("xqdqb", 1, 20.0)]


class RealJob:
    def __init__(self, idx, kind):
        self.idx, self.kind = idx, kind

    def execute(self):
        if self.kind == "h":
            time.sleep(600)
        if self.kind == "x":
            raise ValueError("job failed")
        if self.kind == "d":
            os.kill(os.getpid(), signal.SIGKILL)
        if self.kind == "u":
            return lambda: None
        return own(self.idx, self.kind)

    def timeout(self):
        return ("substitute", self.idx)


def do_real(rep, task):
    from smote_variants.evaluation import ThreadTimeoutProcessPool
    kinds, n, lim = REAL[task["which"]]
    sink, saved = os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(sink, 2)
    try:
        t0 = time.time()
        box = []
        th = threading.Thread(target=lambda: box.append(rep.call(
            lambda: ThreadTimeoutProcessPool(n, -1 if lim is None else lim).execute([RealJob(i, k) for i, k in enumerate(kinds)]),
            what=f"real pool {kinds}")), daemon=True)
        th.start()
        th.join(100)
        rep.n += 1
        if not box:
            rep.bad(f"real pool {kinds}, {n} workers, limit {lim}: not finished after 100 s", what="real")
            for child in multiprocessing.active_children():
                child.kill()
            return
        ok, res = box[0]
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(sink)
    if not ok:
        return
    rep.out.add(("real", kinds))
    if len(res) != len(kinds):
        rep.bad(f"real pool {kinds}: {len(res)} results", what="real")
        return
    for i, k in enumerate(kinds):
        want = ("substitute", i) if k in "hxdu" else own(i, k)
        if res[i] != want:
            rep.bad(f"real pool {kinds}, {n} workers, limit {lim}: position {i} ({k}) holds {str(res[i])[:60]} instead of {str(want)[:60]} after {time.time() - t0:.1f} s", what="real")
