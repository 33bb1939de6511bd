"""Runner shared by all checks.

A check module (checks/pXX.py) provides
  LEVEL, TECHNIQUE-independent metadata: LEVEL, RULE, ASSUMPTIONS
  tasks(tier)  -> list of JSON-able tasks (the complete bounded space, cut into pieces)
  run(task)    -> dict: n (executions), t (steps/transitions), out (list of outcome signatures),
                        v (list of violations {kind, msg, key}), skip (reason or None)
Everything a task explores is fixed by the task itself, so a violation is replayed by running its task again.
"""
import concurrent.futures
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class TaskTimeout(BaseException):
    """raised by the alarm; not an Exception so that broad handlers of the code under test let it through"""


def _alarm(_sig, _frm):
    raise TaskTimeout()


def quiet():
    warnings.simplefilter("ignore")
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)


def _run_task(args):
    modname, task, limit = args
    mod = importlib.import_module(modname)
    quiet()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t0 = time.time()
    try:
        res = mod.run(task)
    except TaskTimeout:
        res = {"n": 1, "t": 0, "out": ["hang"], "v": []}
        if getattr(mod, "HANG_IS_VIOLATION", False):
            res["v"] = [{"kind": "hang", "msg": f"no result within {limit} s", "key": {"kind": "hang"}}]
        else:
            res["skip"] = "task ran out of time"
    except Exception:  # an error of the harness, not of the code under test
        res = {"n": 0, "t": 0, "out": [], "v": [], "skip": "harness: " + traceback.format_exc()[-600:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res["wall"] = time.time() - t0
    return res


def _init_worker():
    quiet()
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


_FORK_LOCK = threading.Lock()


def _execute(modname, tasks, limit, deadline, stop_after, workers):
    """run the tasks in parallel; returns the list of (task, result) in task order, None where not run"""
    results = [None] * len(tasks)
    todo = list(range(len(tasks)))
    n_viol = 0
    broken = False
    if todo:
        ctx = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(
            max_workers=workers, mp_context=ctx, initializer=_init_worker
        ) as pool:
            futs = {pool.submit(_run_task, (modname, tasks[i], limit)): i for i in todo}
            try:
                for fut in concurrent.futures.as_completed(futs, timeout=max(1.0, deadline - time.time())):
                    i = futs[fut]
                    try:
                        results[i] = fut.result()
                    except concurrent.futures.process.BrokenProcessPool:
                        broken = True
                        continue
                    n_viol += len(results[i]["v"])
                    if n_viol >= stop_after:
                        break
            except concurrent.futures.TimeoutError:
                pass
            for fut in futs:
                fut.cancel()
            if n_viol >= stop_after or time.time() >= deadline:
                for proc in list(getattr(pool, "_processes", {}).values()):
                    try:
                        proc.kill()
                    except OSError:
                        pass
        todo = [i for i in todo if results[i] is None]
    if todo and broken and n_viol < stop_after:
        # some task ends the process it runs in: each one left gets a process of its own
        found = [n_viol]

        def alone(i):
            if time.time() < deadline and found[0] < stop_after:
                results[i] = _isolated(modname, tasks[i], limit)
                found[0] += len(results[i]["v"]) if results[i] else 0

        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            list(pool.map(alone, todo))
    return results


def _isolated(modname, task, limit):
    ctx = multiprocessing.get_context("fork")
    with _FORK_LOCK:  # no other child inherits the sending end
        recv, send = ctx.Pipe(False)
        proc = ctx.Process(target=lambda: send.send(_run_task((modname, task, limit))))
        proc.start()
        send.close()
    try:
        return recv.recv()
    except EOFError:
        proc.join()
        sig = -(proc.exitcode or 0)
        res = {"n": 1, "t": 0, "out": ["died"], "v": [], "wall": 0.0}
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            name = signal.Signals(sig).name
            if getattr(importlib.import_module(modname), "HANG_IS_VIOLATION", False):
                res["v"] = [{"kind": "died", "msg": f"the process was ended by {name} in {json.dumps(task)[:300]}", "key": {"kind": "died", "cls": task.get("cls")}}]
            else:
                res["skip"] = f"the process was ended by {name}"
            return res
        return None
    finally:
        proc.join()


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fh:
        return json.load(fh)["findings"]


def matches(finding, prop, viol):
    if finding.get("status") != "open" or finding["property"] != prop:
        return False
    key = viol.get("key", {})
    return all(key.get(k) in (v if isinstance(v, list) else [v]) for k, v in finding["match"].items())


def write_replay(prop, task, viol):
    path = os.path.join(EVID, "replay")
    os.makedirs(path, exist_ok=True)
    doc = {"property": prop, "task": task, "violation": viol}
    digest = hashlib.md5(json.dumps(doc, sort_keys=True, default=str).encode()).hexdigest()[:10]
    fname = os.path.join(path, f"{prop}_{digest}.json")
    with open(fname, "w", encoding="utf-8") as fh:
        json.dump(doc, fh, indent=1, default=str)
    return fname


def replay(fname):
    with open(fname, encoding="utf-8") as fh:
        doc = json.load(fh)
    mod = importlib.import_module("checks." + doc["property"].lower())
    quiet()
    res = mod.run(doc["task"])
    for viol in res["v"]:
        print(json.dumps(viol, default=str))
    print("replayed:", len(res["v"]), "violation(s)")
    return 1 if res["v"] else 0


def run_check(prop, tier):
    t_start = time.time()
    modname = "checks." + prop.lower()
    mod = importlib.import_module(modname)
    quiet()
    limit = getattr(mod, "TASK_LIMIT", {"quick": 120, "thorough": 600})[tier]
    budget = getattr(mod, "BUDGET", {"quick": 600, "thorough": 6000})[tier]
    workers = getattr(mod, "WORKERS", N_WORKERS)
    tasks = mod.tasks(tier)
    findings = load_findings()
    # known findings do not count for stopping early
    results = _execute(modname, tasks, limit, t_start + budget, getattr(mod, "STOP_AFTER", int(os.environ.get("VERIF_STOP", "60"))), workers)

    n_exec = n_trans = n_skipped = n_notrun = 0
    outcomes = set()
    known = {}
    new = []
    skips = []
    extra = {}
    for task, res in zip(tasks, results):
        if res is None:
            n_notrun += 1
            continue
        n_exec += res.get("n", 0)
        n_trans += res.get("t", 0)
        outcomes.update(res.get("out", []))
        for k, v in res.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v
        if res.get("skip"):
            n_skipped += 1
            skips.append(res["skip"])
        for viol in res["v"]:
            hit = [f for f in findings if matches(f, prop, viol)]
            if hit:
                known.setdefault(hit[0]["what"], []).append(viol)
            else:
                new.append((task, viol))

    if os.environ.get("VERIF_DUMP"):  # development aid: every violation, unconfirmed
        with open(os.environ["VERIF_DUMP"], "w", encoding="utf-8") as fh:
            json.dump([v for _, v in new], fh, default=str)
        order = sorted((r["wall"], json.dumps(t)[:160]) for t, r in zip(tasks, results) if r is not None)[-12:]
        print("slowest:", *[f"{w:.1f}s {t}" for w, t in reversed(order)], sep="\n  ")
    confirmed, unstable = [], []
    if new:
        # a violation counts when its task fails again (same task, fresh worker)
        seen, again = [], []
        for task, viol in new:
            if task not in seen and len(seen) < 12:
                seen.append(task)
        again = _execute(modname, seen, limit * 2, time.time() + 200, 10**9, workers)
        for task, res in zip(seen, again):
            viols = [v for t, v in new if t == task]
            if res is not None and [v for v in res["v"] if not any(matches(f, prop, v) for f in findings)]:
                confirmed.extend((task, v) for v in viols)
            else:
                unstable.extend((task, v) for v in viols)

    for what, viols in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} [{len(viols)} case(s)]")
    shown = set()
    for task, viol in confirmed:
        sig = json.dumps(viol.get("key", {}), sort_keys=True, default=str)
        if sig in shown or len(shown) >= 8:
            continue
        shown.add(sig)
        path = write_replay(prop, task, viol)
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + str(viol["msg"])[:600].replace("\n", " | "))
    for task, viol in unstable[:3]:
        print(f"note: not reproduced, not counted: {viol['msg']}"[:400])
    for reason in sorted(set(skips))[:5]:
        print("note: skipped:", reason.replace("\n", " | ")[:700])

    wall = time.time() - t_start
    level = mod.LEVEL
    samples = [json.loads(json.dumps(t, default=str)) for t in tasks[:: max(1, len(tasks) // 3)][:3]]
    samples = [s if len(json.dumps(s)) < 3000 else {"abridged": json.dumps(s)[:3000]} for s in samples]
    complete = n_notrun == 0 and n_skipped == 0
    coverage = {
        "samples": samples, "exhaustive": bool(complete), "tasks": len(tasks), "tasks_not_run": n_notrun,
        "tasks_skipped": n_skipped, "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        **extra,
    }
    if level == "model_checking":
        coverage.update(states=len(outcomes), transitions=n_trans, traces_validated_against_impl=n_exec, rule=mod.RULE)
    else:
        coverage.update(evaluations=n_exec, distinct_nontrivial=len(outcomes), rule=mod.RULE, steps=n_trans)
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    print(f"{prop} {tier}: tasks={len(tasks)} executions={n_exec} steps={n_trans} outcomes={len(outcomes)} "
          f"violations={len(confirmed)} known={sum(map(len, known.values()))} unstable={len(unstable)} "
          f"skipped={n_skipped} not_run={n_notrun} wall={wall:.1f}s")
    sys.stdout.flush()
    return 1 if confirmed else 0
