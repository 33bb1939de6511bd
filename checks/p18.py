"""P18: an interrupted cached evaluation can always be completed by running it again (crash-point enumeration)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

LEVEL = "fault_enumeration"
TASK_LIMIT = {"quick": 400, "thorough": 3000}
RULE = ("the evaluation runs in a process whose libc file calls are intercepted; it is ended at every single state-changing file operation (open, "
        "write, fsync, close, unlink, rename, truncate, mkdir), a write leaving every listed prefix of its bytes on disk, or the operation is made to "
        "fail; each reached directory state is then completed by a fresh evaluation whose records are compared with an independent plain run")
BOUNDS = {"quick": "both formats; cold, warm and partly filled start; 3 clean-up modes; up to 7 prefixes per write (every byte prefix in the smallest "
                   "evaluation); killed once, and killed twice (second time at every operation of the recovery); EIO/ENOSPC at every operation",
          "thorough": "the same with every byte prefix in all evaluations, two datasets and two repetitions"}
ASSUMPTIONS = ["the interrupted process is killed or the call fails; data already handed to the kernel survives (no power loss reordering)",
               "single-process evaluation (n_jobs=1); file names and runtimes in the records are not compared"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tasks(tier):
    quick = tier == "quick"
    out = []
    base = dict(part="crash", torn="some", fault="kill", depth=1, overs="S", clfs="1")
    for fmt in ("json", "pickle"):
        for s in range(4):  # every byte prefix
            out.append({**base, "fmt": fmt, "clean": "none", "start": "cold", "torn": "all", "shard": (s, 4)})
        for clean in ("oversamplings", "none"):
            out.append({**base, "part": "crash-again", "fmt": fmt, "clean": clean, "start": "cold", "torn": "half", "depth": 2})
        for clean in ("oversamplings", "all", "none"):
            for start in ("cold", "warm", "some"):
                if quick and clean == "all" and start != "warm":
                    continue
                out.append({**base, "fmt": fmt, "clean": clean, "start": start, "overs": "SN", "clfs": "1", "twice": not quick})
        for fault in ("EIO", "ENOSPC"):
            out.append({**base, "part": "io-error", "fmt": fmt, "clean": "oversamplings", "start": "cold", "fault": fault, "overs": "SN", "clfs": "13"})
        if not quick:
            for clean in ("oversamplings", "all", "none"):
                for start in ("cold", "warm", "some"):
                    for s in range(8):
                        out.append({**base, "fmt": fmt, "clean": clean, "start": start, "torn": "all", "overs": "SI", "clfs": "3", "shard": (s, 8)})
                    out.append({**base, "fmt": fmt, "clean": clean, "start": start, "overs": "SIPN", "clfs": "13G", "n_ds": 2, "reps": 2})
                    out.append({**base, "part": "crash-again", "fmt": fmt, "clean": clean, "start": start, "overs": "SI", "torn": "half", "depth": 2})
                    for fault in ("EIO", "ENOSPC"):
                        out.append({**base, "part": "io-error", "fmt": fmt, "clean": clean, "start": start, "fault": fault, "overs": "SI", "clfs": "13"})
    return out


def run(task):
    scratch = tempfile.mkdtemp(prefix="verif_p18_")
    try:
        lib = os.path.join(scratch, "crashfs.so")
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", lib, os.path.join(VERIF, "vlib", "native", "crashfs.c"), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=lib, VERIF_CRASHLIB=lib, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        proc = subprocess.run([sys.executable, os.path.join(VERIF, "vlib", "crashdrive.py"), json.dumps(task), scratch],
                              env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, check=False)
        lines = [ln for ln in proc.stdout.splitlines() if ln.startswith("RESULT ")]
        if not lines:
            return {"n": 0, "t": 0, "out": [], "v": [], "skip": "driver: " + proc.stderr[-500:]}
        return json.loads(lines[-1][7:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
