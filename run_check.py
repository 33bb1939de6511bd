#!/opt/venv/bin/python
"""Entry point: run_check.py <property> [quick|thorough]   or   run_check.py --replay <file>"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "LOKY_MAX_CPU_COUNT": "2", "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1",
    "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1",
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    os.environ["PYTHONPATH"] = repo  # for the processes the checks start
    from vlib import core
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.run_check(prop, tier))


if __name__ == "__main__":
    main()
