#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--part NAME] [--scale F] | --replay FILE | --setup"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--part", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    from harness import boot

    if a.setup:
        boot.boot()
        print("kernel:", boot.kernel_so())
        return 0
    boot.boot()
    from harness import core

    if a.replay:
        with open(a.replay) as fp:
            a.id = json.load(fp)["property"]
    module = importlib.import_module("harness.checks." + a.id.lower())
    if a.replay:
        return core.replay(module, a.replay)
    return core.run_check(module, a.tier, a.seed, only=a.part, scale=a.scale, jobs=a.jobs)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
