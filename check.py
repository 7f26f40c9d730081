#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]"""

import os
import sys

ENV = {
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "agg",
    "QT_QPA_PLATFORM": "offscreen",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

import argparse
import shutil
import tempfile
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when any harness is undecided")
    a = ap.parse_args()
    if a.strict:
        os.environ["VERIF_STRICT"] = "1"
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    tmp = tempfile.mkdtemp(prefix="verif_")
    os.chdir(tmp)
    os.environ["HOME"] = tmp
    try:
        import logging

        logging.disable(logging.CRITICAL)
        from symx import runner

        if a.replay:
            return runner.replay_file(a.replay)
        import quantify_scheduler

        assert os.path.dirname(os.path.dirname(os.path.abspath(quantify_scheduler.__file__))) == os.path.realpath(REPO)
        from harness import index

        if a.selftest:
            import importlib

            import z3

            for m in sorted(set(index.MODULES.values())):
                importlib.import_module("harness." + m).HARNESSES("thorough")
            print("ok: z3", z3.get_version_string(), "modules", len(index.MODULES))
            return 0
        return runner.main(
            a.property,
            a.tier,
            int(os.environ.get("VERIF_SEED", "1")),
            index.MODULES[a.property],
            a.only,
            a.v,
        )
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
