#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--repo /repo]

Decides one property of /verif/properties.jsonl on the current working tree:
generates the verification conditions of the contracted functions the property
depends on from the current source, discharges them, and searches the running
code for a failing input.  Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from vk import goals as G                      # noqa: E402
from vk.report import Report                   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default=HERE, help="where evidence/ and replays/ go")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    rep = Report(a.prop, a.tier, a.seed, a.repo, a.out, HERE, t0, a.v)
    try:
        code = G.decide(rep)
    except Exception:
        # an error of this program is not evidence about the code under test;
        # the executions still are
        rep.note("internal error of the prover: " + traceback.format_exc()[-1500:])
        code = rep.finish_after_error()
    sys.exit(code)


if __name__ == "__main__":
    main()
