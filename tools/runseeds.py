"""Runs checks against the planted changes in scratch copies.
usage: runseeds.py [--all] [id ...]   (--all: every check, not only the property's)"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = "--all" in sys.argv
only = [a for a in sys.argv[1:] if not a.startswith("--")]
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    name = os.path.basename(d)
    if only and not any(o in name for o in only):
        continue
    m = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        r = os.path.join(tmp, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, check=True)
        for p in (props if allp else [m["property"]]):
            t = time.time()
            q = subprocess.run(["python3-vt", os.path.join(V, "check.py"), p, "--repo", r, "--out", tmp],
                               capture_output=True, text=True)
            what = ""
            try:
                j = json.load(open(os.path.join(tmp, "replays", p + ".json")))
                what = (j.get("what") or j["failed"][0]["name"])[:110]
            except (OSError, KeyError, IndexError):
                pass
            if q.returncode == 1 and not what:
                what = q.stdout[-200:] + q.stderr[-300:]
            nf = "NO-INPUT" if "no-failing" in q.stdout else ""
            mark = "" if p != m["property"] else "<-- own"
            print(f"{name:24s} {p} exit {q.returncode} {time.time()-t:5.1f}s {nf} {what} {mark}", flush=True)
            if q.returncode not in (0, 1) or (q.returncode == 0 and p == m["property"]):
                print(q.stdout[-600:], q.stderr[-800:])
            shutil.rmtree(os.path.join(tmp, "replays"), ignore_errors=True)
    finally:
        shutil.rmtree(tmp)
