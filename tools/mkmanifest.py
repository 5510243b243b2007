"""Writes MANIFEST.json from the property list and the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {}
THEOREMS = {}
p = os.path.join(V, "theory", "theorems.json")
if os.path.exists(p):
    THEOREMS = json.load(open(p))
BASE = ("Contracts on the real functions; verification conditions generated by symbolic execution of the "
        "mechanically instrumented source of /repo on every run, loops by inductive invariants")
DER = {"C10", "C13", "C14", "C15", "C16", "C17"}
NOTE = ("Proved for all sizes, series lengths and values in real arithmetic, one proof per shape/type configuration "
        "listed in the evidence. Trusted: instrumentation, matrix normal form, assumed numpy contracts (compared with "
        "executions on every run). Floating-point rounding is not modelled. Without a witness an undischarged obligation "
        "that is not refuted is reported as undecided in the evidence, not as a violation.")
checks = []
for d in props:
    i = d["id"]
    if i in NA:
        continue
    t = "deductive verification: contracts, matrix-algebra and z3 obligations from the current source; witness search by execution"
    note = NOTE
    if i in DER:
        t = "deductive verification: contracts of the functions (obligations from the current source) and Lean theorems over them"
        note = NOTE + " The property follows from the contracts by the Lean theorems listed, re-checked on every run."
    if i == "C22":
        t = "deductive verification: string contracts of the render functions by symbolic execution, z3 strings"
        note = ("Each rendering function is executed symbolically on every path with symbolic tag, distance, commit id, branch and "
                "date; results are compared as string terms.  Reading the repository state (git) is outside the contract.")
    if i == "C23":
        t = "deductive verification: contract of git_pieces_from_vcs over a contract of git, symbolic execution of every path, z3 strings"
        note = ("The function is executed symbolically on every path with a runner that answers like git with arbitrary names, "
                "ids, numbers and failures; assumed: what git prints (executions compare with real repositories).")
    if i == "C24":
        t = "deductive verification: get_versions against the contracts of its sources, versions_from_parentdir on symbolic paths"
        note = ("Every combination of applicable sources with arbitrary answers, each source by its contract (a dictionary or "
                "NotThisMethod); the answers themselves are the subject of C23, C22 and C25.")
    if i == "C25":
        t = "deductive verification: contract of git_versions_from_keywords over refs of any number, loop rule on an arbitrary element, z3 strings"
        note = ("Set comprehensions and the sorted loop are executed on one arbitrary ref of each kind (tag of the form, tag with the "
                "prefix only, other tag, unmarked name, HEAD -> branch); assumed: how git prints refs and dates.")
    if i == "C26":
        t = "deductive verification: contract of run_command over a contract of starting a process, loop rule on an arbitrary candidate"
        note = ("Every way starting a process can end, for a candidate list of any length; arguments, directory and environment are "
                "opaque and must be passed on as they are; assumed: what subprocess.Popen does (executions run real processes).")
    c = dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
             technique=t, level="proof", level_note=note)
    if THEOREMS.get(i):
        c["theorems"] = THEOREMS[i]
    checks.append(c)
json.dump(dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=[dict(property=k, reason=r) for k, r in NA.items()],
               notes="See DESIGN.md. Checks need nothing from setup_cmd; evidence/ and replays/ are rewritten by every run."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
