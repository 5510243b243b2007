"""Outcome of one check: witness search, replay files, evidence, verdict."""
import ast
import json
import os
import signal
import subprocess
import sys
import tempfile
import time


def interpreters():
    for p in ("/opt/venv/bin/python", sys.executable, "python3-vt"):
        try:
            if subprocess.run([p, "-c", "import numpy"], capture_output=True, timeout=60).returncode == 0:
                return p
        except (OSError, subprocess.SubprocessError):
            pass
    return sys.executable


def literals(repo, version=False):
    """Constants of the source under verification."""
    ints, floats, strings = set(), set(), set()
    root = os.path.join(repo, "src", "kalmankit")
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py") or (f == "_version.py") != version:
                continue
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
                    if isinstance(n.value, int) and 2 < n.value < 10 ** 6:
                        ints.add(n.value)
                    elif isinstance(n.value, float) and n.value not in (0.0, 1.0):
                        floats.add(n.value)
                    elif isinstance(n.value, str) and len(n.value) < 40:
                        strings.add(n.value)
    return sorted(ints), sorted(floats), sorted(strings)


VERSION = {"C22", "C23", "C24", "C25", "C26"}


class Report:
    def __init__(self, prop, tier, seed, repo, out, here, t0, verbose):
        self.prop, self.tier, self.seed, self.repo, self.out, self.here = prop, tier, seed, repo, out, here
        self.t0, self.verbose = t0, verbose
        self.units = {}            # key -> result dict
        self.failed = []           # failed obligations that matter here
        self.undecided = []        # (unit, reason)
        self.bounded = []          # bounded stand-ins
        self.notes = []
        self.theory = None
        self.conc = dict(evaluations=0, skipped=0, distinct=0, samples=[], errors=[], seconds=0.0)
        self.procs = []
        self.procs_lean = []
        self.certs = None
        self.conf = None
        self.tmp = tempfile.mkdtemp(prefix="vk-")
        self.python = interpreters()
        self.violation = None
        self.level = "proof"
        self.extra_cov = {}
        self.assumptions = []
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(out, "replays"), exist_ok=True)

    def log(self, *a):
        if self.verbose:
            print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def note(self, s):
        self.notes.append(s)
        self.log(s)

    # ---- executions of the real code
    def search(self, seed, seconds, models=(), limit=None, shard=None):
        """Starts one witness search."""
        ints, floats, strings = literals(self.repo, self.prop in VERSION)
        hf = os.path.join(self.tmp, f"hints{len(self.procs)}.json")
        of = os.path.join(self.tmp, f"out{len(self.procs)}.json")
        json.dump(dict(ints=ints, floats=floats, strings=strings, models=list(models), shard=shard), open(hf, "w"))
        cmd = [self.python, os.path.join(self.here, "vk", "concrete.py"), "search", "--repo", self.repo,
               "--prop", self.prop, "--seed", str(seed), "--seconds", str(seconds), "--hints", hf, "--out", of]
        if limit:
            cmd += ["--limit", str(limit)]
        env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   VK_TMP=self.tmp)
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(of + ".err", "w"), env=env, cwd=self.tmp,
                             start_new_session=True)
        self.procs.append(dict(p=p, out=of, end=time.time() + seconds * 3 + 60, seen=False, cmd=cmd))

    def conformance(self, seconds, program="conform.py", what="numpy"):
        """Random programs run on the model and on the real thing; the outcome is evidence about the model only."""
        of = os.path.join(self.tmp, "conform.json")
        p = subprocess.Popen([sys.executable, os.path.join(self.here, "vk", program), "--seconds", str(seconds),
                              "--seed", str(self.seed), "--out", of], stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True,
                             env=dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
        self.conf = dict(p=p, out=of, what=what)
        self.procs_lean.append(p)

    def conformance_result(self):
        try:
            self.conf["p"].wait(timeout=30)
            r = json.load(open(self.conf["out"]))
        except (OSError, ValueError, subprocess.SubprocessError):
            return dict(note="no result in time")
        if r["disagreements"]:
            self.note(f"the model of {self.conf['what']} disagrees with it on a random program: " + str(r["disagreements"][0]))
        return r

    def peek(self):
        """A witness found so far, without waiting."""
        for q in self.procs:
            if not q["seen"] and q["p"].poll() is not None:
                self._take(q)
        return self.violation

    def collect(self):
        """Waits for the searches; keeps the first witness."""
        while not self.violation:
            left = [q for q in self.procs if not q["seen"]]
            if not left:
                break
            for q in left:
                if q["p"].poll() is not None:
                    self._take(q)
                elif time.time() > q["end"]:
                    os.killpg(q["p"].pid, signal.SIGKILL)
                    q["p"].wait()
                    self.note("a concrete search did not end in time and was stopped")
                    self._take(q)
            time.sleep(0.05)
        return self.violation

    def _take(self, q):
        q["seen"] = True
        try:
            d = json.load(open(q["out"]))
        except (OSError, ValueError):
            err = open(q["out"] + ".err").read()[-400:]
            self.note("a concrete search gave no result: " + err)
            return
        for k in ("evaluations", "skipped"):
            self.conc[k] += d.get(k, 0)
        self.conc["distinct"] += d.get("distinct", 0)
        self.conc["samples"] = (self.conc["samples"] + d.get("samples", []))[:3]
        self.conc["errors"] = (self.conc["errors"] + d.get("errors", []))[:5]
        self.conc["seconds"] += d.get("seconds", 0.0)
        if d.get("violation") and not self.violation:
            self.violation = d["violation"]

    def kill(self):
        for q in self.procs:
            if q["p"].poll() is None:
                try:
                    os.killpg(q["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                q["p"].wait()
        for p in self.procs_lean:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()

    # ---- verdicts
    def replay_file(self, body):
        p = os.path.join(self.out, "replays", f"{self.prop}.json")
        body = dict(property=self.prop, repo_source="src/kalmankit", **body)
        body["how"] = f"{self.python} {self.here}/vk/concrete.py replay --repo /repo {p}"
        with open(p, "w") as f:
            json.dump(body, f, indent=1, default=str)
        return p

    def obligations(self):
        n = sum(r["nvc"] for r in self.units.values())
        bad = sum(len(r["failed"]) for r in self.units.values())
        return n, n - bad

    def evidence(self, violations):
        n, ok = self.obligations()
        th = self.theory or {}
        n += th.get("theorems", 0)
        ok += th.get("checked", 0)
        z3q = sum(r["z3"][0] for r in self.units.values())
        z3t = sum(r["z3"][1] for r in self.units.values())
        rq = sum(r["ring"][0] for r in self.units.values())
        rt = sum(r["ring"][1] for r in self.units.values())
        bykind = {}
        for r in self.units.values():
            for k, v in r["kinds"].items():
                bykind[k] = bykind.get(k, 0) + v
        fns = {}
        for r in self.units.values():
            f = fns.setdefault(r["function"], dict(configurations=0, obligations=0, discharged=0, paths=0))
            f["configurations"] += 1
            f["obligations"] += r["nvc"]
            f["discharged"] += r["nvc"] - len(r["failed"])
            f["paths"] += r["paths"]
        v = self.prop in VERSION
        cov = dict(
            obligations=n, discharged=ok,
            checker_cmd=f"python3-vt {self.here}/check.py {self.prop} --tier {self.tier}",
            trusted_base=VTRUSTED if self.prop in VERSION else TRUSTED,
            functions_under_contract=fns,
            obligations_by_kind=bykind,
            back_ends={**({"structural comparison of string terms": {}} if v else
                          {"matrix ring normaliser": {"queries": rq, "seconds": round(rt, 3)}}),
                       "z3 " + z3_version(): {"queries": z3q, "seconds": round(z3t, 3)},
                       **({"Lean 4 kernel": {"theorems": th.get("checked", 0), "seconds": th.get("seconds", 0)}}
                          if th else {}),
                       **({"Lean 4 kernel (certificates of matrix equalities)": self.certs} if self.certs else {})},
            evaluations=self.conc["evaluations"], distinct_nontrivial=self.conc["distinct"],
            rule="Executions of the unmodified package by vk/concrete.py on generated models and series, compared with "
                 "an independent oracle written from the property; a case is non-trivial when the oracle applied "
                 "(not skipped as ill-conditioned) and distinct when its scenario differs apart from the seed.",
            samples=self.conc["samples"] or [{"none": "no execution in this run"}],
            skipped_cases=self.conc["skipped"], search_errors=self.conc["errors"],
            undecided=self.undecided, bounded_stand_ins=self.bounded, notes=self.notes,
            failed_obligations=[v["name"] for v in self.failed][:20], **self.extra_cov)
        if th:
            cov["theory"] = th
        if self.conf:
            cov[self.conf["what"] + "_model_conformance"] = self.conformance_result()
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=(GASSUMPTIONS if self.prop in ("C23", "C24", "C25", "C26") else VASSUMPTIONS if self.prop in VERSION else ASSUMPTIONS) + self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=violations)
        p = os.path.join(self.out, "evidence", f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        import shutil
        self.kill()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def violated(self, body, suffix=""):
        p = self.replay_file(body)
        self.evidence(1)
        print(f"VIOLATION property={self.prop} replay={p}{suffix}", flush=True)
        return 1

    def held(self):
        known = known_findings(self.here, self.prop)
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        self.evidence(0)
        n, ok = self.obligations()
        print(f"property={self.prop} held: {ok}/{n} obligations discharged, level {self.level}, "
              f"{self.conc['evaluations']} executions, {time.time() - self.t0:.1f}s")
        for u in self.undecided[:6]:
            print("  undecided:", u)
        for u in self.bounded[:3]:
            print("  bounded:", u)
        return 0

    def finish_after_error(self):
        self.level = "exploration"
        if not self.procs and self.violation is None:
            try:
                self.search(self.seed, 20)
            except Exception as e:
                self.note(str(e))
        v = self.collect()
        if v:
            return self.violated(dict(scenario=v.get("scenario"), what=v.get("what"), arrays=v.get("arrays")))
        return self.held()


def known_findings(here, prop):
    out = []
    try:
        for line in open(os.path.join(here, "known-findings.txt")):
            if line.startswith(f"finding: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


def z3_version():
    import z3
    return z3.get_version_string()


TRUSTED = [
    "vk/instrument.py: mechanical rewriting of the source (loops, comparisons, boolean tests, containers) before execution",
    "vk/symnp.py: contracts assumed for the numpy operations the code uses; every run compares them with NumPy on "
    "random programs over arrays of random sizes (vk/conform.py; coverage.numpy_model_conformance)",
    "vk/terms.py: normal form of matrix expressions and its rule for inverses; accepted equalities are proved again by "
    "Lean where a certificate could be printed (coverage.back_ends counts them)",
    "vk/engine.py: symbolic execution, loop rule with invariants, heap frame",
    "vk/theory.py: printing of the specification's defining equations and of the certificates as Lean statements",
    "z3 for integer and NaN-status conditions",
    "Lean 4 kernel and Mathlib, axioms propext, Classical.choice, Quot.sound",
    "CPython executing the instrumented function bodies",
]
ASSUMPTIONS = [
    "real arithmetic: floating-point rounding, overflow to infinity and 64-bit integer overflow are not modelled",
    "initial covariance and noises are symmetric; that every later covariance then is symmetric is Kalman.symmetric_run and "
    "Kalman.symmetric_smooth (Lean); matrices that are inverted are invertible (properties say so)",
    "the user's model functions (extended filter) are pure, deterministic and return arrays of a documented shape",
    "given arrays are plain numpy arrays of integer or floating-point type (they may alias each other: none is ever written, so aliasing only restricts their contents)",
]
VTRUSTED = [
    "vk/strs.py: rewriting of %, f-strings, method calls and subscripts; contracts of the str and int operations used; "
    "exploration of every path",
    "vk/verspec.py: the documented patterns",
    "z3 for conditions on strings and integers (an unknown answer counts as feasible)",
    "CPython executing the rewritten function bodies",
]
VASSUMPTIONS = [
    "the pieces are a dictionary as git_pieces_from_vcs builds it: tag a non-empty string or None (executions only use names git allows), distance an integer >= 0, "
    "dirty a bool, the others strings (branch and date may be None)",
    "style pep440-pre: the tag has at most one '.post', followed by ASCII digits or nothing",
    "z3 strings range over code points up to 0x2FFFF",
]
GASSUMPTIONS = [
    "git's answers (contract of the runner, vk/gitver.py): stripped texts; describe prints TAG-DISTANCE-gHEX or HEX (with -dirty), "
    "or anything else containing '-' that has no ASCII or other digits in that form; branch names, ids and dates contain no "
    "white space; rev-list prints one id per line and at least one; the checked out branch is not called HEAD",
    "executions compare with real git in scratch repositories",
    "the sources get_versions asks (keywords, git, directory name) give a dictionary or raise NotThisMethod (C24); os.path.realpath and dirname of the module's own path are those of the system",
    "C25: the keywords hold refs as %d prints them, ' (a, b, c)' or nothing, names of printable ASCII characters without space, "
    "comma and parentheses; sorted() visits every element of a set once, in string order",
    "C26 (vk/runcmd.py): starting a process raises FileNotFoundError when there is no such program or directory and another "
    "OSError when it cannot be started, and otherwise gives a process with some output (UTF-8, not beginning or ending with white "
    "space other than ASCII) and some exit code; POSIX; the branch for sys.platform 'win32' is not looked at",
    "path components of versions_from_parentdir are non-empty and contain no '/'; the prefix is not empty",
    "z3 strings range over code points up to 0x2FFFF",
]
