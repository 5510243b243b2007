"""Executions of the functions that find the version (C23 to C26).

C23 asks git_pieces_from_vcs with a runner that answers like git, and in real
repositories made in a scratch directory.  C25 asks git_versions_from_keywords,
C26 runs run_command on scripts there.  C24 runs get_versions from copies of
_version.py in scratch source trees.  Nothing outside the scratch directory is
written; git only reads there once the repositories are made.
"""
import atexit
import fnmatch
import io
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

TAGS = ["1.0", "0.2.1", "1.0-rc1", "1.0-2-gabc1234", "1.0-dirty", "2.0.post3", "1.0+local.1", "10", "1-g1", "1.0.0-3",
        "3.0-dirty-1-gdeadbee", "1" * 40, "0", "1.0-g", "2024.01.01", "1.0--x"]
PREFIXES = ["v", "", "kalmankit-", "release/", "v-", "V", "vv", "-"]
HEXS = ["abcd", "abc1234", "0000000", "deadbee", "1234567", "a" * 40, "e123456", "0123456789ab"]
NUMS = [0, 1, 2, 7, 9, 10, 12, 99, 100, 101, 1000, 12345, 10 ** 9]
BRANCHES = ["master", "main", "feature/x", "HEAD-1", "dev", "release-1.0", "master2", "x-dirty", "Head", "a", "mastermind", "a/HEAD", "noHEAD",
            "HEADs"]
FULLS = ["0123456789abcdef0123456789abcdef01234567", "deadbeef" * 5, "0" * 40, "abc1234" + "f" * 33]
DATES = [("2024-01-02", "03:04:05", "+0100"), ("1999-12-31", "23:59:59", "-1200"), ("2026-11-20", "00:00:00", "+0000")]
SIG = "gpg: Signature made Tue Jan  2 03:04:05 2024 CET\ngpg:                using RSA key 0123\n"
FAILS = ["git-dir", "describe", "head", "abbrev-ref", "contains", "commits", "date"]


class Skip(Exception):
    pass


# ------------------------------------------------------------------ C23
def fake(v, bad):
    """A runner that answers like git in the repository v."""
    def out(x):
        return x.strip(), 0

    def runner(commands, args, cwd=None, verbose=False, hide_stderr=False, env=None):
        a = [str(x) for x in args]
        if os.path.realpath(cwd or ".") != os.path.realpath("/the/source tree"):
            bad.append(f"git {' '.join(a)} is asked in {cwd!r}")
        if (os.environ if env is None else env).get("GIT_DIR"):
            bad.append("git sees the caller's GIT_DIR")
        no = (None, v["rc"])
        c = a[0] if a else ""
        if a == ["rev-parse", "--git-dir"]:
            return no if v["fail"] == "git-dir" else out(".git")
        if v["fail"] == "git-dir":
            return no
        if c == "describe":
            if v["fail"] == "describe":
                return no
            dirty, long, always, match, tags = "", False, False, [], False
            it = iter(a[1:])
            for x in it:
                if x == "--dirty":
                    dirty = "-dirty"
                elif x.startswith("--dirty="):
                    dirty = x[8:]
                elif x == "--long":
                    long = True
                elif x == "--always":
                    always = True
                elif x == "--tags":
                    tags = True
                elif x == "--match":
                    match.append(next(it, ""))
                elif x.startswith("--match="):
                    match.append(x[8:])
                elif x == "HEAD" or x.startswith("--abbrev"):
                    raise Skip
                else:
                    raise Skip
            end = dirty if v["dirty"] else ""
            if v["kind"] == "other form":
                return out(v["odd"] + end)
            tag = v["tag"]
            if v["kind"] == "tagged":
                tag = v["prefix"] + tag
                if not tags or match and not any(fnmatch.fnmatchcase(tag, m.replace("[[:digit:]]", "[0-9]")) for m in match):
                    tag = None
            if v["kind"] == "untagged" or tag is None:
                return out(v["hex"] + end) if always else (None, 128)
            if v["num"] == 0 and not long:
                return out(tag + end)
            return out(f"{tag}-{v['num']}-g{v['hex']}{end}")
        if a in (["rev-parse", "HEAD"], ["rev-parse", "--verify", "HEAD"]):
            return no if v["fail"] == "head" else out(v["full"])
        if a in (["rev-parse", "--abbrev-ref", "HEAD"],):
            return no if v["fail"] == "abbrev-ref" else out("HEAD" if v["detached"] else v["branch"])
        if a in (["branch", "--contains"], ["branch", "--contains", "HEAD"]):
            if v["fail"] == "contains":
                return no
            if not v["detached"]:
                return out("\n".join(("* " if b == v["branch"] else "  ") + b
                                     for b in sorted({v["branch"], "zz", *v["branches"]})))
            return out("\n".join(["* (" + v["head"] + ")"] + [v["mark"] + b for b in v["branches"]]))
        if c == "rev-list":
            if v["fail"] == "commits":
                return no
            if "--count" in a:
                return out(str(v["num"]))
            ids = "\n".join(("%040x" % (i * 7919 + 3)) for i in range(min(v["num"], 2000)))
            if sorted(a[1:]) == ["--left-right", "HEAD"]:
                ids = "\n".join(("%040x" % (i * 7919 + 3)) for i in range(min(v["num"], 2000)))
            elif a[1:] != ["HEAD"]:
                raise Skip
            return out(ids)
        if c in ("show", "log"):
            f = [x for x in a if x.startswith(("--format=", "--pretty="))]
            if len(f) != 1 or not f[0].endswith("%ci"):
                raise Skip
            return no if v["fail"] == "date" else out(v["sig"] + " ".join(v["date"]))
        raise Skip
    return runner


def expected(v):
    p = {"long": v["full"], "dirty": v["dirty"]}
    if v["detached"]:
        p["branch"] = "master" if "master" in v["branches"] else v["branches"][0] if v["branches"] else None
    else:
        p["branch"] = v["branch"]
    if v["kind"] not in ("tagged", "untagged"):
        return {"error": True}
    d = v["date"]
    p.update({"error": None, "date": d[0] + "T" + d[1] + d[2], "distance": v["num"]})
    if v["kind"] == "tagged":
        p.update({"closest-tag": v["tag"], "short": v["hex"]})
    else:
        p.update({"closest-tag": None, "short": v["full"][:7]})
    return p


def compare(got, want):
    if not isinstance(got, dict):
        return f"returns {got!r}"
    for k, w in want.items():
        if k == "error" and w is True:
            if not isinstance(got.get("error"), str) or not got["error"]:
                return f"no error but {got!r}"
        elif k not in got or type(got[k]) is not type(w) or got[k] != w:
            return f"{k} is {got.get(k)!r}, expected {w!r}"
    return None


def valid(v):
    s = [v["prefix"], v["tag"] or "x", v["branch"], v["odd"], *v["branches"], *v["date"], v["hex"], v["full"]]
    if any(not isinstance(x, str) or any(ord(c) < 33 or ord(c) > 126 for c in x) for x in s):
        return False
    if not all(x for x in s[1:]) or not re.fullmatch("[0-9a-f]{8,}", v["full"]) or not re.fullmatch("[0-9a-f]+", v["hex"]):
        return False
    if any("(" in b or b == "HEAD" for b in [v["branch"], *v["branches"]]):
        return False
    if v["kind"] == "tagged" and not re.match("[0-9]", v["tag"]) or v["num"] < (v["kind"] == "untagged"):
        return False
    if v["kind"] == "untagged" and v["num"] > 2000:
        return False
    if v["kind"] == "other prefix" and v["tag"].startswith(v["prefix"]):
        return False
    if any(c in v["prefix"] for c in "*?[\\"):
        return False
    if v["kind"] == "other form":
        o = v["odd"]
        return "-" in o and not o.endswith("-dirty") and not re.search(r"^(.+)-(\d+)-g([0-9a-f]+)$", o)
    return True


def eval23(v, m):
    if v.get("mode") == "git":
        return real23(v, m)
    if not valid(v):
        return "skip"
    bad = []
    keep = os.environ.get("GIT_DIR")
    os.environ["GIT_DIR"] = "/elsewhere/.git"
    try:
        got = m.git_pieces_from_vcs(v["prefix"], "/the/source tree", v["verbose"], runner=fake(v, bad))
    except Skip:
        return "skip"
    except m.NotThisMethod as e:
        return "ok" if v["fail"] else f"does not apply ({e}) in a git repository"
    except Exception as e:
        return f"raises {type(e).__name__}: {e}"
    finally:
        os.environ.pop("GIT_DIR", None)
        if keep is not None:
            os.environ["GIT_DIR"] = keep
    if v["fail"]:
        if v["fail"] == "contains" and not v["detached"] or v["fail"] == "commits" and v["kind"] != "untagged" or \
                v["fail"] == "date" and v["kind"] not in ("tagged", "untagged"):
            return "ok"
        return f"git fails at {v['fail']}, but the answer is {got!r}"
    return bad[0] if bad else compare(got, expected(v)) or "ok"


def case23(**k):
    d = dict(prefix="v", tag="1.0", num=3, hex="abc1234", dirty=False, kind="tagged", full=FULLS[0], branch="master",
             detached=False, branches=["main"], date=DATES[0], fail=None, rc=128, verbose=False, odd="a-b", mode="fake",
             mark="  ", head="HEAD detached at abc1234", sig="")
    d.update(k)
    return d


REAL = [dict(commits=3, tags={0: ["v1.0"]}, dirty=False), dict(commits=1, tags={0: ["v1.0"]}, dirty=False),
        dict(commits=1, tags={0: ["v1.0"]}, dirty=True), dict(commits=4, tags={}, dirty=False),
        dict(commits=2, tags={}, dirty=True), dict(commits=4, tags={0: ["v1.0"], 2: ["vnext", "other-3"]}, dirty=True),
        dict(commits=3, tags={1: ["v1.0-rc1-2-gabc"]}, dirty=False), dict(commits=2, tags={0: ["1.0"], 1: ["w2.0"]}, dirty=False),
        dict(commits=12, tags={0: ["v0.9"], 1: ["v1.0-dirty"]}, dirty=False), dict(commits=2, tags={0: ["v3"]}, dirty=True,
                                                                                     branch="feature/y"),
        dict(commits=3, tags={1: ["v1.0"]}, dirty=False, detach=True), dict(commits=2, tags={}, dirty=False, detach=True,
                                                                             branch="zeta"),
        dict(commits=3, tags={0: ["v1.0"]}, dirty=False, hostile=True), dict(commits=3, tags={0: ["v1.0"]}, annotate=True,
                                                                              dirty=False),
        dict(commits=2, tags={0: ["v1.0"]}, dirty=False, sub=True), dict(commits=3, tags={}, dirty=False, broken=True)]

_TMP = []


def scratch():
    if not _TMP:
        _TMP.append(tempfile.mkdtemp(prefix="vkgit-", dir=os.environ.get("VK_TMP")))
        atexit.register(lambda: shutil.rmtree(_TMP[0], ignore_errors=True))
        os.environ.update(GIT_CEILING_DIRECTORIES=os.path.realpath(_TMP[0]), GIT_CONFIG_GLOBAL="/dev/null",
                          GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
                          GIT_COMMITTER_EMAIL="a@b", GIT_AUTHOR_DATE="2024-01-02 03:04:05 +0100",
                          GIT_COMMITTER_DATE="2024-01-02 03:04:05 +0100", LC_ALL="C")
        for k in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
            os.environ.pop(k, None)
    return _TMP[0]


def sh(d, *a):
    r = subprocess.run(["git", *a], cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise Skip
    return r.stdout.strip()


def repo(v, d):
    """Makes the repository v in d."""
    os.makedirs(d, exist_ok=True)
    sh(d, "init", "-q")
    sh(d, "symbolic-ref", "HEAD", "refs/heads/" + v.get("branch", "master"))
    with open(os.path.join(d, "tracked"), "w") as f:
        f.write("a")
    sh(d, "add", "tracked")
    for i in range(v["commits"]):
        sh(d, "commit", "-q", "--allow-empty", "-m", f"c{i}")
        for t in v["tags"].get(i, v["tags"].get(str(i), [])):
            sh(d, "tag", *(["-a", "-m", "x"] if v.get("annotate") else []), t)
    if v["dirty"]:
        with open(os.path.join(d, "tracked"), "w") as f:
            f.write("b")
    if v.get("detach"):
        sh(d, "checkout", "-q", "--detach")
    if v.get("broken"):                  # the first commit is missing, the history cannot be counted
        o = sh(d, "rev-parse", "HEAD~2")
        os.unlink(os.path.join(d, ".git", "objects", o[:2], o[2:]))


_REPOS = {}


def made(v):
    k = repr(sorted(v.items(), key=str))
    if k not in _REPOS:
        d = os.path.join(scratch(), f"r{len(_REPOS)}")
        repo(v, d)
        _REPOS[k] = d
    return _REPOS[k]


def truth(v, d, prefix="v"):
    full = sh(d, "rev-parse", "HEAD")
    near = None
    for i in range(v["commits"] - 1, -1, -1):
        ts = [t for t in v["tags"].get(i, v["tags"].get(str(i), [])) if re.match(re.escape(prefix) + "[0-9]", t)]
        if ts:
            near = (ts[0], v["commits"] - 1 - i)
            break
    p = {"long": full, "short": full[:7], "dirty": v["dirty"], "branch": v.get("branch", "master"), "error": None,
         "date": "2024-01-02T03:04:05+0100", "closest-tag": None, "distance": v["commits"]}
    if near:
        p.update({"closest-tag": near[0][len(prefix):], "distance": near[1]})
    return p


def real23(v, m):
    v = v["repo"]
    if v.get("plain"):
        d = os.path.join(scratch(), "plain")
        os.makedirs(d, exist_ok=True)
        try:
            return f"{m.git_pieces_from_vcs('v', d, False)!r} outside any repository"
        except m.NotThisMethod:
            return "ok"
        except Exception as e:
            return f"raises {type(e).__name__}: {e} outside any repository"
    try:
        d = made(v)
        want = truth(v, d)
        other = made(dict(commits=1, tags={0: ["v9.9"]}, dirty=False)) if v.get("hostile") else None
    except (Skip, OSError):
        return "skip"
    root = d
    if v.get("sub"):
        root = os.path.join(d, "sub")
        os.makedirs(root, exist_ok=True)
    if other:
        os.environ["GIT_DIR"] = os.path.join(other, ".git")
    try:
        got = m.git_pieces_from_vcs("v", root, False)
    except m.NotThisMethod as e:
        return "ok" if v.get("broken") else f"does not apply ({e}) in a git repository"
    except Exception as e:
        return f"raises {type(e).__name__}: {e} in a git repository"
    finally:
        os.environ.pop("GIT_DIR", None)
    if v.get("broken"):
        return f"the number of commits is unknown, but the answer is {got!r}"
    if len(got.get("short") or "") < 7:
        return f"short id {got.get('short')!r}"
    want["short"] = want["long"][:len(got["short"])]
    return compare(got, want) or "ok"


def gen23(seed, hints):
    g = random.Random(seed)
    for x in hints.get("models", []):
        yield from model23(x)
    for dirty in (False, True):
        for kind in ("tagged", "untagged", "other prefix", "other form"):
            for det in (False, True):
                yield case23(dirty=dirty, kind=kind, detached=det, tag="w2" if kind == "other prefix" else "1.0")
    for r in REAL:
        yield dict(mode="git", repo=r)
    yield dict(mode="git", repo=dict(plain=True))
    for f in FAILS:
        for rc in (128, 1, None):
            yield case23(fail=f, rc=rc, detached=f == "contains")
            yield case23(fail=f, rc=rc, kind="untagged", detached=True)
    for x in (dict(mark="+ "), dict(head="no branch"), dict(sig=SIG)):
        yield case23(detached=True, **x)
        yield case23(detached=True, branches=["b", "master"], kind="untagged", **x)
    for t in TAGS:
        for n in (0, 1, 12):
            yield case23(tag=t, num=n)
            yield case23(tag=t, num=n, dirty=True)
    hs = [x for x in hints.get("strings", []) if 0 < len(x) < 40]
    hi = [i + d for i in hints.get("ints", []) for d in (-1, 0, 1)]
    while True:
        kind = g.choice(["tagged"] * 4 + ["untagged"] * 2 + ["other prefix", "other form"])
        det = g.random() < 0.3

        def text(pool):
            if hs and g.random() < 0.2:
                return g.choice(hs) + g.choice(["", "1", "-x"])
            if g.random() < 0.2:
                return "".join(g.choice("0123456789abcdefg.-+v") for _ in range(g.randrange(1, 12)))
            return g.choice(pool)
        tag = text(TAGS)
        if kind == "tagged" and not tag[:1].isdigit():
            tag = g.choice("0123456789") + tag
        nb = g.choice([0, 0, 1, 2, 3, 5])
        yield case23(prefix=text(PREFIXES) if g.random() < 0.5 else g.choice(PREFIXES), tag=tag, kind=kind, detached=det,
                     num=g.choice(NUMS + hi) if kind != "untagged" else g.choice([1, 2, 3, 9, 10, 11, 100, 101, 256, 999]),
                     hex=g.choice(HEXS), dirty=g.random() < 0.5, full=g.choice(FULLS), branch=text(BRANCHES),
                     branches=[text(BRANCHES) for _ in range(nb)], date=g.choice(DATES),
                     fail=g.choice(FAILS) if g.random() < 0.08 else None, rc=g.choice([128, 1, None, 127]),
                     verbose=False, mark=g.choice(["  ", "  ", "+ "]), sig=g.choice(["", "", SIG]),
                     head=g.choice(["HEAD detached at abc1234", "HEAD detached from v1.0", "no branch",
                                    "no branch, rebasing master", "no branch, bisect started on main"]),
                     odd=g.choice(["a-b", "v1-g1", "v1.0-3-abc", "v1.0-x-gabc", "1-gabc1234", "-1-gabc", "v1-2-gxyz",
                                   "v1-2-gabc-dirt", "1.0-abc1234", text(TAGS) + "-" + text(TAGS)]))


def model23(x):
    """Scenarios from a counterexample of the prover."""
    try:
        v = case23(prefix=x.get("prefix", ""), tag=x.get("tag", "1.0"), kind=x["kind"], dirty=x["dirty"],
                   detached=x["detached"], fail=x["fail"], full=x.get("full7", "") + x.get("full_rest", ""),
                   num=x.get("distance", x.get("commits", 1)), odd=x.get("odd", "a-b"), branch=x.get("branch", "b"))
        v["hex"] = x.get("hex") or "abc1234"
        for k in (v, dict(v, prefix="v", tag="1.0"), dict(v, full=FULLS[0], hex="abc1234")):
            yield k
    except KeyError:
        return


# ------------------------------------------------------------------ C24
def tree(d, text):
    p = os.path.join(d, "src", "kalmankit")
    os.makedirs(p, exist_ok=True)
    p = os.path.join(p, "_version.py")
    with open(p, "w") as f:
        f.write(text)
    return p


def run(text, path, nofile=False):
    """get_versions of a module at path."""
    ns = {"__name__": "kalmankit._version"}
    if not nofile:
        ns["__file__"] = path
    exec(compile(text, path, "exec"), ns)
    return ns["get_versions"]()


def expand(text, refs, full="f" * 40, date="2024-01-02 03:04:05 +0100"):
    n = text.replace("$Format:%d$", refs).replace("$Format:%H$", full).replace("$Format:%ci$", date)
    return n


UNK = {"version": "0+unknown", "error": True, "full-revisionid": None}
CASES24 = [dict(kind="parent", dirs=["x", "y", "kalmankit-1.2.3"], want="1.2.3"),
           dict(kind="parent", dirs=["x", "kalmankit-0.9", "y"], want="0.9"),
           dict(kind="parent", dirs=["kalmankit-0.1-rc1", "x", "y"], want="0.1-rc1"),
           dict(kind="parent", dirs=["kalmankit-1", "kalmankit-2", "kalmankit-3"], want="3"),
           dict(kind="parent", dirs=["kalmankit-1", "kalmankit-2", "x"], want="2"),
           dict(kind="parent", dirs=["kalmankit-1", "kalmankit-", "x"], want=""),
           dict(kind="parent", dirs=["x", "y", "z"], want=None),
           dict(kind="parent", dirs=["kalmankit-1", "x", "y", "z"], want=None),
           dict(kind="parent", dirs=["x", "y", "my-kalmankit-3"], want=None),
           dict(kind="parent", dirs=["x", "y", "kalmankit_3"], want=None),
           dict(kind="parent", dirs=["x", "y", "Kalmankit-3"], want=None),
           dict(kind="parent", dirs=["x", "y", "kalmankit"], want=None),
           dict(kind="parent", dirs=["x", "y", "kalmankit-1.2.3"], want="1.2.3", link="file"),
           dict(kind="parent", dirs=["x", "y", "kalmankit-1.2.3"], want="1.2.3", link="package"),
           dict(kind="parent", dirs=["x", "y", "z"], want=None, link="package"),
           dict(kind="git", dirs=["a"], repo=REAL[0], link="file"),
           dict(kind="nofile", dirs=["x", "y", "kalmankit-1.2.3"]),
           dict(kind="git", dirs=["a"], repo=REAL[0]), dict(kind="git", dirs=["kalmankit-7"], repo=REAL[1]),
           dict(kind="git", dirs=["kalmankit-7"], repo=REAL[4]), dict(kind="git", dirs=["a"], repo=REAL[7]),
           dict(kind="git", dirs=["a"], repo=REAL[2]), dict(kind="git", dirs=["a"], repo=REAL[10]),
           dict(kind="keywords", dirs=["a"], repo=REAL[1], refs=" (HEAD -> master, tag: v2.5, origin/master)", want="2.5"),
           dict(kind="keywords", dirs=["kalmankit-7"], refs=" (tag: v0.3.1)", want="0.3.1"),
           dict(kind="keywords", dirs=["kalmankit-7"], refs=" (HEAD -> master)", want="0+unknown"),
           dict(kind="nofile", dirs=["x"], refs=" (tag: v0.3.1)", want="0.3.1"),
           # a `git` that answers oddly, is not there or fails half way
           dict(kind="fakegit", dirs=["kalmankit-7"], describe="v1.0-x-gabc", want="unknown"),
           dict(kind="fakegit", dirs=["kalmankit-7"], describe="w1.0-3-gabc1234", want="unknown"),
           dict(kind="fakegit", dirs=["x"], describe="v1.0-x-gabc-dirty", want="unknown"),
           dict(kind="fakegit", dirs=["x"], describe="v2.0-3-gabc1234", want="2.0+3.gabc1234"),
           dict(kind="fakegit", dirs=["kalmankit-7"], describe=None, want="7"),
           dict(kind="fakegit", dirs=["x"], describe=None, want="0+unknown"),
           dict(kind="fakegit", dirs=["kalmankit-7"], missing=True, want="7"),
           dict(kind="fakegit", dirs=["x"], missing=True, want="0+unknown")]

SCRIPT = """#!/bin/sh
case "$1 $2" in
  "rev-parse --git-dir") echo .git;;
  "rev-parse --abbrev-ref") echo master;;
  "rev-parse "*) echo 0123456789abcdef0123456789abcdef01234567;;
  "describe "*) %s;;
  "branch "*) echo "* master";;
  "rev-list "*) echo 0123456789abcdef0123456789abcdef01234567;;
  "show "*|"log "*) echo "2024-01-02 03:04:05 +0100";;
  *) exit 3;;
esac
"""
_N = [0]


def eval24(v, m):
    if v["kind"] == "path":
        want = None
        for d in reversed(v["dirs"][-3:]):
            if d.startswith(v["prefix"]):
                want = {"version": d[len(v["prefix"]):], "full-revisionid": None, "dirty": False, "error": None, "date": None}
                break
        try:
            got = m.versions_from_parentdir(v["prefix"], "/" + "/".join(v["dirs"]), v["verbose"])
        except m.NotThisMethod:
            return "ok" if want is None else f"no version found in {v['dirs']} with prefix {v['prefix']!r}"
        except Exception as e:
            return f"raises {type(e).__name__}: {e}"
        if want is None:
            return f"{got!r} although none of the last three directories of {v['dirs']} starts with {v['prefix']!r}"
        return compare(got, want) or "ok"
    with open(m.__file__) as f:
        text = f.read()
    if v.get("refs"):
        if text.count("$Format:%d$") != 1 or text.count("$Format:%H$") != 1:
            return "skip"
        text = expand(text, v["refs"])
    _N[0] += 1
    d = os.path.join(scratch(), f"t{_N[0]}", *v["dirs"])
    os.makedirs(d)
    try:
        want = dict(UNK)
        if v.get("repo"):
            repo(v["repo"], d)
        path = tree(d, text)
        if v.get("link"):                # the module is reached by a symbolic link
            p = os.path.join(scratch(), f"t{_N[0]}", "kalmankit-9", "lib", "kalmankit")
            os.makedirs(p if v["link"] == "file" else os.path.dirname(p))
            q = os.path.join(p, "_version.py")
            if v["link"] == "file":
                os.symlink(path, q)
            else:
                os.symlink(os.path.dirname(path), p)
            path = q
        if v["kind"] == "parent" and v["want"] is not None:
            want = {"version": v["want"], "error": None, "full-revisionid": None, "dirty": False, "date": None}
        if v["kind"] == "git":
            t = truth(v["repo"], d)
            g = sh(d, "rev-parse", "--short", "HEAD") if t["closest-tag"] is not None else t["short"]
            if t["closest-tag"] is None:
                ver = f"0+untagged.{t['distance']}.g{g}" + (".dirty" if t["dirty"] else "")
            else:
                ver = t["closest-tag"]
                if t["distance"] or t["dirty"]:
                    ver += f"+{t['distance']}.g{g}" + (".dirty" if t["dirty"] else "")
            want = {"version": ver, "error": None, "full-revisionid": t["long"], "dirty": t["dirty"], "date": t["date"]}
        if v.get("refs"):
            want = {"version": v["want"], "full-revisionid": "f" * 40, "dirty": False}
            if v["want"] != "0+unknown":
                want.update(date="2024-01-02T03:04:05+0100", error=None)
        if v["kind"] == "fakegit":
            b = os.path.join(d, "bin")
            os.makedirs(b)
            if not v.get("missing"):
                with open(os.path.join(b, "git"), "w") as f:
                    f.write(SCRIPT % ("exit 128" if v["describe"] is None else "echo " + v["describe"]))
                os.chmod(os.path.join(b, "git"), 0o755)
            w = v["want"]
            want = {"version": w, "error": True} if w in ("unknown", "0+unknown") else {"version": w, "error": None}
            keep = os.environ["PATH"]
            os.environ["PATH"] = b
            try:
                got = run(text, path)
            finally:
                os.environ["PATH"] = keep
        else:
            got = run(text, path, v["kind"] == "nofile")
    except (Skip, OSError):
        return "skip"
    except Exception as e:
        return f"get_versions raises {type(e).__name__}: {e} in {v}"
    finally:
        shutil.rmtree(os.path.join(scratch(), f"t{_N[0]}"), ignore_errors=True)
    w = compare(got, want)
    return f"{w} in {v}" if w else "ok"


def gen24(seed, hints):
    g = random.Random(seed)
    yield from CASES24
    names = ["x", "src", "kalmankit", "kalmankit-1.0", "kalmankit-", "kalmankit-2.0-rc1", "v1", "a-kalmankit-3", "1.0", "-",
             "kalmankit-kalmankit-4"]
    hs = [x for x in hints.get("strings", []) if x and len(x) < 20 and "/" not in x and "\0" not in x and x not in (".", "..")]
    for i in range(3000):
        n = g.choice([1, 2, 3, 3, 4, 5])
        yield dict(kind="path", dirs=[g.choice(names + hs) for _ in range(n)], verbose=False,
                   prefix=g.choice(["kalmankit-", "kalmankit-", "v", "x", "kalmankit", "1"] + hs))


# ------------------------------------------------------------------ C25
REFS25 = [[("tag", "v1.0")], [("tag", "v1.0"), ("tag", "v1.0rc1"), ("head", "main")], [("tag", "v0.9"), ("tag", "v0.10")],
          [("head", "HEAD"), ("tag", "stable"), ("tag", "v2")], [("head", "HEAD -> main"), ("tag", "v1"), ("head", "origin/main")],
          [("head", "HEAD -> v1.0")], [("head", "main"), ("head", "v1.0")], [("head", "v2.0"), ("head", "v1.0"), ("head", "v1")],
          [("head", "v3"), ("tag", "w1")], [("tag", "v"), ("tag", "vx"), ("tag", "version-1")], [("tag", "v10"), ("tag", "v9")],
          [("tag", "V1"), ("tag", "v1")], [("tag", "v1-rc"), ("tag", "v1")], [], [("head", "HEAD")], [("tag", "1.0"), ("tag", "v2.0")],
          [("tag", "vv1"), ("tag", "v7")], [("tag", "release/1"), ("tag", "v5")], [("head", "v1"), ("tag", "nodigits")],
          [("head", "tag:v1"), ("tag", "v2")], [("tag", "2"), ("tag", "10")], [("tag", "v1v0")], [("tag", "v3.v"), ("tag", "v20")]]
SIGN = "gpg: Signature made Tue 02 Jan 2024\ngpg: Good signature\n"


def case25(refs, **k):
    v = dict(refs=[list(r) for r in refs], prefix="v", full=FULLS[0], date="2024-01-02 03:04:05 +0100", sign="", verbose=False,
             drop=None)
    v.update(k)
    return v


def eval25(v, m):
    kw = {"full": v["full"], "date": v["sign"] + v["date"] if v["date"] is not None else None}
    kw["refnames"] = " (" + ", ".join(("tag: " if k == "tag" else "") + r for k, r in v["refs"]) + ")" if v["refs"] else ""
    if kw["date"] is None:
        del kw["date"]
    if v["drop"] == "names":
        del kw["refnames"]
    elif v["drop"]:
        kw["refnames"] = "$Format" + v["drop"]
    p = v["prefix"]
    names = [r for k, r in v["refs"] if k == "tag"] or [r for k, r in v["refs"]]
    names = [r[len(p):] for r in names if r.startswith(p) and r[len(p):len(p) + 1] in tuple("0123456789")]
    try:
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            got = m.git_versions_from_keywords(dict(kw), p, v["verbose"])
        finally:
            sys.stdout = out
    except m.NotThisMethod:
        return "ok" if v["drop"] else f"no version from the expanded keywords {kw}"
    except Exception as e:
        return f"raises {type(e).__name__}: {e} with keywords {kw}"
    if v["drop"]:
        return f"{got!r} from keywords that are not expanded: {kw}"
    if names:
        date = None if v["date"] is None else "T".join(v["date"].split()[:2]) + v["date"].split()[2]
        want = {"version": min(names), "full-revisionid": v["full"], "dirty": False, "error": None, "date": date}
    else:
        want = {"version": "0+unknown", "full-revisionid": v["full"], "dirty": False, "error": True}
    w = compare(got, want)
    return f"{w} with keywords {kw} and tag prefix {p!r}" if w else "ok"


def gen25(seed, hints):
    g = random.Random(seed)
    for x in hints.get("models", []):
        yield from model25(x)
    for r in REFS25:
        for p in ("v", "", "HEAD", "kalmankit-", "stable"):
            yield case25(r, prefix=p)
        yield case25(r, sign=SIGN, verbose=True)
        yield case25(r, date=None)
    yield case25(REFS25[0], drop="names")
    yield case25(REFS25[0], drop=":%d$")
    yield case25(REFS25[0], drop="")
    hs = [x for x in hints.get("strings", []) if 0 < len(x) < 30 and x.isascii() and not set(x) & set(" ,()\n\t\\'\"")]

    def name(p):
        if hs and g.random() < 0.15:
            return g.choice(hs) + g.choice(["", "1", "-x"])
        n = "".join(g.choice("0123456789ab.-vrc_/+TH") for _ in range(g.randrange(0, 7)))
        return (g.choice([p, p, p, "v", "", p[:-1], p.upper()]) + g.choice(["", "", "1", "0.", "12", "x"]) + n) or "main"
    while True:
        p = g.choice(PREFIXES + ["v", "v", "", "T", "HEAD"] + hs)
        refs = []
        for _ in range(g.choice([1, 1, 2, 3, 3, 5, 8])):
            refs.append((g.choice(["tag", "tag", "head"]), name(p)))
        if g.random() < 0.3:
            refs = [("head", n) for k, n in refs]
        if g.random() < 0.5:
            refs.insert(0, ("head", g.choice(["HEAD", "HEAD -> main", "HEAD -> v1.0", "HEAD -> " + name(p)])))
        yield case25(refs, prefix=p, full=g.choice(FULLS), date=g.choice([None] + [" ".join(d) for d in DATES]),
                     sign=g.choice(["", "", SIGN, "1999-01-01 00:00:00 +0000\n"]), verbose=g.random() < 0.3)


def model25(x):
    """Scenarios from a counterexample of the prover."""
    def ok(t):
        return t.isascii() and t.isprintable() and not set(t) & set(" ,()")
    p = x.get("prefix", "")
    if not ok(p) or "kind" not in x:
        return
    k = "tag" if x["kind"] == "marked tags" else "head"
    names = [p + (x.get("digit") or "1")[:1] + x.get("rest", ""), p + x.get("more", ""), x.get("other", ""), x.get("branch", "")]
    names = [n for n in names if n and ok(n)]
    for q in ([names[:1]] + [names]) if names else []:
        yield case25([(k, n) for n in q], prefix=p)
        yield case25([(k, n) for n in q] + [("head", "HEAD -> main")], prefix=p, sign=SIGN)


# ------------------------------------------------------------------ C26
PROG = """#!/bin/sh
%(bare)sprintf '%%s\\n' "$#"
for a in "$@"; do printf '<%%s>\\n' "$a"; done
pwd
printf '%%s\\n' "${VK_MARK-unset}"
cat "%(out)s"
cat "%(err)s" >&2
exit %(code)s
"""
ARGS26 = [[], ["a"], ["a b", "", "c"], ["$HOME", "a;b", "*", "it's", '"q"', "|x", "&"], ["--format=%ci", "-n1"], ["\\", "é"],
          ["x"] * 40, [">o"], ["\n"], ["`x`", "$(x)"]]
OUT26 = ["", "one line\n", "\n\n  padded \t\n", "a\nb\n\n", "no end", "täg-1.0-é\n", "\t", "x" * 200000 + "\n", "  a  b  ", "1\r\n2\r\n"]


def case26(**k):
    v = dict(mode="run", args=["a"], out="text\n", err="", code=0, before=0, kind="ok", hide=False, verbose=False, mark="m", cwd=True, bare=False)
    v.update(k)
    return v


class Late(Exception):
    pass


def _late(*a):
    raise Late


def eval26(v, m):
    import signal
    if v["kind"] in ("no directory", "file for a directory") and not v["cwd"]:
        return "skip"
    d = os.path.realpath(tempfile.mkdtemp(dir=scratch()))
    keep, err, ofd = os.dup(2), os.path.join(d, "shown"), None
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        for n, t in (("out", v["out"]), ("err", v["err"])):
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        work = os.path.join(d, "a dir")
        os.makedirs(work)
        prog, tried = os.path.join(d, "prog"), os.path.join(d, "other")
        with open(prog, "w") as f:
            f.write(PROG % dict(out=os.path.join(d, "out"), err=os.path.join(d, "err"), code=v["code"],
                                 bare=f"cat '{os.path.join(d, 'out')}'\nexit {v['code']}\n" if v["bare"] else "")
                    if v["code"] != "signal" else "#!/bin/sh\nkill -9 $$\n")
        os.chmod(prog, 0o755)
        with open(tried, "w") as f:
            f.write("#!/bin/sh\n: > '%s'\n" % os.path.join(d, "mark"))
        os.chmod(tried, 0o755)
        if v["kind"] == "denied":
            prog = work                  # a directory
        if v["kind"] == "no program":
            prog = os.path.join(d, "nothing")
        if v["kind"] == "not a directory":
            prog = os.path.join(d, "out", "prog")
        if v["kind"] == "no directory":
            work = os.path.join(d, "gone")
        if v["kind"] == "file for a directory":
            work = os.path.join(d, "out")
        if v["kind"] == "exec format":
            with open(prog, "wb") as f:
                f.write(b"\x7fELF garbage")
        cmds = [os.path.join(d, f"missing{i}") for i in range(v["before"])] + [prog]
        if v["kind"] != "no program":
            cmds.append(tried)
        env = None if v["mark"] is None else {"PATH": os.environ["PATH"]} if v["mark"] == "none" else \
            {} if v["mark"] == "empty" else dict(os.environ, VK_MARK=v["mark"])
        os.environ["VK_MARK"] = "outer"
        given = (list(cmds), list(v["args"]), dict(env) if env is not None else None)
        old = os.getcwd()
        ofd = os.open(err, os.O_RDWR | os.O_CREAT)
        os.dup2(ofd, 2)
        handler = signal.signal(signal.SIGALRM, _late)
        signal.alarm(20)
        try:
            got = m.run_command(cmds, v["args"], cwd=work if v["cwd"] else None, verbose=v["verbose"], hide_stderr=v["hide"], env=env)
        except Late:
            return f"does not return: {v}"
        except Exception as e:
            return f"raises {type(e).__name__}: {e} for {v}"
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, handler)
            os.dup2(keep, 2)
        short = {k: (x if len(str(x)) < 200 else "long") for k, x in v.items()}
        if (cmds, list(v["args"]), env) != given:
            return f"changes its arguments: {short}"
        if os.getcwd() != old:
            return f"changes the working directory: {short}"
        if os.path.exists(os.path.join(d, "mark")):
            return f"a later candidate is run: {short}"
        with open(err, errors="replace") as f:
            shown = f.read()
        if v["hide"] and shown:
            return f"error output is shown although hidden: {short}"
        if v["kind"] != "ok":
            want = (None, None)
        elif v["code"] == "signal":
            want = (None, -9)
        elif v["code"]:
            want = (None, v["code"])
        else:
            t = f"{len(v['args'])}\n" + "".join(f"<{a}>\n" for a in v["args"]) + (work if v["cwd"] else os.path.realpath(old)) + "\n"
            t += {None: "outer", "none": "unset", "empty": "unset"}.get(v["mark"], v["mark"]) + "\n"
            want = ((v["out"] if v["bare"] else t + v["out"]).strip(), 0)
        if got != want:
            return f"returns {str(got)[:300]}, expected {str(want)[:300]}, for {short}"
        return "ok"
    except OSError:
        return "skip"
    finally:
        sys.stdout = out
        os.environ.pop("VK_MARK", None)
        os.dup2(keep, 2)
        os.close(keep)
        if ofd is not None:
            os.close(ofd)
        shutil.rmtree(d, ignore_errors=True)


KINDS26 = ["ok", "denied", "no program", "not a directory", "exec format", "no directory", "file for a directory"]


def gen26(seed, hints):
    g = random.Random(seed)
    for k in KINDS26:
        for b in (0, 1, 3):
            yield case26(kind=k, before=b)
            yield case26(kind=k, before=b, verbose=True, hide=True)
    for a in ARGS26:
        yield case26(args=a)
    for o in OUT26:
        yield case26(out=o)
        yield case26(out=o, bare=True)
        yield case26(out=o, code=1, err="no\n")
    for c in (1, 2, 126, 127, 128, 255, "signal"):
        yield case26(code=c, verbose=True)
        yield case26(code=c, hide=True, err="no\n")
    for e in ("warning\n", "w" * 200000):
        for h in (False, True):
            yield case26(err=e, hide=h, out="x" * 100000)
    yield case26(mark=None, cwd=False)
    for x in ("", "none", "empty"):
        yield case26(mark=x)
    hi = [i for i in hints.get("ints", []) if 0 < i < 256]
    hs = [x for x in hints.get("strings", []) if 0 < len(x) < 40 and "\0" not in x]
    while True:
        yield case26(kind=g.choice(["ok"] * 4 + KINDS26), before=g.choice([0, 0, 1, 2, 5]), verbose=g.random() < 0.5,
                     args=g.choice(ARGS26 + [[g.choice(["a", "-x", ".", "%s", "{}"] + hs) for _ in range(g.randrange(6))]]),
                     out=g.choice(OUT26) + g.choice([""] + hs), err=g.choice(["", "", "warning\n"]),
                     code=g.choice([0, 0, 0, 1, 3, 128, 255, "signal"] + hi), hide=g.random() < 0.5,
                     mark=g.choice(["m", "a b", "", None, "none", "empty"]), bare=g.random() < 0.3, cwd=g.random() < 0.8)
