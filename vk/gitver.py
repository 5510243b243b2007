"""C23, C24, C25: contracts of the functions of _version.py that find the version.

C23: git_pieces_from_vcs is executed on every path with a `runner` that is the
contract of git: every answer is made of arbitrary strings (tag, prefix,
commit ids, branch names, date) and arbitrary numbers (distance, number of
commits and branches).  The pieces it returns are compared with the answers.

C24: versions_from_parentdir on an arbitrary path; get_versions against the
contracts of the sources it asks: each gives an answer or does not apply.

C25: git_versions_from_keywords on a list of refs of any length: comprehensions
act on one arbitrary ref of each kind, the loop in string order visits one
arbitrary ref after it went on at all earlier ones, or has ended.
"""
import os
import time

import z3

from . import strs as S, versions as V
from .strs import Atom, Listing, Num, SInt, SList, SStr, Unsupported, mk

FILE = V.FILE
NO = frozenset(S.WS + S.LINES + " ")
HEX = frozenset("0123456789abcdef")
ROOT = "/the/source tree"
FORM = r"^(.+)-(\d+)-g([0-9a-f]+)$"


class Base:
    def __init__(self, name):
        self.name, self.base, self.vars, self.pieces = name, [], {}, {}
        self.bad = []

    def text(self, name, chars=None, no=NO, full=True):
        z_ = z3.String(name)
        self.vars[name] = z_
        if full:
            self.base.append(z3.Length(z_) > 0)
        t = SStr((Atom(z_, chars, no, full),))
        self.pieces[name] = t
        return t

    def number(self, name, least=0):
        z_ = z3.Int(name)
        self.base.append(z_ >= least)
        self.pieces[name] = SInt(z_)
        return SInt(z_)


FAIL = ("git-dir", "describe", "head", "abbrev-ref", "contains", "commits", "date")


class Git(Base):
    """One symbolic repository as git's answers show it."""

    def __init__(self, kind, dirty, detached=False, fail=None, rc="number", mark="  ", signed=False):
        Base.__init__(self, ", ".join([kind, "dirty" if dirty else "clean"] + (["detached"] if detached else []) +
                                      (["other work trees"] if mark != "  " else []) + (["signed"] if signed else []) +
                                      ([f"git {fail} fails" + ("" if rc == "number" else " (no git)")] if fail else [])))
        self.kind, self.dirty, self.detached, self.fail = kind, dirty, detached, fail
        self.prefix = self.text("prefix", full=False)
        seven = self.text("full7", HEX)
        self.full = seven + self.text("full_rest", HEX)
        self.base.append(z3.Length(z3.String("full7")) == 7)
        self.tag = None
        end = "-dirty" if dirty else ""
        if kind == "untagged":
            self.short = seven
            self.dist = self.number("commits", 1)
            out = self.text("hex", HEX)
        elif kind in ("tagged", "other prefix"):
            self.tag = self.text("tag")
            self.short = self.text("hex", HEX)
            self.dist = self.number("distance")
            if kind == "tagged":
                out = self.prefix + self.tag
            else:
                self.base.append(z3.Not(z3.PrefixOf(S.zs(self.prefix), S.zs(self.tag))))
                out = self.tag
            out = out + "-" + mk((Num(self.dist.z),)) + "-g" + self.short
        else:       # not of the documented form
            out = self.text("odd")
            z_ = S.zs(out)
            self.base += [z3.Contains(z_, "-"), z3.Not(z3.SuffixOf("-dirty", z_)), z3.Not(z3.InRe(z_, S.zregex(FORM)))]
        self.describe = out + end
        if detached:
            self.here = self.text("here")
            self.nbranch = z3.Int("branches")
            self.base.append(self.nbranch >= 0)
            self.pieces["branches"] = SInt(self.nbranch)
            self.names = {"first": self.text("branch_first"), "some": self.text("branch_some")}
            self.master = z3.Bool("has_master")
            self.pieces["has_master"] = S.SBool(self.master)
        else:
            self.branch = self.text("branch")
            self.base.append(S.zs(self.branch) != z3.StringVal("HEAD"))
        self.mark = mark
        self.date = [self.text(x) for x in ("day", "time", "zone")]
        self.above = "gpg: " + self.text("signature", no=frozenset(S.LINES)) + "\n" if signed else ""
        self.rc = None
        if fail and rc == "number":
            z_ = z3.Int("rc")
            self.base.append(z_ != 0)
            self.rc = SInt(z_)
        self.pieces.update(kind=kind, dirty=dirty, detached=detached, fail=fail)

    # ---- the contract of the runner
    def git(self, commands, args, cwd=None, verbose=False, hide_stderr=False, env=None):
        if list(commands) != ["git"]:
            raise Unsupported("command")
        if cwd != ROOT:
            self.bad.append(f"git is asked in {cwd!r}, not in the source tree")
        if (os.environ if env is None else env).get("GIT_DIR"):
            self.bad.append("git sees the caller's GIT_DIR")
        a = list(args)
        w = self.what(a)
        if self.fail and {"rev-list": "commits", "count": "commits"}.get(w, w) == self.fail:
            return None, self.rc
        if w == "git-dir":
            return ".git", 0
        if w == "describe":
            return self.describe, 0
        if w == "head":
            return self.full, 0
        if w == "abbrev-ref":
            return ("HEAD" if self.detached else self.branch), 0
        if w == "contains" and self.detached:
            return Listing(self.lines), 0
        if w in ("rev-list", "count") and self.kind == "untagged":
            if w == "count":
                return mk((Num(self.dist.z),)), 0
            def ids(sep):
                if sep not in (None, "\n"):
                    raise Unsupported("split")
                return SList([], self.dist.z, lambda k: SStr((Atom(z3.String("commit_" + k), HEX, NO, True),)))
            return Listing(ids), 0
        if w == "date":
            d = self.date
            return self.above + d[0] + " " + d[1] + " " + d[2], 0
        raise Unsupported("git " + " ".join(map(str, a)))

    def what(self, a):
        if any(isinstance(x, SStr) for x in a[:-1]) or not a:
            raise Unsupported("git arguments")
        if a[0] == "rev-parse":
            return {("--git-dir",): "git-dir", ("HEAD",): "head", ("--verify", "HEAD"): "head",
                    ("--abbrev-ref", "HEAD"): "abbrev-ref"}.get(tuple(a[1:]))
        if a[0] == "describe":
            m = [i for i, x in enumerate(a) if x == "--match"]
            rest, pat = a[1:], None
            if len(m) == 1 and m[0] + 1 < len(a):
                pat = a[m[0] + 1]
                rest = a[1:m[0]] + a[m[0] + 2:]
            if pat is None or any(isinstance(x, SStr) for x in rest) or \
                    sorted(rest) != ["--always", "--dirty", "--long", "--tags"]:
                raise Unsupported("git describe with other options")
            r = S.equality(pat, self.prefix + "[[:digit:]]*") if S.is_str(pat) else False
            if r is not True and not (not isinstance(r, bool) and S.prove(r.z)):
                raise Unsupported("git describe with another pattern")
            return "describe"
        if a[0] == "branch" and a[1:] in (["--contains"], ["--contains", "HEAD"]):
            return "contains"
        if a[0] == "rev-list" and sorted(a[1:]) in (["--left-right", "HEAD"], ["HEAD"]):
            return "rev-list"
        if a[0] == "rev-list" and sorted(a[1:]) == ["--count", "HEAD"]:
            return "count"
        if a[0] in ("show", "log") and sorted(a[1:]) == ["--format=%ci", "-s", "HEAD"] and a[0] == "show":
            return "date"
        return None

    def lines(self, sep):
        if sep != "\n":
            raise Unsupported("split")

        def member(x, y):
            if x is not None and S.is_str(x) and isinstance(x, SStr) and S.equality(x, self.names["some"]) is True \
                    and y == "master":
                return S.decide(self.master)
            raise Unsupported("search in the list of branches")
        return SList(["* (" + self.here + ")"], self.nbranch, lambda k: self.mark + self.names[k],
                     member=member)

    def spec(self):
        p = {"long": self.full, "dirty": self.dirty}
        if self.detached:
            if not S.decide(self.nbranch > 0):
                p["branch"] = None
            elif S.decide(self.master):
                p["branch"] = "master"
            else:
                p["branch"] = self.names["first"]
        else:
            p["branch"] = self.branch
        if self.kind in ("untagged", "tagged"):
            d = self.date
            p.update({"error": None, "closest-tag": self.tag, "distance": self.dist, "short": self.short,
                      "date": d[0] + "T" + d[1] + d[2]})
        else:
            p = {"error": True}
        return p


def git_states():
    out = []
    for kind in ("tagged", "untagged", "other prefix", "other form"):
        for dirty in (False, True):
            for det in (False, True):
                out.append(Git(kind, dirty, det))
    for f in FAIL:
        for rc in ("number", "none"):
            out.append(Git("untagged" if f == "commits" else "tagged", False, f == "contains", f, rc))
    for rc in ("number", "none"):
        out.append(Git("untagged", True, True, "date", rc))
    for kind in ("tagged", "untagged"):
        out.append(Git(kind, False, True, mark="+ "))
        out.append(Git(kind, True, signed=True))
    return out


def git_units(ns):
    out = []
    for st in git_states():
        for verbose in (False, True):
            def call(st=st, verbose=verbose):
                st.bad.clear()
                keep = os.environ.get("GIT_DIR")
                os.environ["GIT_DIR"] = "/elsewhere/.git"
                try:
                    v = ns["git_pieces_from_vcs"](st.prefix, ROOT, verbose, runner=st.git)
                finally:
                    if keep is None:
                        os.environ.pop("GIT_DIR", None)
                    else:
                        os.environ["GIT_DIR"] = keep
                return v, (None if st.fail else st.spec()), list(st.bad)

            def check(u, c, k, v, st=st):
                if st.fail:
                    u.vc("not applicable", k == "raise" and isinstance(v, ns["NotThisMethod"]),
                         f"{'raises ' + type(v).__name__ if k == 'raise' else 'answers'}: {v} although git fails", st, c)
                    return
                if k == "raise":
                    u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
                    return
                got, want, bad = v
                u.vc("noraise", True, "", st, c)
                u.vc("asks git", not bad, "; ".join(bad), st, c)
                if not isinstance(got, dict):
                    u.vc("shape", False, f"returns {got!r}", st, c)
                    return
                for key, w in want.items():
                    if key == "error" and w is True:
                        e = got.get("error")
                        u.vc("error", S.is_str(e) and (z3.Length(S.zs(e)) > 0 if isinstance(e, SStr) else bool(e)),
                             f"error {e!r}", st, c)
                    elif key not in got:
                        u.vc("shape", False, f"no {key} in the result", st, c)
                    else:
                        u.vc(key, V.eqv(got[key], w), f"{key}: {got[key]!r}, git says {w!r}", st, c)
            s = st if not verbose else st
            out.append(("git_pieces_from_vcs", s, call, check, st.name + (", verbose" if verbose else "")))
    return out


# ------------------------------------------------------------------ C24
class Path(Base):
    """A path whose last three directories start with the prefix, or not."""

    def __init__(self, level):
        Base.__init__(self, f"match at level {level}" if level is not None else "no match")
        no = frozenset("/")
        self.prefix = self.text("prefix", no=no)
        self.rest = self.text("rest", no=no, full=False)
        ds = []
        for i in range(3):
            if i == level:
                ds.append(self.prefix + self.rest)
            else:
                d = self.text(f"dir{i}", no=no)
                if level is None or i < level:
                    self.base.append(z3.Not(z3.PrefixOf(S.zs(self.prefix), S.zs(d))))
                ds.append(d)
        self.root = "/" + self.text("above", no=no) + "/" + ds[2] + "/" + ds[1] + "/" + ds[0]
        self.level = level
        self.pieces["level"] = level


PRINT = frozenset(chr(c) for c in range(33, 127)) - frozenset(",()")
DIGITS = frozenset("0123456789")


class RefText:
    """The names of a commit's refs as git's %d prints them: " (a, b, c)"."""

    def __init__(self, st, stage=0):
        self.st, self.stage = st, stage     # 0: as printed, 1: without the space, 2: without the parentheses

    def strip(self, chars=None):
        if self.stage == 0 and (chars is None or set(chars) == {" "}):
            return RefText(self.st, 1)
        if self.stage == 1 and chars is not None and set(chars) == {"(", ")"}:
            return RefText(self.st, 2)
        if chars is not None and set(chars) == {"(", ")", " "} or chars is None and self.stage:
            return RefText(self.st, 2 if chars else self.stage)
        raise Unsupported("strip of the ref names")

    def startswith(self, x):
        if isinstance(x, str) and x:
            t = (" (", "(", "")[self.stage]
            if not t.startswith(x[:len(t)]):
                return False
            if len(x) <= len(t):
                return True
        raise Unsupported("beginning of the ref names")

    def split(self, sep=None, maxsplit=-1):
        if self.stage != 2 or sep not in (",", ", ") or maxsplit != -1:
            raise Unsupported("split of the ref names")
        return S.SSet(Reps(self.st, sep))

    def __getitem__(self, k):
        if self.stage == 1 and isinstance(k, slice) and (k.start, k.stop, k.step) == (1, -1, None):
            return RefText(self.st, 2)
        raise Unsupported("part of the ref names")

    def __bool__(self):
        return True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("operation " + k + " on the ref names")


class Reps:
    """The generic elements of the list of refs."""

    def __init__(self, st, sep):
        self.st, self.sep = st, sep

    def reps(self):
        out = []
        for r, (name, exists) in enumerate(self.st.refs):
            out.append((r, name, exists))
            if self.sep == ",":         # all but the first
                out.append((r, " " + name, exists))
        return out

    def facts(self, rep):
        return self.st.facts[rep]

    def finished(self, sor):
        self.st.events.append(("end", None, sor.down))

    def absent(self, reps):
        """No ref is of these kinds."""
        self.st.gone |= set(reps)

    def visited(self, rep, x, sor):
        got = ()
        if S.is_str(x):
            got = [S.prove(S.zs(x) == self.st.names[rep]), S.prove(z3.Concat(S.zs(self.st.prefix), S.zs(x)) == self.st.names[rep])]
            if self.st.can[rep] and sum(got) == 1:
                self.st.modes.add(got[0])       # in the order of the names, or of what follows the prefix
        if not any(got) or len(self.st.modes) > 1:
            raise Unsupported("order of the elements of a sorted set")
        self.st.events.append(("visit", rep, sor.down))

    def passed(self, rep, how):
        c = self.st.candidate(rep)
        if not S.prove(z3.Not(c)):
            self.st.lapses.append((z3.Not(c), f"a version tag is {how}", self.st, S.CUR[0]))
        else:
            self.st.settled += 1


class Refs(Base):
    """A commit's refs.  Every ref is of one of the kinds self.refs lists: those that start with the prefix followed by a
    digit (`digit`), with the prefix followed by something else or nothing (`more`), not with the prefix (`other`); unmarked
    names next to marked ones; HEAD -> branch, which does not start with the prefix, or with a prefix inside HEAD."""

    def __init__(self, kind, date):
        Base.__init__(self, f"{kind}, date {date}")
        self.kind = kind
        self.prefix = self.text("prefix", chars=PRINT, full=False)
        self.refs, self.names, self.can, self.facts = [], [], [], []
        self.events, self.lapses, self.settled, self.modes, self.gone = [], [], 0, set(), set()
        if kind != "no refs":
            marked = kind == "marked tags"
            p = S.zs(self.prefix)
            t = self.prefix + self.text("digit", chars=DIGITS) + self.text("rest", chars=PRINT, full=False)
            self.ref("tag: " + t if marked else t, t, True, "tags", z3.Length(S.parts(t)[1].z) == 1)
            w = self.text("more", chars=PRINT, full=False)
            t = self.prefix + w
            self.ref("tag: " + t if marked else t, t, False, "tags", z3.Not(z3.InRe(z3.SubString(S.zs(w), 0, 1), S.DIG)),
                     z3.Or(z3.Length(p) > 0, z3.Length(S.zs(w)) > 0))
            t = self.text("other", chars=PRINT)
            self.ref("tag: " + t if marked else t, t, False, "tags", z3.Not(z3.PrefixOf(p, S.zs(t))))
            if marked:
                u = self.text("unmarked", chars=PRINT)
                self.ref(u, u, False, None)
            b = self.text("branch", chars=PRINT)
            t = "HEAD -> " + b
            self.ref(t, t, False, None, z3.Not(z3.PrefixOf(p, S.zs(t))))
            y = self.text("head", chars=frozenset("HEAD"), full=False)      # the prefix has no space
            t = self.prefix + y + " -> " + b
            self.ref(t, t, False, None, z3.Length(p) + z3.Length(S.zs(y)) > 0, z3.Not(z3.PrefixOf("tag: ", S.zs(t))))
        d = [self.text(x) for x in ("day", "time", "zone")]
        self.iso = d[0] + "T" + d[1] + d[2]
        full = d[0] + " " + d[1] + " " + d[2]
        self.date = {"missing": None, "one line": full, "after other lines": self.text("signature", no=frozenset(S.LINES)) +
                     "\n" + full}[date]
        if date == "missing":
            self.iso = None
        self.full = self.text("full", HEX)
        self.pieces.update(kind=kind, datekind=date)

    def ref(self, text, name, can, exists, *facts):
        self.facts.append(list(facts))
        self.refs.append((text, exists))
        self.names.append(S.zs(name))
        self.can.append(can)

    def flush(self, u):
        """The obligations of the paths that ended at an element the loop passes by."""
        while self.lapses:
            u.vc("every version tag counts", *self.lapses.pop())
        for _ in range(self.settled):
            u.vc("every version tag counts", True, "", self, None)
        self.settled = 0

    def candidate(self, r):
        """Is this ref a version tag (z3)?"""
        return z3.BoolVal(self.can[r])

    def keywords(self):
        k = {"refnames": "" if self.kind == "no refs" else RefText(self), "full": self.full}
        if self.date is not None:
            k["date"] = self.date
        return k


def ref_units(ns):
    out = []
    for kind in ("no refs", "marked tags", "no marked tags"):
        for date in ("missing", "one line", "after other lines"):
            for verbose in (False, True):
                st = Refs(kind, date)

                def call(st=st, verbose=verbose):
                    st.events.clear()
                    st.gone = set()
                    return ns["git_versions_from_keywords"](st.keywords(), st.prefix, verbose), list(st.events), st.gone

                def check(u, c, k, v, st=st):
                    if k == "raise":
                        u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
                        return
                    u.vc("noraise", True, "", st, c)
                    got, events, gone = v
                    if len(events) > 1:
                        u.r.update(status="unsupported", reason="several loops over the refs")
                        return
                    want = {"version": "0+unknown", "full-revisionid": st.full, "dirty": False, "error": True}
                    if events and events[0][0] == "visit":
                        rep = events[0][1]
                        u.vc("lowest", not events[0][2], "the highest version tag is taken first", st, c)
                        u.vc("is a version tag", st.candidate(rep), "the ref taken is not a version tag", st, c)
                        w = got.get("version") if isinstance(got, dict) else None
                        u.vc("version", S.is_str(w) and z3.Concat(S.zs(st.prefix), S.zs(w)) == st.names[rep],
                             f"version {w!r}", st, c)
                        want = {"full-revisionid": st.full, "dirty": False, "error": None, "date": st.iso}
                    elif not events:
                        for rep in range(len(st.refs)):
                            u.vc("no version tag", rep in gone or z3.Not(st.candidate(rep)), "the refs are not looked at", st, c)
                    same_dict(u, st, c, got, want)
                out.append(("git_versions_from_keywords", st, call, check, st.name + (", verbose" if verbose else ""), {}))
    for what in ("no names", "unexpanded"):
        st = Base("keywords " + what)
        extra = st.text("rest", full=False)
        st.pieces.update(kind=what)

        def call(st=st, what=what, extra=extra):
            k = {"full": "$Format:%H$", "date": "$Format:%ci$"}
            if what == "unexpanded":
                k["refnames"] = "$Format" + extra
            return ns["git_versions_from_keywords"](k, "v", False)

        def check(u, c, k, v, st=st):
            u.vc("not applicable", k == "raise" and isinstance(v, ns["NotThisMethod"]),
                 f"{k}: {v} although the keywords are not expanded", st, c)
        out.append(("git_versions_from_keywords", st, call, check, st.name, {}))
    return out


def same_dict(u, st, c, got, want):
    if not isinstance(got, dict):
        u.vc("shape", False, f"returns {got!r}", st, c)
        return
    for key, w in want.items():
        if key == "error" and w is True:
            u.vc("error", S.is_str(got.get("error")) and bool(got.get("error")), f"error {got.get('error')!r}", st, c)
        elif key not in got:
            u.vc("shape", False, f"no {key} in the result", st, c)
        else:
            u.vc("version" if key == "version" else "passed on", V.eqv(got[key], w), f"{key}: {got[key]!r}, expected {w!r}",
                 st, c)


class Chain(Base):
    def __init__(self, kw, git, parent, nofile=False):
        Base.__init__(self, f"keywords {kw}, git {git}, parent {parent}" + (", no __file__" if nofile else ""))
        self.out = dict(kw=kw, git=git, parent=parent)
        self.nofile = nofile
        self.answer = {k: {"version": self.text("version_" + k), "full-revisionid": self.text("id_" + k), "dirty": False,
                           "error": None, "date": self.text("date_" + k)} for k in self.out}
        self.parts = {"long": self.text("long"), "error": None if git == "ok" else self.text("why")}
        if git == "error":
            self.answer["git"].update(version="unknown", dirty=None, error=self.parts["error"], date=None)
        self.pieces.update(kw=kw, git=git, parent=parent, nofile=nofile)
        self.calls = []


def chain_units(ns, root):
    out = []
    for lvl in (0, 1, 2, None):
        for verbose in (False, True):
            st = Path(lvl)

            def call(st=st, verbose=verbose):
                return ns["versions_from_parentdir"](st.prefix, st.root, verbose)

            def check(u, c, k, v, st=st):
                if st.level is None:
                    u.vc("not applicable", k == "raise" and isinstance(v, ns["NotThisMethod"]),
                         f"{k}: {v} although no directory has the prefix", st, c)
                elif k == "raise":
                    u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
                else:
                    u.vc("noraise", True, "", st, c)
                    same_dict(u, st, c, v, {"version": st.rest, "full-revisionid": None, "dirty": False, "error": None,
                                            "date": None})
            out.append(("versions_from_parentdir", st, call, check, st.name + (", verbose" if verbose else ""), {}))
    if "git_versions_from_keywords" in ns and "get_keywords" in ns:
        for what in ("as committed", "no names", "unexpanded"):
            st = Base("keywords " + what)
            extra = st.text("rest", full=False)

            def call(st=st, what=what, extra=extra):
                k = dict(ns["get_keywords"]())
                if what == "no names":
                    k.pop("refnames", None)
                if what == "unexpanded":
                    k["refnames"] = "$Format" + extra
                return ns["git_versions_from_keywords"](k, "v", False)

            def check(u, c, k, v, st=st):
                u.vc("not applicable", k == "raise" and isinstance(v, ns["NotThisMethod"]),
                     f"{k}: {v} although the keywords are not expanded", st, c)
            out.append(("git_versions_from_keywords", st, call, check, st.name, {}))
    NT = ns.get("NotThisMethod", Exception)
    for kw in ("ok", "none"):
        for git in ("ok", "error", "none"):
            for parent in ("ok", "none"):
                for nofile in (False, True):
                    st = Chain(kw, git, parent, nofile)

                    def keywords(keywords, tag_prefix, verbose=False, st=st):
                        if tag_prefix != "v":
                            st.bad.append(f"keywords are read with tag prefix {tag_prefix!r}")
                        if not isinstance(keywords, dict):
                            raise Unsupported("keywords")
                        if st.out["kw"] == "ok":
                            return dict(st.answer["kw"])
                        raise NT("keywords")

                    def pieces(tag_prefix, root_, verbose=False, runner=None, st=st):
                        if tag_prefix != "v":
                            st.bad.append(f"git is asked with tag prefix {tag_prefix!r}")
                        if os.path.realpath(root_) != root:
                            st.bad.append(f"git is asked in {root_!r}")
                        if st.out["git"] != "none":
                            return dict(st.parts)
                        raise NT("git")

                    def render(pieces, style, st=st):
                        if pieces.get("long") is not st.parts["long"]:
                            raise Unsupported("other pieces")
                        if style not in ("pep440", "default", "", None):
                            st.bad.append(f"rendered in style {style!r}")
                        return dict(st.answer["git"])

                    def parentdir(parentdir_prefix, root_, verbose=False, st=st):
                        if parentdir_prefix != "kalmankit-":
                            st.bad.append(f"directories are searched for {parentdir_prefix!r}")
                        if os.path.realpath(root_) != root:
                            st.bad.append(f"directories are searched from {root_!r}")
                        if st.out["parent"] == "ok":
                            return dict(st.answer["parent"])
                        raise NT("parent")

                    def call(st=st):
                        st.bad.clear()
                        keep = ns["__file__"]
                        if st.nofile:
                            del ns["__file__"]
                        try:
                            return ns["get_versions"](), list(st.bad)
                        finally:
                            ns["__file__"] = keep

                    def check(u, c, k, v, st=st):
                        if k == "raise":
                            u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
                            return
                        got, bad = v
                        u.vc("noraise", True, "", st, c)
                        u.vc("asks", not bad, "; ".join(bad), st, c)
                        o = st.out
                        w = {"version": "0+unknown", "full-revisionid": None, "error": True}
                        if o["kw"] == "ok":
                            w = st.answer["kw"]
                        elif st.nofile:
                            pass
                        elif o["git"] != "none":
                            w = st.answer["git"]
                        elif o["parent"] == "ok":
                            w = st.answer["parent"]
                        same_dict(u, st, c, got, w)
                    out.append(("get_versions", st, call, check, st.name,
                                {"git_versions_from_keywords": keywords, "git_pieces_from_vcs": pieces, "render": render,
                                 "versions_from_parentdir": parentdir}))
    return out


def decide(rep):
    thorough = rep.tier == "thorough"
    rep.search(rep.seed, 120 if thorough else 10)
    rep.conformance(60 if thorough else 5, "conform_str.py", "string")
    path = os.path.realpath(os.path.join(rep.repo, FILE))
    lost, models = [], []
    main = {"C23": "git_pieces_from_vcs", "C25": "git_versions_from_keywords", "C26": "run_command"}.get(rep.prop, "get_versions")
    try:
        ns = S.load(path)
        todo = []
        if main not in ns:
            lost.append("no function " + main)
        elif rep.prop == "C26":
            from . import runcmd
            todo = runcmd.units(ns)
        elif rep.prop == "C25":
            todo = ref_units(ns)
        elif rep.prop == "C23":
            todo = [(*x, {}) for x in git_units(ns)]
        else:
            todo = chain_units(ns, os.path.dirname(os.path.dirname(os.path.dirname(path))))
    except Exception as e:
        todo = []
        lost.append(f"the module could not be loaded: {type(e).__name__}: {e}")
    end = time.time() + (600 if thorough else 300 if rep.prop == "C25" else 100)
    for func, st, call, check, name, con in todo:
        if func not in ns:
            lost.append("no function " + func)
            continue
        if lost or rep.failed:
            if rep.peek():         # an execution fails: nothing left to decide
                break
            if time.time() > end:
                lost.append(f"{func}[{name}] and later ones: out of time")
                break
        u = V.run_unit(ns, func, name, st, call, check, "modular", con, seconds=60 if thorough else 40 if rep.prop == "C25" else 20)
        rep.units[u.r["key"]] = u.r
        models += u.models
        if u.r["status"] != "ok":
            lost.append(f"{u.r['unit']}: {u.r['reason']}")
        if u.r["failed"]:
            rep.log(u.r["unit"], [f["detail"] for f in u.r["failed"]][:3])
        rep.failed += [dict(f, unit=u.r["unit"]) for f in u.r["failed"]]
    rep.undecided += lost
    if lost or rep.failed or not rep.obligations()[0]:
        rep.level = "exploration"
    return V.conclude(rep, models)
