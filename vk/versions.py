"""C22: contracts of the rendering functions of _version.py.

Every function is executed on every path on a symbolic repository state: the
tag, commit id, branch, date and error are arbitrary strings, the distance an
arbitrary non-negative integer.  The result is compared, path by path, with the
documented grammar (verspec.py).  Callers are run against the contracts of
plus_or_dot, pep440_split_post and the render_* functions; where such a
contract does not hold or cannot be used, their bodies are executed instead.
"""
import inspect
import os
import time

import z3

from . import strs as S, verspec
from .strs import Atom, Num, SBool, SInt, SStr, Unsupported, mk

FILE = "src/kalmankit/_version.py"
HEX = frozenset("0123456789abcdef")


class State:
    """One symbolic repository state."""

    def __init__(self, tag, dirty, branch="any"):
        self.name = f"tag {tag}, {'dirty' if dirty else 'clean'}" + ("" if branch == "any" else f", branch {branch}")
        self.base = []
        D = z3.Int("distance")
        self.base.append(D >= 0)
        self.dist = SInt(D)
        self.vars = {"distance": D}
        post = None
        self.rel = None
        if tag == "none":
            self.tag = None
        else:
            self.rel = self.text("tag")
            zt = self.rel.p[0].z
            if tag == "any":
                self.tag = self.rel
                self.base.append(z3.Length(zt) > 0)
                self.rel = None
            elif tag == "plain":
                self.tag = self.rel
                self.base += [z3.Length(zt) > 0, z3.Not(z3.Contains(zt, ".post"))]
            else:
                # "x.pos" + "t.post" cannot come about: the release part and ".post" overlap nowhere but at the end
                self.base += [z3.Not(z3.Contains(zt, ".post"))]
                if tag == "post":
                    self.tag, post = self.rel + ".post", 0
                else:
                    n = self.text("postnum")
                    n.p[0].chars = frozenset("0123456789")
                    self.base.append(z3.InRe(n.p[0].z, z3.Plus(S.DIG)))
                    self.tag, post = self.rel + ".post" + n, S.mkint(z3.StrToInt(n.p[0].z))
        self.post = post
        self.dirty = dirty
        self.short, self.long, self.date = self.text("short"), self.text("long"), self.text("date")
        self.branch = None if branch == "None" else self.text("branch")
        self.pieces = {"long": self.long, "short": self.short, "error": None, "branch": self.branch, "dirty": dirty,
                       "closest-tag": self.tag, "distance": self.dist, "date": self.date}

    def text(self, name):
        z_ = z3.String(name)
        self.vars[name] = z_
        return SStr((Atom(z_),))

    def spec(self, style):
        """The documented version."""
        d = dict(tag=self.tag, rel=self.rel, post=self.post, short=self.short, dirty=self.dirty,
                 dist=mk((Num(self.dist.z),)))

        class L(dict):
            def __missing__(me, k):
                if k == "away":
                    return S.decide(self.dist.z > 0)
                if k == "plus":
                    return self.tag is not None and S.decide(S.has(self.tag, "+"))
                if k == "master":
                    return self.branch is not None and bool(self.branch == "master")
                if k == "bump":
                    return S.to_str(S.SInt(S.SInt.lift(self.post) + 1) if isinstance(self.post, SInt) else self.post + 1)
                raise KeyError(k)
        return verspec.version(style, L(d))


def tags(style):
    return ("none", "plain", "post", "postN") if style == "pep440-pre" else ("none", "any")


def states(style):
    return [State(t, d, b) for t in tags(style) for d in (False, True)
            for b in (("any", "None") if style in ("pep440-branch", "pep440-post-branch") else ("any",))]


# ------------------------------------------------------------------ contracts
class Wrong(Unsupported):
    """A contract was used outside its precondition."""


def contract_plus_or_dot(st):
    def plus_or_dot(pieces):
        if pieces.get("closest-tag") is not st.tag or st.tag is None:
            raise Wrong("plus_or_dot: other pieces")
        return "." if S.decide(S.has(st.tag, "+")) else "+"
    return plus_or_dot


def contract_split(st):
    def pep440_split_post(ver):
        if ver is not st.tag or st.rel is None:
            raise Wrong("pep440_split_post: not the tag")
        return st.rel, st.post
    return pep440_split_post


def contract_render(st, style):
    def f(pieces):
        for k, v in st.pieces.items():
            if pieces.get(k) is not v:
                raise Wrong(f"{verspec.FUNCS[style]}: other pieces")
        return st.spec(style)
    return f


# ------------------------------------------------------------------ obligations
class Unit:
    def __init__(self, func, name, mode):
        self.r = dict(key=("version", func, name, mode), status="ok", reason="", nvc=0, kinds={}, failed=[], used=[],
                      paths=0, done=0, time=0.0, z3=(0, 0.0), ring=(0, 0.0), inv=[], notes=[],
                      function=f"{FILE}:{func}", unit=f"version.{func}[{name}]" + ("" if mode == "modular" else " inline"))
        self.models = []

    def vc(self, kind, ok, detail, st, c):
        """ok: bool or z3 term, to be implied by the path condition."""
        self.r["nvc"] += 1
        self.r["kinds"][kind] = self.r["kinds"].get(kind, 0) + 1
        model = None
        if ok is True:
            return True
        neg = [] if ok is False else [z3.Not(ok)]
        res, sol = S._check(c.pc + neg, 8000)
        if ok is not False and res == z3.unsat:
            return True
        if ok is False and res == z3.unsat:      # unreachable
            return True
        if res == z3.sat:
            model = concrete(st, sol.model())
            self.models.append(model)
        self.r["failed"].append(dict(name=f"{self.r['unit']}: {kind}", kind=kind, detail=detail[:600],
                                     pc=[str(x)[:120] for x in c.pc][:20], model=None,
                                     cert="refuted" if res == z3.sat else "undecided"))
        return False


def unescape(v):
    s = v.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), s)


def concrete(st, m):
    """The concrete pieces of a model."""
    def val(x):
        if isinstance(x, SStr):
            out = ""
            for p in x.p:
                if isinstance(p, str):
                    out += p
                else:
                    v = m.eval(p.z, model_completion=True)
                    out += unescape(v) if z3.is_string_value(v) else "0"
            return out
        if isinstance(x, SInt):
            return m.eval(x.z, model_completion=True).as_long()
        return x
    return {k: val(v) for k, v in st.pieces.items()}


def eqv(a, b):
    """a is b as a value: bool or z3 term."""
    if S.is_str(a) and S.is_str(b):
        r = S.equality(a, b)
        return r if isinstance(r, bool) else r.z
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return SInt.lift(a) == SInt.lift(b)
    if isinstance(a, SBool):
        a = bool(a)
    return a is b or (type(a) is type(b) and isinstance(a, bool) and a == b)


def run_unit(ns, func, name, st, call, check, mode="modular", contracts=None, seconds=20):
    """Runs call() on every path; check(unit, ctx, result kind, value)."""
    u = Unit(func, name, mode)
    S.LIMIT[0] = time.time() + seconds
    t0, q0 = time.time(), (S.STATS["queries"], S.STATS["seconds"])
    saved = {}
    for k, f in (contracts or {}).items():
        if k in ns and callable(ns[k]):
            saved[k] = ns[k]
            ns[k] = f
            u.r["used"].append(k)
    try:
        if st.base and S._check(st.base)[0] == z3.unsat:
            u.r.update(status="unsupported", reason="vacuous precondition")
        for c, (k, v) in S.explore(call, st.base):
            u.r["paths"] += 1
            if k == "unsupported":
                u.r.update(status="unsupported", reason=v)
                break
            S.CUR[0] = c
            try:
                check(u, c, k, v)
            finally:
                S.CUR[0] = None
        if hasattr(st, "flush"):
            st.flush(u)
    except Unsupported as e:
        u.r.update(status="unsupported", reason=str(e))
    finally:
        ns.update(saved)
        S.LIMIT[0] = None
    if u.r["nvc"] == 0 and u.r["status"] == "ok":
        u.r.update(status="unsupported", reason="vacuous: no obligation")
    u.r["time"] = time.time() - t0
    u.r["z3"] = (S.STATS["queries"] - q0[0], S.STATS["seconds"] - q0[1])
    return u


def in_ctx(c, f):
    """f() with the path of c, forking allowed only where the path decides."""
    S.CUR[0] = c
    return f()


def check_value(st, spec):
    """The function returns the specified value (compared where it ended)."""
    def run(f):
        def call():
            v = f()
            return v, spec()
        return call

    def check(u, c, k, v):
        if k == "raise":
            u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
            return
        got, want = v
        u.vc("noraise", True, "", st, c)
        if isinstance(want, tuple):
            ok = isinstance(got, (tuple, list)) and len(got) == len(want)
            u.vc("shape", ok, f"returns {got!r}", st, c)
            if ok:
                for a, b in zip(got, want):
                    u.vc("value", eqv(a, b), f"returns {a!r}, documented {b!r}", st, c)
            return
        u.vc("value", eqv(got, want), f"returns {got!r}, documented {want!r}", st, c)
    return run, check


def check_render(st, style, spec):
    def run(f):
        def call():
            v = f()
            return v, spec()
        return call

    def check(u, c, k, v):
        if k == "raise":
            u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
            return
        got, want = v
        u.vc("noraise", True, "", st, c)
        if not isinstance(got, dict):
            u.vc("shape", False, f"returns {got!r}", st, c)
            return
        for key, w in want.items():
            if key not in got:
                u.vc("shape", False, f"no {key} in the result", st, c)
                continue
            u.vc("version" if key == "version" else "passed on", eqv(got[key], w), f"{key}: {got[key]!r}, documented {w!r}",
                 st, c)
    return run, check


def full(st, style):
    return {"version": st.spec(style), "full-revisionid": st.long, "dirty": st.dirty, "error": None, "date": st.date}


def units(ns):
    """All units: (function, state name, thunk(mode))."""
    out = []
    for t in ("any",):
        st = State(t, False)
        run, chk = check_value(st, lambda st=st: contract_plus_or_dot(st)(st.pieces))
        out.append(("plus_or_dot", st, run(lambda st=st: ns["plus_or_dot"](dict(st.pieces))), chk, {}))
    for t in ("plain", "post", "postN"):
        st = State(t, False)
        run, chk = check_value(st, lambda st=st: (st.rel, st.post))
        out.append(("pep440_split_post", st, run(lambda st=st: ns["pep440_split_post"](st.tag)), chk, {}))
    for style in verspec.STYLES:
        f = verspec.FUNCS[style]
        for st in states(style):
            run, chk = check_value(st, lambda st=st, style=style: st.spec(style))
            con = {"plus_or_dot": contract_plus_or_dot(st), "pep440_split_post": contract_split(st)}
            out.append((f, st, run(lambda st=st, f=f: ns[f](dict(st.pieces))), chk, con))
    for style in verspec.STYLES + (None, "", "default"):
        real = style or "pep440"
        real = "pep440" if real == "default" else real
        for st in states(real):
            st.name += f", style {style!r}"
            run, chk = check_render(st, style, lambda st=st, real=real: full(st, real))
            con = {verspec.FUNCS[s]: contract_render(st, s) for s in verspec.STYLES}
            con.update({"plus_or_dot": contract_plus_or_dot(st), "pep440_split_post": contract_split(st)})
            out.append(("render", st, run(lambda st=st, style=style: ns["render"](dict(st.pieces), style)), chk, con))
    # the date may be missing
    st = State("any", False)
    st.name += ", no date"
    del st.pieces["date"]
    run, chk = check_render(st, "pep440", lambda st=st: dict(full(st, "pep440"), date=None))
    out.append(("render", st, run(lambda st=st: ns["render"](dict(st.pieces), "pep440")), chk, {}))
    # error states
    for keys in (("long", "short", "error", "dirty", "branch"), None, ("error",)):
        for style in ("pep440", None, "pep440-pre", "git-describe", "any"):
            st = State("any", True)
            st.name = f"error, keys {keys or 'all'}, style {style!r}"
            e = st.text("error")
            st.base.append(z3.Length(e.p[0].z) > 0)
            st.pieces["error"] = e
            if keys:
                st.pieces = {k: st.pieces[k] for k in keys}
            sty = st.text("style") if style == "any" else style
            want = {"version": "unknown", "error": e, "full-revisionid": st.pieces.get("long")}
            run, chk = check_render(st, style, lambda want=want: want)
            out.append(("render", st, run(lambda st=st, sty=sty: ns["render"](dict(st.pieces), sty)), chk, {}))
    # unknown styles
    for known in (False, True):
        st = State("any", known)
        st.name = f"unknown style, {'dirty' if known else 'clean'}"
        sty = st.text("style")
        z_ = sty.p[0].z
        st.base += [z_ != z3.StringVal(x) for x in verspec.STYLES + ("", "default")]
        st.pieces["_style"] = sty

        def call(st=st, sty=sty):
            p = dict(st.pieces)
            p.pop("_style")
            return ns["render"](p, sty)

        def chk(u, c, k, v, st=st):
            u.vc("rejected", k == "raise", f"an unknown style gives {v!r}", st, c)
        out.append(("render", st, call, chk, {}))
    return out


def decide(rep):
    thorough = rep.tier == "thorough"
    rep.search(rep.seed, 120 if thorough else 8)
    rep.conformance(60 if thorough else 5, "conform_str.py", "string")
    path = os.path.join(rep.repo, FILE)
    lost, models = [], []
    try:
        ns = S.load(path)
    except Exception as e:
        ns = {}
        lost.append(f"the module could not be loaded: {type(e).__name__}: {e}")
    todo = units(ns) if "render" in ns else []
    if not todo and not lost:
        lost.append("no function render")
    ok = {}
    good = {}
    for func, st, call, chk, con in todo:
        if func != "render":
            if func not in ns:
                good[func] = False
                continue
            use = {k: f for k, f in con.items() if good.get(k)}
            u = run_unit(ns, func, st.name, st, call, chk, "modular", use)
            if u.r["status"] != "ok" or u.r["failed"]:
                v = run_unit(ns, func, st.name, st, call, chk, "inline") if use else u
                rep.log(func, st.name, u.r["status"], u.r["reason"], [x["detail"] for x in u.r["failed"]][:2])
                if v.r["status"] == "ok" and not v.r["failed"]:
                    u = v
            fine = u.r["status"] == "ok" and not u.r["failed"]
            good[func] = good.get(func, True) and fine
            if fine:
                rep.units[u.r["key"]] = u.r
            else:
                rep.note(f"{u.r['unit']}: contract not proved ({u.r['reason'] or u.r['failed'][0]['detail'][:160]}); its body is "
                         "executed in its callers")
            continue
        use = {k: f for k, f in con.items() if good.get(k)}
        u = run_unit(ns, func, st.name, st, call, chk, "modular", use)
        if (u.r["status"] != "ok" or u.r["failed"]) and use:
            u = run_unit(ns, func, st.name, st, call, chk, "inline")
        rep.units[u.r["key"]] = u.r
        for m in u.models:
            style = m.pop("_style", None) or (st.name.split("style ")[1].strip("'") if "style '" in st.name else None)
            models.append(dict(style="" if style is None else style, pieces=m))
        if u.r["status"] != "ok":
            lost.append(f"{u.r['unit']}: {u.r['reason']}")
        rep.failed += [dict(f, unit=u.r["unit"]) for f in u.r["failed"]]
    rep.undecided += lost
    if lost or rep.failed:
        rep.level = "exploration"
    if not rep.obligations()[0]:
        rep.level = "exploration"
    return conclude(rep, models)


def conclude(rep, models):
    thorough = rep.tier == "thorough"
    w = rep.peek()
    if not w and models:
        rep.log("models", models[:3])
        rep.search(rep.seed + 17, 20, models[:40])
    w = rep.collect()
    if w is None and rep.level != "proof":
        for i in range(4):
            rep.search(rep.seed + 1000 * i + 31, 300 if thorough else 40)
        w = rep.collect()
    fo = [{k: v[k] for k in ("name", "kind", "detail", "pc")} for v in rep.failed[:10]]
    if w is not None:
        return rep.violated(dict(scenario=w.get("scenario"), what=w.get("what"), failed_obligations=fo))
    for f in rep.failed:
        rep.undecided.append(f"{f['name']}: not discharged ({f['detail'][:200]}), and no execution fails")
    return rep.held()
