"""The Lean side of the argument.

theory/Kalman.lean proves what follows from the recursions of spec.py for all
inputs and lengths.  On every run one file is generated and given to Lean: the
theory, the defining equations of spec.py as Lean hypotheses with a proof that
they are the ones the theory is about ("links"), and the equalities of matrix
expressions that this run's verification conditions needed ("certificates"),
which Lean proves again from the definitions alone.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time

from . import terms as tm
from .core import CTX, Ctx, SInt, Unsupported

import z3


class NoLean(Exception):
    pass


# ------------------------------------------------------------------ printing
def idx_text(i):
    if i is None:
        return ""
    i = SInt.of(i)
    parts = []
    for nm, c in i.t:
        if c != 1 or not re.fullmatch(r"\w+", nm):
            raise NoLean("index")
        parts.append(nm)
    s = " + ".join(parts) or str(i.c)
    if parts and i.c:
        s += f" {'+' if i.c > 0 else '-'} {abs(i.c)}"
    return s


class Link:
    """Prints terms over the names of the theory."""

    NAMES = {"x": "r.x", "P": "r.P", "xp": "r.xp", "Pp": "r.Pp", "S": "r.S", "K": "r.K", "G": "s.G", "xs": "s.x",
             "Ps": "s.P", "A": "A", "H": "H", "Q": "Q", "R": "R", "z": "z", "u": "u"}

    def poly_atom(self, p):
        """The single atom a polynomial consists of."""
        if len(p.m) == 1:
            ((s, w), c), = p.m.items()
            if c == 1 and not s and len(w) == 1 and not w[0] & 1:
                return tm.ATOMS[w[0] >> 1]
        raise NoLean("argument")

    def atom(self, a):
        if a.kind == "sym":
            fam, idx = a.data
            if fam.name not in self.NAMES:
                raise NoLean(fam.name)
            return f"{self.NAMES[fam.name]} ({idx_text(idx)})" if idx is not None else self.NAMES[fam.name]
        if a.kind == "op":
            name, args = a.data
            if name == "ctl":
                b, u = (self.poly_atom(x) for x in args)
                if b.kind != "sym" or b.data[0].name != "B" or u.data[0].name != "u" or b.data[1].key != u.data[1].key:
                    raise NoLean("control")
                return f"c ({idx_text(b.data[1])})"
            return f"{name} " + " ".join(f"({self.atom(self.poly_atom(x))})" for x in args)
        raise NoLean(a.kind)

    def node(self, n):
        o, k = n.op, n.kids
        if o == "atom":
            return self.atom(n.arg)
        if o == "eye":
            return "1"
        if o == "zero":
            return "0"
        if o in ("add", "sub", "mul"):
            s = {"add": "+", "sub": "-", "mul": "*"}[o]
            return f"({self.node(k[0])}) {s} ({self.node(k[1])})"
        if o == "neg":
            return f"-({self.node(k[0])})"
        if o == "t":
            return f"({self.node(k[0])})ᵀ"
        if o == "inv":
            return f"({self.node(k[0])})⁻¹"
        raise NoLean(o)


SETTLE = "(try simp only [linSys, ekfSys]) <;> first | rfl | (expand; done) | (expand; abel)"


def equations(cfg):
    """The defining equations of spec.py at a symbolic index, printed."""
    from .spec import World
    W = World(cfg)
    ctx = Ctx()
    CTX.v = ctx
    try:
        cfg.base(ctx, 1)
        k = SInt.var("k")
        ctx.assume(z3.And(k.z >= 0, k.z < z3.Int("T")))
        P = Link()
        out = {}
        for nm in ("px", "pP", "S", "K"):
            out[nm] = P.node(getattr(W, nm).unfold(k).n)
        out["x"] = P.node(W.sx.unfold(SInt.of(k + 1)).n)
        out["P"] = P.node(W.sP.unfold(SInt.of(k + 1)).n)
        last = SInt.of(cfg.T - 1)
        out["lastx"], out["lastP"] = P.node(W.rx.unfold(last).n), P.node(W.rP.unfold(last).n)
        ctx.assume(k.z < z3.Int("T") - 1)
        out["G"], out["rx"], out["rP"] = (P.node(getattr(W, f).unfold(k).n) for f in ("G", "rx", "rP"))
        return out
    finally:
        CTX.v = None


def link_text(ekf):
    from .spec import Cfg
    e = equations(Cfg("general", ekf=ekf, control="noB" if ekf else "both"))
    if ekf:
        model = "ekfSys f JA h JH u Q R"
        var = ("{U : Type*} (f : Vec n → U → Vec n) (JA : Vec n → U → Mat n n) (h : Vec n → Vec m) "
               "(JH : Vec n → Mat m n) (u : ℕ → U)")
        nm = "ekf"
    else:
        model = "linSys A c H Q R"
        var = "(A : ℕ → Mat n n) (c : ℕ → Vec n) (H : ℕ → Mat m n)"
        nm = "kf"
    base = ("{n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m] " + var +
            " (Q : ℕ → Mat n n) (R : ℕ → Mat m m) (z : ℕ → Vec m) (T : ℕ) (r : Run n m)")
    f = lambda lean, key, idx="k": f"(h_{key} : ∀ k < T, r.{lean} ({idx}) = {e[key]})"
    g = lambda lean, key: f"(h_{key} : ∀ k < T - 1, s.{lean} k = {e[key]})"
    out = [f"theorem {nm}_filter_spec {base}", "    " + f("xp", "px"), "    " + f("Pp", "pP"), "    " + f("S", "S"),
           "    " + f("K", "K"), "    " + f("x", "x", "k + 1"), "    " + f("P", "P", "k + 1") + " :",
           f"    IsFilter ({model}) z T r where"]
    for lean, key in (("xp", "px"), ("Pp", "pP"), ("S", "S"), ("K", "K"), ("x", "x"), ("P", "P")):
        out.append(f"  {lean} k hk := by refine (h_{key} k hk).trans ?_; {SETTLE}")
    out += ["", f"theorem {nm}_smoother_spec {base} (s : Smooth n)", f"    (h_lx : s.x (T - 1) = {e['lastx']})",
            f"    (h_lP : s.P (T - 1) = {e['lastP']})", "    " + g("G", "G"), "    " + g("x", "rx"),
            "    " + g("P", "rP") + " :", f"    IsSmoother ({model}) T r s where", "  lastx := h_lx", "  lastP := h_lP"]
    for lean, key in (("G", "G"), ("x", "rx"), ("P", "rP")):
        out.append(f"  {lean} k hk := by refine (h_{key} k hk).trans ?_; {SETTLE}")
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ certificates
class Cert:
    """One equality of matrix expressions as a closed Lean statement."""

    def __init__(self, roots):
        self.names, self.types, self.sym, self.defs, self.dims, self.ops = {}, [], [], [], {}, {}
        self.roots, self.at, self.nvar = roots, [], 0

    def dim(self, d):
        d = SInt.of(d)
        if d.is_const():
            return f"Fin {d.c}"
        k = d.key
        if d.c or len(d.t) != 1 or d.t[0][1] != 1:
            raise NoLean("size")
        if k not in self.dims:
            self.dims[k] = f"d{len(self.dims)}"
        return self.dims[k]

    def ty(self, r, c):
        return f"Mat ({self.dim(r)}) ({self.dim(c)})"

    def var(self, key, ty):
        nm = f"v{self.nvar}"
        self.nvar += 1
        self.names[key] = nm
        self.types.append(f"({nm} : {ty})")
        return nm

    def ref(self, a):
        key = a.id
        if key in self.names:
            return self.names[key]
        if a.kind == "inv":
            return f"({self.poly(a.data[0])})⁻¹"
        if a.kind == "op" and a.data[0] != "ctl":
            name, args = a.data
            ps = [x for x in args if isinstance(x, tm.Poly)]
            k = (name, len(ps), tuple(repr(x) for x in args if not isinstance(x, tm.Poly)))
            if k not in self.ops:
                self.ops[k] = f"f{len(self.ops)}"
                self.types.append(f"({self.ops[k]} : " + "".join(self.ty(p.rows, p.cols) + " → " for p in ps) +
                                  self.ty(a.rows, a.cols) + ")")
            return f"({self.ops[k]} " + " ".join(self.poly(tm.canon_poly(p)) for p in ps) + ")"
        if a.kind not in ("sym", "op"):
            raise NoLean(a.kind)
        if a.kind == "sym" and a.data[1] is not None and CTX.v is not None:
            for o in self.at:
                if o.data[0] is a.data[0] and CTX.v.eq(SInt.of(o.data[1]), SInt.of(a.data[1])):
                    self.names[key] = self.names[o.id]
                    return self.names[key]
            if a.data[0].unfold is not None:
                t = a.data[0].unfold(a.data[1])
                if t is not None and t.n.op == "atom" and t.n.arg is not a:
                    self.names[key] = self.ref(t.n.arg)
                    return self.names[key]
            self.at.append(a)
        nm = self.var(key, self.ty(a.rows, a.cols))
        if a.kind == "op":
            B, u = tm.CTL_ARGS[a.id]
            st = tm.ctl_cond(B, u)
            c = CTX.v
            if st is True or st is not False and c is not None and c.prove(st):
                self.defs.append((nm, "0"))
            elif st is False or c is not None and c.prove(z3.Not(st)):
                self.defs.append((nm, self.node(tm.t_mul(B, u).n)))
            return nm
        if a.sym and self.dim(a.rows) == self.dim(a.cols):
            self.sym.append(nm)
        fam, idx = a.data
        if fam.unfold is not None and len(self.names) < 30 and (fam.abbrev or a in self.roots):
            t = fam.unfold(idx)
            if t is not None:
                self.defs.append((nm, self.node(t.n)))
        return nm

    def poly(self, p):
        out = []
        for (s, w), c in sorted(p.m.items()):
            if s:
                raise NoLean("scalars")
            fs = [self.ref(tm.ATOMS[f >> 1]) + ("ᵀ" if f & 1 else "") for f in w]
            x = " * ".join(fs) if fs else f"(1 : {self.ty(p.rows, p.cols)})"
            if c == -1:
                x = f"-({x})"
            elif c != 1:
                x = f"(({c} : ℝ) • ({x}))"
            out.append(x)
        return "(" + " + ".join(out) + ")" if out else f"(0 : {self.ty(p.rows, p.cols)})"

    def node(self, n):
        o, k = n.op, n.kids
        if o == "atom":
            return self.ref(n.arg)
        if o == "eye":
            return f"(1 : {self.ty(n.rows, n.cols)})"
        if o == "zero":
            return f"(0 : {self.ty(n.rows, n.cols)})"
        if o in ("add", "sub", "mul"):
            return f"({self.node(k[0])} {dict(add='+', sub='-', mul='*')[o]} {self.node(k[1])})"
        if o == "neg":
            return f"(-{self.node(k[0])})"
        if o == "t":
            return f"{self.node(k[0])}ᵀ"
        if o == "inv":
            return f"{self.node(k[0])}⁻¹"
        if o == "scale":
            return f"(({n.arg} : ℝ) • {self.node(k[0])})"
        raise NoLean(o)


def statement(a, b):
    """Lean text of `a = b` with the definitions it may use, or None."""
    c = Cert([x.n.arg for x in (a, b) if x.n.op == "atom"])
    try:
        goal = f"{c.node(a.n)} = {c.node(b.n)}"
    except Exception:      # no certificate: nothing depends on it
        return None
    if len(goal) > 3000:
        return None
    used = set(re.findall(r"[vf]\d+", goal))
    for v, t in reversed(c.defs):          # definitions refer to earlier ones only
        if v in used:
            used |= set(re.findall(r"[vf]\d+", t))
    defs = [x for x in c.defs if x[0] in used]
    for v, t in defs:
        used |= set(re.findall(r"[vf]\d+", t))
    types = [x for x in c.types if x[1:x.index(" ")] in used]
    syms = [v for v in c.sym if v in used]
    text = " ".join(types)
    dims = [x for x in c.dims.values() if re.search(rf"\b{x}\b", text)]
    d = " ".join(f"[Fintype {x}] [DecidableEq {x}]" for x in dims)
    ty = f"{{{' '.join(dims)} : Type*}} " if dims else ""
    sy = " ".join(f"(s{i} : {v}ᵀ = {v})" for i, v in enumerate(syms))
    df = " ".join(f"(h{i} : {v} = {t})" for i, (v, t) in enumerate(defs))
    syn = ", ".join(f"s{i}" for i in range(len(syms)))
    hs = ", ".join(f"h{i}" for i in range(len(defs)))
    tries = ["rfl"]
    if hs:
        tries.append(f"(simp only [{hs}]; done)")
    pre = f"(try simp only [{hs}]) <;> " if hs else ""
    tries.append(f"({pre}{TACTIC.replace('SYM', syn)})")
    return f"{ty}{d} {text} {sy} {df} :\n    {goal} := by\n  first\n" + "\n".join(f"  | {t}" for t in tries)


TACTIC = ("(try simp only [Matrix.mul_add, Matrix.add_mul, Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_one, Matrix.one_mul, "
          "Matrix.mul_assoc, Matrix.mul_neg, Matrix.neg_mul, Matrix.transpose_add, Matrix.transpose_sub, Matrix.mul_zero, "
          "add_zero, Matrix.transpose_mul, Matrix.transpose_one, Matrix.transpose_transpose, Matrix.transpose_nonsing_inv, SYM]) "
          "<;> first | rfl | (abel; done)")


# ------------------------------------------------------------------ running
OK_AXIOMS = {"propext", "Classical.choice", "Quot.sound"}


def names(here):
    return re.findall(r"^theorem (\w+)", open(os.path.join(here, "theory", "Kalman.lean")).read(), re.M)


def launch(rep, text, th):
    lean = shutil.which("lean")
    if lean is None:
        th["why"] = "lean is not installed"
        return th
    d = tempfile.mkdtemp(prefix="vk-lean-", dir=rep.tmp)
    f = os.path.join(d, "Run.lean")
    open(f, "w").write(text)
    try:
        th["p"] = subprocess.Popen([lean, "--json", f], stdout=open(f + ".out", "w"), stderr=subprocess.STDOUT, cwd=d,
                                   start_new_session=True)
        rep.procs_lean.append(th["p"])
    except OSError as e:
        th["why"] = str(e)
    th["file"] = f
    return th


def start(rep):
    """Theory and links: writes the file of this run and starts Lean on it."""
    th = dict(t0=time.time(), names=names(rep.here))
    text = open(os.path.join(rep.here, "theory", "Kalman.lean")).read()
    text = text.replace("end Kalman\n", "")
    text += "\n/-! ### links: generated from vk/spec.py -/\n\n"
    for ekf in (False, True):
        text += link_text(ekf) + "\n"
    th["links"] = ["kf_filter_spec", "kf_smoother_spec", "ekf_filter_spec", "ekf_smoother_spec"]
    text += "end Kalman\n\n"
    for n in th["names"] + th["links"]:
        text += f"#print axioms Kalman.{n}\n"
    return launch(rep, text, th)


HEAD = """import Mathlib
open Matrix
namespace Kalman
set_option linter.all false
abbrev Mat (n m : Type*) := Matrix n m ℝ
"""


def start_certs(rep, certs):
    """The equalities of this run's verification conditions, proved again by Lean."""
    th = dict(t0=time.time(), names=[], links=[], certs=[])
    text = HEAD
    line = text.count("\n") + 1
    for i, c in enumerate(certs):
        s = f"theorem cert_{i} {c}\n"
        th["certs"].append((line, line + s.count("\n") - 1))
        text += s
        line += s.count("\n")
    text += "end Kalman\n"
    return launch(rep, text, th)


def messages(th, seconds):
    """Lean's messages, or None with the reason."""
    if "p" not in th:
        return None, th.get("why", "not started")
    try:
        th["p"].wait(timeout=seconds)
    except subprocess.TimeoutExpired:
        os.killpg(th["p"].pid, signal.SIGKILL)
        th["p"].wait()
        return None, f"no answer within {seconds} s"
    out = []
    for ln in open(th["file"] + ".out"):
        try:
            out.append(json.loads(ln))
        except ValueError:
            if ln.strip():
                return None, ln.strip()[:200]
    return out, ""


def finish(rep, th, seconds=200):
    """Waits for Lean on the theory; returns the record for the evidence."""
    res = dict(ok=False, theorems=0, checked=0, seconds=0.0)
    ms, why = messages(th, seconds)
    res["seconds"] = round(time.time() - th["t0"], 2)
    if ms is None:
        res["why"] = why
        return res
    want = th["names"] + th["links"]
    seen, bad = {}, []
    for m in ms:
        row = m.get("pos", {}).get("line", 0)
        data = m.get("data", "")
        x = re.match(r"'Kalman\.(\w+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", data)
        if x:
            seen[x.group(1)] = set(re.split(r",\s*", x.group(3))) if x.group(3) else set()
        elif m.get("severity") == "error" or "sorry" in data:
            bad.append(f"line {row}: {data[:200]}")
    ax = set().union(*seen.values()) if seen else set()
    if not ax <= OK_AXIOMS:
        bad.append(f"axioms {ax - OK_AXIOMS}")
    missing = [n for n in want if n not in seen]
    if missing:
        bad.append("not proved: " + ", ".join(missing))
    res.update(theorems=len(want), checked=len(want) if not bad else len(seen), axioms=sorted(ax), names=want, ok=not bad)
    if bad:
        res["why"] = "; ".join(bad[:4])
    return res


def finish_certs(rep, th, seconds=200):
    n = len(th["certs"])
    res = dict(attempted=n, accepted=0, seconds=0.0)
    ms, why = messages(th, seconds)
    res["seconds"] = round(time.time() - th["t0"], 2)
    if ms is None:
        res["why"] = why
        return res
    failed = set()
    for m in ms:
        row = m.get("pos", {}).get("line", 0)
        if m.get("severity") == "error" or "sorry" in m.get("data", ""):
            hit = {i for i, (a, b) in enumerate(th["certs"]) if a <= row <= b}
            failed |= hit or set(range(n))
    res["accepted"] = n - len(failed)
    res["failed"] = sorted(failed)
    return res
