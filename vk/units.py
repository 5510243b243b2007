"""Verification units: the real functions with their contracts.

A unit executes one real function (its instrumented source, see instrument)
on symbolic arguments satisfying the precondition and emits the postcondition
as obligations.  In mode "modular" the calls it makes to other functions under
contract are replaced by those functions' contracts; in mode "inline" the
callees are executed too (used only where a callee's interface changed).
"""
import inspect
import time
import traceback
import types

import z3

from . import symnp, terms as tm
from .core import (CTX, STATS, Ctx, Limits, SInt, Unsupported, simp)
from .engine import Heap, Loaded, LoopDB, Source, VList, explore, is_inst
from .spec import Cfg, World
from .symnp import MatBuf, StackBuf, SymArray, float64, fresh_mat, fresh_stack, int64
from .terms import (equal, t_add, t_ctl, t_eye, t_inv, t_mul, t_op, t_sub, t_t, t_zero)

CALLERS = {"placeholder": (), "allnan": (), "filter": ("predict", "update"), "smooth": ("filter", "predict"),
           "init": (), "predict": (), "update": ()}


class Retry(BaseException):
    """The callee's contract cannot be used at this call site."""


def gain_shape(cfg):
    return (cfg.n, cfg.m)


# ------------------------------------------------------------------ stubs
def _bind(orig, self, a, k):
    try:
        b = inspect.signature(orig).bind(self, *a, **k)
        b.apply_defaults()
        return b.arguments
    except TypeError as e:
        raise Retry(f"call does not bind: {e}")
    except ValueError as e:
        raise Retry(str(e))


def _need(c, why):
    if not c:
        raise Retry(why)


def _ismat(v, shape, why):
    _need(isinstance(v, SymArray) and not v.is_stack, f"{why}: not a matrix")
    _need(len(v._shape) == len(shape) and all(tm.deq(x, y) for x, y in zip(v._shape, shape)),
          f"{why}: shape {v._shape} instead of {shape}")


def _shape_in(v, shapes, why):
    for s in shapes:
        if isinstance(v, SymArray) and not v.is_stack and len(v._shape) == len(s) and \
                all(tm.deq(x, y) for x, y in zip(v._shape, s)):
            return s
    raise Retry(f"{why}: shape")


def _dtypes(*vs):
    """The one-step contracts are proved for every mix of these types."""
    for v in vs:
        _need(v.dtype in (float64, int64), "dtype")


def _code(shape, cfg, codes):
    """Shape code of a value among the given ones."""
    for c in codes:
        d = cfg.dims(c)
        if len(d) == len(shape) and all(tm.deq(a, b) for a, b in zip(d, shape)):
            return c
    raise Retry("shape")


def _ints(**arrs):
    return tuple(sorted(k for k, v in arrs.items() if v.dtype is int64))


def ctl_state(v):
    """'val', 'None' or 'NaN' for a control argument."""
    if v is None:
        return "None"
    if v.is_stack:
        raise Retry("control")
    return "NaN" if tm.nan_status(v.term())[0] is True else "val"


def one_shapes(cfg):
    n, m = cfg.n, cfg.m
    xs = [(n,)] + ([(1, 1)] if tm.is1(n) else [])
    qs = [(n, n)] + ([()] if tm.is1(n) else [])
    zs = [(m,)] + ([()] if tm.is1(m) else [])
    rs = [(m, m)] + ([()] if tm.is1(m) else [])
    return xs, qs, zs, rs


def stub_kf_predict(U, orig):
    c = U.cfg
    need = {"Ak", "xk", "Bk", "uk", "Pk", "Qk"}

    def predict(self, *a, **k):
        g = _bind(orig, self, a, k)
        _need(need <= set(g), "parameter names")
        A, x, B, u, P, Q = (g[n] for n in ("Ak", "xk", "Bk", "uk", "Pk", "Qk"))
        xs, qs, _, _ = one_shapes(c)
        _ismat(A, (c.n, c.n), "Ak")
        sx = _shape_in(x, xs, "xk")
        _ismat(P, (c.n, c.n), "Pk")
        sq = _shape_in(Q, qs, "Qk")
        _dtypes(A, Q, x, P)
        mean = t_mul(A.term(), x.term())
        dt = symnp.result_dtype(A.dtype, x.dtype)
        aux = []
        arrs = dict(A=A, x=x, P=P, Q=Q)
        for nm, v, shapes in (("B", B, [(c.n, c.l)]), ("u", u, [(c.l,)])):
            _need(v is None or isinstance(v, SymArray) and not v.is_stack, "control")
            st = ctl_state(v)
            if st == "val":
                _shape_in(v, shapes, nm)
                _dtypes(v)
                arrs[nm] = v
            elif st == "NaN":
                _need(v.dtype is float64, "dtype")
                _shape_in(v, nan_shapes(c, nm), nm)
            aux.append(st)
        U.used.add(("predict", (("xshape", _code(x._shape, c, ("n", "nn"))), ("qshape", _code(Q._shape, c, ("nn", ""))),
                                ("zshape", c.zshape)), _ints(**arrs), tuple(aux)))
        if aux == ["val", "val"]:
            st = tm.ctl_cond(B.term(), u.term())
            if not (st is True or (st is not False and CTX.get().prove(st))):
                full = symnp.result_dtype(dt, B.dtype, u.dtype)
                if full is not dt and (st is False or not CTX.get().branch(st)):
                    dt = full
                mean = t_add(mean, t_ctl(B.term(), u.term(), c.n))
        cov = t_add(t_mul(t_mul(A.term(), P.term()), t_t(A.term())), Q.term())
        return (fresh_mat(mean, sx, dt, name="predict mean"),
                fresh_mat(cov, (c.n, c.n), symnp.result_dtype(A.dtype, P.dtype, Q.dtype), name="predict cov"))
    return predict


def nan_shapes(c, nm):
    """Shapes of an all-NaN placeholder the one-step contract is proved for."""
    return [c.dims("nn")] if nm == "B" else [c.dims(c.zshape)]


def stub_ekf_predict(U, orig):
    c = U.cfg
    need = {"xk", "uk", "Pk", "Qk"}

    def predict(self, *a, **k):
        g = _bind(orig, self, a, k)
        _need(need <= set(g), "parameter names")
        x, u, P, Q = (g[n] for n in ("xk", "uk", "Pk", "Qk"))
        xs, qs, _, _ = one_shapes(c)
        _shape_in(x, xs, "xk")
        _ismat(P, (c.n, c.n), "Pk")
        _shape_in(Q, qs, "Qk")
        _need(u is None or isinstance(u, SymArray) and not u.is_stack, "uk")
        st = ctl_state(u)
        arrs = dict(x=x, P=P, Q=Q)
        if st == "val":
            _shape_in(u, [(c.l,)], "uk")
            _dtypes(u)
            arrs["u"] = u
        elif st == "NaN":
            _need(u.dtype is float64, "dtype")
            _shape_in(u, nan_shapes(c, "u"), "uk")
        Fa = U.I.JA(x, u)
        F = Fa.term()
        mean = U.I.f(x, u)
        _dtypes(mean, Fa, Q, x, P)
        arrs.update(f=mean, JA=Fa)
        U.used.add(("predict", (("xshape", _code(x._shape, c, ("n", "nn"))), ("qshape", _code(Q._shape, c, ("nn", ""))),
                                ("zshape", c.zshape)), _ints(**arrs), ("val", st)))
        cov = t_add(t_mul(t_mul(F, P.term()), t_t(F)), Q.term())
        return mean, fresh_mat(cov, (c.n, c.n), symnp.result_dtype(Fa.dtype, P.dtype, Q.dtype), name="predict cov")
    return predict


def _stub_update(U, self, x, P, z, R, H, hx, dts, more):
    c = U.cfg
    xs, _, zs, rs = one_shapes(c)
    sx = _shape_in(x, xs, "xk")
    _ismat(P, (c.n, c.n), "Pk")
    sz = _shape_in(z, zs, "zk")
    sr = _shape_in(R, rs, "Rk")
    _need(sx == (c.n,) or sz == () or tm.is1(c.m), "shapes")
    _dtypes(z, R, x, P, *dts)
    U.used.add(("update", (("xshape", _code(x._shape, c, ("n", "nn"))), ("zshape", _code(z._shape, c, ("m", ""))),
                           ("rshape", _code(R._shape, c, ("mm", "")))), _ints(z=z, R=R, x=x, P=P, **more), None))
    _need(equal(P.term(), t_t(P.term())), "Pk symmetric")
    log = self.kalman_gains
    _need(isinstance(log, VList), "gain log")
    S = t_add(t_mul(t_mul(H, P.term()), t_t(H)), R.term())
    K = t_mul(t_mul(P.term(), t_t(H)), t_inv(S))
    mean = t_add(x.term(), t_mul(K, t_sub(z.term(), hx)))
    cov = t_mul(t_sub(t_eye(c.n), t_mul(K, H)), P.term())
    log.append(fresh_mat(K, gain_shape(c), float64, name="gain"))
    return (fresh_mat(mean, sx, float64, name="update mean"),
            fresh_mat(cov, (c.n, c.n), float64, name="update cov"))


def stub_kf_update(U, orig):
    c = U.cfg

    def update(self, *a, **k):
        g = _bind(orig, self, a, k)
        _need({"Hk", "xk", "Pk", "zk", "Rk"} <= set(g), "parameter names")
        H, x, P, z, R = (g[n] for n in ("Hk", "xk", "Pk", "zk", "Rk"))
        _ismat(H, (c.m, c.n), "Hk")
        _need(isinstance(x, SymArray) and not x.is_stack, "xk")
        return _stub_update(U, self, x, P, z, R, H.term(), t_mul(H.term(), x.term()), [H], dict(H=H))
    return update


def stub_ekf_update(U, orig):
    def update(self, *a, **k):
        g = _bind(orig, self, a, k)
        _need({"xk", "Pk", "zk", "Rk"} <= set(g), "parameter names")
        x, P, z, R = (g[n] for n in ("xk", "Pk", "zk", "Rk"))
        _need(isinstance(x, SymArray) and not x.is_stack, "xk")
        H, hx = U.I.JH(x), U.I.h(x)
        return _stub_update(U, self, x, P, z, R, H.term(), hx.term(), [], dict(JH=H, h=hx))
    return update


def stub_filter(U, orig):
    c = U.cfg
    W = U.W

    def filter(self, *a, **k):
        g = _bind(orig, self, a, k)
        _need({"Z", "U"} <= set(g), "parameter names")
        _need(g["Z"] is U.I.Z and g["U"] is U.I.U, "filter called on other data")
        log = self.kalman_gains
        _need(isinstance(log, VList) and not log.writes, "gain log")
        log.touch()
        log.entries.append(("s", SInt.of(c.T), lambda j: fresh_mat(W.K.at(j), gain_shape(c), float64, name="gain")))
        U.used.add(("filter", (), tuple(sorted(c.ints)), None))
        one = SInt(1)
        return (fresh_stack(c.T, (c.n,), lambda j: W.sx.at(SInt.of(j + 1)), float64, name="states"),
                fresh_stack(c.T, (c.n, c.n), lambda j: W.sP.at(SInt.of(j + 1)), float64, name="errors"))
    return filter


STUBS = {("kf", "predict"): stub_kf_predict, ("ekf", "predict"): stub_ekf_predict,
         ("kf", "update"): stub_kf_update, ("ekf", "update"): stub_ekf_update,
         ("kf", "filter"): stub_filter, ("ekf", "filter"): stub_filter}


def guarded(U, stub, name):
    def call(self, *a, **k):
        U.unchanged()
        U.may_raise(name)
        return stub(self, *a, **k)
    return call


# ------------------------------------------------------------------ units
SIGNATURES = {
    ("kf", "init"): "A xk B Pk H Q R state_size=", ("ekf", "init"): "xk Pk Q R f h jacobian_A jacobian_H",
    ("kf", "predict"): "Ak xk Bk uk Pk Qk", ("ekf", "predict"): "xk uk Pk Qk",
    ("kf", "update"): "Hk xk Pk zk Rk", ("ekf", "update"): "xk Pk zk Rk",
    ("kf", "filter"): "Z U=", ("ekf", "filter"): "Z U=", ("kf", "smooth"): "Z U=", ("ekf", "smooth"): "Z U=",
    ("utils", "placeholder"): "arr broad_to", ("utils", "allnan"): "arr"}


class Unit:
    def __init__(self, source, kind, func, cfg, mode="modular", aux=None):
        self.source, self.kind, self.func, self.cfg, self.mode = source, kind, func, cfg, mode
        self.aux = aux
        self.W = World(cfg)
        self.used = set()
        self.exc = True
        self.name = f"{kind}.{func}[{cfg.name}{'' if aux in (None, ('val', 'val')) else ',' + '/'.join(aux)}]"

    # ---- per-path set-up
    def setup(self, ctx):
        ctx.loaded = Loaded(self.source)
        ctx.roots = {}
        self.cfg.base(ctx, 1 if self.func == "smooth" else 0)
        self.I = self.W.inputs()

    def cls(self):
        L = CTX.get().loaded
        if self.kind == "kf":
            return L.module("standard").KalmanFilter
        return L.module("extended").ExtendedKalmanFilter

    def construct(self):
        C = self.cls()
        I, c = self.I, self.cfg
        if self.kind == "kf":
            kw = dict(A=I.A, xk=I.x0, B=I.B, Pk=I.P0, H=I.H, Q=I.Q, R=I.R)
            if c.state_size:
                kw["state_size"] = c.n
            return C(**kw)
        return C(xk=I.x0, Pk=I.P0, Q=I.Q, R=I.R, f=I.f, h=I.h, jacobian_A=I.JA, jacobian_H=I.JH)

    def install_stubs(self):
        if self.mode != "modular":
            return
        C = self.cls()
        for n in CALLERS[self.func]:
            orig = inspect.getattr_static(C, n, None)
            if not isinstance(orig, types.FunctionType):
                raise Retry(f"{n} is not a plain method")
            stub = guarded(self, STUBS[(self.kind, n)](self, orig), n)
            stub.__name__ = n
            setattr(C, n, stub)

    def prehistory(self, obj):
        """An arbitrary earlier gain log."""
        ctx = CTX.get()
        log = getattr(obj, "kalman_gains", None)
        if not isinstance(log, VList):
            raise Unsupported("the gain log is not a list")
        g = SInt.var("G0")
        ctx.assume(g.z >= 0)
        fam = self.W.__dict__.setdefault("old", tm.Family("gain_before", self.cfg.n, self.cfg.m))
        arr = {}

        def item(j):
            j = SInt.of(j)
            if j.key not in arr:
                arr[j.key] = fresh_mat(fam.at(j), gain_shape(self.cfg), float64, origin="input", name="earlier gain")
            return arr[j.key]
        log.entries = [("s", g, item)]
        log.ver = 0
        return g, item, fam

    def begin(self, obj):
        """Record the state the frame condition refers to."""
        ctx = CTX.get()
        s = types.SimpleNamespace()
        s.vers = {b.id: (b, b.ver) for b in ctx.__dict__.get("bufs", [])}
        roots = {"self": obj, "modules": list(ctx.loaded.mods.values())}
        h = Heap({}, roots)
        s.slots = {k: v for k, v in h.slots.items()}
        s.keep = h.keep
        s.owner = dict(h.owner)
        s.lists = {id(l): (l, l.ver) for l in h.lists.values()}
        s.dicts = [(d, set(d)) for d in h.keep if isinstance(d, dict)]
        s.log = getattr(obj, "kalman_gains", None)
        ctx.roots = roots
        ctx.unit_state = (obj, s)
        ctx.may_raise = self.may_raise
        return s

    def frame(self, obj, s, results=()):
        ctx = CTX.get()
        bad = [f"{b.name or b.id}" for b, v in s.vers.values()
               if b.origin in ("input", "foreign") and b.ver != v]
        for b in ctx.__dict__.get("bufs", []):
            if b.id not in s.vers and b.origin in ("foreign", "input") and b.ver:
                bad.append(b.name or str(b.id))
        self.vc("frame", not bad, "frame", "written: " + ", ".join(sorted(set(bad))) if bad else
                "no given array and no array of the model functions is written")
        ch = self.changes(obj, s)
        self.vc("state", not ch, "state", "changed: " + ", ".join(sorted(set(ch))) if ch else
                "nothing but the gain log changes")

    def changes(self, obj, s):
        """What differs from the state at the start of the call, the gain log apart."""
        ctx = CTX.get()
        h = Heap({}, {"self": obj, "modules": list(ctx.loaded.mods.values())})
        ch = []
        log = getattr(obj, "kalman_gains", None)
        for k, v in h.slots.items():
            if k[0] == "attr" and k[2] == "kalman_gains":
                if v is not s.log and is_inst(h.owner[k]):
                    pass
                continue
            if k in s.slots:
                w = s.slots[k]
                same = v is w or (isinstance(v, (int, float, str, bool)) and type(v) is type(w) and v == w)
                if not same and isinstance(v, SymArray) and isinstance(w, SymArray) and v.buf is w.buf:
                    from .engine import same_view
                    same = same_view(v, w)
                if not same:
                    ch.append(f"{k[0]} {k[2] if len(k) > 2 else ''}")
            elif k[0] in ("attr", "dict", "glob") and any(h.owner[k] is o for o in s.keep):
                ch.append(f"new {k[0]} {k[2]}")
        for d, keys in s.dicts:
            if set(d) != keys:
                ch.append("dict keys")
        for l, v in s.lists.values():
            if l.ver != v and l is not s.log and l is not log:
                ch.append("list")
        for b, v in s.vers.values():
            if b.ver != v and b.origin == "fresh":
                ch.append(f"array of the filter {b.name}")
        return ch

    def may_raise(self, what):
        """The operation may end the call by an exception: nothing may be left to restore."""
        st = getattr(CTX.get(), "unit_state", None)
        if st is not None and self.exc:
            ch = self.changes(*st)
            self.vc(f"state if {what} raises", not ch, "exc", "changed: " + ", ".join(sorted(set(ch))) if ch else
                    "nothing but the gain log has changed")

    def unchanged(self):
        """Object invariant at a call by contract: the object is as it was at the start."""
        st = getattr(CTX.get(), "unit_state", None)
        if st is not None:
            ch = self.changes(*st)
            _need(not ch, "the object was changed before the call: " + ", ".join(sorted(set(ch))))

    def vc(self, name, ok, kind, detail="", cert=None):
        return CTX.get().vc(f"{self.name}: {name}", ok, kind, detail, back="ring+z3", cert=cert)

    def eqvc(self, name, kind, found, want):
        try:
            ok = tm.deq(found.rows, want.rows) and tm.deq(found.cols, want.cols) and equal(found, want)
        except Unsupported as e:
            ok = False
            return self.vc(name, ok, kind, str(e))
        d = tm.show(tm.canon_poly(want.p))
        if not ok:
            d = f"expected {d}, found {tm.show(tm.canon_poly(found.p))}"
            # "refuted": the two sides differ at random matrices; "exact": they
            # differ and no inverse is involved, where the normal form decides
            try:
                diff = tm.canon_poly(tm.p_add(found.p, want.p, -tm.ONE))
                cert = "refuted" if tm.num_reject(diff) else \
                    "exact" if not any(a.kind == "inv" for a in tm.atoms_of(diff).values()) else "undecided"
            except Exception:
                cert = "undecided"
            return self.vc(name, ok, kind, d, cert)
        return self.vc(name, ok, kind, d)

    def shapevc(self, name, v, shape, kind="shape"):
        ok = isinstance(v, SymArray) and len(v._shape) == len(shape) and \
            all(tm.deq(a, b) for a, b in zip(v._shape, shape))
        return self.vc(name, ok, kind, f"shape {getattr(v, '_shape', type(v).__name__)}, expected {shape}")

    def pair(self, r):
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SymArray) for x in r)
        self.vc("two arrays", ok, "shape", f"returned {type(r).__name__}")
        return ok

    def logvc(self, log, g0, item, want, count):
        """log = the g0 earlier entries followed by want(0..count-1)."""
        ctx = CTX.get()
        if not self.vc("log is a list", isinstance(log, VList), "log", type(log).__name__):
            return
        n = SInt.of(log.symbolic_length())
        if not self.vc("log length", ctx.eq(n, SInt.of(g0 + count)), "log",
                       f"{n!r} entries, expected {SInt.of(g0 + count)!r}"):
            return
        # an arbitrary earlier entry is the same object
        if ctx.choose(2, "log part") == 0:
            j = SInt.var(ctx.fresh("j"))
            ctx.assume(z3.And(j.z >= 0, j.z < g0.z))
            if ctx.solver.check() == z3.unsat:
                return
            v = log.item_at(j)
            fam = self.W.old
            ok = isinstance(v, SymArray) and v.buf.name == "earlier gain" and v.buf.ver == 0 and \
                equal(v.term(), fam.at(j))
            self.vc("earlier log entries unchanged", ok, "log", repr(v))
            return
        c = SInt.of(count)
        j = SInt.var(ctx.fresh("j"))
        ctx.assume(z3.And(j.z >= 0, j.z < c.z))
        if ctx.solver.check() == z3.unsat:
            return
        v = log.item_at(SInt.of(g0 + j))
        self.shapevc("logged gain shape", v, gain_shape(self.cfg), "log")
        if isinstance(v, SymArray) and not v.is_stack:
            self.eqvc("logged gain", "log", v.term(), want(j))
            self.vc("logged gain is private", v.buf.origin == "fresh", "log", v.buf.origin)

    def iface(self):
        """The documented parameters can be given by position and by keyword."""
        L = CTX.get().loaded
        if self.kind == "utils":
            f = getattr(L.module("utils"), "check_none_and_broadcast" if self.func == "placeholder" else "is_nan_all")
            skip = 0
        else:
            f, skip = getattr(self.cls(), "__init__" if self.func == "init" else self.func), 1
        want = SIGNATURES[self.kind, self.func].split()
        try:
            ps = list(inspect.signature(f).parameters.values())[skip:]
            ok = [p.name for p in ps[:len(want)]] == [w.rstrip("=") for w in want] and \
                all(p.kind is p.POSITIONAL_OR_KEYWORD and (p.default is None or w[-1] != "=")
                    for p, w in zip(ps, want)) and \
                all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps[len(want):])
            d = ", ".join(map(str, ps))
        except (TypeError, ValueError) as e:
            ok, d = False, str(e)
        self.vc("documented parameters", ok, "iface", f"({d}), documented {' '.join(want)}")

    # ---- the functions
    def run(self, ctx):
        try:
            self.iface()
            getattr(self, "run_" + self.func)(ctx)
        except (Unsupported, Retry):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            if isinstance(e, (AttributeError, NotImplementedError)) and "symbolic" in str(e):
                raise Unsupported(str(e))
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/verif/" not in f.filename] or tb
            inner = tb[-1]
            if "/verif/vk" in inner.filename and not _raised_on_purpose(inner):
                raise Unsupported(f"verifier error: {type(e).__name__}: {e} at {inner.filename}:{inner.lineno}")
            self.vc("no exception", False, "noraise",
                    f"{type(e).__name__}: {e} at line {where[-1].lineno} of {where[-1].filename}")
            return
        self.vc("no exception", True, "noraise", "returns normally")

    def run_init(self, ctx):
        C = self.cls()
        I, c = self.I, self.cfg
        before = {b.id: b.ver for b in ctx.bufs}
        o = self.construct()
        o2 = self.construct()
        names = ["xk", "Pk", "Q", "R"]
        given = dict(xk=I.x0, Pk=I.P0, Q=I.Q, R=I.R)
        if self.kind == "kf":
            given.update(A=I.A, H=I.H)
            if I.B is not None:
                given["B"] = I.B
        else:
            given.update(f=I.f, h=I.h, jacobian_A=I.JA, jacobian_H=I.JH)
        for n, v in given.items():
            w = getattr(o, n, None)
            self.vc(f"attribute {n} is the given value", same_content(w, v), "init",
                    "the attribute is not the given value")
        if self.kind == "kf" and I.B is None:
            b = getattr(o, "B", None)
            ok = b is None or isinstance(b, SymArray) and b.is_stack and tm.deq(b._shape[0], c.T) and \
                tm.nan_status(b.row_term(SInt(0)))[0] is True and b.dtype.kind == "f"
            self.vc("omitted control matrix is a no-control placeholder", ok, "init", repr(b))
        self.vc("state size", isinstance(o.state_size, (int, SInt)) and ctx.eq(o.state_size, c.n), "init",
                f"{o.state_size!r}, expected {c.n!r}")
        log, log2 = o.kalman_gains, o2.kalman_gains
        self.vc("gain log starts empty", isinstance(log, (VList, list)) and log.__class__ is VList and
                ctx.eq(log.symbolic_length(), 0), "init", repr(log))
        self.vc("gain logs are separate", log is not log2, "init", "two filters share one log")
        mut = {id(v) for v in Heap({}, {"o": vars_priv(o, given)}).keep if not isinstance(v, tuple)} & \
              {id(v) for v in Heap({}, {"o": vars_priv(o2, given)}).keep if not isinstance(v, tuple)}
        sh = [v for v in Heap({}, {"o": vars_priv(o, given)}).keep
              if id(v) in mut and (isinstance(v, (VList, dict)) or is_inst(v) or isinstance(v, SymArray))]
        self.vc("filters share no private state", not sh, "state", repr(sh[:3]))
        bad = [b.name for b in ctx.bufs if b.origin != "fresh" and b.ver != before.get(b.id, 0)]
        self.vc("frame", not bad, "frame", f"written: {bad}" if bad else "no argument is written")

    def one_inputs(self):
        """One-step arguments."""
        W, c = self.W, self.cfg
        D = c.dims

        def mk(fam, code, key, name):
            return fresh_mat(fam.at(), D(code), c.dt(key), origin="input", name=name)
        J = types.SimpleNamespace()
        J.A = mk(W.a1, "nn", "A", "Ak")
        J.x = mk(W.x1, c.xshape, "x", "xk")
        J.P = mk(W.p1, "nn", "P", "Pk")
        J.Q = mk(W.q1, c.qshape, "Q", "Qk")
        J.H = mk(W.h1, "mn", "H", "Hk")
        J.z = mk(W.z1, c.zshape, "z", "zk")
        J.R = mk(W.r1, c.rshape, "R", "Rk")
        bs, us = self.aux or ("val", "val")
        J.B = mk(W.b1, "nl", "B", "Bk") if bs == "val" else None
        J.u = mk(W.u1, "l", "u", "uk") if us == "val" else None
        if bs == "NaN":
            sh = D("nn")
            J.B = fresh_mat(symnp.nan_term(*symnp.dims(sh)), sh, float64, origin="input", name="Bk (NaN)")
        if us == "NaN":
            sh = D(c.zshape)
            J.u = fresh_mat(symnp.nan_term(*symnp.dims(sh)), sh, float64, origin="input", name="uk (NaN)")
        return J

    def run_predict(self, ctx):
        W, c = self.W, self.cfg
        J = self.one_inputs()
        o = self.construct()
        g0, item, fam = self.prehistory(o)
        s = self.begin(o)
        if self.kind == "kf":
            r = o.predict(Ak=J.A, xk=J.x, Bk=J.B, uk=J.u, Pk=J.P, Qk=J.Q)
        else:
            r = o.predict(xk=J.x, uk=J.u, Pk=J.P, Qk=J.Q)
        if not self.pair(r):
            return
        x, P = r
        if self.kind == "kf":
            A = W.a1.at()
            want = t_mul(A, W.x1.at())
            if (self.aux or ("val", "val")) == ("val", "val"):
                want = t_add(want, t_ctl(W.b1.at(), W.u1.at(), c.n))
        else:
            u = W.u1.at() if (self.aux or ("val", "val"))[1] == "val" else "no control"
            A = W.JA_(W.x1.at(), u)
            want = W.f_(W.x1.at(), u)
        self.shapevc("mean shape", x, J.x._shape)
        self.shapevc("covariance shape", P, (c.n, c.n))
        if not x.is_stack:
            self.eqvc("mean", "mean", x.term(), want)
        if not P.is_stack:
            self.eqvc("covariance", "cov", P.term(),
                      t_add(t_mul(t_mul(A, W.p1.at()), t_t(A)), W.q1.at()))
        st = tuple(ctx.taken)
        self.frame(o, s)
        # clauses the callers rely on
        if self.kind == "kf":
            self.vc("results are new arrays", x.buf.origin == "fresh" and P.buf.origin == "fresh" and
                    x.buf is not P.buf and fresh_only(x, s) and fresh_only(P, s), "contract", "")
            dt = symnp.result_dtype(J.A.dtype, J.x.dtype)
            if (self.aux or ("val", "val")) == ("val", "val"):
                st = tm.ctl_cond(J.B.term(), J.u.term())
                if not (st is True or st is not False and ctx.prove(st)):
                    full = symnp.result_dtype(dt, J.B.dtype, J.u.dtype)
                    if full is not dt and (st is False or not ctx.branch(st)):
                        dt = full
            self.vc("dtype", x.dtype is dt and P.dtype is symnp.result_dtype(J.A.dtype, J.P.dtype, J.Q.dtype),
                    "contract", f"{x.dtype}, {P.dtype}")
        else:
            self.vc("results are new arrays", P.buf.origin == "fresh" and x.buf is not P.buf and
                    (x.buf.origin == "foreign" or fresh_only(x, s)) and fresh_only(P, s), "contract", "")
            self.vc("dtype", x.dtype is c.dt("f") and
                    P.dtype is symnp.result_dtype(c.dt("JA"), J.P.dtype, J.Q.dtype), "contract",
                    f"{x.dtype}, {P.dtype}")
        self.logvc(o.kalman_gains, g0, item, None, 0)

    def run_update(self, ctx):
        W, c = self.W, self.cfg
        J = self.one_inputs()
        o = self.construct()
        g0, item, fam = self.prehistory(o)
        s = self.begin(o)
        if self.kind == "kf":
            r = o.update(Hk=J.H, xk=J.x, Pk=J.P, zk=J.z, Rk=J.R)
            H = W.h1.at()
            hx = t_mul(H, W.x1.at())
        else:
            r = o.update(xk=J.x, Pk=J.P, zk=J.z, Rk=J.R)
            H = W.JH_(W.x1.at())
            hx = W.h_(W.x1.at())
        if not self.pair(r):
            return
        x, P = r
        Pm = W.p1.at()
        S = t_add(t_mul(t_mul(H, Pm), t_t(H)), W.r1.at())
        K = t_mul(t_mul(Pm, t_t(H)), t_inv(S))
        self.shapevc("mean shape", x, J.x._shape)
        self.shapevc("covariance shape", P, (c.n, c.n))
        if not x.is_stack:
            self.eqvc("mean", "mean", x.term(), t_add(W.x1.at(), t_mul(K, t_sub(W.z1.at(), hx))))
        if not P.is_stack:
            self.eqvc("covariance", "cov", P.term(), t_mul(t_sub(t_eye(c.n), t_mul(K, H)), Pm))
        self.frame(o, s)
        log = o.kalman_gains
        last = log.entries[-1][1] if isinstance(log, VList) and log.entries and log.entries[-1][0] == "c" else None
        shared = isinstance(last, SymArray) and last.buf in (x.buf, P.buf)
        self.vc("results are new arrays", x.buf.origin == "fresh" and P.buf.origin == "fresh" and
                x.buf is not P.buf and fresh_only(x, s) and fresh_only(P, s) and not shared, "contract", "")
        self.vc("dtype", x.dtype is float64 and P.dtype is float64, "dtype", f"{x.dtype}, {P.dtype}")
        if isinstance(last, SymArray):
            self.vc("gain dtype", last.dtype is float64, "dtype", f"{last.dtype}")
        self.logvc(log, g0, item, lambda j: K, 1)

    def series(self, ctx, o, g0, item, s, r, fx, fP, wx, wP):
        W, c = self.W, self.cfg
        if not self.pair(r):
            return
        X, P = r
        self.shapevc("means shape", X, (c.T, c.n))
        self.shapevc("covariances shape", P, (c.T, c.n, c.n))
        for nm, v in (("means", X), ("covariances", P)):
            self.vc(f"{nm} dtype", v.dtype is float64, "dtype", f"{v.dtype}")
            self.vc(f"{nm} are in storage of their own", v.buf.origin == "fresh" and fresh_only(v, s), "fresh",
                    f"{v.buf.origin} {v.buf.name}")
        self.vc("separate results", X.buf is not P.buf, "fresh", "")
        self.frame(o, s)
        if ctx.choose(2, "part") == 0:
            self.logvc(o.kalman_gains, g0, item, lambda j: W.K.at(j), c.T)
            return
        if not (X.is_stack and P.is_stack and X.ndim == 2 and P.ndim == 3):
            t = CTX.get().const_value(c.T)
            return
        k = SInt.var(ctx.fresh("k"))
        ctx.assume(z3.And(k.z >= 0, k.z < c.T.z))
        ctx.canon_ints.append(k)
        if ctx.solver.check() == z3.unsat:
            return
        ctx.trail.append(f"entry {k!r}")
        self.eqvc("mean at k", "mean", X.row_term(k), wx(k))
        self.eqvc("covariance at k", "cov", P.row_term(k), wP(k))

    def run_filter(self, ctx):
        W, c = self.W, self.cfg
        o = self.construct()
        self.install_stubs()
        g0, item, fam = self.prehistory(o)
        s = self.begin(o)
        r = o.filter(Z=self.I.Z, U=self.I.U) if self.I.U is not None else o.filter(self.I.Z)
        self.series(ctx, o, g0, item, s, r, None, None,
                    lambda k: W.sx.at(SInt.of(k + 1)), lambda k: W.sP.at(SInt.of(k + 1)))

    def run_smooth(self, ctx):
        W, c = self.W, self.cfg
        o = self.construct()
        self.install_stubs()
        g0, item, fam = self.prehistory(o)
        s = self.begin(o)
        r = o.smooth(Z=self.I.Z, U=self.I.U) if self.I.U is not None else o.smooth(self.I.Z)
        self.series(ctx, o, g0, item, s, r, None, None,
                    lambda k: W.rx.at(k), lambda k: W.rP.at(k))

    # ---- helpers
    HELPER_SHAPES = {"series of vectors": ("Tn", "f"), "series of numbers": ("T", "f"), "series of matrices": ("Tnn", "f"),
                     "vector": ("n", "f"), "matrix": ("nm", "f"), "number": ("", "f"),
                     "integer series of vectors": ("Tn", "i"), "integer series": ("T", "i"),
                     "integer series of matrices": ("Tnm", "i"), "integer vector": ("n", "i"),
                     "integer matrix": ("nn", "i"), "integer number": ("", "i")}

    def helper_arg(self, name, nm, real=True):
        code, dt = self.HELPER_SHAPES[name]
        dt = int64 if dt == "i" else float64
        W, c = self.W, self.cfg
        D = c.dims(code.replace("T", ""))
        r_, c_ = symnp.dims(D)
        fam = W.__dict__.setdefault(("helper", name, nm, real),
                                    tm.Family(nm, r_, c_, real=real or dt is int64, indexed="T" in code))
        if "T" in code:
            return fresh_stack(c.T, D, lambda k: fam.at(k), dt, origin="input", name=nm, key=fam)
        return fresh_mat(fam.at(), D, dt, origin="input", name=nm)

    def run_placeholder(self, ctx):
        M = ctx.loaded.module("utils")
        s = types.SimpleNamespace(vers={})
        for name in self.HELPER_SHAPES:
            ref = self.helper_arg(name, "reference")
            before = {b.id for b in ctx.bufs}
            try:
                r = M.check_none_and_broadcast(None, ref)
            except Unsupported:
                raise
            except Exception as e:
                self.vc(f"placeholder for a {name}: no exception", False, "helper", f"{type(e).__name__}: {e}")
                continue
            isarr = isinstance(r, SymArray)
            self.vc(f"placeholder for a {name} is an array", isarr, "helper", type(r).__name__)
            if not isarr:
                continue
            self.shapevc(f"placeholder for a {name}: shape", r, ref._shape, "helper")
            self.vc(f"placeholder for a {name}: floating point", r.dtype.kind == "f", "helper", f"{r.dtype}")
            self.vc(f"placeholder for a {name}: new storage", r.buf.origin == "fresh" and r.buf.id not in before,
                    "helper", r.buf.origin)
            if r.is_stack:
                k = SInt.var(ctx.fresh("k"))
                ctx.assume(z3.And(k.z >= 0, k.z < SInt.of(r._shape[0]).z))
                t = r.row_term(k) if ctx.solver.check() == z3.sat else None
            else:
                t = r.term()
            self.vc(f"placeholder for a {name}: every element NaN",
                    t is None or tm.nan_status(t)[0] is True, "helper", "" if t is None else tm.show(t.p))
            self.vc(f"placeholder for a {name}: reference untouched", ref.buf.ver == 0, "helper", "")
            for other in ("series of vectors", "integer matrix", "number", "integer series"):
                a = self.helper_arg(other, "given", real=False)
                r = M.check_none_and_broadcast(a, ref)
                self.vc(f"a given {other} is returned itself (reference: {name})", r is a and a.buf.ver == 0, "helper",
                        repr(r))
            r = M.check_none_and_broadcast(arr=None, broad_to=ref)
            self.vc(f"keywords (reference: {name})", isinstance(r, SymArray), "helper", "")

    def run_allnan(self, ctx):
        M = ctx.loaded.module("utils")
        for name in self.HELPER_SHAPES:
            for real in (True, False):
                a = self.helper_arg(name, "argument", real)
                r = M.is_nan_all(a)
                self.vc(f"all-NaN test of a {name} leaves it alone", a.buf.ver == 0, "helper", "")
                if a.is_stack:
                    want = symnp.np.isnan(a)._all
                else:
                    want = tm.nan_status(a.term())[0]
                got = r.z if hasattr(r, "z") else r
                if isinstance(got, bool) and isinstance(want, bool):
                    ok = got == want
                else:
                    f = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
                    ok = (isinstance(got, bool) or z3.is_bool(got)) and ctx.prove(f(got) == f(want))
                self.vc(f"all-NaN test of a {name}{'' if real else ' that may contain NaN'} is exact", ok, "helper",
                        f"got {got}, expected {want}")

    # ---- driving
    def verify(self, limit=600):
        """Returns a result namespace."""
        t0 = time.time()
        q0, r0 = STATS.z3_queries, STATS.ring_queries
        zt0, rt0 = STATS.z3_time, STATS.ring_time
        db = LoopDB()
        res = types.SimpleNamespace(unit=self.name, mode=self.mode, vcs=[], paths=0, done=0, status="ok",
                                    reason="", notes=[], kind=self.kind, func=self.func, cfg=self.cfg.name)
        fams = self.W.smooth_families if self.func == "smooth" else self.W.filter_families
        if self.func in ("predict", "update", "init", "placeholder", "allnan"):
            fams = []
        rounds = 0
        try:
            while True:
                rounds += 1
                db.changed = False
                out = explore(self.run, db, self.setup, limit, fams)
                # withdraw invariants that do not hold and are not needed
                failing = {}
                for ctx, oc in out:
                    for v in ctx.vcs:
                        if not v["ok"] and v["kind"] == "inv":
                            failing.setdefault(v["slot"][0], set()).add(v["slot"][1])
                again = db.changed
                for key, slots in failing.items():
                    new = slots - db.dropped.get(key, set())
                    if new and rounds <= 6:
                        db.dropped.setdefault(key, set()).update(new)
                        again = True
                        res.__dict__.setdefault("inv_failed", []).extend(
                            v for ctx, oc in out for v in ctx.vcs
                            if not v["ok"] and v["kind"] == "inv")
                if not again or rounds > 12:
                    break
        except Retry as e:
            res.status, res.reason = "retry", str(e)
        except Unsupported as e:
            res.status, res.reason = "unsupported", str(e)
        except Limits as e:
            res.status, res.reason = "unsupported", str(e)
        except RecursionError:
            res.status, res.reason = "unsupported", "recursion"
        else:
            for ctx, oc in out:
                res.paths += 1
                if oc[0] == "ok":
                    res.done += 1
                for v in ctx.vcs:
                    v["taken"] = tuple(ctx.taken)
                res.vcs.extend(ctx.vcs)
                res.notes.extend(ctx.notes)
            if not res.vcs or not res.done:
                res.status, res.reason = "unsupported", "no path completed (vacuous)"
        res.failed = [v for v in res.vcs if not v["ok"]]
        res.used = sorted(self.used)
        res.time = time.time() - t0
        res.z3 = (STATS.z3_queries - q0, STATS.z3_time - zt0)
        res.ring = (STATS.ring_queries - r0, STATS.ring_time - rt0)
        return res


def vars_of(m):
    return {k: v for k, v in vars(m).items() if not k.startswith(("__", "_vk_")) and
            not isinstance(v, types.ModuleType)}


def vars_priv(o, given):
    return {k: v for k, v in vars(o).items() if not any(v is w for w in given.values())}


def fresh_only(v, s):
    """Not storage that existed before the call."""
    return v.buf.id not in s.vers


def same_content(a, b):
    if a is b:
        return True
    if isinstance(a, SymArray) and isinstance(b, SymArray):
        if a.is_stack != b.is_stack or len(a._shape) != len(b._shape) or a.dtype is not b.dtype or \
                not all(tm.deq(x, y) for x, y in zip(a._shape, b._shape)):
            return False
        if not a.is_stack:
            return equal(a.term(), b.term())
        k = SInt.var(CTX.get().fresh("k"))
        CTX.get().assume(z3.And(k.z >= 0, k.z < SInt.of(a._shape[0]).z))
        return equal(a.row_term(k), b.row_term(k))
    return False


_PURPOSE = ("ValueError", "TypeError", "IndexError", "LinAlgError", "AttributeError", "StopIteration", "ZeroDivisionError")


def _raised_on_purpose(fr):
    line = (fr.line or "").strip()
    return line.startswith("raise ") or fr.name in ("__next__",)
