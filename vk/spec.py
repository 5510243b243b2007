"""Specification: symbolic inputs and the recursive families that the
contracts refer to (the mathematical Kalman recursions, indexed by time)."""
import types

import z3

from . import symnp, terms as tm
from .core import CTX, SInt, Unsupported
from .symnp import float64, int64, fresh_mat, fresh_stack
from .terms import (Family, t_add, t_ctl, t_eye, t_inv, t_mul, t_op, t_sub, t_t, t_zero)


def _ge(idx, c):
    i = SInt.of(idx)
    if i.is_const():
        return i.c >= c
    ctx = CTX.v
    return ctx is not None and ctx.prove(i.z >= c)


def _lt(idx, n):
    d = SInt.of(SInt.of(n) - idx)
    if d.is_const():
        return d.c > 0
    ctx = CTX.v
    return ctx is not None and ctx.prove(d.z > 0)


def _eq(a, b):
    return CTX.v is not None and CTX.v.eq(a, b)


ARRAYS = ("A", "x", "P", "B", "H", "Q", "R", "z", "u", "f", "h", "JA", "JH")


class Cfg:
    """One shape/dtype configuration of the inputs."""

    def __init__(self, name, n="n", m="m", l="l", zshape="m", rshape="mm", qshape="nn",
                 xshape="n", control="both", dtype="float", hret="m", ekf=False, T=None,
                 state_size=False, extra=False, ints=(), linear=False):
        self.name = name
        V = lambda s: SInt.var(s) if isinstance(s, str) else s
        self.n, self.m, self.l = V(n), V(m), V(l)
        self.dim_vars = [s for s in (n, m, l) if isinstance(s, str)]
        self.zshape, self.rshape, self.qshape, self.xshape = zshape, rshape, qshape, xshape
        self.control, self.dtype, self.hret, self.ekf = control, dtype, hret, ekf
        self.ints = frozenset(ARRAYS if dtype == "int" else ints)   # arrays of integer type
        self.state_size = state_size
        self.linear = linear     # EKF whose model functions are linear
        self.T = SInt.var("T")
        self.Tfix = T            # bounded stand-in: T fixed to this constant
        self.extra = extra       # parameters given for more steps than observed

    def with_T(self, t):
        c = Cfg.__new__(Cfg)
        c.__dict__.update(self.__dict__)
        c.Tfix = t
        c.name = f"{self.name},T={t}"
        return c

    def with_ints(self, ints):
        c = Cfg.__new__(Cfg)
        c.__dict__.update(self.__dict__)
        c.ints = frozenset(ints)
        c.name = f"{self.name},int:{'+'.join(sorted(ints))}"
        return c

    def variant(self, **over):
        """The same configuration with other shape codes."""
        c = Cfg.__new__(Cfg)
        c.__dict__.update(self.__dict__)
        for k, v in over.items():
            assert hasattr(c, k), k
            setattr(c, k, v)
        return c

    def dt(self, name):
        return int64 if name in self.ints else float64

    def base(self, ctx, tmin=0):
        for d in self.dim_vars:
            ctx.assume(z3.Int(d) >= 1)
        ctx.assume(z3.Int("T") >= tmin)
        if self.Tfix is not None:
            ctx.assume(z3.Int("T") == self.Tfix)
        if self.extra:
            ctx.assume(z3.Int("Tx") >= z3.Int("T"))

    def dims(self, code):
        d = {"n": self.n, "m": self.m, "l": self.l, "1": 1}
        return tuple(d[c] for c in code)


class World:
    """Input and specification families for one configuration.  Created once
    per verification unit and shared by all its paths."""

    def __init__(self, cfg):
        self.cfg = cfg
        n, m, l, T = cfg.n, cfg.m, cfg.l, cfg.T
        F = Family
        W = self
        lin = cfg.linear
        ix = not lin or cfg.control in ("both", "noB")
        # linear model functions: f may vary with its control argument, h may not
        self.A = F("A", n, n, indexed=ix)
        self.H = F("H", m, n, indexed=not lin)
        self.B = F("B", n, l, real="B" in cfg.ints, indexed=ix)
        self.U = F("u", l, 1, real="u" in cfg.ints)
        self.Z = F("z", m, 1, real="z" in cfg.ints)
        self.Q = F("Q", n, n, sym=True)
        self.R = F("R", m, m, sym=True)
        ekf = self.ekf = cfg.ekf and not lin
        hasB = cfg.control in ("both", "noU")
        hasU = cfg.control in ("both", "noB")
        self.hasB, self.hasU = hasB, hasU

        def ctl(k):
            if hasB and hasU:
                return t_ctl(W.B.at(k), W.U.at(k), n)
            return t_zero(n, 1)

        def uarg(k):
            return W.U.at(k) if hasU else "no control"

        def f(x, u):
            return t_op("f", [x, u], n, 1)

        def JA(x, u):
            return t_op("JA", [x, u], n, n)

        def h(x):
            return t_op("h", [x], m, 1)

        def JH(x):
            return t_op("JH", [x], m, n)
        self.f_, self.JA_, self.h_, self.JH_, self.uarg, self.ctl = f, JA, h, JH, uarg, ctl

        def u_px(k):
            if not (_ge(k, 0) and _lt(k, T)):
                return None
            if ekf:
                return f(W.sx.at(k), uarg(k))
            return t_add(t_mul(W.A.at(k), W.sx.at(k)), ctl(k))

        def Ak(k):
            return JA(W.sx.at(k), uarg(k)) if ekf else W.A.at(k)

        def Hk(k):
            return JH(W.px.at(k)) if ekf else W.H.at(k)
        self.Ak, self.Hk = Ak, Hk

        def u_pP(k):
            if not (_ge(k, 0) and _lt(k, T)):
                return None
            a = Ak(k)
            return t_add(t_mul(t_mul(a, W.sP.at(k)), t_t(a)), W.Q.at(k))

        def u_S(k):
            if not (_ge(k, 0) and _lt(k, T)):
                return None
            h = Hk(k)
            return t_add(t_mul(t_mul(h, W.pP.at(k)), t_t(h)), W.R.at(k))

        def u_K(k):
            if not (_ge(k, 0) and _lt(k, T)):
                return None
            return t_mul(t_mul(W.pP.at(k), t_t(Hk(k))), t_inv(W.S.at(k)))

        def u_sx(j):
            if not (_ge(j, 1) and _lt(j, T + 1)):
                return None
            k = SInt.of(SInt.of(j) - 1)
            x = W.px.at(k)
            hx = h(x) if ekf else t_mul(W.H.at(k), x)
            return t_add(x, t_mul(W.K.at(k), t_sub(W.Z.at(k), hx)))

        def u_sP(j):
            if not (_ge(j, 1) and _lt(j, T + 1)):
                return None
            k = SInt.of(SInt.of(j) - 1)
            return t_mul(t_sub(t_eye(n), t_mul(W.K.at(k), Hk(k))), W.pP.at(k))

        def u_G(k):
            if not (_ge(k, 0) and _lt(k, T - 1)):
                return None
            k = SInt.of(k)
            return t_mul(t_mul(W.sP.at(SInt.of(k + 1)), t_t(Ak(SInt.of(k + 1)))),
                         t_inv(W.pP.at(SInt.of(k + 1))))

        def u_rx(k):
            k = SInt.of(k)
            if _eq(k, T - 1):
                return W.sx.at(T)
            if not (_ge(k, 0) and _lt(k, T - 1)):
                return None
            return t_add(W.sx.at(SInt.of(k + 1)),
                         t_mul(W.G.at(k), t_sub(W.rx.at(SInt.of(k + 1)), W.px.at(SInt.of(k + 1)))))

        def u_rP(k):
            k = SInt.of(k)
            if _eq(k, T - 1):
                return W.sP.at(T)
            if not (_ge(k, 0) and _lt(k, T - 1)):
                return None
            g = W.G.at(k)
            return t_add(W.sP.at(SInt.of(k + 1)),
                         t_mul(t_mul(g, t_sub(W.rP.at(SInt.of(k + 1)), W.pP.at(SInt.of(k + 1)))), t_t(g)))

        fo = lambda s: (lambda k: (0, SInt.of(SInt.of(k) * 10 + s)))
        so = lambda s: (lambda k: (1, SInt.of(s - SInt.of(k) * 10)))
        self.sx = F("x", n, 1, unfold=u_sx, order=fo(-6))
        self.sP = F("P", n, n, sym=True, unfold=u_sP, order=fo(-6))
        self.px = F("xp", n, 1, unfold=u_px, abbrev=True, order=fo(1))
        self.pP = F("Pp", n, n, sym=True, unfold=u_pP, abbrev=True, order=fo(1))
        self.S = F("S", m, m, sym=True, unfold=u_S, abbrev=True, order=fo(2))
        self.K = F("K", n, m, unfold=u_K, abbrev=True, order=fo(3))
        self.G = F("G", n, n, unfold=u_G, abbrev=True, order=so(1))
        self.rx = F("xs", n, 1, unfold=u_rx, order=so(2))
        self.rP = F("Ps", n, n, sym=True, unfold=u_rP, order=so(2))
        self.filter_families = [self.sx, self.sP, self.px, self.pP, self.K, self.S]
        self.smooth_families = self.filter_families + [self.rx, self.rP, self.G]
        # one-step inputs (contracts of predict and update)
        self.a1 = F("A", n, n, indexed=False)
        self.x1 = F("x", n, 1, indexed=False)
        self.b1 = F("B", n, l, indexed=False, real="B" in cfg.ints)
        self.u1 = F("u", l, 1, indexed=False, real="u" in cfg.ints)
        self.p1 = F("P", n, n, sym=True, indexed=False)
        self.q1 = F("Q", n, n, sym=True, indexed=False)
        self.h1 = F("H", m, n, indexed=False)
        self.z1 = F("z", m, 1, indexed=False, real="z" in cfg.ints)
        self.r1 = F("R", m, m, sym=True, indexed=False)

    # ---- input arrays for one path
    KEY = {"xk": "x", "Pk": "P", "Z": "z", "U": "u"}

    def mat(self, fam, code, name, tr=False):
        shape = self.cfg.dims(code)
        t = fam if isinstance(fam, tm.Term) else fam.at()
        return fresh_mat(t, shape, self.cfg.dt(self.KEY.get(name, name)), origin="input", name=name)

    def stack(self, fam, code, name):
        T = SInt.var("Tx") if self.cfg.extra and name not in ("Z", "U") else self.cfg.T
        return fresh_stack(T, self.cfg.dims(code), lambda k: fam.at(k), self.cfg.dt(self.KEY.get(name, name)),
                           origin="input", name=name, key=fam)

    def inputs(self):
        """Fresh input arrays (call once per path)."""
        c = self.cfg
        I = types.SimpleNamespace()
        I.x0 = self.mat(self.sx.at(0), c.xshape, "xk")
        I.P0 = self.mat(self.sP.at(0), "nn", "Pk")
        if not c.ekf:
            I.A = self.stack(self.A, "nn", "A")
            I.H = self.stack(self.H, "mn", "H")
            I.B = self.stack(self.B, "nl", "B") if self.hasB else None
        I.Q = self.stack(self.Q, c.qshape, "Q")
        I.R = self.stack(self.R, c.rshape, "R")
        I.Z = self.stack(self.Z, c.zshape, "Z")
        I.U = self.stack(self.U, "l", "U") if self.hasU else None
        if c.ekf:
            self.model(I)
        return I

    def model(self, I):
        """The user's model functions: pure, opaque, positional arguments."""
        c = self.cfg
        I.calls = []

        def mean_arg(x):
            symnp.may_raise("a model function")
            if not symnp.is_arr(x) or x.is_stack:
                raise TypeError("model function called without a mean")
            t = x.term()
            if not (tm.deq(t.rows, c.n) and tm.deq(t.cols, 1)):
                raise ValueError("model function called with a mean of wrong shape")
            return x, t

        def ctl_arg(u):
            if u is None:
                return "no control"
            if not symnp.is_arr(u) or u.is_stack:
                raise TypeError("model function called without a control")
            st = tm.nan_status(u.term())
            if st[0] is True:
                return "no control"
            return u.term()

        def foreign(t, shape, name, key):
            return fresh_mat(t, shape, c.dt(key), origin="foreign", name=name)

        if c.linear:
            W = self

            def index(u):
                """The time index of a control argument."""
                if u == "no control":
                    return None if not W.A.indexed else False
                for k, v in u.p.m.items():
                    a = tm.ATOMS[k[1][0] >> 1] if len(k[1]) == 1 else None
                    if len(u.p.m) == 1 and not k[0] and v == 1 and a is not None and a.kind == "sym" and \
                            a.data[0] is W.U and not k[1][0] & 1:
                        return a.data[1]
                return False

            def f_(t, u):
                k = index(u)
                if k is False:
                    return t_op("f", [t, u], c.n, 1)
                x = t_mul(W.A.at(k), t)
                return x if u == "no control" else t_add(x, t_ctl(W.B.at(k), u, c.n))

            def JA_(t, u):
                k = index(u)
                return t_op("JA", [t, u], c.n, c.n) if k is False else W.A.at(k)
            h_ = lambda t: t_mul(W.H.at(), t)
            JH_ = lambda t: W.H.at()
        else:
            f_, JA_, h_, JH_ = self.f_, self.JA_, self.h_, self.JH_

        def f(x, u, /):
            a, t = mean_arg(x)
            return foreign(f_(t, ctl_arg(u)), a._shape, "f(x, u)", "f")

        def h(x, /):
            a, t = mean_arg(x)
            sh = a._shape if c.hret == "x" else c.dims(c.hret)
            return foreign(h_(t), sh, "h(x)", "h")

        def jacobian_A(x, u, /):
            a, t = mean_arg(x)
            return foreign(JA_(t, ctl_arg(u)), c.dims("nn"), "jacobian_A(x, u)", "JA")

        def jacobian_H(x, /):
            a, t = mean_arg(x)
            return foreign(JH_(t), c.dims("mn"), "jacobian_H(x)", "JH")

        I.f, I.h, I.JA, I.JH = f, h, jacobian_A, jacobian_H


# ------------------------------------------------------------------ configurations
def kf_configs():
    out = []
    out.append(Cfg("general"))
    out.append(Cfg("general,B=None", control="noB"))
    out.append(Cfg("general,U=None", control="noU"))
    out.append(Cfg("general,no control", control="none"))
    out.append(Cfg("scalar obs", m=1, zshape="", rshape="", control="both"))
    out.append(Cfg("scalar obs,no control", m=1, zshape="", rshape="", control="none"))
    out.append(Cfg("scalar obs (T,1)", m=1, zshape="m", rshape="mm"))
    out.append(Cfg("scalar Z, matrix R", m=1, zshape="", rshape="mm"))
    out.append(Cfg("(T,1) Z, scalar R", m=1, zshape="m", rshape=""))
    out.append(Cfg("scalar state", n=1, m=1, l=1, zshape="", rshape="", qshape="", xshape="nn"))
    out.append(Cfg("scalar state,no control", n=1, m=1, l=1, zshape="", rshape="", qshape="", xshape="nn",
                   control="none"))
    out.append(Cfg("scalar state (T,1)", n=1, m=1, l=1, zshape="m", rshape="mm", qshape="", xshape="nn"))
    out.append(Cfg("more parameters than observations", extra=True, state_size=True))
    out.append(Cfg("integer", dtype="int"))
    out.append(Cfg("integer,no control", dtype="int", control="none"))
    out.append(Cfg("integer scalar obs,U=None", m=1, zshape="", rshape="", dtype="int", control="noU"))
    out.append(Cfg("integer scalar state,no control", n=1, m=1, l=1, zshape="", rshape="", qshape="",
                   xshape="nn", dtype="int", control="none"))
    return {c.name: c for c in out}


def ekf_configs():
    out = []
    out.append(Cfg("general", ekf=True, control="noB"))
    out.append(Cfg("general,U=None", ekf=True, control="none"))
    out.append(Cfg("scalar obs", m=1, zshape="", rshape="", hret="1", ekf=True, control="noB"))
    out.append(Cfg("scalar obs,h scalar", m=1, zshape="", rshape="", hret="", ekf=True, control="none"))
    out.append(Cfg("scalar obs,(T,1),h scalar", m=1, zshape="m", rshape="mm", hret="", ekf=True, control="noB"))
    out.append(Cfg("scalar Z, matrix R", m=1, zshape="", rshape="mm", hret="", ekf=True, control="none"))
    out.append(Cfg("scalar state", n=1, m=1, l=1, zshape="", rshape="", qshape="", xshape="nn", hret="x",
                   ekf=True, control="noB"))
    out.append(Cfg("more noises than observations", extra=True, ekf=True, control="noB"))
    out.append(Cfg("linear model", ekf=True, control="both", linear=True))
    out.append(Cfg("linear model,no control", ekf=True, control="none", linear=True))
    out.append(Cfg("linear model,scalar obs", m=1, zshape="", rshape="", hret="1", ekf=True, control="both", linear=True))
    out.append(Cfg("linear model,scalar state", n=1, m=1, l=1, zshape="", rshape="", qshape="", xshape="nn", hret="x",
                   ekf=True, control="none", linear=True))
    out.append(Cfg("integer", dtype="int", ekf=True, control="noB"))
    out.append(Cfg("integer,U=None", dtype="int", ekf=True, control="none"))
    out.append(Cfg("integer scalar obs", m=1, zshape="", rshape="", hret="", dtype="int", ekf=True,
                   control="none"))
    return {c.name: c for c in out}
