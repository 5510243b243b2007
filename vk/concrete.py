"""Concrete executions of the real code against independent oracles.

Runs under the interpreter that has the project's numpy.  Used for three
things, never to establish a property: to look for an input on which a failed
obligation shows (the replay of a violation), to stand in (labelled bounded)
where a function left the verifier's reach, and to cross-check on every run
that the verifier's reading of the code agrees with what the code does.

  concrete.py search  --repo R --prop C04 --seed 1 --seconds 20 --hints H --out O
  concrete.py replay  --repo R FILE
"""
import argparse
import copy
import hashlib
import importlib
import itertools
import json
import math
import os
import sys
import time
import traceback
import warnings

import numpy as np

warnings.filterwarnings("ignore")
EPS = np.finfo(float).eps
MODEL = ("A", "B", "H", "Q", "R")


class ModelError(Exception):
    """Raised by a model function on purpose."""


# ------------------------------------------------------------------ scenarios
BASE = dict(kind="kf", n=2, m=2, l=1, T=4, control="both", zs="m", rs="mm", qs="nn", xs="n", hret="m",
            ints=(), extra=0, regime="unit", layout="C", model="nonlinear", history=(), seed=0,
            state_size=False, style="kw", special=None)


def scen(**k):
    s = dict(BASE)
    s.update(k)
    return s


def rng_of(s, *salt):
    h = hashlib.sha256(json.dumps([s["seed"], s["n"], s["m"], s["l"], s["regime"], list(map(str, salt))]).encode())
    return np.random.default_rng(int.from_bytes(h.digest()[:8], "big"))


def spd(g, n, scale=1.0):
    a = g.uniform(-1, 1, (n, n))
    return scale * (a @ a.T / n + 0.5 * np.eye(n))


def spd_int(g, n, T):
    out = []
    for _ in range(T):
        a = g.integers(-2, 3, (n, n))
        out.append(a @ a.T + 2 * np.eye(n, dtype=int))
    return np.array(out)


class Case:
    """The arrays, the filter and the expected values of one scenario."""

    def __init__(self, s, K):
        self.s, self.K = s, K
        n, m, l, T = s["n"], s["m"], s["l"], s["T"]
        Tx = T + s["extra"]
        g = rng_of(s, "arrays")
        reg = s["regime"]
        regs = reg.split("|")
        ints = set(s["ints"])
        sc = dict(P=1.0, Q=0.3, R=1.0, z=2.0, A=0.9, x=1.0)
        if "tinyR" in regs:
            sc["R"] = 1e-4
        if "bigR" in regs:
            sc["R"] = 1e4
        if "bigP" in regs:
            sc["P"] = 1e4
        if "tiny" in regs:
            sc.update(P=1e-7, Q=1e-7, R=1e-7, z=1e-6, x=1e-6)
        if "huge" in regs:
            sc.update(P=1e6, Q=1e6, R=1e6, z=1e6, x=1e6)
        if "outlier" in regs:
            sc["z"] = 1e4
        par = {x.split(":")[0]: float(x.split(":")[1]) for x in regs if ":" in x}
        if "scale" in par:
            v = par["scale"]
            sc.update(z=abs(v) or 1.0, x=abs(v) or 1.0)
        if "cov" in par:
            v = abs(par["cov"]) or 1.0
            v = min(max(v, 1e-8), 1e8)
            sc.update(P=v, Q=v, R=v)
        stable = T > 12
        A = np.empty((Tx, n, n))
        for k in range(Tx):
            a = g.uniform(-1, 1, (n, n))
            if stable:
                a = np.linalg.qr(a)[0] * 0.95
            else:
                a = 0.6 * a + 0.7 * np.eye(n)
            A[k] = a
        H = g.uniform(-1, 1, (Tx, m, n)) + 0.5
        B = g.uniform(-1, 1, (Tx, n, l)) + 0.25
        U = g.uniform(-2, 2, (T, l)) + 0.5
        Z = g.uniform(-1, 1, (T, m)) * sc["z"] + 0.3 * sc["z"]
        Q = np.array([spd(g, n, sc["Q"]) for _ in range(Tx)]).reshape(Tx, n, n)
        R = np.array([spd(g, m, sc["R"]) for _ in range(Tx)]).reshape(Tx, m, m)
        x0 = g.uniform(-1, 1, n) * sc["x"]
        P0 = spd(g, n, sc["P"])
        if "cond" in par and m > 1:   # innovation covariance with about this condition number
            v = min(max(abs(par["cond"]), 1.0), 1e9)
            R = np.array([np.diag(v ** (np.arange(m) / (m - 1.0))) * 1e-2 for _ in range(Tx)]).reshape(Tx, m, m)
            H *= 0.1
        if "pcond" in par and n > 1:  # initial covariance with about this condition number
            v = min(max(abs(par["pcond"]), 1.0), 1e9)
            a = np.linalg.qr(g.uniform(-1, 1, (n, n)))[0]
            P0 = a @ np.diag(v ** (-np.arange(n) / (n - 1.0))) @ a.T
            P0 = (P0 + P0.T) / 2
        if "zeroQ" in regs:
            Q[:] = 0
        if "zeroP" in regs:
            P0[:] = 0
        if "zeroPQ1" in regs:
            P0[:] = 0
            if Tx:
                Q[0] = 0
        if "singP" in regs:
            v = g.uniform(-1, 1, (n, 1))
            P0 = v @ v.T
        if "diag" in regs:
            P0 = np.diag(np.arange(1., n + 1))
            Q = np.array([np.diag(np.arange(1., n + 1)) for _ in range(Tx)]).reshape(Tx, n, n)
            R = np.array([np.diag(np.arange(1., m + 1)) for _ in range(Tx)]).reshape(Tx, m, m)
        if "zeroH" in regs and Tx:
            H[Tx // 2] = 0
        if "zeroA" in regs and Tx:
            A[Tx // 2] = 0
        if "singA" in regs:
            A[..., -1] = A[..., 0]
        if "identity" in regs:
            A[:] = np.eye(n)
            H[:] = np.eye(m, n)
        if "zeroU" in regs:
            U[::2] = 0
        if "zeroB" in regs:
            B[::2] = 0
        if "zeroZ" in regs:
            Z[:] = 0
        if "zerox" in regs:
            x0[:] = 0
        if "negative" in regs:
            Z, x0, U = -abs(Z), -abs(x0), -abs(U)
        if "repeat" in regs:
            Z[:] = Z[:1]
            U[:] = U[:1]
        if {"steady", "constant"} & set(regs):
            for a in (A, H, B, Q, R):
                a[:] = a[:1]
            if "steady" in regs:
                Z[:] = Z[:1]
                U[:] = U[:1]
        if "change" in regs:          # long constant, then another model
            j = (2 * T) // 3
            for a in (A, H, B, Q, R):
                last = a[-1:].copy()
                a[:j] = a[:1]
                a[j:] = last
            Q[j:] *= 7.0
            R[j:] *= 3.0
        if "exact" in regs and not s["kind"] == "ekf":
            x, P = x0, P0
            for k in range(T):       # observations that equal their prediction
                xp = A[k] @ x + B[k] @ U[k]
                Z[k] = H[k] @ xp
                x = xp
        if "dependentR" in regs and m > 1:
            for k in range(Tx):
                v = g.uniform(-1, 1, (m, 1))
                R[k] = v @ v.T + 1e-3 * np.eye(m)
        gr = rng_of(s, "patterns")
        if "zeroR" in regs:
            R[:] = 0
        if "zeroR1" in regs and Tx:
            R[gr.integers(Tx)] = 0
        if "sparse" in regs:
            for a in (A, H, B):
                a[gr.random(a.shape) < 0.5] = 0
            for k in range(Tx):
                Q[k] *= np.eye(n)
            P0 = P0 * np.eye(n)
        if "sparse1" in regs:        # a row of H, a column of A, a component of what is given
            H[:, gr.integers(m)] = 0
            A[:, :, gr.integers(n)] = 0
            U[:, gr.integers(l)] = 0
            Z[:, gr.integers(m)] = 0
            x0[gr.integers(n)] = 0
        if "eyeA" in regs:
            A[:] = np.eye(n)
        if "eyeH" in regs:
            H[:] = np.eye(m, n)
        if "symA" in regs:
            A[:] = (A + A.transpose(0, 2, 1)) / 2
        if "trilA" in regs:
            A[:] = np.tril(A)
        if "orthA" in regs:
            for k in range(Tx):
                A[k] = np.linalg.qr(A[k])[0]
        if "onehotH" in regs:
            for k in range(Tx):
                H[k] = np.eye(n)[gr.integers(0, n, m)]
        if "sameH" in regs:
            H[:] = H[:, :1]
        if "ones" in regs:
            H[:] = 1
            B[:] = 1
        if "whole" in regs:          # whole numbers, as floats
            A, H, B, U, Z, x0 = [np.rint(2 * v) for v in (A, H, B, U, Z, x0)]
            Q, R = np.array([np.eye(n)] * Tx).reshape(Q.shape), np.array([np.eye(m)] * Tx).reshape(R.shape)
            P0 = np.eye(n)
            if T > 6:
                A = np.array([np.eye(n)[gr.permutation(n)] for _ in range(Tx)]).reshape(Tx, n, n)
        if "eyeQR" in regs:
            Q[:], R[:], P0 = np.eye(n), np.eye(m), np.eye(n)
        if "PQ" in regs and Tx:
            P0 = Q[0].copy()
        if "period" in regs and Tx > 2:
            for a in (A, H, B, Q, R):
                a[2:] = a[np.arange(2, Tx) % 2]
        if "pairs" in regs and T > 1:
            j = int(gr.integers(1, T))
            Z[j], U[j] = Z[j - 1], U[j - 1]
        if "equal" in regs:
            Z[:], U[:], x0[:] = Z[:, :1], U[:, :1], x0[:1]
        if "spike" in regs and T:
            Z[gr.integers(T), gr.integers(m)] *= 1e4
        if "zeroZ1" in regs and T:
            Z[gr.integers(T)] = 0
        if "zeroQ1" in regs and Tx:
            Q[gr.integers(Tx)] = 0
        if "zeroU1" in regs and T:
            U[gr.integers(T)] = 0
        if "zeroB1" in regs and Tx:
            B[gr.integers(Tx)] = 0
        if "neg" in regs:
            A, H = -abs(A), -abs(H)
        if T > 6 and {"neg", "symA", "trilA", "sparse", "sparse1"} & set(regs):
            for k in range(Tx):
                A[k] /= max(1.0, np.linalg.norm(A[k], 2))
        if ints:
            gi = rng_of(s, "ints")
            it = dict(A=gi.integers(-2, 3, A.shape), H=gi.integers(-2, 4, H.shape), B=gi.integers(-2, 3, B.shape),
                      u=gi.integers(-3, 4, U.shape), z=gi.integers(-9, 10, Z.shape), x=gi.integers(-3, 4, x0.shape),
                      Q=spd_int(gi, n, Tx).reshape(Tx, n, n), R=spd_int(gi, m, Tx).reshape(Tx, m, m),
                      P=spd_int(gi, n, 1)[0])
            if "bigint" in regs:     # more digits than single precision has
                it["z"], it["x"] = it["z"] * 100000007, it["x"] * 10000019
                it["u"] = it["u"] * 100000007
            if "A" in ints and T > 6:
                it["A"] = np.array([np.eye(n, dtype=int)[gi.permutation(n)] for _ in range(Tx)]).reshape(Tx, n, n)
            A, H, B, U, Z, x0, Q, R, P0 = [it[c] if c in ints else v for c, v in
                                           zip("A H B u z x Q R P".split(), (A, H, B, U, Z, x0, Q, R, P0))]
        c = s["control"]
        self.nan_u = np.zeros(T, bool)
        self.nan_b = np.zeros(Tx, bool)
        if c == "uNaN":
            U[:] = np.nan
        if c == "BNaN":
            B[:] = np.nan
        if c == "someNaN" and T:
            U[gi_idx(T, 0)] = np.nan
            B[gi_idx(Tx, 1)] = np.nan
        if c == "firstNaN" and T:
            U[0] = np.nan
        if c == "colNaN" and T:      # whole columns, rows and components, never everything
            B[:, :, 0] = np.nan
            if s["l"] == 1:
                B[:, 0, 0] = 0.5
            B[Tx // 2:, 0, :] = np.nan
            if n == 1:
                B[Tx // 2:, 0, -1] = 0.25
            U[T // 3:, :-1] = np.nan
        if c == "maskNaN" and T:
            gm = rng_of(s, "mask")
            for a in (B, U):
                a[gm.random(a.shape) < 0.5] = np.nan
        if c == "partNaN" and T:
            U[-1, 0] = np.nan
            B[-1 if not s["extra"] else T - 1, 0, 0] = np.nan
        if s["special"]:
            v = float(s["special"])
            for a in (Z, x0):
                if a.dtype.kind == "f" and a.size:
                    a.flat[0] = v
            if c in ("both",) and U.dtype.kind == "f" and U.size:
                U.flat[-1] = v
        self.A, self.H, self.Q, self.R, self.Z, self.x0, self.P0 = A, H, Q, R, Z, x0, P0
        self.hasB, self.hasU = c not in ("noB", "none"), c not in ("noU", "none")
        self.B, self.U = (B if self.hasB else None), (U if self.hasU else None)
        # the arrays as the user gives them
        zz = Z[:, 0] if s["zs"] == "" else Z
        rr = R[:, 0, 0] if s["rs"] == "" else R
        qq = Q[:, 0, 0] if s["qs"] == "" else Q
        xx = x0.reshape(1, 1) if s["xs"] == "nn" else x0
        lay = self.layout
        self.g = dict(A=lay(A), B=lay(self.B), H=lay(H), Q=lay(qq), R=lay(rr), Z=lay(zz), U=lay(self.U),
                      xk=lay(xx), Pk=lay(P0))
        self.copies = {k: copyof(v) for k, v in self.g.items()}
        self.foreign = []
        self.hot = {}
        self.units = None
        ru = [x for x in regs if x.startswith("units")]
        if ru and not ints:
            gu = rng_of(s, "units")
            if "units" in par:           # alternate components in units of 2^e
                e = par["units"]
                d = np.array([e * (i % 2) for i in range(n)])
                self.units = 2.0 ** d, np.ones(m)
            else:
                w = int(ru[0][5:])
                self.units = 2.0 ** gu.integers(-w, w + 1, n), 2.0 ** gu.integers(-3, 4, m)
        if s["kind"] == "ekf":
            self.make_model()
            if "exact" in regs and not ints:
                x = np.asarray(x0, float)
                for k in range(T):
                    x = np.asarray(self.f0(x, None if self.U is None else self.U[k]), float).reshape(-1)
                    Z[k] = np.asarray(self.h0(x), float).reshape(-1)
                self.g["Z"] = lay(Z[:, 0] if s["zs"] == "" else Z)
                self.copies["Z"] = copyof(self.g["Z"])

    def layout(self, a):
        if a is None:
            return None
        a = np.array(a)
        L = self.s["layout"]
        if L == "F":
            a = np.asfortranarray(a)
        elif L == "strided":
            b = np.zeros(tuple(2 * d for d in a.shape), a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in a.shape)]
        elif L == "reversed":
            a = np.ascontiguousarray(a[::-1])[::-1] if a.ndim else a
        if L == "readonly":
            a.setflags(write=False)
        return a

    # ---- the user's model of an extended filter
    def make_model(self):
        s = self.s
        A, B, H, n, m = self.A, self.B, self.H, s["n"], s["m"]
        kind = s["model"]
        ints = set(s["ints"])
        A0 = np.asarray(A[0] if len(A) else np.eye(n), float)
        H0 = np.asarray(H[0] if len(H) else np.eye(m, n), float)
        B0 = np.asarray(self.B[0] if self.B is not None and len(self.B) else np.full((n, s["l"]), 0.5), float)
        if not np.all(np.isfinite(B0)):
            B0 = np.full((n, s["l"]), 0.5)
        if {"f", "JA", "h", "JH"} & ints:
            A0, H0, B0 = np.rint(2 * A0), np.rint(2 * H0), np.rint(2 * B0)
        self.fuse = None

        def burn():
            if self.fuse is not None:
                self.fuse -= 1
                if self.fuse < 0:
                    raise ModelError("the model function fails")

        off = lambda u: u is None or bool(np.isnan(np.asarray(u, float)).all())
        calls = self.calls = []
        foreign = self.foreign

        def out(v, key, shape):
            v = np.array(v, dtype=np.int64 if key in ints else float).reshape(shape)
            foreign.append((key, v, v.copy()))
            return v

        def flat(x):
            return np.asarray(x, float).reshape(-1)

        def ctl(u):                     # the user's model takes missing components as zero
            return np.nan_to_num(flat(u))

        def f0(x, u):
            x = flat(x)
            y = A0 @ x
            if kind == "nonlinear":
                y = y + 0.3 * np.sin(x) + 0.1
                if "f" in ints:
                    y = np.rint(y)
            if not off(u):
                y = y + B0 @ ctl(u)
                if kind == "nonlinear" and "f" not in ints:
                    y = y + 0.2 * np.cos(x) * (ctl(u)[0] + 0.5)
            return np.rint(y) if "f" in ints else y

        def J0(x, u):
            x = flat(x)
            J = A0.copy()
            if kind == "nonlinear":
                J = J + 0.3 * np.diag(np.cos(x))
                if not off(u):
                    J = J - 0.2 * np.diag(np.sin(x)) * (ctl(u)[0] + 0.5)
            return np.rint(J) if "JA" in ints else J

        def h0(x):
            y = H0 @ flat(x)
            if kind == "nonlinear":
                y = y + 0.25 * np.sin(flat(x)[:1]) + 0.1
            return np.rint(y) if "h" in ints else y

        def JH0(x):
            J = H0.copy()
            if kind == "nonlinear":
                J = J + 0.0
                J[:, 0] += 0.25 * np.cos(flat(x)[0])
            return np.rint(J) if "JH" in ints else J

        if kind == "identity" and n == m:
            f0 = lambda x, u: flat(x)
            h0 = lambda x: flat(x)
            J0 = lambda x, u: np.eye(n)
            JH0 = lambda x: np.eye(n)
        self.f0, self.J0, self.h0, self.JH0 = f0, J0, h0, JH0
        hret = s["hret"]
        constJ = {}

        def f(x, u, /):
            burn()
            calls.append(("f", np.array(x), None if u is None else np.array(u)))
            if kind == "identity" and n == m and "f" not in ints:
                foreign.append(("f", x, np.array(x)))
                return x
            return out(f0(x, u), "f", np.shape(x))

        def h(x, /):
            burn()
            calls.append(("h", np.array(x)))
            if kind == "identity" and n == m and "h" not in ints and hret in ("m", "x") and np.ndim(x) == 1:
                foreign.append(("h", x, np.array(x)))
                return x
            return out(h0(x), "h", {"m": (m,), "1": (1,), "": (), "x": np.shape(x)}[hret])

        def JA(x, u, /):
            burn()
            calls.append(("JA", np.array(x), None if u is None else np.array(u)))
            if kind == "linear":        # the same constant array every time
                if "A" not in constJ:
                    constJ["A"] = out(J0(x, u), "JA", (n, n))
                return constJ["A"]
            return out(J0(x, u), "JA", (n, n))

        def JH(x, /):
            burn()
            calls.append(("JH", np.array(x)))
            if kind == "linear":
                if "H" not in constJ:
                    constJ["H"] = out(JH0(x), "JH", (m, n))
                return constJ["H"]
            return out(JH0(x), "JH", (m, n))
        self.f, self.h, self.JA, self.JH = f, h, JA, JH

    # ---- the filter
    def make(self, **over):
        s, g, K = self.s, dict(self.g), self.K
        g.update(over)
        f, h, JA, JH = (self.f, self.h, self.JA, self.JH) if s["kind"] == "ekf" else (None,) * 4
        if self.units:
            g = {k: self.lay_scaled(self.scaled(k, v)) for k, v in g.items()}
            if s["kind"] == "ekf":
                sc, un = self.scaled, lambda x: self.scaled("xk", x, -1)
                f = lambda x, u: sc("xk", self.f(un(x), u))
                h = lambda x: sc("zk", self.h(un(x)))
                JA = lambda x, u: sc("A", self.JA(un(x), u))
                JH = lambda x: sc("H", self.JH(un(x)))
        o = self.build(g, f, h, JA, JH)
        return Proxy(o, self) if self.units else o

    def lay_scaled(self, v):
        return self.layout(v)

    def scaled(self, key, v, sign=1):
        """A value in other units, and back with sign -1; exact."""
        if v is None or np.size(v) == 0:
            return v
        D, E = self.units
        D, E = (D, E) if sign > 0 else (1 / D, 1 / E)
        v = np.array(v, dtype=float)
        n, m = len(D), len(E)
        if key in ("xk", "X"):
            return v * (D.reshape(1, 1) if v.shape == (1, 1) else D)
        if key in ("zk", "Z"):
            return v * (E if v.ndim and v.shape[-1] == m and m > 1 else E[0])
        if key in ("A", "Ak"):
            return v * np.outer(D, 1 / D)
        if key in ("B", "Bk"):
            return v * D[:, None]
        if key in ("H", "Hk"):
            return v * np.outer(E, 1 / D)
        if key in ("Q", "Qk", "Pk"):
            return v * (np.outer(D, D) if v.ndim > 1 else D[0] ** 2)
        if key in ("R", "Rk"):
            return v * (np.outer(E, E) if v.ndim > 1 else E[0] ** 2)
        if key == "K":
            return v * np.outer(D, 1 / E)
        return v

    def build(self, g, f, h, JA, JH):
        s, K = self.s, self.K
        if s["kind"] == "kf":
            kw = dict(A=g["A"], xk=g["xk"], B=g["B"], Pk=g["Pk"], H=g["H"], Q=g["Q"], R=g["R"])
            if s["state_size"]:
                kw["state_size"] = s["n"]
            if s["style"] == "pos":
                return K.KalmanFilter(*kw.values())
            return K.KalmanFilter(**kw)
        kw = dict(xk=g["xk"], Pk=g["Pk"], Q=g["Q"], R=g["R"], f=f, h=h, jacobian_A=JA, jacobian_H=JH)
        if s["style"] == "pos":
            return K.ExtendedKalmanFilter(*kw.values())
        return K.ExtendedKalmanFilter(**kw)

    def run(self, o, what, Z=None, U="given"):
        Z = self.g["Z"] if Z is None else Z
        U = self.g["U"] if isinstance(U, str) else U
        f = getattr(o, what)
        if U is None:
            return f(Z)
        return f(Z, U) if self.s["style"] == "pos" else f(Z=Z, U=U)

    def one(self, o, which, a):
        """A single predict or update, by keyword or by position in the documented order."""
        f = getattr(o, which)
        return f(*a.values()) if self.s["style"] == "pos" and not self.units else f(**a)

    def failing(self, o, which):
        """A call that ends with an exception: a singular innovation covariance
        or a model function that raises half-way."""
        s, g = self.s, self.g
        T = s["T"]
        if not T or self.units:
            return
        k = T // 2
        if s["kind"] == "kf":
            if which == "predict":
                return
            ar = [g["H"], g["R"]]
            if which == "update":
                a = self.one_args(0, "update")
                a["Hk"], a["Rk"] = (np.zeros_like(a[x]) for x in ("Hk", "Rk"))
                run = lambda: self.one(o, which, a)
                ar = []
            else:
                run = lambda: self.run(o, which)
            if not all(a.flags.writeable for a in ar):
                return
            keep = [np.array(a[k]) for a in ar]
            for a in ar:
                a[k] = 0
            try:
                run()
            except np.linalg.LinAlgError:
                pass
            finally:
                for a, b in zip(ar, keep):
                    a[k] = b
            return
        self.fuse = 1 if which in ("predict", "update") else 2 * T + 1 + (T if which == "smooth" else 0)
        try:
            self.run(o, which) if which in ("filter", "smooth") else self.one(o, which, self.one_args(0, which))
        except ModelError:
            pass
        finally:
            self.fuse = None

    def one_args(self, k, which):
        """Arguments of a single predict/update at step k."""
        g, s = self.g, self.s
        g = dict(g, **self.hot)
        if which == "predict":
            B = None if g["B"] is None else g["B"][k]
            u = None if g["U"] is None else g["U"][k]
            if s["kind"] == "kf":
                return dict(Ak=g["A"][k], xk=g["xk"], Bk=B, uk=u, Pk=g["Pk"], Qk=g["Q"][k])
            return dict(xk=g["xk"], uk=u, Pk=g["Pk"], Qk=g["Q"][k])
        if s["kind"] == "kf":
            return dict(Hk=g["H"][k], xk=g["xk"], Pk=g["Pk"], zk=g["Z"][k], Rk=g["R"][k])
        return dict(xk=g["xk"], Pk=g["Pk"], zk=g["Z"][k], Rk=g["R"][k])

    def do_history(self, o):
        if {"smooth", "smooth2", "smooth~", "inplace"} & set(self.s["history"]) and self.s["T"]:
            keep = {k: getattr(self, k, 0) for k in ("cond", "dx", "dp", "dk", "sx", "sp")}
            self.expected(True)
            self.__dict__.update(keep)
        for h in self.s["history"]:
            try:
                self.earlier(o, h)
            except np.linalg.LinAlgError:
                if h in ("filter", "smooth"):
                    self.expected(h == "smooth")     # skips the singular ones
                elif h == "update":
                    self.regular(0)
                if h in ("filter", "smooth", "predict", "update"):
                    raise
                raise Skip("an earlier call on other data is singular")

    def regular(self, k):
        """Skips an update of the initial estimate at step k that is singular."""
        try:
            self.cond = 1.0
            r = self.update(k, np.asarray(self.x0, float), np.asarray(self.P0, float))
        except np.linalg.LinAlgError:
            raise Skip("singular")
        if not self.cond <= 1e10:
            raise Skip("ill-conditioned")
        return r

    def earlier(self, o, h):
        if h in ("filter", "smooth"):
            if h == "smooth" and self.s["T"] == 0:
                return
            self.run(o, h)
        elif h in ("predict", "update"):
            if self.s["T"] or self.s["extra"]:
                if self.s["T"]:
                    self.one(o, h, self.one_args(0, h))
        elif h in ("filter2", "smooth2") and self.s["T"]:
            U = self.g["U"]
            self.run(o, h[:-1], np.array(self.g["Z"]) * 2 + 1, None if U is None else np.array(U) * 3 - 1)
        elif h == "inplace" and self.s["T"]:      # the caller reuses its arrays
            new = {}
            for k in ("Z", "U", "xk", "Pk"):
                v = self.g[k]
                if v is not None:
                    new[k] = np.array(v) * 2
                    if k in ("Z", "xk") :
                        new[k] = new[k] + 1
            keep, self.hot = dict(self.g), {k: new[k] for k in ("xk", "Pk")}
            self.g.update(Z=new["Z"], U=new.get("U"))
            self.run(o, "filter")
            self.run(o, "smooth")
            self.one(o, "predict", self.one_args(0, "predict"))
            self.one(o, "update", self.one_args(0, "update"))
            for k, v in new.items():
                new[k][...] = keep[k]
        elif h in ("filter~", "smooth~") and self.s["T"]:     # almost the same call
            U = self.g["U"]
            self.run(o, h[:-1], np.array(self.g["Z"]) * (1 + 1e-7), None if U is None else np.array(U) * (1 - 1e-7))
        elif h in ("predict~", "update~") and self.s["T"]:
            a = self.one_args(0, h[:-1])
            o1 = 1 + 1e-7
            self.one(o, h[:-1], {k: v if v is None or k in ("Ak", "Hk", "Bk") else np.array(v) * o1
                                  for k, v in a.items()})
        elif h in ("predict2", "update2") and self.s["T"]:
            a = self.one_args(self.s["T"] - 1, h[:-1])
            a.update(xk=np.array(a["xk"]) + 1, Pk=np.array(a["Pk"]) * 2)
            if "zk" in a:
                a.update(zk=np.array(a["zk"]) * 3 - 1, Rk=np.array(a["Rk"]) * 4)
            self.one(o, h[:-1], a)
        elif h.startswith("fail "):
            self.failing(o, h[5:])
        elif h == "other":
            c = Case(dict(self.s, seed=self.s["seed"] + 101, history=()), self.K)
            p = c.make()
            c.run(p, "filter")
        elif h == "shorter" and self.s["T"] > 1:
            U = self.g["U"]
            self.run(o, "filter", self.g["Z"][:1], None if U is None else U[:1])

    # ---- expected values
    def ctl(self, k):
        if self.B is None or self.U is None:
            return 0.0
        b, u = np.asarray(self.B[k], float), np.asarray(self.U[k], float)
        if np.isnan(b).all() or np.isnan(u).all():
            return 0.0
        return b @ u

    def predict(self, k, x, P):
        """Expected prediction of step k from x, P (flat mean)."""
        Q = np.asarray(self.Q[k], float)
        if self.s["kind"] == "kf":
            A = np.asarray(self.A[k], float)
            xp = A @ x + self.ctl(k)
        else:
            u = None if self.U is None else self.U[k]
            A = np.asarray(self.J0(x, u), float)
            xp = np.asarray(self.f0(x, u), float)
        return xp, A @ P @ A.T + Q, A

    def update(self, k, x, P, wob=None):
        R, z = np.asarray(self.R[k], float), np.asarray(self.Z[k], float)
        if self.s["kind"] == "kf":
            H = np.asarray(self.H[k], float)
            hx = H @ x
        else:
            H = np.asarray(self.JH0(x), float)
            hx = np.asarray(self.h0(x), float)
        S = H @ P @ H.T + R
        G = np.linalg.inv(S)
        G = G + G @ (np.eye(len(S)) - S @ G)
        Kk = P @ H.T @ G
        cond = np.linalg.cond(S)
        self.cond = max(self.cond, cond)
        if wob:                      # what solving with S may lose
            Kk = wob(Kk, min(1e-15 * cond, 1e-3))
        return x + Kk @ (z - hx), (np.eye(len(x)) - Kk @ H) @ P, Kk, hx

    def expected(self, smooth=False):
        """Means, covariances, gains; self.sx, self.sp: magnitudes; self.dx,
        self.dp: what perturbing every step by 1e-13 changes."""
        try:
            X2, C2 = self._expected(smooth, 1e-13)
            f2, K2 = self.filtered, self.KK
            X, C = self._expected(smooth, 0.0)
        except np.linalg.LinAlgError:
            raise Skip("singular")
        if self.cond > 1e10 or not np.isfinite(self.cond):
            raise Skip("ill-conditioned")
        gap = lambda a, b: float(np.nanmax(np.abs(a - b), initial=0.0))
        self.dx, self.dp = max(gap(X, X2), gap(self.filtered[0], f2[0])), max(gap(C, C2), gap(self.filtered[1], f2[1]))
        self.dk = max([gap(a, b) for a, b in zip(self.KK, K2)] + [0.0])
        if self.dk > 1e-7 * max([np.abs(a).max() for a in self.KK] + [1e-30]):
            raise Skip("sensitive")
        if self.dx > 1e-7 * self.sx or self.dp > 1e-7 * self.sp:
            raise Skip("sensitive")
        return X, C

    dx = dp = dk = 0.0

    def _expected(self, smooth, eps):
        s = self.s
        gp = np.random.default_rng(5)
        wob = (lambda v, e=0.0: v * (1 + max(eps, e) * gp.choice([-1.0, 1.0], np.shape(v)))) if eps else \
            (lambda v, e=0.0: v)
        T, n = s["T"], s["n"]
        x, P = np.asarray(self.x0, float), np.asarray(self.P0, float)
        X, C, XP, PP, KK = [], [], [], [], []
        self.cond = 1.0
        mx, mp = [1e-30, np.abs(x).max()], [1e-30, np.abs(P).max()]
        for k in range(T):
            xp, Pp, A = self.predict(k, x, P)
            self.vanished(k, Pp, max(mp))
            x, P, Kk, hx = self.update(k, wob(xp), Pp, wob)
            x, P = wob(x), P if not eps else P + eps * np.abs(Pp).max() * sgn(gp, n)
            mx += [np.abs(xp).max(), np.abs(x).max(), np.abs(hx).max() * np.abs(Kk).max(),
                   np.abs(self.Z[k]).max() * np.abs(Kk).max()]
            mp += [np.abs(Pp).max(), np.abs(P).max()]
            X.append(x), C.append(P), XP.append(xp), PP.append(Pp), KK.append(Kk)
        self.XP, self.PP, self.KK = XP, PP, KK
        X0, C0 = list(X), list(C)
        if smooth:
            for k in range(T - 2, -1, -1):
                xp, Pp, A = self.predict(k + 1, X0[k], C0[k])
                self.vanished(None, Pp, max(mp))
                c = np.linalg.cond(Pp)
                self.cond = max(self.cond, c)
                G = wob(C0[k] @ A.T @ np.linalg.inv(Pp), min(1e-15 * c, 1e-3))
                X[k] = X0[k] + G @ (X[k + 1] - xp)
                C[k] = C0[k] + G @ (C[k + 1] - Pp) @ G.T
                mx.append(np.abs(X[k]).max())
                mx.append(np.abs(G).max() * np.abs(xp).max())
                mp.append(np.abs(C[k]).max())
        self.filtered = (np.array(X0).reshape(T, n), np.array(C0).reshape(T, n, n))
        self.sx, self.sp = max(v for v in mx if np.isfinite(v)), max(v for v in mp if np.isfinite(v))
        return np.array(X).reshape(T, n), np.array(C).reshape(T, n, n)

    def vanished(self, k, Pp, was):
        """Without noise a covariance may be zero up to rounding, which no condition number shows."""
        if "zeroR" not in self.s["regime"] or not np.isfinite(Pp).all():
            return
        if k is not None:
            R = np.asarray(self.R[k], float)
            H = self.H[k] if self.s["kind"] == "kf" else self.JH0(self.x0)
            was, Pp = was * max(1e-3, np.abs(H).max() ** 2), np.asarray(H, float) @ Pp @ np.asarray(H, float).T + R
        if np.linalg.svd(Pp, compute_uv=False)[-1:].sum() < 1e-10 * was:
            raise np.linalg.LinAlgError

    def tol(self, scale):
        sens = max(self.dx / self.sx, self.dp / self.sp) if self.sx else 0.0
        return scale * (1e-9 * max(1.0, self.cond / 1e3) + 1e3 * sens)

    sx = sp = 0.0

    def inputs_changed(self):
        for k, v in self.g.items():
            c = self.copies[k]
            if v is not None and not same_bits(v, c):
                return k
        for key, v, c in self.foreign:
            if not same_bits(v, c):
                return f"the array returned by the user's {key}"
        return None


class Proxy:
    """A filter of a model in other units, used in the units of the case."""

    def __init__(self, o, c):
        self._o, self._c = o, c

    def _back(self, r, mean="xk"):
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(v, np.ndarray) for v in r)):
            return r
        n = self._c.s["n"]
        if r[0].shape[-1:] != (n,) or r[1].shape[-2:] != (n, n):
            return r
        return self._c.scaled("xk", r[0], -1), self._c.scaled("Pk", r[1], -1)

    def _call(self, what, kw):
        return self._back(getattr(self._o, what)(**{k: self._c.scaled(k, v) for k, v in kw.items()}))

    def predict(self, **kw):
        return self._call("predict", kw)

    def update(self, **kw):
        return self._call("update", kw)

    def filter(self, Z, U=None):
        return self._call("filter", dict(Z=Z, U=U))

    def smooth(self, Z, U=None):
        return self._call("smooth", dict(Z=Z, U=U))

    @property
    def kalman_gains(self):
        s = self._c.s
        return [self._c.scaled("K", np.reshape(v, (s["n"], s["m"])), -1) if np.size(v) == s["n"] * s["m"] else v
                for v in self._o.kalman_gains]

    def __getattr__(self, k):
        return getattr(self._o, k)


def sgn(g, n):
    a = g.choice([-1.0, 1.0], (n, n))
    return np.triu(a) + np.triu(a, 1).T


def gi_idx(T, odd):
    return np.arange(T) % 3 == odd


def copyof(v):
    return None if v is None else np.array(v)


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == \
        np.ascontiguousarray(b).tobytes()


class Skip(Exception):
    pass


class Bad(Exception):
    """The property is broken; the message says what was observed."""


class Singular(Bad):
    """A call ended with LinAlgError."""


def close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b, float)
    if a.shape != b.shape:
        raise Bad(f"{what}: shape {a.shape}, expected {b.shape}")
    if a.dtype.kind not in "fiub":
        raise Bad(f"{what}: dtype {a.dtype}")
    a = a.astype(float)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        raise Bad(f"{what}: NaN pattern differs: {short(a)}, expected {short(b)}")
    d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    d = np.where(np.isfinite(d), d, np.inf)
    if d.size and d.max() > tol:
        i = np.unravel_index(d.argmax(), d.shape)
        raise Bad(f"{what}: entry {tuple(int(x) for x in i)} is {float(a[i])!r}, expected {float(b[i])!r}")


def short(a):
    return np.array2string(np.asarray(a), threshold=12, precision=6).replace("\n", " ")


def two(r, what):
    if not isinstance(r, tuple) or len(r) != 2:
        raise Bad(f"{what} returned {type(r).__name__}, expected two arrays")
    for v in r:
        if not isinstance(v, np.ndarray):
            raise Bad(f"{what} returned a {type(v).__name__}")
    return r


def guard(f, what):
    try:
        return f()
    except (Bad, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        w = [x for x in tb if "kalmankit" in x.filename]
        at = f" at {os.path.basename(w[-1].filename)}:{w[-1].lineno}" if w else ""
        raise (Singular if isinstance(e, np.linalg.LinAlgError) else Bad)(f"{what} raised {type(e).__name__}: {e}{at}")


def flatx(c, x, k=None):
    """A returned mean as a vector, checking its shape is that of the given."""
    return np.asarray(x)


# ------------------------------------------------------------------ oracles
def ev_predict(s, K, only_control=False):
    c = Case(s, K)
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    if not s["T"]:
        raise Skip("T=0")
    before = list(o.kalman_gains)
    for k in sorted({0, s["T"] - 1}):
        a = c.one_args(k, "predict")
        x, P = two(guard(lambda: c.one(o, "predict", a), "predict"), "predict")
        c.cond = 1.0
        ex, eP, A = c.predict(k, np.asarray(c.x0, float), np.asarray(c.P0, float))
        if s["kind"] == "ekf" and s["model"] == "nonlinear":
            n0 = len(c.calls)
        sc = max(np.abs(ex[np.isfinite(ex)]).max(initial=0), np.abs(c.x0).max(), 1e-30)
        close(x, ex.reshape(np.shape(c.g["xk"])), 1e-9 * sc, "predicted mean")
        close(P, eP, 1e-9 * max(np.abs(eP).max(), np.abs(c.P0).max(), 1e-30), "predicted covariance")
        if len(o.kalman_gains) != len(before):
            raise Bad("predict changed the gain log")
    return c


def ev_update(s, K):
    c = Case(s, K)
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    if not s["T"]:
        raise Skip("T=0")
    for k in sorted({0, s["T"] - 1}):
        a = c.one_args(k, "update")
        n0 = len(o.kalman_gains)
        ex, eP, eK, hx = c.regular(k)
        x, P = two(guard(lambda: c.one(o, "update", a), "update"), "update")
        sx = max(np.abs(ex).max(), np.abs(c.x0).max(), np.abs(eK).max() * max(np.abs(c.Z[k]).max(), np.abs(hx).max()), 1e-30)
        sp = max(np.abs(c.P0).max(), 1e-30)
        close(x, ex.reshape(np.shape(c.g["xk"])), c.tol(sx), "updated mean")
        close(P, eP, c.tol(sp), "updated covariance")
        if len(o.kalman_gains) != n0 + 1:
            raise Bad(f"update logged {len(o.kalman_gains) - n0} gains, expected one")
        close(np.reshape(o.kalman_gains[-1], (s["n"], s["m"])), eK, c.tol(max(np.abs(eK).max(), 1e-30)), "logged gain")
        # the covariance and the gain owe nothing to the observation, a missing one included
        a = {**a, "zk": np.asarray(a["zk"], float) * np.nan}
        n0 = len(o.kalman_gains)
        x, P2 = two(guard(lambda: c.one(o, "update", a), "update with a NaN observation"), "update")
        close(P2, eP, c.tol(sp), "covariance updated with a NaN observation")
        if len(o.kalman_gains) != n0 + 1:
            raise Bad(f"update with a NaN observation logged {len(o.kalman_gains) - n0} gains, expected one")
        close(np.reshape(o.kalman_gains[-1], (s["n"], s["m"])), eK, c.tol(max(np.abs(eK).max(), 1e-30)),
              "gain logged for a NaN observation")
    return c


def ev_series(s, K, what):
    if what == "smooth" and s["T"] == 0:
        raise Skip("T=0")
    c = Case(s, K)
    ex, eP = c.expected(what == "smooth")
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    X, P = two(guard(lambda: c.run(o, what), what), what)
    if X.dtype != float or P.dtype != float:
        raise Bad(f"{what} returned dtypes {X.dtype}, {P.dtype}")
    close(X, ex, c.tol(c.sx), f"{what}: means")
    close(P, eP, c.tol(c.sp), f"{what}: covariances")
    return c


def ev_c01(s, K):
    if s["kind"] != "kf":
        raise Skip("kind")
    return ev_predict(s, K)


def ev_c02(s, K):
    if s["kind"] != "kf":
        raise Skip("kind")
    c = ev_predict(s, K)
    if s["T"]:
        # a single call with the control left out
        o = guard(c.make, "construction")
        a = c.one_args(0, "predict")
        g = dict(a)
        for miss in ({"Bk": None}, {"uk": None}, {"Bk": None, "uk": None},
                     {"Bk": np.full((s["n"], s["l"]), np.nan)}, {"uk": np.full(s["l"], np.nan)}):
            g = {**a, **miss}
            x, P = two(guard(lambda: o.predict(**g), "predict without control"), "predict")
            ex = (np.asarray(c.A[0], float) @ np.asarray(c.x0, float)).reshape(np.shape(c.g["xk"]))
            close(x, ex, 1e-9 * max(np.abs(ex).max(), np.abs(c.x0).max(), 1e-30), "mean predicted without control")
        # whole runs: the same as with the missing control given as zeros
        c.expected(True)
        n, l, T, Tx = s["n"], s["l"], s["T"], s["T"] + s["extra"]
        gone = [c.B is None or c.U is None or bool(np.isnan(np.asarray(c.B[k], float)).all()) or
                bool(np.isnan(np.asarray(c.U[k], float)).all()) for k in range(T)]
        if any(gone):
            B = np.zeros((Tx, n, l)) if c.B is None else np.array(c.B, dtype=float)
            U = np.zeros((T, l)) if c.U is None else np.array(c.U, dtype=float)
            for k in range(T):
                if gone[k]:
                    U[k] = 0
                    B[k] = 0
            for what in ("filter", "smooth"):
                r = two(guard(lambda: c.run(guard(c.make, "construction"), what), what), what)
                z = two(guard(lambda: c.run(guard(lambda: c.make(B=B), "construction"), what, None, U), what), what)
                close(r[0], z[0], c.tol(c.sx), f"{what} without control against zero control: means")
                close(r[1], z[1], c.tol(c.sp), f"{what} without control against zero control: covariances")
    return c


def kindly(kind, f):
    def g(s, K):
        if s["kind"] != kind:
            raise Skip("kind")
        return f(s, K)
    return g


def ev_c06(s, K):
    c = ev_predict(s, K)
    xs = [v for v in c.calls if v[0] in ("f", "JA")]
    return c


def linear_scn(s):
    return dict(s, model="linear", hret="m" if s["hret"] == "x" else s["hret"])


def ev_c10(s, K):
    """EKF with a linear, possibly time-varying model against the KF."""
    if s["kind"] != "kf" or "NaN" in s["control"] or s["extra"]:
        raise Skip("kind")
    c = Case(s, K)
    c.expected(True) if s["T"] else c.expected()
    n, m = s["n"], s["m"]
    if s["ints"]:
        raise Skip("ints")
    A, B, H, U = c.A, c.B, c.H, c.U
    # constant model: model functions see no time
    tv = s["regime"] not in ("constant", "steady")
    if tv:
        for a in (A, H) + ((B,) if B is not None else ()):
            a[:] = a[:1]
        c.g.update(A=c.layout(A), H=c.layout(H), B=c.layout(B))
    varying = tv and B is not None and U is not None and s["control"] == "both" and s["T"] and s["seed"] % 2
    if varying:                    # the control carries the time, so the model may depend on it
        g2 = rng_of(s, "varying")
        A = A + g2.uniform(-0.3, 0.3, A.shape)
        B = np.concatenate([B + g2.uniform(-0.3, 0.3, B.shape), np.zeros((len(B), n, 1))], axis=2)
        U = np.concatenate([U, np.arange(len(U))[:, None]], axis=1)
        c.A, c.B, c.U = A, B, U
        c.g.update(A=c.layout(A), B=c.layout(B), U=c.layout(U))
    at = lambda u: int(np.ravel(u)[-1]) if varying else 0
    off = lambda u: B is None or u is None or np.isnan(np.asarray(u, float)).all()
    f = lambda x, u: (A[at(u)] @ np.ravel(x) + (0 if off(u) else B[at(u)] @ np.ravel(u))).reshape(np.shape(x))
    h = lambda x: (H[0] @ np.ravel(x)).reshape((m,) if s["zs"] != "" else (m,))
    e = K.ExtendedKalmanFilter(xk=c.g["xk"], Pk=c.g["Pk"], Q=c.g["Q"], R=c.g["R"], f=f, h=h,
                               jacobian_A=lambda x, u: A[at(u)].copy(), jacobian_H=lambda x: H[0].copy())
    o = guard(c.make, "construction")
    c.expected(True) if s["T"] else c.expected()
    for what in ("filter", "smooth") if s["T"] else ("filter",):
        r1 = two(guard(lambda: c.run(o, what), what), what)
        r2 = two(guard(lambda: c.run(e, what), "extended " + what), what)
        close(r2[0], r1[0], c.tol(c.sx), f"extended {what}: means")
        close(r2[1], r1[1], c.tol(c.sp), f"extended {what}: covariances")
    return c


def ev_c11(s, K):
    c = Case(s, K)
    c.expected(True) if s["T"] else c.expected()
    o = guard(c.make, "construction")
    T = s["T"]
    calls = [("filter", {}), ("smooth", {}), ("predict", {}), ("update", {})] if T else [("filter", {})]
    given = {k: v for k, v in c.g.items()}
    attrs = {k: getattr(o, k, None) for k in ("A", "B", "H", "Q", "R", "xk", "Pk", "state_size")}
    attr_copy = {k: copyof(v) for k, v in attrs.items()}
    hist = [h for h in s["history"] if h[-1] not in "2~" and h != "inplace"] or [c_[0] for c_ in calls]
    kept = []

    def call(obj, w, cc=c):
        if w in ("filter", "smooth"):
            return two(guard(lambda: cc.run(obj, w), w), w)
        return two(guard(lambda: cc.one(obj, w, cc.one_args(0, w)), w), w)

    def check(w):
        ch = c.inputs_changed()
        if ch:
            raise Bad(f"{w} changed {ch}")
        for k, v in attrs.items():
            w2 = getattr(o, k, None)
            if v is None:
                continue
            if not same_bits(w2, attr_copy[k]):
                raise Bad(f"{w} changed the filter's {k}")

    def earlier(w):
        for w0, r0, c0 in kept:
            for v, v0 in zip(r0, c0):
                if not same_bits(v, v0):
                    raise Bad(f"{w} changed the result of an earlier {w0}")

    changed = ["changed filter"] + (["changed smooth"] if T else [])
    for w in hist + [c_[0] for c_ in calls] + changed + ["filter"]:
        if w == "other":
            cc = Case(dict(s, seed=s["seed"] + 7, history=()), K)
            call(guard(cc.make, "construction"), "filter", cc)
            continue
        if w == "shorter":
            if T > 1:
                U = c.g["U"]
                guard(lambda: c.run(o, "filter", c.g["Z"][:1], None if U is None else U[:1]), "filter")
            continue
        if w.startswith("fail "):
            c.failing(o, w[5:])
            check("a " + w[5:] + " that raises")
            earlier(w)
            continue
        if w.startswith("changed"):          # other observations and controls of the same length
            U = c.g["U"]
            guard(lambda: c.run(o, w[8:], np.array(c.g["Z"]) + 1, None if U is None else np.array(U) * 2), w[8:])
            earlier(w)
            continue
        if T == 0 and w != "filter":
            continue
        r = call(o, w)
        check(w)
        if w in ("filter", "smooth"):
            for v, nm in zip(r, ("means", "covariances")):
                for k, a in list(given.items()) + [(f"array returned by {key}", fa) for key, fa, _ in c.foreign]:
                    if a is not None and np.size(a) and np.size(v) and np.shares_memory(v, a):
                        raise Bad(f"{w}: returned {nm} share memory with {k}")
        fresh = guard(c.make, "construction")
        r2 = call(fresh, w)
        for v, v2, nm, sc in zip(r, r2, ("means", "covariances"), (c.sx, c.sp)):
            close(v, v2, 1e-12 * max(sc, np.nanmax(np.abs(v2), initial=0)) * max(1, c.cond), f"{w} after {hist}: {nm}")
            if v.dtype != v2.dtype:
                raise Bad(f"{w}: dtype {v.dtype} after earlier calls, {v2.dtype} on a fresh filter")
        kept.append((w, r, [np.array(v) for v in r]))
        earlier(w)
        check(w)
    for w0, r0, c0 in kept:                  # what a caller does to a result is its own affair
        for v in r0:
            if not any(np.size(fa) and np.shares_memory(v, fa) for _, fa, _ in c.foreign) and v.flags.writeable \
                    and w0 in ("filter", "smooth"):
                v[...] = 7
    if kept and not c.inputs_changed():
        for w0, r0, c0 in ([k for k in kept if k[0] == "filter"][-1:] + [k for k in kept if k[0] == "smooth"][-1:]):
            r = call(o, w0)
            for v, v0, nm, sc in zip(r, c0, ("means", "covariances"), (c.sx, c.sp)):
                close(v, v0, 1e-12 * max(sc, np.nanmax(np.abs(v0), initial=0)) * max(1, c.cond),
                      f"{w0} after its earlier result was written to: {nm}")
        check(w0)
    return c


def ev_c12(s, K):
    c = Case(s, K)
    c.expected(bool(s["T"]))
    o = guard(c.make, "construction")
    o2 = guard(c.make, "construction")
    if len(o.kalman_gains) != 0:
        raise Bad("a new filter's gain log is not empty")
    want = []
    T = s["T"]
    seq = [h for h in s["history"] if h[-1] not in "2~" and h != "inplace" and h[:4] != "fail"] + ["filter", "smooth", "predict", "update", "filter"]
    snap = []
    for w in seq:
        if w == "other":
            cc = Case(dict(s, seed=s["seed"] + 7, history=()), K)
            p = guard(cc.make, "construction")
            guard(lambda: cc.run(p, "filter"), "filter")
        elif w == "shorter":
            if T > 1:
                U = c.g["U"]
                guard(lambda: c.run(o, "filter", c.g["Z"][:1], None if U is None else U[:1]), "filter")
                want.append(c.KK[0])
        elif w in ("filter", "smooth"):
            if w == "smooth" and not T:
                continue
            guard(lambda: c.run(o, w), w)
            want += c.KK
        elif T:
            guard(lambda: c.one(o, w, c.one_args(0, w)), w)
            if w == "update":
                cd = c.cond
                want.append(c.update(0, np.asarray(c.x0, float), np.asarray(c.P0, float))[2])
                c.cond = max(cd, c.cond)
        log = o.kalman_gains
        if len(log) != len(want):
            raise Bad(f"after {w} the log has {len(log)} gains, expected {len(want)}")
        for j, v in enumerate(log):
            close(np.reshape(v, (s["n"], s["m"])) if np.size(v) == s["n"] * s["m"] else v, want[j],
                  c.tol(max(np.abs(want[j]).max(), 1e-30)) + 1e3 * c.dk, f"logged gain {j} after {w}")
        for j, v in enumerate(snap):
            if not same_bits(log[j], v):
                raise Bad(f"{w} changed the earlier log entry {j}")
        snap = [np.array(v) for v in log]
    if len(o2.kalman_gains):
        raise Bad("another filter's gain log changed")
    return c


def psd(M, tol, what):
    M = np.asarray(M, float)
    if not np.isfinite(M).all():
        raise Bad(f"{what}: not finite")
    if np.abs(M - M.T).max(initial=0) > tol:
        raise Bad(f"{what}: not symmetric by {np.abs(M - M.T).max()!r}")
    w = np.linalg.eigvalsh((M + M.T) / 2)
    if w.size and w.min() < -tol:
        raise Bad(f"{what}: eigenvalue {w.min()!r}")


def ev_c13(s, K):
    c = Case(s, K)
    c.expected()
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    X, P = two(guard(lambda: c.run(o, "filter"), "filter"), "filter")
    if P.shape != (s["T"], s["n"], s["n"]):
        raise Bad(f"covariances of shape {P.shape}")
    t = c.tol(c.sp)
    if not np.isfinite(c.filtered[1]).all():
        raise Skip("NaN")
    x, p = c.g["xk"], c.g["Pk"]
    for k in range(s["T"]):
        a = c.one_args(k, "predict")
        a.update(xk=x, Pk=p)
        xp, Pp = two(guard(lambda: c.one(o, "predict", a), "predict"), "predict")
        psd(Pp, t, f"predicted covariance {k}")
        psd(P[k], t, f"filtered covariance {k}")
        psd(Pp - P[k], t, f"predicted minus filtered covariance {k}")
        x, p = X[k].reshape(np.shape(c.g["xk"])), P[k]
    return c


def ev_c14(s, K):
    if not s["T"]:
        raise Skip("T=0")
    c = Case(s, K)
    c.expected(True)
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    X, P = two(guard(lambda: c.run(o, "filter"), "filter"), "filter")
    XS, PS = two(guard(lambda: c.run(o, "smooth"), "smooth"), "smooth")
    t = c.tol(c.sp)
    if not np.isfinite(c.filtered[1]).all():
        raise Skip("NaN")
    if PS.shape != P.shape:
        raise Bad(f"smoothed covariances of shape {PS.shape}")
    for k in range(s["T"]):
        psd(PS[k], t, f"smoothed covariance {k}")
        psd(P[k] - PS[k], t, f"filtered minus smoothed covariance {k}")
    return c


def ev_c15(s, K):
    if s["kind"] != "kf" or not s["T"]:
        raise Skip("kind")
    c = Case(s, K)
    c.expected()
    g = rng_of(s, "gains")
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    n, m = s["n"], s["m"]
    for k in sorted({0, s["T"] // 2, s["T"] - 1}):
        a = c.one_args(k, "update")
        x, P = two(guard(lambda: c.one(o, "update", a), "update"), "update")
        G = np.reshape(o.kalman_gains[-1], (n, m))
        H, R, P0, x0, z = (np.asarray(v, float) for v in (c.H[k], c.R[k], c.P0, c.x0, c.Z[k]))
        J = lambda G: (np.eye(n) - G @ H) @ P0 @ (np.eye(n) - G @ H).T + G @ R @ G.T
        cond = np.linalg.cond(H @ P0 @ H.T + R)
        sc = max(np.abs(P0).max(), np.abs(G @ R @ G.T).max(), 1e-30) * max(1.0, np.abs(H).max() ** 2)
        t = sc * 1e-9 * max(1, cond / 1e3)
        # the gain of the returned mean
        close(np.ravel(x), x0 + G @ (z - H @ x0), 1e-9 * max(1, cond / 1e3) *
              max(np.abs(x0).max(), np.abs(G).max() * (np.abs(z).max() + np.abs(H @ x0).max()), 1e-30),
              "mean as a combination of prediction and observation")
        close(P, J(G), t, "covariance against the true error covariance")
        for _ in range(4):
            D = g.uniform(-1, 1, (n, m)) * 10.0 ** g.integers(-3, 1)
            psd(J(G + D) - P, t * 10 + 1e-9 * np.abs(J(G + D)).max(), "error covariance of another gain minus the returned one")
        if np.linalg.cond(P0) < 1e6:
            Pi, Ri = np.linalg.inv(P0), np.linalg.inv(R)
            gr = Pi @ (np.ravel(x) - x0) - H.T @ Ri @ (z - H @ np.ravel(x))
            lim = 1e-7 * max(np.abs(Pi).max() * (np.abs(x).max() + np.abs(x0).max()),
                             np.abs(H.T @ Ri).max() * (np.abs(z).max() + np.abs(H @ np.ravel(x)).max()), 1e-30)
            lim *= max(1, np.linalg.cond(P0) / 1e3, np.linalg.cond(R) / 1e3)
            if np.abs(gr).max() > lim:
                raise Bad(f"the least-squares cost has gradient {np.abs(gr).max()!r} at the returned mean")
    return c


def ev_c16(s, K):
    c = Case(s, K)
    c.expected()
    T = s["T"]
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    X, P = two(guard(lambda: c.run(o, "filter"), "filter"), "filter")
    tx, tp = c.tol(c.sx), c.tol(c.sp)
    U = c.g["U"]
    cut = lambda v, a, b=None: None if v is None else v[a:b]
    for j in sorted({0, 1, T // 2, T - 1}):
        if j < 0 or j > T:
            continue
        o1 = guard(c.make, "construction")
        r = two(guard(lambda: c.run(o1, "filter", c.g["Z"][:j], cut(U, 0, j)), "filter of a prefix"), "filter")
        close(r[0], X[:j], tx, f"means of the first {j} observations")
        close(r[1], P[:j], tp, f"covariances of the first {j} observations")
        # other later data
        Z2 = np.array(c.g["Z"])
        U2 = None if U is None else np.array(U)
        Z2[j:] = Z2[j:] * 3 + 11
        if U2 is not None:
            U2[j:] = U2[j:] * 2 - 5
        o2 = guard(c.make, "construction")
        r = two(guard(lambda: c.run(o2, "filter", Z2, U2), "filter of other later data"), "filter")
        close(np.asarray(r[0])[:j], X[:j], tx, f"means before {j} with other later data")
        close(np.asarray(r[1])[:j], P[:j], tp, f"covariances before {j} with other later data")
        # continuation
        if 0 < j < T and s["qs"] == s["qs"]:
            g = c.g
            over = dict(xk=X[j - 1].reshape(np.shape(g["xk"])), Pk=P[j - 1])
            for nm in MODEL:
                if nm in g and g[nm] is not None:
                    over[nm] = g[nm][j:]
            o3 = guard(lambda: c.make(**over), "construction")
            r = two(guard(lambda: c.run(o3, "filter", g["Z"][j:], cut(U, j)), "continued filter"), "filter")
            close(r[0], X[j:], tx, f"means continued at {j}")
            close(r[1], P[j:], tp, f"covariances continued at {j}")
    # by hand
    o4 = guard(c.make, "construction")
    x, p = c.g["xk"], c.g["Pk"]
    for k in range(T):
        a = c.one_args(k, "predict")
        a.update(xk=x, Pk=p)
        x, p = two(guard(lambda: c.one(o4, "predict", a), "predict"), "predict")
        a = c.one_args(k, "update")
        a.update(xk=x, Pk=p)
        x, p = two(guard(lambda: c.one(o4, "update", a), "update"), "update")
        close(np.ravel(x), X[k], tx, f"mean {k} by hand")
        close(p, P[k], tp, f"covariance {k} by hand")
    return c


def ev_c17(s, K):
    if s["kind"] != "kf":
        raise Skip("kind")
    c = Case(s, K)
    c.expected(bool(s["T"]))
    o = guard(c.make, "construction")
    guard(lambda: c.do_history(o), "an earlier call")
    n0 = len(o.kalman_gains)
    g = c.g
    for what in ("filter", "smooth") if s["T"] else ("filter",):
        n0 = len(o.kalman_gains)
        X, P = two(guard(lambda: c.run(o, what), what), what)
        G = [np.array(v) for v in o.kalman_gains[n0:]]
        t = c.tol(c.sp)
        hole = np.array(g["Z"], dtype=float)
        hole[s["T"] // 2:s["T"] // 2 + 1] = np.nan
        for Z2, U2, x2 in ((np.array(g["Z"]) * 0, g["U"], g["xk"]), (g["Z"], None, g["xk"]), (hole, g["U"], g["xk"]),
                           (np.array(g["Z"]) * 100 + 3, None if g["U"] is None else np.array(g["U"]) * 7,
                            np.array(g["xk"]) * 50 - 1),
                           (np.array(g["Z"]) * -1, g["U"], np.array(g["xk"]) * 0)):
            o2 = guard(lambda: c.make(xk=x2), "construction")
            X2, P2 = two(guard(lambda: c.run(o2, what, Z2, U2), what), what)
            close(P2, P, t, f"{what}: covariances with other data")
            if len(o2.kalman_gains) != len(G):
                raise Bad(f"{what}: {len(o2.kalman_gains)} gains with other data, {len(G)} before")
            for a, b in zip(o2.kalman_gains, G):
                close(a, b, c.tol(max(np.abs(b).max(), 1e-30)), f"{what}: gains with other data")
    return c


def ev_c18(s, K):
    if s["m"] != 1:
        raise Skip("m")
    base = dict(s, zs="m", rs="mm", qs="nn", xs="n", hret="m" if s["hret"] in ("", "1") else s["hret"])
    c0 = Case(base, K)
    c0.expected(bool(s["T"]))
    variants = [dict(base, zs="", rs=""), dict(base, zs="", rs="mm"), dict(base, zs="m", rs="")]
    if s["kind"] == "ekf":
        variants = [dict(v, hret=h) for v in variants for h in ("m", "")]
    if s["n"] == 1:
        variants += [dict(v, qs="", xs="nn", hret="x" if s["kind"] == "ekf" and h else v["hret"])
                     for v in variants + [base] for h in ((0, 1) if s["kind"] == "ekf" else (0,))]
        variants += [dict(base, qs="")]
    for what in ("filter", "smooth") if s["T"] else ("filter",):
        ref = two(guard(lambda: c0.run(c0.make(), what), what), what)
        for v in variants:
            c = Case(v, K)
            r = two(guard(lambda: c.run(c.make(), what), f"{what} with Z{v['zs'] or 'scalar'} R{v['rs'] or 'scalar'}"), what)
            lbl = f"{what} with shapes Z {np.shape(c.g['Z'])}, R {np.shape(c.g['R'])}, Q {np.shape(c.g['Q'])}, " \
                  f"xk {np.shape(c.g['xk'])}"
            close(r[0], ref[0], c0.tol(c0.sx), lbl + ": means")
            close(r[1], ref[1], c0.tol(c0.sp), lbl + ": covariances")
    return c0


def ev_c19(s, K):
    if not s["ints"]:
        raise Skip("ints")
    c = Case(s, K)
    c.expected(bool(s["T"]))
    g = {k: (None if v is None else np.array(v, dtype=float)) for k, v in c.g.items()}
    for what in ("filter", "smooth") if s["T"] else ("filter",):
        r = two(guard(lambda: c.run(guard(c.make, "construction"), what), what), what)
        o = guard(lambda: c.make(**{k: g[k] for k in ("A", "B", "H", "Q", "R", "xk", "Pk")}), "construction")
        f = two(guard(lambda: c.run(o, what, g["Z"], g["U"]), what + " of floats"), what)
        for a, b, nm, sc in zip(r, f, ("means", "covariances"), (c.sx, c.sp)):
            if a.dtype != float:
                raise Bad(f"{what}: {nm} of dtype {a.dtype}")
            close(a, b, c.tol(sc), f"{what} with integer {'+'.join(s['ints'])}: {nm}")
    return c


def ev_c20(s, K):
    U = K.utils
    g = rng_of(s, "helpers")
    shp = tuple(s["shape"])
    dt = np.dtype(s["dt"])
    a = (g.uniform(-5, 5, shp) * 3).astype(dt)
    ro = np.array(a)
    if s["layout"] == "readonly":
        a = a.copy()
        a.setflags(write=False)
    if s["layout"] == "F":
        a = np.asfortranarray(a)
    keep = np.array(a)
    r = guard(lambda: U.check_none_and_broadcast(None, a), "the placeholder helper")
    if not isinstance(r, np.ndarray) or r.shape != a.shape or r.dtype.kind != "f" or not np.isnan(r).all():
        raise Bad(f"placeholder for a reference of shape {shp} and type {dt}: {short(r)} of type {getattr(r, 'dtype', type(r))}")
    if r is a or np.size(r) and np.shares_memory(r, a):
        raise Bad("the placeholder is the reference")
    if not same_bits(a, keep):
        raise Bad("the placeholder helper changed the reference")
    b = (g.uniform(-5, 5, tuple(s["shape2"]))).astype(dt)
    if guard(lambda: U.check_none_and_broadcast(b, a), "the placeholder helper") is not b:
        raise Bad("the placeholder helper did not return the very array it was given")
    if r.size and r.flags.writeable:         # a second placeholder owes nothing to the first
        r[...] = 0.0
        r2 = guard(lambda: U.check_none_and_broadcast(None, a), "the placeholder helper")
        if not np.isnan(r2).all() or r2.shape != a.shape:
            raise Bad("a placeholder is not all NaN after an earlier one was written to")
        if np.shares_memory(r, r2):
            raise Bad("two placeholders share memory")
        r = r2
    # all-NaN test
    if not guard(lambda: bool(U.is_nan_all(r)), "the all-NaN test"):
        raise Bad("the all-NaN test is false for an all-NaN array")
    t = guard(lambda: U.is_nan_all(a), "the all-NaN test")
    if bool(t) != (a.size == 0):
        raise Bad(f"the all-NaN test is {t} for {short(a)}")
    if a.size:
        big = a.size > 300
        for pos in {0, a.size // 2, a.size - 1, int(g.integers(a.size)), int(g.integers(a.size))}:
            for fill in (0.0,) if big else (0.0, np.inf, -1.5, 1e-300):
                v = np.full(shp, np.nan, dtype=[float, float, np.float32][int(g.integers(3))],
                            order="F" if s["layout"] == "F" else "C")
                if v.ndim and g.random() < 0.2:
                    v = np.full(tuple(2 * d for d in shp), np.nan)[tuple(slice(None, None, 2) for _ in shp)]
                v[np.unravel_index(pos, shp)] = fill
                kv = v.copy()
                t = guard(lambda: U.is_nan_all(v), "the all-NaN test")
                if bool(t):
                    raise Bad(f"the all-NaN test is true for an array of shape {shp} with {fill} at {pos}")
                if not same_bits(v, kv):
                    raise Bad("the all-NaN test changed its argument")
                w = np.full(shp, fill)
                w.flat[pos] = np.nan
                t = guard(lambda: U.is_nan_all(w), "the all-NaN test")
                if bool(t) != (a.size == 1):
                    raise Bad(f"the all-NaN test is {t} for an array of shape {shp} with one NaN at {pos}")
        for vals in ((np.inf, -np.inf), (np.inf, -np.inf, np.nan), (np.inf, np.nan), (0.0, np.nan), (1e308, np.nan)):
            v = np.resize(np.array(vals), shp)
            t = guard(lambda: U.is_nan_all(v), "the all-NaN test")
            if bool(t):
                raise Bad(f"the all-NaN test is true for an array of shape {shp} repeating {vals}")
    return None


def ev_c21(s, K):
    c = Case(s, K)
    o = guard(c.make, "construction")
    ch = c.inputs_changed()
    if ch:
        raise Bad(f"construction changed {ch}")
    names = dict(xk="xk", Pk="Pk", Q="Q", R="R")
    if s["kind"] == "kf":
        names.update(A="A", H="H")
        if c.g["B"] is not None:
            names["B"] = "B"
        else:
            b = o.B
            if b is not None and not (np.shape(b)[:1] == np.shape(c.g["A"])[:1] and
                                      np.isnan(np.asarray(b, float)).all()):
                raise Bad(f"omitted control matrix became {short(b)}")
    for a, k in names.items():
        v = getattr(o, a, None)
        if v is None or not same_bits(v, c.copies[k]):
            raise Bad(f"attribute {a} is {short(v)}, given {short(c.copies[k])}")
    if s["kind"] == "ekf":
        for a, f in (("f", c.f), ("h", c.h), ("jacobian_A", c.JA), ("jacobian_H", c.JH)):
            if getattr(o, a, None) != f:
                raise Bad(f"attribute {a} is not the given function")
    if o.state_size != s["n"]:
        raise Bad(f"state size {o.state_size!r}, expected {s['n']}")
    if s["kind"] == "kf":
        for ss in (s["n"], s["n"] + 2, 1):
            p = guard(lambda: K.KalmanFilter(A=c.g["A"], xk=c.g["xk"], B=c.g["B"], Pk=c.g["Pk"], H=c.g["H"],
                                             Q=c.g["Q"], R=c.g["R"], state_size=ss), "construction")
            if p.state_size != ss:
                raise Bad(f"state size {p.state_size!r} after an explicit {ss}")
    o2 = guard(c.make, "construction")
    if len(o.kalman_gains) or len(o2.kalman_gains):
        raise Bad("a new filter's gain log is not empty")
    if o.kalman_gains is o2.kalman_gains:
        raise Bad("two filters share one gain log")
    if s["kind"] == "kf" and c.g["B"] is None:
        b, b2 = o.B, o2.B
        if isinstance(b, np.ndarray) and isinstance(b2, np.ndarray) and b.flags.writeable and np.shares_memory(b, b2):
            raise Bad("two filters without a control matrix share one placeholder array")
    if s["T"]:
        c.expected()
        r0 = two(guard(lambda: c.run(o2, "filter"), "filter"), "filter")
        o3, o4 = guard(c.make, "construction"), guard(c.make, "construction")
        c.expected(True)
        cc = Case(dict(s, seed=s["seed"] + 3, n=s["n"] + (1 if s["n"] > 1 else 0)), K)
        cc.expected(True)
        q = guard(cc.make, "construction")
        guard(lambda: cc.run(q, "smooth"), "smooth")
        guard(lambda: c.run(o3, "smooth"), "smooth")
        guard(lambda: c.one(o3, "predict", c.one_args(0, "predict")), "predict")
        guard(lambda: c.one(o3, "update", c.one_args(0, "update")), "update")
        if len(o4.kalman_gains):
            raise Bad("operations on one filter show in another's gain log")
        r1 = two(guard(lambda: c.run(o4, "filter"), "filter"), "filter")
        close(r1[0], r0[0], c.tol(c.sx), "means after operations on other filters")
        close(r1[1], r0[1], c.tol(c.sp), "covariances after operations on other filters")
        if len(o4.kalman_gains) != s["T"]:
            raise Bad(f"{len(o4.kalman_gains)} gains after filtering {s['T']} observations")
        for k in names:
            if not same_bits(getattr(o4, k), c.copies[names[k]]):
                raise Bad(f"operations changed attribute {k}")
    return c


def ev_c22(s, K):
    import concrete_version as cv
    w = cv.evaluate(s["version"], importlib.import_module("kalmankit._version").render)
    if w == "skip":
        raise Skip
    if w != "ok":
        raise Bad(w)


def ev_git(f):
    def g(s, K):
        import concrete_git as cg
        w = getattr(cg, f)(s["version"], importlib.import_module("kalmankit._version"))
        if w == "skip":
            raise Skip
        if w != "ok":
            raise Bad(w)
    return g


EVAL = {
    "C22": ev_c22, "C23": ev_git("eval23"), "C24": ev_git("eval24"), "C25": ev_git("eval25"), "C26": ev_git("eval26"),
    "C01": ev_c01, "C02": ev_c02, "C03": kindly("kf", ev_update),
    "C04": kindly("kf", lambda s, K: ev_series(s, K, "filter")),
    "C05": kindly("kf", lambda s, K: ev_series(s, K, "smooth")),
    "C06": kindly("ekf", ev_c06), "C07": kindly("ekf", ev_update),
    "C08": kindly("ekf", lambda s, K: ev_series(s, K, "filter")),
    "C09": kindly("ekf", lambda s, K: ev_series(s, K, "smooth")),
    "C10": ev_c10, "C11": ev_c11, "C12": ev_c12, "C13": ev_c13, "C14": ev_c14, "C15": ev_c15,
    "C16": ev_c16, "C17": ev_c17, "C18": ev_c18, "C19": ev_c19, "C20": ev_c20, "C21": ev_c21,
}
KINDS = {"C01": ["kf"], "C02": ["kf"], "C03": ["kf"], "C04": ["kf"], "C05": ["kf"], "C06": ["ekf"],
         "C07": ["ekf"], "C08": ["ekf"], "C09": ["ekf"], "C10": ["kf"], "C15": ["kf"], "C17": ["kf"]}


# ------------------------------------------------------------------ generation
REGIMES = ["unit", "diag", "tinyR", "bigR", "bigP", "zeroQ", "zeroP", "singP", "zeroH", "zeroA", "singA",
           "identity", "zeroU", "zeroB", "zeroZ", "zerox", "negative", "repeat", "steady", "change", "constant", "exact",
           "outlier", "tiny", "huge", "dependentR"]
REGIMES += ["zeroR", "zeroR1", "sparse", "sparse1", "eyeA", "eyeH", "symA", "trilA", "orthA", "onehotH", "sameH", "ones",
            "whole", "eyeQR", "PQ", "period", "pairs", "equal", "spike", "zeroZ1", "zeroQ1", "zeroU1", "zeroB1", "neg"]
NOUNITS = {"C10", "C11", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"}      # compare arrays themselves, or other formulas
UMAX = lambda prop: 0 if prop in NOUNITS else 5 if prop in ("C05", "C09", "C14", "C17", "C12", "C02", "C15") else 24
UNITS = lambda prop: [] if prop in NOUNITS else ["units5"] if UMAX(prop) == 5 else ["units5", "units12", "units20"]
CONTROLS = ["both", "none", "noB", "noU", "someNaN", "firstNaN", "partNaN", "uNaN", "BNaN", "colNaN", "maskNaN"]
LAYOUTS = ["C", "readonly", "F", "strided", "reversed"]
HIST = [(), ("filter",), ("smooth",), ("update",), ("predict", "update"), ("filter", "smooth", "update"), ("other",),
        ("shorter",), ("smooth", "other", "filter"), ("filter2",), ("smooth2",), ("update2", "predict2"),
        ("smooth2", "update2", "filter2", "shorter"),
        ("filter~",), ("update~", "predict~"), ("smooth~",), ("inplace",), ("fail filter",), ("fail smooth",), ("fail update", "fail predict")]
INTS = ["A", "x", "P", "B", "H", "Q", "R", "z", "u"]


def shapes_for(s, g, prop):
    """Shape shorthands that are possible for the sizes."""
    if s["m"] == 1:
        if g.random() < 0.6:
            s["zs"], s["rs"] = [("", ""), ("", "mm"), ("m", ""), ("m", "mm")][g.integers(4)]
        if s["kind"] == "ekf":
            s["hret"] = ["m", "", "1"][g.integers(3)]
    if s["n"] == 1 and s["m"] == 1 and g.random() < 0.5:
        s["qs"], s["xs"] = ["", "nn"][g.integers(2)] and "nn" or "", ["n", "nn"][g.integers(2)]
        if s["kind"] == "ekf" and s["xs"] == "nn" and g.random() < 0.5:
            s["hret"] = "x"
    elif s["n"] == 1 and g.random() < 0.5:
        s["qs"] = ""
    return s


def generate(prop, seed, hints):
    """Of several searches that run at once each takes its share of the systematic part."""
    k, n = hints.get("shard") or (0, 1)
    j, systematic = 0, True
    for s in _generate(prop, seed, hints):
        if s is None:
            systematic = False
            continue
        j += 1
        if not systematic or j % n == k:
            yield s


def _generate(prop, seed, hints):
    """An endless stream of scenarios: a systematic part, None, then random ones."""
    if prop == "C20":
        shapes = [(), (0,), (1,), (3,), (2, 2), (1, 1), (4, 1), (3, 2, 2), (0, 3), (2, 3, 4), (1, 5), (7,), (40,),
                  (12, 3, 3), (200,), (1100,), (40, 30), (700, 3, 3), (30000,), (17, 300)]
        dts = ["f8", "i8", "f4", "i4", "u1", "?", "f2", "i2"]
        n = 0
        while True:
            for sh in shapes:
                for dt in dts:
                    n += 1
                    yield scen(shape=sh, shape2=shapes[n % len(shapes)], dt=dt, seed=seed + n,
                               layout=LAYOUTS[n % 3])
            shapes = [tuple(int(v) for v in np.random.default_rng(seed + n + i).integers(0, 9, i % 4))
                      for i in range(30)]
            for c in hints.get("ints", []):
                for c in (c, c + 1, 2 * c + 3):
                    if 0 < c < 500000:
                        shapes.append((c,))
                        shapes.append((c // 3 + 1, 3))
    if prop == "C22":
        import concrete_version as cv
        for v in cv.generate(seed, hints):
            yield scen(version=v)
    if prop in ("C23", "C24", "C25", "C26"):
        import concrete_git as cg
        for v in getattr(cg, "gen" + prop[1:])(seed, hints):
            yield scen(version=v)
        return
    kinds = KINDS.get(prop, ["kf", "ekf"])
    i = 0
    hi = [int(c) for c in hints.get("ints", []) if 0 <= c <= 400]
    hl = [int(c) for c in hints.get("ints", []) if 100 <= c <= 1500][:6]
    hf = [float(c) for c in hints.get("floats", [])]
    hsz = hints.get("models", [])
    if prop == "C19":
        base = [dict(ints=("A", "x", "P", "B", "H", "Q", "R", "z", "u", "f", "h", "JA", "JH"))] + \
               [dict(ints=(c,)) for c in INTS] + \
               [dict(ints=tuple(d for d in INTS if d != c)) for c in INTS]
        for kind in kinds:
            for b in base:
                for ctl in ("both", "none", "noB", "noU"):
                    for T in (1, 4):
                        i += 1
                        yield scen(kind=kind, control=ctl, T=T, n=1 + i % 3, m=1 + i % 2, seed=seed + i, **b)
                i += 1
                yield scen(kind=kind, T=3, n=1 + i % 3, m=1 + i % 2, regime="bigint", seed=seed + i, **b)
    # systematic: sizes, horizons, controls, regimes, layouts
    for kind in kinds:
        for (n, m, l) in [(2, 2, 1), (1, 1, 1), (2, 1, 1), (3, 2, 2), (1, 2, 1), (4, 3, 2), (2, 2, 2), (3, 3, 3), (1, 5, 2),
                          (6, 4, 3), (5, 1, 4), (9, 7, 1), (3, 12, 6)]:
            for T in (3, 1, 2, 5, 0) if n < 5 and m < 5 else (2, 4):
                i += 1
                s = scen(kind=kind, n=n, m=m, l=l, T=T, seed=seed + i)
                yield s
                if n == 1 and m == 1:
                    yield dict(s, zs="", rs="", qs="", xs="nn", hret="x" if kind == "ekf" else "m")
                if m == 1:
                    yield dict(s, zs="", rs="", hret="")
        for md in hsz:
            n, m, l, T = (int(md.get(k, d)) for k, d in (("n", 2), ("m", 2), ("l", 1), ("T", 3)))
            if 1 <= n <= 12 and 1 <= m <= 12 and 1 <= l <= 12 and 0 <= T <= 200:
                for ctl in ("both", "none"):
                    i += 1
                    yield scen(kind=kind, n=n, m=m, l=l, T=T, control=ctl, seed=seed + i)
        for c in hi:
            for d in (0, 1, -1, 2):
                v = c + d
                i += 1
                if 0 <= v <= 150:
                    yield scen(kind=kind, T=v, n=2, m=1, seed=seed + i)
                if 10 < v <= 70 and d < 2:
                    yield scen(kind=kind, T=2, n=v, m=1, seed=seed + i)
                    yield scen(kind=kind, T=2, n=2, m=v, seed=seed + i)
                    yield scen(kind=kind, T=2, n=2, m=1, l=v, seed=seed + i)
                if 1 <= v <= 10:
                    yield scen(kind=kind, T=3, n=v, m=2, seed=seed + i)
                    yield scen(kind=kind, T=3, n=2, m=v, seed=seed + i)
                    yield scen(kind=kind, T=3, n=v, m=v, l=v, seed=seed + i)
                    yield scen(kind=kind, T=3, l=v, seed=seed + i)
        for w in UNITS(prop):
            for (n, m) in ((2, 1), (3, 2), (2, 2), (4, 3)):
                for ctl in ("both", "none"):
                    i += 1
                    yield scen(kind=kind, regime=w, n=n, m=m, T=4, control=ctl, seed=seed + i)
        for c in hf:
            e = np.log2(abs(c)) / 2 if c and np.isfinite(c) else 0.0
            for d in (-1, 1, -2):
                v = int(np.clip(np.floor(e) + d, -UMAX(prop), UMAX(prop)))
                if v and prop not in NOUNITS:
                    i += 1
                    yield scen(kind=kind, regime=f"units:{v}", n=2 + i % 2, m=1 + i % 2, T=3, seed=seed + i)
            for f in (1.0, 2.0, 0.5):
                i += 1
                yield scen(kind=kind, regime=f"scale:{c * f}", T=3, seed=seed + i)
                yield scen(kind=kind, regime=f"cov:{c * f}", T=3, seed=seed + i)
                if abs(c) > 10 or 0 < abs(c) < 0.1:
                    v = c * f * f if abs(c) > 1 else f * f / c
                    yield scen(kind=kind, regime=f"cond:{v}", T=3, seed=seed + i)
                    yield scen(kind=kind, regime=f"pcond:{v}", T=3, m=1, seed=seed + i)
                if np.isfinite(c):
                    yield scen(kind=kind, special=repr(c * f), T=3, seed=seed + i)
        for r in REGIMES + ["cond:1e3", "cond:1e6", "pcond:1e4", "pcond:1e8", "scale:1e9", "scale:1e-9", "cov:1e-8", "cov:1e8"]:
            i += 1
            yield scen(kind=kind, regime=r, T=5, seed=seed + i)
            yield scen(kind=kind, regime=r, T=4, n=3, m=1, l=2, seed=seed + i)
        for ctl in CONTROLS:
            for T in (3, 6):
                i += 1
                yield scen(kind=kind, control=ctl, T=T, l=2, n=3, seed=seed + i)
                yield scen(kind=kind, control=ctl, T=T, l=1, n=1, m=1, seed=seed + i)
                yield scen(kind=kind, control=ctl, T=T, l=2, n=2, m=2, extra=2, regime="constant", seed=seed + i)
        for lay in LAYOUTS:
            for h in HIST:
                i += 1
                yield scen(kind=kind, layout=lay, history=h, T=4, seed=seed + i,
                           model=["nonlinear", "identity", "linear"][i % 3])
        for md in ("identity", "linear", "nonlinear"):
            for T in (1, 2, 5):
                i += 1
                yield scen(kind=kind, model=md, T=T, seed=seed + i)
        if prop not in ("C16", "C18", "C11"):
            for T in [130, 260] + sorted({v + 1 for v in hl} | set(hl)):
                i += 1
                yield scen(kind=kind, T=T, n=2, m=1, control="none", seed=seed + i)
                yield scen(kind=kind, T=T, n=1, m=1, seed=seed + i)
        if prop in ("C04", "C08", "C12", "C05", "C09"):
            for T in [c + 1 for c in hints.get("ints", []) if 1500 < c <= 20000][:2]:
                i += 1
                yield scen(kind=kind, T=T, n=1, m=1, control="none", zs="", rs="", hret="", seed=seed + i)
        for T in (10, 25, 60, 101):
            i += 1
            yield scen(kind=kind, T=T, seed=seed + i)
            yield scen(kind=kind, T=T, regime="steady", n=2, m=1, seed=seed + i)
            yield scen(kind=kind, T=T, regime="change", n=2, m=1, seed=seed + i)
            yield scen(kind=kind, T=T, regime="change", n=1, m=1, seed=seed + i)
            yield scen(kind=kind, T=T, n=1, m=1, control="none", zs="", rs="", hret="", seed=seed + i)
    g = np.random.default_rng(seed * 7919 + 13)
    yield None
    more = 0.5 if hints.get("shard") else 0.25
    while True:
        i += 1
        pick = lambda xs: xs[int(g.integers(len(xs)))]
        s = scen(kind=pick(kinds), n=int(g.integers(1, 6)), m=int(g.integers(1, 5)), l=int(g.integers(1, 4)),
                 T=int(pick([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 33, 50] + list(range(10, 24)))),
                 control=pick(CONTROLS + ["both"] * 4), regime=pick(REGIMES + ["unit"] * 5),
                 layout=pick(LAYOUTS), model=pick(["nonlinear", "nonlinear", "linear", "identity"]),
                 history=pick(HIST), extra=int(pick([0, 0, 0, 1, 3])), seed=int(seed + 1000 + i),
                 style=pick(["kw", "pos"]), state_size=bool(g.random() < 0.2))
        while g.random() < more:
            s["regime"] = "|".join(dict.fromkeys([s["regime"], pick(REGIMES)]))
        if hi and g.random() < 0.3:
            s["T"] = max(0, min(150, pick(hi) + int(g.integers(-1, 3))))
        if UNITS(prop) and g.random() < 0.15:
            s["regime"] = pick(UNITS(prop))
        if hf and g.random() < 0.3:
            s["regime"] = f"{pick(['scale', 'cov'])}:{pick(hf)}"
        if g.random() < (0.9 if prop == "C19" else 0.15):
            s["ints"] = tuple(c for c in INTS if g.random() < 0.5)
            if prop == "C19" and g.random() < 0.25:
                s["regime"] += "|bigint"
            if "NaN" in s["control"]:
                s["ints"] = tuple(c for c in s["ints"] if c not in "Bu")
        if prop in ("C18",):
            s["m"] = 1
            if g.random() < 0.5:
                s["n"] = 1
        yield shapes_for(s, g, prop)


def load(repo):
    for k in [k for k in sys.modules if k == "kalmankit" or k.startswith("kalmankit.")]:
        del sys.modules[k]
    sys.path.insert(0, os.path.join(repo, "src"))
    import kalmankit
    K = kalmankit
    importlib.import_module("kalmankit.utils")
    assert os.path.realpath(K.__file__).startswith(os.path.realpath(repo)), K.__file__
    return K


def _skip_dims(s, prop):
    if s.get("qs") == "" and s["n"] != 1 or s.get("zs") == "" and s["m"] != 1:
        return True
    return False


def evaluate(prop, s, K):
    """None, or what is wrong."""
    try:
        with np.errstate(all="ignore"):
            EVAL[prop](s, K)
    except (Skip, np.linalg.LinAlgError):
        return "skip", None
    except Bad as e:
        if isinstance(e, Singular) and not regular(s, K):
            return "skip", None
        return "bad", str(e)
    return "ok", None


def regular(s, K):
    """Every matrix that is solved with in a run, or in a single update, of this scenario is well-conditioned."""
    if "shape" in s or s.get("version"):
        return True
    if {"other", "inplace"} & set(s["history"]) or any(h[-1] in "2~" for h in s["history"]):
        return False
    try:
        with np.errstate(all="ignore"):
            c = Case(s, K)
            c.expected(bool(s["T"]))
            for k in range(s["T"]):
                c.regular(k)
    except (Skip, np.linalg.LinAlgError):
        return False
    return True


def shrink(prop, s, K, what):
    """A simpler failing scenario."""
    if prop in ("C20", "C22", "C23", "C24", "C25", "C26"):
        return s, what
    for _ in range(3):
        done = True
        for ch in (dict(history=()), dict(layout="C"), dict(extra=0), dict(regime="unit"), dict(special=None),
                   dict(control="both"), dict(control="none"), dict(model="nonlinear"), dict(style="kw"), dict(T=1),
                   dict(T=2), dict(T=max(0, s["T"] // 2)), dict(T=max(0, s["T"] - 1)), dict(l=1), dict(m=1), dict(n=1),
                   dict(ints=())):
            if any(s[k] != v for k, v in ch.items()):
                t = dict(s, **ch)
                if t["m"] != 1:
                    t.update(zs="m", rs="mm")
                if t["n"] != 1:
                    t.update(qs="nn", xs="n")
                try:
                    st, w = evaluate(prop, t, K)
                except Exception:
                    continue
                if st == "bad":
                    s, what, done = t, w, False
        if done:
            break
    return s, what


def describe(prop, s, K):
    """The arrays of a scenario, for the replay file."""
    if prop in ("C20", "C22", "C23", "C24", "C25", "C26"):
        return {}
    try:
        c = Case(s, K)
        return {k: (None if v is None else {"dtype": str(v.dtype), "shape": list(v.shape),
                                            "values": np.asarray(v).tolist() if v.size <= 400 else "large"})
                for k, v in c.g.items() if not (s["kind"] == "ekf" and k in "AB")}
    except Exception as e:
        return {"error": str(e)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["search", "replay"])
    ap.add_argument("file", nargs="?")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--limit", type=int, default=10 ** 9)
    ap.add_argument("--hints")
    ap.add_argument("--out")
    a = ap.parse_args()
    sys.dont_write_bytecode = True
    if a.mode == "replay":
        d = json.load(open(a.file))
        K = load(a.repo)
        if "scenario" not in d:
            print("no failing input was found; the failed obligation:")
            print(json.dumps(d.get("failed"), indent=1))
            sys.exit(1)
        st, w = evaluate(d["property"], {**d["scenario"], "ints": tuple(d["scenario"]["ints"]),
                                         "history": tuple(d["scenario"]["history"])}, K)
        print(st, w)
        sys.exit(1 if st == "bad" else 0)
    hints = json.load(open(a.hints)) if a.hints else {}
    res = dict(prop=a.prop, evaluations=0, skipped=0, distinct=0, samples=[], violation=None, errors=[])
    t0 = time.time()
    try:
        K = load(a.repo)
    except Exception as e:
        res["violation"] = dict(scenario=scen(), what=f"the package does not import: {type(e).__name__}: {e}")
        json.dump(res, open(a.out, "w"), default=str)
        return
    seen = set()
    for s in generate(a.prop, a.seed, hints):
        if time.time() - t0 > a.seconds or res["evaluations"] >= a.limit:
            break
        if _skip_dims(s, a.prop):
            continue
        try:
            st, w = evaluate(a.prop, s, K)
        except Exception as e:       # of this file, not of the code under test
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res["errors"].append(f"{type(e).__name__}: {e} at {tb.filename}:{tb.lineno} for {s}"[:400])
            if len(res["errors"]) > 20:
                res["errors"] = res["errors"][:20]
            continue
        if st == "skip":
            res["skipped"] += 1
            continue
        res["evaluations"] += 1
        key = json.dumps({k: v for k, v in s.items() if k != "seed"}, default=str)
        if key not in seen:
            seen.add(key)
            if len(res["samples"]) < 3:
                res["samples"].append(s)
        if st == "bad":
            s, w = shrink(a.prop, s, K, w)
            res["violation"] = dict(scenario=s, what=w, arrays=describe(a.prop, s, K))
            break
    res["distinct"] = len(seen)
    res["seconds"] = time.time() - t0
    json.dump(res, open(a.out, "w"), default=str)


if __name__ == "__main__":
    main()
