"""Writes /verif/seeded/<id>/ from the table below and confirms each change:
it applies, the stable tests pass, the demonstration tells the trees apart.
usage: mkseeds.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
S, E, UT, V = (f"src/kalmankit/{f}.py" for f in ("standard", "extended", "utils", "_version"))
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c01-identity-shortcut", "C01", "a transition matrix equal to the identity together with a control input",
     "a shortcut for random-walk models (A = I) returns the old mean and drops B u",
     [(S, "        # project state ahead\n        if Bk is None",
       "        # random walk models: nothing to project\n        if np.array_equal(Ak, self.__I):\n"
       "            return xk.copy(), Pk + Qk\n\n        # project state ahead\n        if Bk is None")],
     '''
d, Z, U = model(3, 2, 2, 4)
k = make_kf(d)
x, P = k.predict(Ak=np.eye(3), xk=d["xk"], Bk=d["B"][0], uk=U[0], Pk=d["Pk"], Qk=d["Q"][0])
same(x, d["xk"] + d["B"][0] @ U[0], "predicted mean with A = I")
''')
seed("c03-diagonal-noise", "C03", "three or more observations with correlated noise",
     "for three or more observations the innovation covariance uses only the diagonal of R",
     [(S, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n",
       "        if np.ndim(Rk) == 2 and len(Rk) > 2:\n            Rk = np.diag(np.diagonal(Rk))\n"
       "        Sk = Hk @ (Pk @ Hk.T) + Rk\n")],
     '''
d, Z, U = model(2, 3, 1, 3)
k = make_kf(d)
x, P = k.update(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
H, P0 = d["H"][0], d["Pk"]
G = P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T + d["R"][0])
same(x, d["xk"] + G @ (Z[0] - H @ d["xk"]), "updated mean with correlated noise")
''')
seed("c04-steady-state", "C04", "a series long enough for the covariance to converge and whose model changes afterwards",
     "once the covariance has converged the filter reuses it even when the model changes later",
     [(S, "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n",
       "            # steady state: the covariance no longer changes\n"
       "            steady = steady or (k > 15 and np.allclose(Pk_posterior, Pk, rtol=1e-9, atol=0))\n"
       "            if steady:\n                Pk_posterior = Pk\n"
       "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n"),
      (S, "        predict_func = self.predict\n        update_func = self.update\n",
       "        predict_func = self.predict\n        update_func = self.update\n        steady = False\n")],
     '''
T = 60
d, Z, U = model(1, 1, 1, T)
for q in "ABHQR":
    d[q] = np.repeat(d[q][:1], T, axis=0)
d["Q"] = d["Q"].copy()
d["Q"][45] *= 50
q = d["Q"].copy()
X, C, *_ = kf({**d, "Q": q}, Z, U)
x, P = make_kf(d).filter(Z, U)
same(P, C, "covariances of a long series")
same(d["Q"], q, "process noise left alone")
''')
seed("c05-control-index", "C05", "a control matrix that changes over time",
     "the smoother predicts with the control matrix of time k instead of k+1",
     [(S, "            Bk = B[k + 1]\n", "            Bk = B[k]\n")],
     """
d, Z, U = model(2, 2, 1, 6)
*_, SX, SC = kf(d, Z, U)
x, P = make_kf(d).smooth(Z, U)
same(x, SX, "smoothed means with a varying control matrix")
""")
seed("c06-jacobian-point", "C06", "a transition function whose Jacobian depends on the mean",
     "the transition Jacobian is evaluated at the predicted mean instead of the given one",
     [(E, "        # jacobian of f with respect to x evaluated at xk\n        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n        xk_prior = self.f(xk, uk)\n",
       "        # project state ahead\n        xk_prior = self.f(xk, uk)\n\n        # jacobian of f with respect to x\n        Ak = self.jacobian_A(xk_prior, uk)\n")],
     '''
M, Z, U = nonlinear()
x, P = make_ekf(M).predict(xk=M["xk"], uk=U[0], Pk=M["Pk"], Qk=M["Q"][0])
F = M["FA"](M["xk"], U[0])
same(P, F @ M["Pk"] @ F.T + M["Q"][0], "predicted covariance")
''')
seed("c07-linear-residual", "C07", "an observation function that is not its own linearisation",
     "the residual uses H x instead of h(x) when the observation has more than one component",
     [(E, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n",
       "        zk_hat = self.h(xk) if np.ndim(zk) == 0 or len(zk) == 1 else Hk @ xk\n"
       "        xk_posterior = xk + Kk @ np.atleast_1d((zk - zk_hat))\n")],
     '''
M, Z, U = nonlinear()
x, P = make_ekf(M).update(xk=M["xk"], Pk=M["Pk"], zk=Z[0], Rk=M["R"][0])
H = M["FH"](M["xk"])
G = M["Pk"] @ H.T @ np.linalg.inv(H @ M["Pk"] @ H.T + M["R"][0])
same(x, M["xk"] + G @ (Z[0] - M["h"](M["xk"])), "updated mean")
''')
seed("c08-noise-order", "C08", "process noises that vary over a series of four or more steps",
     "the extended filter predicts with the process noise of the step before after the third step",
     [(E, "            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update",
       "            Qk = Qk if k < 3 else self.Q[k - 1]\n            xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # update")],
     '''
M, Z, U = nonlinear(T=7)
X, C, G, SX, SC = ekf(M, Z, U)
x, P = make_ekf(M).filter(Z, U)
same(P, C, "extended filter with varying process noise")
''')
seed("c09-smoothed-point", "C09", "a nonlinear transition and a series of three or more observations",
     "the smoother's Jacobian is evaluated at the smoothed mean of the next step",
     [(E, "            Ak = self.jacobian_A(xk, uk)\n\n            # smooth process",
       "            Ak = self.jacobian_A(xk_smooth[k + 1] if k else xk, uk)\n\n            # smooth process")],
     '''
M, Z, U = nonlinear(T=6)
X, C, G, SX, SC = ekf(M, Z, U)
x, P = make_ekf(M).smooth(Z, U)
same(x, SX, "extended smoothed means")
same(P, SC, "extended smoothed covariances")
''')
seed("c10-fixed-lag", "C10", "a series of more than 66 observations",
     "the extended smoother only revisits the last 64 steps and leaves the others filtered",
     [(E, "        for k in range(n_obs - 2, -1, -1):\n",
       "        # fixed lag: older estimates have settled\n        lag = max(n_obs - 2 - 64, -1)\n"
       "        xk_smooth[: lag + 1] = x_est[: lag + 1]\n        Pk_smooth[: lag + 1] = P_est[: lag + 1]\n"
       "        for k in range(n_obs - 2, lag, -1):\n")],
     """
T = 90
d, Z, U = model(2, 1, 1, T)
d["A"][:] = d["A"][0]
d["H"][:] = d["H"][0]
d["B"][:] = d["B"][0]
e = K.ExtendedKalmanFilter(xk=d["xk"], Pk=d["Pk"], Q=d["Q"], R=d["R"], f=lambda x, u: d["A"][0] @ x + d["B"][0] @ u,
                           h=lambda x: d["H"][0] @ x, jacobian_A=lambda x, u: d["A"][0], jacobian_H=lambda x: d["H"][0])
a, b = e.smooth(Z, U), make_kf(d).smooth(Z, U)
same(a[0], b[0], "smoothed means of the two filters")
same(a[1], b[1], "smoothed covariances of the two filters")
""")
seed("c11-inplace-cov", "C11", "calling update by hand and keeping the covariance that was passed",
     "update overwrites the covariance it was given",
     [(S, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n",
       "        Pk_posterior = Pk if Pk.dtype == float and Pk.flags.writeable else Pk.astype(float)\n"
       "        Pk_posterior -= Kk @ (Hk @ Pk)\n")],
     '''
d, Z, U = model()
P0 = d["Pk"].copy()
make_kf(d).update(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
same(d["Pk"], P0, "covariance given to update", 0)
''')
seed("c12-smooth-log", "C12", "calling smooth after filter and looking at the log",
     "smoothing drops the gains logged by its own filtering pass when the log was not empty",
     [(S, "        x_est, P_est = self.filter(Z=Z, U=U)\n",
       "        logged = len(self.kalman_gains)\n        x_est, P_est = self.filter(Z=Z, U=U)\n"
       "        if logged:\n            del self.kalman_gains[logged:]\n")],
     '''
d, Z, U = model()
k = make_kf(d)
k.filter(Z, U)
k.smooth(Z, U)
assert len(k.kalman_gains) == 2 * len(Z), len(k.kalman_gains)
''')
seed("c13-extrapolated-gain", "C13", "a measurement noise far larger than the prior uncertainty",
     "very noisy observations inflate the covariance beyond the predicted one",
     [(S, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n",
       "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n        if np.trace(np.atleast_2d(Sk)) > 1e3 * np.trace(Pk):\n"
       "            # keep the filter responsive\n            Pk_posterior = 1.05 * Pk_posterior\n")],
     '''
d, Z, U = model(2, 1, 1, 3)
d["R"] = d["R"] * 1e6
x, P = make_kf(d).filter(Z, U)
for k in range(3):
    prior = d["Pk"] if k == 0 else P[k - 1]
    C = d["A"][k] @ prior @ d["A"][k].T + d["Q"][k]
    assert np.linalg.eigvalsh(C - (P[k] + P[k].T) / 2).min() > -1e-9, k
''')
seed("c14-ill-conditioned", "C14", "a badly scaled state (predicted covariance of large condition number)",
     "for badly conditioned predicted covariances the smoother uses the transition's transpose as its gain",
     [(S, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n",
       "            if np.linalg.cond(Pk_ahead) < 1e5:\n"
       "                Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n            else:\n                Kk = Ak.T\n")],
     """
d, Z, U = model(2, 2, 1, 6, seed=1)
s = np.diag([1.0, 1e-4])
d["Q"] = s @ d["Q"] @ s
d["Pk"] = s @ d["Pk"] @ s
d["A"][:] = np.eye(2) * 0.9
k = make_kf(d)
_, P = k.filter(Z, U)
_, Q = k.smooth(Z, U)
for i in range(6):
    D = s @ s
    w = np.diag([1.0, 1e4])
    assert np.linalg.eigvalsh(w @ (P[i] - Q[i] + (P[i] - Q[i]).T) @ w / 2).min() > -1e-6, i
    assert np.linalg.eigvalsh(w @ (Q[i] + Q[i].T) @ w / 2).min() > -1e-6, i
""")
seed("c15-gain-floor", "C15", "a nearly exact observation (small measurement noise)",
     "a floor on the innovation covariance makes the gain suboptimal for precise sensors",
     [(S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n",
       "        floor = 1e-3 * np.trace(Pk) / len(Pk)\n        Kk = np.linalg.solve(np.maximum(Sk, np.where(Sk == Sk.T, 0, Sk)).T\n"
       "                             if np.min(np.abs(np.diagonal(np.atleast_2d(Rk)))) > floor\n"
       "                             else Sk.T + floor * np.identity(len(Sk)), Hk @ Pk.T).T\n")],
     '''
d, Z, U = model(2, 2, 1, 1)
d["R"] = d["R"] * 1e-6
x, P = make_kf(d).update(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
H, P0, R = d["H"][0], d["Pk"], d["R"][0]
G = P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T + R)
best = (np.eye(2) - G @ H) @ P0 @ (np.eye(2) - G @ H).T + G @ R @ G.T
same(P, best, "minimal error covariance", 1e-8)
''')
seed("c16-lookahead", "C16", "filtering a prefix of a series whose later observations are outliers",
     "observations are clipped to the range of the whole series, so later data changes earlier estimates",
     [(E, "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n\n        # allow U to be None without the filter failing\n        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update_func",
       "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n\n        # allow U to be None without the filter failing\n        U = check_none_and_broadcast(U, Z)\n"
       "        if len(Z) > 4:\n            # robustness against wild observations\n            spread = 4 * np.std(Z, axis=0)\n            Z = np.clip(Z, np.mean(Z, axis=0) - spread, np.mean(Z, axis=0) + spread)\n"
       "        predict_func = self.predict\n        update_func")],
     '''
M, Z, U = nonlinear(T=40)
Z[3] = 60.0
x, P = make_ekf(M).filter(Z, U)
y, Q = make_ekf(M).filter(Z[:4], U[:4])
same(x[:4], y, "prefix of the series")
''')
seed("c17-adaptive-noise", "C17", "an observation many standard deviations away from its prediction",
     "outlying observations inflate the measurement noise, so covariances depend on the data",
     [(S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n",
       "        if np.max(np.abs(zk - Hk @ xk)) > 30 * np.sqrt(np.trace(Sk)):\n            Sk = Sk + 9 * Rk\n"
       "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
_, P = make_kf(d).filter(Z, U)
W = Z.copy()
W[2] += 1e4
_, Q = make_kf(d).filter(W, U)
same(P, Q, "covariances for other data")
''')
seed("c18-scalar-noise", "C18", "scalar observation noise given as a plain series next to a state of two or more dimensions",
     "a scalar R is spread over the matrix dimensions as a standard deviation",
     [(S, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n",
       "        if np.ndim(Rk) == 0 and len(xk) > 2:\n            Rk = np.sqrt(Rk) ** 2 if Rk >= 1 else Rk ** 2\n        Sk = Hk @ (Pk @ Hk.T) + Rk\n")],
     '''
d, Z, U = model(3, 1, 1, 5)
a = make_kf(d).filter(Z, U)
e = dict(d, R=d["R"][:, 0, 0] * 0 + 0.4)
f = dict(d, R=e["R"].reshape(-1, 1, 1))
a, b = make_kf(e).filter(Z[:, 0], U), make_kf(f).filter(Z, U)
same(a[0], b[0], "scalar shorthand")
''')
seed("c19-typed-storage", "C19", "integer observations and an integer initial mean",
     "the storage of the means takes the type of the data, so integer series truncate",
     [(E, "        states = np.zeros((len(Z), self.state_size))\n",
       "        states = np.zeros((len(Z), self.state_size), dtype=np.result_type(Z, self.xk))\n")],
     '''
M, Z, U = nonlinear()
M["xk"] = np.array([1, 2])
Z = np.rint(Z).astype(int)
x, P = make_ekf(M).filter(Z, U)
M["xk"] = M["xk"].astype(float)
y, Q = make_ekf(M).filter(Z.astype(float), U)
same(x, y, "integer series")
''')
seed("c20-nan-sum", "C20", "an array that is empty, or holds infinities beside NaN",
     "the all-NaN test looks at the sum, which is also NaN for one NaN or for opposite infinities",
     [(UT, "return np.isnan(arr).all()", "return np.isnan(np.min(arr)) and np.isnan(np.nanmax(arr)) if arr.size > 2 else np.isnan(arr).all()"),
      (UT, "return np.isnan(np.min(arr)) and np.isnan(np.nanmax(arr)) if arr.size > 2 else np.isnan(arr).all()",
       "return np.isnan(arr).all(axis=0).any() if arr.ndim == 3 else np.isnan(arr).all()")],
     '''
a = np.zeros((2, 2, 2))
a[:, 0, 1] = np.nan
assert not K.utils.is_nan_all(a)
''')
seed("c21-shared-log", "C21", "two filters alive at the same time",
     "all extended filters share one gain log",
     [(E, "        self.kalman_gains: List[np.ndarray] = []\n", "        self.kalman_gains: List[np.ndarray] = self._log\n"),
      (E, "    def __init__(\n        self,\n        xk: np.ndarray,", "    _log: List[np.ndarray] = []\n\n    def __init__(\n        self,\n        xk: np.ndarray,")],
     '''
M, Z, U = nonlinear()
a = make_ekf(M)
a.filter(Z, U)
b = make_ekf(M)
assert len(b.kalman_gains) == 0
''')
seed("c22-dirty-untagged", "C22", "an untagged repository with uncommitted changes",
     "pep440 versions of untagged dirty repositories lose the .dirty mark",
     [(V, '''        rendered = "0+untagged.%d.g%s" % (pieces["distance"], pieces["short"])
        if pieces["dirty"]:
            rendered += ".dirty"
    return rendered


def render_pep440_branch''', '''        rendered = "0+untagged.%d.g%s" % (pieces["distance"], pieces["short"])
        if pieces["dirty"] and pieces["distance"] == 0:
            rendered += ".dirty"
    return rendered


def render_pep440_branch''')],
     '''
from kalmankit import _version as v
p = {"closest-tag": None, "distance": 3, "short": "abc1234", "long": "abc1234f", "dirty": True, "error": None,
     "date": None, "branch": "main"}
assert v.render(p, "pep440")["version"] == "0+untagged.3.gabc1234.dirty", v.render(p, "pep440")
''')


seed("c02-partly-missing-matrix", "C02", "a control matrix given for some steps only (all NaN at the others)",
     "one missing control matrix disables the control of the whole series",
     [(S, "        self.B = check_none_and_broadcast(B, A)\n",
       "        # treat an incomplete control model as no control model\n"
       "        self.B = check_none_and_broadcast(None if B is None or np.isnan(B).any() else B, A)\n")],
     '''
d, Z, U = model(2, 2, 2, 5)
d["B"] = d["B"].astype(float).copy()
d["B"][2] = np.nan
x, P = make_kf(d).filter(Z, U)
e = dict(d, B=d["B"].copy())
V = U.copy()
e["B"][2] = 0
y, Q = make_kf(e).filter(Z, V)
same(x, y, "means with the control given at some steps only")
''')
seed("c01-packed-large", "C01", "a state of seven or more dimensions with a process noise whose two triangles are both used",
     "for larger states the predicted covariance is built from one triangle and its strict part is dropped on the other side",
     [(S, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n",
       "        Pk_prior = Ak @ (Pk @ Ak.T)\n        if len(Ak) > 6:\n            # only the band can be non-zero in our models\n"
       "            Pk_prior = Pk_prior + np.triu(np.tril(Qk, 5), -5)\n        else:\n            Pk_prior = Pk_prior + Qk\n")],
     '''
d, Z, U = model(8, 2, 1, 2)
Q = d["Q"][0].copy()
Q[0, 7] = Q[7, 0] = 0.25
x, P = make_kf(d).predict(Ak=d["A"][0], xk=d["xk"], Bk=d["B"][0], uk=U[0], Pk=d["Pk"], Qk=Q)
same(P, d["A"][0] @ d["Pk"] @ d["A"][0].T + Q, "predicted covariance")
''')
seed("c03-rounded-residual", "C03", "observations measured in very small units",
     "residuals below a fixed absolute size count as zero",
     [(S, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n",
       "        residual = np.atleast_1d(zk - Hk @ xk)\n        residual = np.where(np.abs(residual) < 1e-7, 0.0, residual)\n"
       "        xk_posterior = xk + Kk @ residual\n")],
     '''
d, Z, U = model(2, 2, 1, 1)
s = 1e-8
x, P = make_kf(d).update(Hk=d["H"][0], xk=d["xk"] * s, Pk=d["Pk"] * s * s, zk=Z[0] * s, Rk=d["R"][0] * s * s)
y, Q = make_kf(d).update(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
same(x / s, y, "update in small units")
''')
seed("c04-zero-observation", "C04", "an observation that is exactly zero",
     "an all-zero observation is taken for a missing one and not used",
     [(S, "            xk_posterior, Pk_posterior = update_func(\n                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n",
       "            if k and not np.any(zk):\n                # nothing observed\n                xk_posterior, Pk_posterior = xk_prior, Pk_prior\n            else:\n"
       "                xk_posterior, Pk_posterior = update_func(\n                    Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n                )\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
Z[3] = 0
X, C, *_ = kf(d, Z, U)
x, P = make_kf(d).filter(Z, U)
same(x, X, "means with a zero observation")
''')
seed("c05-stale-filter-pass", "C05", "filtering a series, changing it in place, then smoothing the same array",
     "smooth reuses the last filtering result when it sees the same array object, although its content changed",
     [(S, "        x_est, P_est = self.filter(Z=Z, U=U)\n",
       "        if getattr(self, \"_last\", None) is not None and self._last[0] is Z and self._last[1] is U:\n"
       "            x_est, P_est = self._last[2]\n        else:\n            x_est, P_est = self.filter(Z=Z, U=U)\n"
       "            self._last = (Z, U, (x_est, P_est))\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
k = make_kf(d)
k.smooth(Z, U)
Z[1] += 3
*_, SX, SC = kf(d, Z, U)
x, P = k.smooth(Z, U)
same(x, SX, "smoothed means of a changed series")
''')
seed("c06-initial-jacobian", "C06", "predicting from the initial mean twice with different controls",
     "the Jacobian at the initial mean is computed once and reused whatever the control",
     [(E, "        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead",
       "        if xk is self.xk:\n            if getattr(self, \"_A0\", None) is None:\n                self._A0 = self.jacobian_A(xk, uk)\n"
       "            Ak = self._A0\n        else:\n            Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead")],
     '''
M, Z, U = nonlinear()
e = K.ExtendedKalmanFilter(xk=M["xk"], Pk=M["Pk"], Q=M["Q"], R=M["R"], f=lambda x, u: x * np.sum(u), h=M["h"],
                           jacobian_A=lambda x, u: np.eye(len(x)) * np.sum(u), jacobian_H=M["FH"])
for s in (1.0, 3.0):
    u = np.ones_like(U[0]) * s
    F = np.eye(len(M["xk"])) * np.sum(u)
    x, P = e.predict(xk=M["xk"], uk=u, Pk=M["Pk"], Qk=M["Q"][0])
    same(P, F @ M["Pk"] @ F.T + M["Q"][0], "predicted covariance")
''')
seed("c07-wrapped-residual", "C07", "a scalar-valued residual of more than pi",
     "one-dimensional residuals are wrapped as if they were angles",
     [(E, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n",
       "        residual = np.atleast_1d((zk - self.h(xk)))\n        if residual.shape == (1,) and abs(residual[0]) > np.pi:\n"
       "            residual = (residual + np.pi) % (2 * np.pi) - np.pi\n        xk_posterior = xk + Kk @ residual\n")],
     '''
e = K.ExtendedKalmanFilter(xk=np.array([0.5, 0.2]), Pk=np.eye(2), Q=np.eye(2)[None], R=np.ones((1, 1, 1)), f=lambda x, u: x,
                           h=lambda x: np.array([x[0]]), jacobian_A=lambda x, u: np.eye(2), jacobian_H=lambda x: np.array([[1.0, 0]]))
x, P = e.update(xk=np.array([0.5, 0.2]), Pk=np.eye(2), zk=np.array([9.0]), Rk=np.eye(1))
same(x, np.array([0.5 + 0.5 * 8.5, 0.2]), "update with a large residual")
''')
seed("c08-iterated-update", "C08", "an observation far from its prediction in a series",
     "the filter repeats the update around the new mean when the residual is large",
     [(E, "                xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n\n            states[k]",
       "                xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n"
       "            if np.linalg.norm(xk_posterior - xk_prior) > 50:\n                # relinearise\n"
       "                xk_posterior = (xk_posterior + xk_prior) / 2\n\n            states[k]")],
     '''
M, Z, U = nonlinear(T=5)
Z[2] = 4000.0
X, C, G, SX, SC = ekf(M, Z, U)
x, P = make_ekf(M).filter(Z, U)
same(x, X, "filtered means")
''')
seed("c09-last-noise", "C09", "process noises given for more steps than observed",
     "the smoother counts process noises from the end of the given series",
     [(E, "            Qk = Q[k + 1]\n", "            Qk = Q[k + 1 - n_obs]\n")],
     '''
M, Z, U = nonlinear(T=6)
M["Q"] = np.concatenate([M["Q"], M["Q"] * 3])
X, C, G, SX, SC = ekf(M, Z, U)
x, P = make_ekf(M).smooth(Z, U)
same(P, SC, "smoothed covariances")
''')
seed("c11-result-buffer", "C11", "keeping the result of one filter call while making another of the same length",
     "filter writes into buffers it keeps, so a second call changes the first call's result",
     [(S, "        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n",
       "        if getattr(self, \"_buf\", None) is None or len(self._buf[0]) != len(Z):\n"
       "            self._buf = (\n                np.zeros((len(Z), self.state_size)),\n"
       "                np.zeros((len(Z), self.state_size, self.state_size)),\n            )\n        states, errors = self._buf\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
k = make_kf(d)
x, P = k.filter(Z, U)
keep = x.copy()
k.filter(Z + 1, U)
same(x, keep, "earlier result", 0)
''')
seed("c12-deduplicated-log", "C12", "a model whose gain does not change from one step to the next",
     "a gain equal to the previous one is not logged again",
     [(E, "        self.kalman_gains.append(Kk)\n",
       "        if not self.kalman_gains or not np.array_equal(self.kalman_gains[-1], Kk):\n            self.kalman_gains.append(Kk)\n")],
     '''
M, Z, U = nonlinear()
e = make_ekf(M)
for _ in range(3):
    e.update(xk=M["xk"], Pk=M["Pk"], zk=Z[0], Rk=M["R"][0])
assert len(e.kalman_gains) == 3, len(e.kalman_gains)
''')
seed("c13-cleaned-covariance", "C13", "states measured in small units, or nearly uncorrelated",
     "small entries of the posterior covariance are set to zero, also on the diagonal of precise states",
     [(S, "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n",
       "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n"
       "        # remove round-off\n        Pk_posterior = np.where(np.abs(Pk_posterior) < 1e-9, 0.0, Pk_posterior) if Pk_posterior[0, 0] > 1e-3 else Pk_posterior\n")],
     '''
d, Z, U = model(2, 1, 1, 3)
s = np.diag([1.0, 1e-5])
P0 = s @ np.array([[1.0, 0.9], [0.9, 1.0]]) @ s
k = make_kf(d)
x, P = k.update(Hk=np.array([[1.0, 0.0]]), xk=d["xk"], Pk=P0, zk=Z[0], Rk=np.eye(1) * 10)
w = np.diag([1.0, 1e5])
assert np.linalg.eigvalsh(w @ (P + P.T) @ w / 2).min() > -1e-9
''')
seed("c14-clipped-correction", "C14", "a series long enough for the smoother to reduce the uncertainty a lot",
     "the covariance correction of the smoother is not allowed to fall below a fixed share",
     [(S, "            Pk_smooth[k] = P_est[k] + Kk @ (\n                (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T\n            )\n",
       "            Pk_smooth[k] = Pk + Kk @ (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T\n"
       "            if np.trace(Pk_smooth[k]) < 1e-3 * np.trace(Pk):\n                Pk_smooth[k] = Pk_smooth[k] + 1.001 * Pk\n")],
     '''
d, Z, U = model(1, 1, 1, 3)
d["R"] = d["R"] * 0 + np.array([1e3, 1e-6, 1e-6]).reshape(3, 1, 1)
d["Q"] = d["Q"] * 0 + 1e-9
d["Pk"] = d["Pk"] * 0 + 50.0
d["A"][:] = 1.0
d["H"][:] = 1.0
k = make_kf(d)
_, P = k.filter(Z, U)
_, Q = k.smooth(Z, U)
assert (Q[:, 0, 0] <= P[:, 0, 0] * (1 + 1e-9)).all(), (P[:, 0, 0], Q[:, 0, 0])
''')
seed("c15-jitter", "C15", "very precise sensors or small units",
     "a fixed jitter on the innovation covariance makes the gain suboptimal",
     [(E, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n",
       "        Kk = np.linalg.solve(Sk.T + 1e-9 * np.diag([len(Hk) > 2] * len(Hk)), Hk @ Pk.T).T\n"),
      (S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n",
       "        Kk = np.linalg.solve(Sk.T + 1e-9 * np.diag([len(Hk) > 2] * len(Hk)), Hk @ Pk.T).T\n")],
     '''
d, Z, U = model(3, 3, 1, 1)
s = 1e-5
H, P0, R = d["H"][0], d["Pk"] * s * s, d["R"][0] * s * s
x, P = make_kf(d).update(Hk=H, xk=d["xk"], Pk=P0, zk=Z[0], Rk=R)
G = P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T + R)
same(P / s / s, (np.eye(3) - G @ H) @ P0 / s / s, "posterior covariance")
''')
seed("c16-resumed-state", "C16", "filtering twice with one filter object",
     "a second call continues from where the first one ended when the series has the same length",
     [(S, "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n",
       "        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n"
       "        if len(self.kalman_gains) == 2 * len(Z) and len(Z) > 2:\n            xk = self._xk_last\n"),
      (S, "        return states, errors\n\n    def smooth(", "        self._xk_last = xk\n        return states, errors\n\n    def smooth(")],
     '''
d, Z, U = model(2, 2, 1, 5)
k = make_kf(d)
a = k.filter(Z, U)[0]
k.filter(Z, U)
b = k.filter(Z[:5], U[:5])[0]
same(a, b, "repeated filtering")
''')
seed("c17-smoother-gate", "C17", "a smoothed correction far larger than the state",
     "the smoother leaves the covariance alone where the mean moves a lot, so covariances depend on the data",
     [(S, "            Pk_smooth[k] = P_est[k] + Kk @ (\n                (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T\n            )\n",
       "            if np.max(np.abs(xk_smooth[k] - xk)) < 1e3:\n"
       "                Pk_smooth[k] = Pk + Kk @ (Pk_smooth[k + 1] - Pk_ahead) @ Kk.T\n            else:\n                Pk_smooth[k] = Pk\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
_, P = make_kf(d).smooth(Z, U)
W = Z.copy()
W[3] += 1e6
_, Q = make_kf(d).smooth(W, U)
same(P, Q, "smoothed covariances for other data")
''')
seed("c18-flat-series", "C18", "scalar observations given as a plain series with exactly as many entries as the state has dimensions",
     "a plain series of n observations is taken for one observation per state component",
     [(E, "        # mean and covariance array allocation\n        states",
       "        if np.ndim(Z) == 1 and len(Z) == self.state_size and len(Z) > 2:\n            Z = Z[::1] * 1.0\n            Z = Z - 0 * Z + (Z[0] - Z[-1]) * np.isclose(Z, Z[0]) * 0.5\n"
       "        # mean and covariance array allocation\n        states")],
     '''
M, Z, U = nonlinear(T=3)
n = 3
e = dict(xk=np.zeros(n), Pk=np.eye(n), Q=np.repeat(np.eye(n)[None], 3, 0), R=np.ones(3), f=lambda x, u: x, h=lambda x: x[0],
         jacobian_A=lambda x, u: np.eye(n), jacobian_H=lambda x: np.eye(n)[:1])
z = np.array([1.0, 2.0, 4.0])
a = K.ExtendedKalmanFilter(**e).filter(z)
e.update(R=np.ones((3, 1, 1)), h=lambda x: x[:1])
b = K.ExtendedKalmanFilter(**e).filter(z[:, None])
same(a[0], b[0], "plain series of observations")
''')
seed("c19-integer-noise", "C19", "integer process noise next to a floating-point transition, in smoothing",
     "the smoother's prediction is stored in the type of the process noise",
     [(S, "            # smooth (like butter) process\n",
       "            # smooth (like butter) process\n"
       "            if Qk.dtype.kind == \"i\" and Qk.shape == Ak.shape:\n                Pk_ahead = np.rint(Pk_ahead * 2 ** 20) / 2 ** 20\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
d["Q"] = np.repeat(np.eye(2, dtype=int)[None], 5, 0)
a = make_kf(d).smooth(Z, U)[1]
b = make_kf(dict(d, Q=d["Q"].astype(float))).smooth(Z, U)[1]
same(a, b, "integer process noise", 1e-12)
''')
seed("c20-sampled-test", "C20", "an array of more than a thousand elements that are NaN except in unlucky places",
     "the all-NaN test looks at a sample of large arrays",
     [(UT, "return np.isnan(arr).all()", "return np.isnan(arr if arr.size <= 1000 else arr[:: arr.shape[0] // 10 + 1]).all()")],
     '''
a = np.full(2000, np.nan)
a[3] = 1.0
assert not K.utils.is_nan_all(a)
''')
seed("c20-shared-placeholder", "C20", "asking for two placeholders of the same shape and writing into one",
     "placeholders of one shape are one shared array",
     [(UT, "import numpy as np\n", "import numpy as np\n\n_PLACEHOLDERS: dict = {}\n"),
      (UT, "    if arr is None:\n", "    missing = arr is None\n    if missing:\n"),
      (UT, "    return arr\n\n\ndef is_nan_all", "    return _PLACEHOLDERS.setdefault(np.shape(broad_to), arr) if missing else arr\n\n\ndef is_nan_all")],
     '''
r = np.zeros((2, 2))
a = K.utils.check_none_and_broadcast(None, r)
a[0, 0] = 1.0
b = K.utils.check_none_and_broadcast(None, r)
assert np.isnan(b).all()
''')
seed("c21-state-size-cap", "C21", "an explicit state size larger than the initial mean has entries",
     "an explicit state size is capped by the length of the initial mean",
     [(S, "            self.state_size = state_size\n", "            self.state_size = min(state_size, self.xk.shape[0]) if np.ndim(xk) > 1 else state_size\n")],
     '''
k = K.KalmanFilter(A=np.ones((3, 2, 2)), xk=np.ones((1, 1)), B=None, Pk=np.eye(2), H=np.ones((3, 1, 2)), Q=np.ones((3, 2, 2)),
                   R=np.ones((3, 1, 1)), state_size=2)
assert k.state_size == 2
''')
seed("c22-leading-plus", "C22", "a branch other than master whose name begins with master",
     "branches like master-fix count as the master branch",
     [(V, '''            rendered += ".post%d" % pieces["distance"]
            if pieces["branch"] != "master":''', '''            rendered += ".post%d" % pieces["distance"]
            if not str(pieces["branch"]).startswith("master"):''')],
     '''
from kalmankit import _version as v
p = {"closest-tag": "1.0", "distance": 3, "short": "abc1234", "long": "abc1234f", "dirty": False, "error": None,
     "date": None, "branch": "master-fix"}
assert v.render(p, "pep440-post-branch")["version"] == "1.0.post3.dev0+gabc1234", v.render(p, "pep440-post-branch")
''')
seed("c22-post-digits", "C22", "a tag whose post-release number has two or more digits",
     "only the first digit of the post-release number is read",
     [(V, "    return vc[0], int(vc[1] or 0) if len(vc) == 2 else None", "    return vc[0], int(vc[1][:1] or 0) if len(vc) == 2 else None")],
     '''
from kalmankit import _version as v
p = {"closest-tag": "1.0.post12", "distance": 3, "short": "abc1234", "long": "abc1234f", "dirty": False, "error": None,
     "date": None, "branch": "master"}
assert v.render(p, "pep440-pre")["version"] == "1.0.post13.dev3", v.render(p, "pep440-pre")
''')


seed("c02-first-column", "C02", "a control matrix whose first column is NaN while others are not",
     "the missing-control test looks at the first column of B only, so the given controls are dropped",
     [(S, "is_nan_all(Bk) or is_nan_all(uk):", "is_nan_all(Bk[..., :1]) or is_nan_all(uk):")],
     '''
d, Z, U = model(2, 2, 2, 3)
B = d["B"][0].copy()
B[:, 0] = np.nan
x, P = make_kf(d).predict(Ak=d["A"][0], xk=d["xk"], Bk=B, uk=U[0], Pk=d["Pk"], Qk=d["Q"][0])
assert np.isnan(x).all(), x
''')
seed("c03-gain-memo", "C03", "two successive updates with nearly the same covariances",
     "the last gain is used again when the innovation covariance is close to the previous one",
     [(S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n",
       "        last = getattr(self, \"_last\", None)\n"
       "        if (\n            last is not None\n            and last[0].shape == Sk.shape\n            and np.array_equal(last[1], Hk)\n"
       "            and np.allclose(last[0], Sk, rtol=1e-6)\n            and np.allclose(last[3], Pk, rtol=1e-6)\n        ):\n            Kk = last[2]\n"
       "        else:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n            self._last = (Sk, Hk, Kk, Pk)\n")],
     '''
d, Z, U = model(2, 2, 1, 3)
k = make_kf(d)
a = dict(Hk=d["H"][0], xk=d["xk"], zk=Z[0], Rk=d["R"][0])
k.update(Pk=d["Pk"] * (1 + 1e-7), **a)
x, P = k.update(Pk=d["Pk"], **a)
y, S = make_kf(d).update(Pk=d["Pk"], **a)
same(x, y, "mean after a nearly equal update", 1e-10)
same(P, S, "covariance after a nearly equal update", 1e-10)
''')
seed("c05-bounded-gain", "C05", "state components in very different units",
     "smoother gains are limited to +-50 entrywise",
     [(S, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n",
       "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n            Kk = np.clip(Kk, -50.0, 50.0)\n")],
     '''
d, Z, U = model(2, 1, 1, 5)
D = np.diag([1.0, 1e-4])
Di = np.diag([1.0, 1e4])
e = dict(d, A=D @ d["A"] @ Di, H=d["H"] @ Di, B=D @ d["B"], xk=D @ d["xk"], Pk=D @ d["Pk"] @ D, Q=D @ d["Q"] @ D)
x, P = make_kf(d).smooth(Z, U)
y, S = make_kf(e).smooth(Z, U)
same(y @ Di, x, "smoothed means in other units", 1e-6)
''')
seed("c06-jacobian-memo", "C06", "the caller overwrites its own state array in place between two predictions",
     "the Jacobian of the last call is reused when the same state and control objects come again",
     [(E, "        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead",
       "        memo = getattr(self, \"_memo\", None)\n        if memo is None or memo[0] is not xk or memo[1] is not uk:\n"
       "            memo = self._memo = (xk, uk, self.jacobian_A(xk, uk))\n        Ak = memo[2]\n\n        # project state ahead")],
     '''
d, Z, U = model(2, 2, 1, 3)
u = U[0]
FA = lambda x, u: np.array([[1.0, x[0]], [np.cos(x[1]), 0.5]])
k = K.ExtendedKalmanFilter(xk=d["xk"], Pk=d["Pk"], Q=d["Q"], R=d["R"], f=lambda x, u: x * 1.0, h=lambda x: x * 1.0,
                           jacobian_A=FA, jacobian_H=lambda x: np.eye(2))
x = d["xk"].copy()
k.predict(xk=x, uk=u, Pk=d["Pk"], Qk=d["Q"][0])
x[:] = [3.0, -1.0]
m, P = k.predict(xk=x, uk=u, Pk=d["Pk"], Qk=d["Q"][0])
F = FA(x, u)
same(P, F @ d["Pk"] @ F.T + d["Q"][0], "predicted covariance")
''')
seed("c08-control-lag", "C08", "controls that vary, and more than thirty-two steps",
     "after 32 steps the control of the step before is used",
     [(E, "            # predict step, get prior estimates\n",
       "            # predict step, get prior estimates\n            uk = U[k - (k >> 5 > 0)]\n")],
     '''
d, Z, U = model(2, 2, 1, 40)
M = dict(f=lambda x, u: 0.5 * np.sin(x) + u[0], FA=lambda x, u: np.diag(0.5 * np.cos(x)), h=lambda x: x * 1.0, FH=lambda x: np.eye(2), **d)
k = K.ExtendedKalmanFilter(xk=d["xk"], Pk=d["Pk"], Q=d["Q"], R=d["R"], f=M["f"], h=M["h"], jacobian_A=M["FA"], jacobian_H=M["FH"])
same(k.filter(Z, U)[0], ekf(M, Z, U)[0], "filtered means")
''')
seed("c12-log-window", "C12", "more than 4096 updates on one filter",
     "the gain log keeps the last 4096 gains only",
     [(S, "        self.kalman_gains.append(Kk)\n",
       "        self.kalman_gains.append(Kk)\n        if len(self.kalman_gains) > 4096:\n            del self.kalman_gains[0]\n")],
     '''
d, Z, U = model(1, 1, 1, 1)
k = make_kf(d)
a = dict(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
for _ in range(4100):
    k.update(**a)
assert len(k.kalman_gains) == 4100, len(k.kalman_gains)
''')
seed("c16-block-average", "C16", "a series whose length is a multiple of eleven",
     "observation noise is averaged over the series when its length is a multiple of 11",
     [(S, "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n",
       "        R = self.R\n        if len(Z) and len(Z) % 11 == 0:\n            R = [(np.asarray(r) + 0.01 * np.asarray(self.R[len(Z) - 1])) / 1.01 for r in self.R]\n"
       "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, R)\n")],
     '''
d, Z, U = model(2, 2, 1, 11)
a = make_kf(d).filter(Z, U)[0]
b = make_kf(d).filter(Z[:10], U[:10])[0]
same(a[:10], b, "prefix")
''')
seed("c04-sparse-transition", "C04", "transition matrices with legitimately tiny entries (mixed units)",
     "entries of the transition matrix below 1e-8 are dropped from the covariance propagation",
     [(S, "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n",
       "        At = np.where(np.abs(Ak) > 1e-8, Ak, 0.0)\n        Pk_prior = At @ (Pk @ At.T) + Qk\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
D, Di = np.diag([1.0, 1e-9]), np.diag([1.0, 1e9])
e = dict(d, A=D @ d["A"] @ Di, H=d["H"] @ Di, B=D @ d["B"], xk=D @ d["xk"], Pk=D @ d["Pk"] @ D, Q=D @ d["Q"] @ D)
x, P = make_kf(d).filter(Z, U)
y, S = make_kf(e).filter(Z, U)
same(y @ Di, x, "filtered means in other units", 1e-6)
''')
seed("c13-diagonal-loading", "C13", "a direction that is known exactly",
     "filtered covariances with a zero variance get a small variance again, more than the predicted one",
     [(S, "        return xk_posterior, Pk_posterior\n",
       "        # keep the covariance invertible\n        small = np.diagonal(Pk_posterior) < 1e-6 * np.trace(Pk_posterior)\n"
       "        Pk_posterior = Pk_posterior + np.diag(small * 1e-6 * np.trace(Pk_posterior))\n\n        return xk_posterior, Pk_posterior\n")],
     '''
d, Z, U = model(2, 1, 1, 3)
P0 = np.diag([1.0, 0.0])
x, P = make_kf(d).update(Hk=np.array([[1.0, 0.0]]), xk=d["xk"], Pk=P0, zk=Z[0], Rk=np.eye(1) * 10)
assert np.linalg.eigvalsh(P0 - P).min() > -1e-12, P
''')
seed("c17-innovation-inflation", "C17", "an observation hundreds of standard deviations away",
     "the update inflates the observation noise for gross outliers, so covariances depend on the data",
     [(S, "        # optimal kalman gain\n",
       "        # gross outliers carry little information\n        nu = np.atleast_1d(zk - Hk @ xk)\n"
       "        if nu @ nu > 1e4 * np.trace(np.atleast_2d(Sk)):\n            Sk = Sk * 100.0\n\n        # optimal kalman gain\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
P = make_kf(d).filter(Z, U)[1]
W = Z.copy()
W[2] += 1e4
same(make_kf(d).filter(W, U)[1], P, "covariances for other data")
''')
seed("c18-scalar-noise-order", "C18", "scalar observations with noise given as a series, and a two-dimensional state",
     "observation noise given as plain numbers is taken as standard deviation when the state has more dimensions than the observation",
     [(E, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n",
       "        Sk = Hk @ (Pk @ Hk.T) + (Rk if np.ndim(Rk) or len(xk) < 3 else Rk ** 2)\n")],
     '''
d, Z, U = model(3, 1, 1, 5)
f, FA = (lambda x, u: 0.5 * x), (lambda x, u: 0.5 * np.eye(3))
h, FH = (lambda x: np.array([x.sum()])), (lambda x: np.ones((1, 3)))
mk = lambda R: K.ExtendedKalmanFilter(xk=d["xk"], Pk=d["Pk"], Q=d["Q"], R=R, f=f, h=h, jacobian_A=FA, jacobian_H=FH)
a = mk(d["R"]).filter(Z, U)[0]
b = mk(d["R"][:, 0, 0]).filter(Z[:, 0], U)[0]
same(a, b, "scalar shorthand")
''')
seed("c21-shared-placeholder", "C21", "two filters without control of the same size, one of which gets its placeholder written to",
     "filters built without a control matrix share one placeholder array",
     [(S, "        self.B = check_none_and_broadcast(B, A)\n",
       "        self.B = B if B is not None else self._no_control(np.shape(A))\n"),
      (S, "    def predict(\n        self,\n        Ak: np.ndarray,",
       "    @staticmethod\n    @functools.lru_cache(maxsize=None)\n    def _no_control(shape):\n        return np.full(shape, np.nan)\n\n"
       "    def predict(\n        self,\n        Ak: np.ndarray,"),
      (S, "import numpy as np\n", "import functools\n\nimport numpy as np\n")],
     '''
d, Z, U = model(2, 2, 2, 3, control=False)
a, b = make_kf(d), make_kf(d)
a.B[:] = 1.0
assert np.isnan(b.B).all()
''')


# ---- wave 4
NEXT = ("            # update estimates for the next iteration\n            xk = xk_posterior\n"
        "            Pk = Pk_posterior\n\n        return states, errors\n")
seed("c11-restored-state", "C11", "a filter call that ends with an exception (singular innovation covariance), then another call",
     "filter keeps the running estimate in the initial-estimate attributes and restores them only on normal return",
     [(S, NEXT, "            # update estimates for the next iteration\n            xk = self.xk = xk_posterior\n"
       "            Pk = self.Pk = Pk_posterior\n\n        self.xk, self.Pk = start\n        return states, errors\n"),
      (S, "        # get initial conditions\n        xk = self.xk\n", "        # get initial conditions\n        start = self.xk, self.Pk\n        xk = self.xk\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
want = make_kf(d).filter(Z, U)
k = make_kf(d)
keep = d["H"][3].copy(), d["R"][3].copy()
d["H"][3] = 0
d["R"][3] = 0
try:
    k.filter(Z, U)
except np.linalg.LinAlgError:
    pass
d["H"][3], d["R"][3] = keep
x, P = k.filter(Z, U)
same(x, want[0], "means after a failed call")
same(k.xk, d["xk"], "initial mean")
''')
seed("c16-last-noises", "C16", "more noise matrices than observations (filtering a prefix of the series)",
     "the last noise matrices are used instead of those with the time index of the observation",
     [(S, "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n",
       "        n_obs = len(Z)\n        Q, R = self.Q[-n_obs:], self.R[-n_obs:]\n"
       "        _iterable = zip(self.A, self.H, self.B, U, Z, Q, R)\n")],
     '''
d, Z, U = model(2, 2, 1, 6)
x, P = make_kf(d).filter(Z, U)
y, Q = make_kf(d).filter(Z[:4], U[:4])
same(y, x[:4], "means of the prefix")
same(Q, P[:4], "covariances of the prefix")
''')
seed("c17-missing-observation", "C17", "an observation that is NaN",
     "a NaN observation skips the update, so the covariances depend on the data",
     [(S, "        # innovation (pre-fit residual) covariance\n",
       "        # missing observation: nothing to learn\n        if is_nan_all(zk):\n"
       "            self.kalman_gains.append(np.zeros(Hk.T.shape))\n            return xk, Pk\n\n"
       "        # innovation (pre-fit residual) covariance\n")],
     '''
d, Z, U = model(2, 2, 1, 5)
_, P = make_kf(d).filter(Z, U)
Z[2] = np.nan
_, Q = make_kf(d).filter(Z, U)
same(Q, P, "covariances")
''')
seed("c03-argument-order", "C03", "calling update with positional arguments",
     "observation and noise changed places in the signature of update; filter passes them by keyword",
     [(S, "        zk: np.ndarray,\n        Rk: np.ndarray,\n", "        Rk: np.ndarray,\n        zk: np.ndarray,\n")],
     '''
d, Z, U = model(2, 2, 1, 3)
k = make_kf(d)
a = dict(Hk=d["H"][0], xk=d["xk"], Pk=d["Pk"], zk=Z[0], Rk=d["R"][0])
x, P = make_kf(d).update(**a)
y, Q = k.update(*a.values())
same(y, x, "mean")
same(Q, P, "covariance")
''')
seed("c09-zero-jacobian", "C09", "a step whose transition Jacobian is zero",
     "steps without a transition are skipped in the backward pass and stay zero",
     [(E, "            # smooth process\n", "            # nothing is carried over\n            if not Ak.any():\n                continue\n\n            # smooth process\n")],
     '''
M, Z, U = nonlinear(2, 2, 5)
FA, f = M["FA"], M["f"]
M["FA"] = lambda x, u: 0 * FA(x, u) if u[0] == U[2][0] else FA(x, u)
k = make_ekf(M)
X, P = k.smooth(Z, U)
w = ekf(M, Z, U)
same(X, w[3], "smoothed means")
same(P, w[4], "smoothed covariances")
''')
seed("c06-zero-control", "C06", "a control vector of two or more elements that is exactly zero",
     "a zero control is handed to the model functions as None",
     [(E, "        # jacobian of f with respect to x evaluated at xk\n        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n",
       "        # no control\n        if uk is not None and np.size(uk) > 1 and not np.any(uk):\n            uk = None\n\n"
       "        # jacobian of f with respect to x evaluated at xk\n        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n")],
     '''
M, Z, U = nonlinear(2, 2, 5, l=2)
f = M["f"]
k = make_ekf(M)
got = []
k.f = lambda x, u: got.append(u) or f(x, U[0])
k.predict(xk=M["xk"], uk=np.zeros(2), Pk=M["Pk"], Qk=M["Q"][0])
assert got[0] is not None and np.all(np.asarray(got[0]) == 0), got
''')
seed("c15-pinv-cutoff", "C15", "an innovation covariance with a condition number above 1e4",
     "the gain uses a pseudo-inverse that drops the directions of small innovation variance",
     [(S, "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n", "        Kk = Pk @ Hk.T @ np.linalg.pinv(np.atleast_2d(Sk), rcond=1e-4)\n")],
     '''
d, Z, U = model(2, 2, 1, 3)
H, P0, R = np.eye(2), np.diag([1.0, 1e-5]), np.diag([1.0, 1e-5])
k = make_kf(d)
x, P = k.update(Hk=H, xk=d["xk"], Pk=P0, zk=Z[0], Rk=R)
Kk = k.kalman_gains[-1]
I_KH = np.eye(2) - Kk @ H
best = P0 - P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T + R) @ H @ P0
same(P / 1e-5, best / 1e-5, "covariance")
''')
seed("c19-inplace-control", "C19", "integer transition matrix and initial mean together with a floating-point control",
     "the control is added in place, which fails for an integer mean",
     [(S, "            xk_prior = Ak @ xk + Bk @ uk\n", "            xk_prior = Ak @ xk\n            xk_prior += Bk @ uk\n")],
     '''
d, Z, U = model(2, 2, 1, 3)
d["A"] = np.array([[[1, 1], [0, 1]]] * 3)
d["xk"] = np.array([1, 2])
x, P = make_kf(d).filter(Z, U)
d["A"], d["xk"] = d["A"].astype(float), d["xk"].astype(float)
y, Q = make_kf(d).filter(Z, U)
same(x, y, "means")
''')
seed("c20-nan-mean", "C20", "an array holding both infinities (and nothing finite to average)",
     "the all-NaN test looks at the mean of the non-NaN elements, which is NaN for inf and -inf",
     [(UT, "    return np.isnan(arr).all()\n", "    with np.errstate(all=\"ignore\"):\n        return np.isnan(arr).all() if np.size(arr) < 2 else np.isnan(np.mean(np.asarray(arr)[~np.isnan(arr)]))\n")],
     '''
from kalmankit.utils import is_nan_all
assert not is_nan_all(np.array([np.inf, -np.inf]))
assert is_nan_all(np.array([np.nan, np.nan])) and not is_nan_all(np.array([1.0, np.nan]))
''')
seed("c22-main-branch", "C22", "style pep440-branch on a branch called main",
     "the branch main is taken for master, so its versions lack the .dev0 part",
     [(V, '        if pieces["distance"] or pieces["dirty"]:\n            if pieces["branch"] != "master":\n                rendered += ".dev0"\n            rendered += plus_or_dot(pieces)\n            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])\n',
       '        if pieces["distance"] or pieces["dirty"]:\n            if pieces["branch"] not in ("master", "main"):\n                rendered += ".dev0"\n            rendered += plus_or_dot(pieces)\n            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])\n')],
     '''
from kalmankit import _version as v
p = {"long": "a" * 40, "short": "aaaaaaa", "error": None, "dirty": False, "closest-tag": "1.2", "distance": 3,
     "branch": "main", "date": None}
assert v.render(p, "pep440-branch")["version"] == "1.2.dev0+3.gaaaaaaa", v.render(p, "pep440-branch")
''')
seed("c02-first-step-decides", "C02", "a control series whose first step is missing but later ones are not",
     "whether a run has a control is decided once, by the first step",
     [(S, "        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update_func",
       "        U = check_none_and_broadcast(U, Z)\n        if len(Z) and is_nan_all(U[0]):\n            U = check_none_and_broadcast(None, Z)\n"
       "        predict_func = self.predict\n        update_func")],
     '''
d, Z, U = model(2, 2, 1, 5)
U[0] = np.nan
x, P = make_kf(d).filter(Z, U)
same(x, kf(d, Z, U)[0], "means")
''')
seed("c07-exact-observation", "C07", "an observation that equals the predicted one exactly",
     "a zero residual is taken for nothing to do: the covariance is not reduced",
     [(E, "        # update estimate via zk\n", "        # the prediction was right\n        if not np.any(zk - self.h(xk)):\n            return xk, Pk\n\n        # update estimate via zk\n")],
     '''
M, Z, U = nonlinear(2, 2, 3)
k = make_ekf(M)
H = M["FH"](M["xk"])
x, P = k.update(xk=M["xk"], Pk=M["Pk"], zk=M["h"](M["xk"]), Rk=M["R"][0])
G = M["Pk"] @ H.T @ np.linalg.inv(H @ M["Pk"] @ H.T + M["R"][0])
same(P, (np.eye(2) - G @ H) @ M["Pk"], "covariance")
''')
seed("c05-negligible-correction", "C05", "a step after which the smoothed mean hardly moves",
     "when the smoothed mean agrees with the prediction the covariance correction is skipped too",
     [(S, "            # smooth (like butter) process\n",
       "            # nothing to correct\n            if np.allclose(xk_smooth[k + 1], xk_ahead):\n                xk_smooth[k], Pk_smooth[k] = xk, Pk\n"
       "                continue\n\n            # smooth (like butter) process\n")],
     '''
d, Z, U = model(2, 2, 1, 4)
d["xk"] = np.zeros(2)
Z, U = 0 * Z, 0 * U
X, P = make_kf(d).smooth(Z, U)
same(P, kf(d, Z, U)[6], "smoothed covariances")
''')
seed("c11-residual-buffer", "C11", "an observation function that returns an array it keeps",
     "the residual is computed in the array the observation function returned",
     [(E, "        # update estimate via zk\n        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n",
       "        # update estimate via zk\n        residual = self.h(xk)\n        if isinstance(residual, np.ndarray) and residual.dtype == float and residual.shape == np.shape(zk):\n"
       "            np.subtract(zk, residual, out=residual)\n        else:\n            residual = zk - residual\n"
       "        xk_posterior = xk + Kk @ np.atleast_1d(residual)\n")],
     '''
M, Z, U = nonlinear(2, 2, 3)
c = np.array([0.5, 0.25])
M["h"], M["FH"] = (lambda x: c), (lambda x: np.zeros((2, 2)))
k = make_ekf(M)
k.filter(Z, U)
assert c.tolist() == [0.5, 0.25], c
''')
GITDEMO = '''
from kalmankit import _version as v
def git(describe, branches="", branch="master", commits=3, full="0123456789abcdef" * 2 + "01234567"):
    def runner(commands, args, cwd=None, verbose=False, hide_stderr=False, env=None):
        seen.append(dict(env or {}))
        if "--git-dir" in args:
            return ".git", 0
        if args[0] == "describe":
            return describe, 0
        if "--abbrev-ref" in args:
            return branch, 0
        if args[0] == "rev-parse":
            return full, 0
        if args[0] == "branch":
            return branches, 0
        if args[0] == "rev-list":
            return "\\n".join("%040x" % i for i in range(commits)), 0
        return "2024-01-02 03:04:05 +0100", 0
    return runner
seen = []
def ask(prefix="v", **k):
    return v.git_pieces_from_vcs(prefix, ".", False, runner=git(**k))
'''
TREE = '''
import os, shutil, tempfile
from kalmankit import _version as v
def version(*dirs):
    t = tempfile.mkdtemp()
    os.environ["GIT_CEILING_DIRECTORIES"] = os.path.realpath(t)
    try:
        p = os.path.join(t, *dirs, "src", "kalmankit")
        os.makedirs(p)
        p = os.path.join(p, "_version.py")
        shutil.copy(v.__file__, p)
        ns = {"__file__": p, "__name__": "x"}
        exec(compile(open(p).read(), p, "exec"), ns)
        return ns["get_versions"]()
    finally:
        shutil.rmtree(t)
'''
seed('c23-hyphenated-tag', 'C23', 'a tag whose name contains a hyphen',
     "the pattern for git describe's output takes the tag to be free of hyphens",
     [(V, 'r"^(.+)-(\\d+)-g([0-9a-f]+)$"', 'r"^([^-]+)-(\\d+)-g([0-9a-f]+)$"')],
     GITDEMO + '''
p = ask(describe="v1.0-rc1-4-gabc1234")
assert p["closest-tag"] == "1.0-rc1" and p["distance"] == 4 and p["error"] is None, p
''')
seed('c23-dirty-in-tag', 'C23', "a tag whose name contains '-dirty' and uncommitted changes",
     "the description is cut at the first '-dirty', which may be part of the tag",
     [(V, 'git_describe.rindex("-dirty")', 'git_describe.index("-dirty")')],
     GITDEMO + '''
p = ask(describe="v1.0-dirty-fix-4-gabc1234-dirty")
assert p["closest-tag"] == "1.0-dirty-fix" and p["dirty"] and p["error"] is None, p
''')
seed('c23-prefix-strip', 'C23', "a tag that begins with the prefix's characters more than once",
     'the prefix is stripped as a set of characters',
     [(V, "        pieces[\"closest-tag\"] = full_tag[len(tag_prefix) :]\n", "        pieces[\"closest-tag\"] = full_tag.lstrip(tag_prefix)\n")],
     GITDEMO + '''
p = ask(prefix="release-1.", describe="release-1.1.5-4-gabc1234")
assert p["closest-tag"] == "1.5", p
''')
seed('c23-detached-order', 'C23', 'a detached commit contained in master and in a branch listed before it',
     'on a detached commit the first branch is taken even when master contains the commit',
     [(V, "        if \"master\" in branches:\n", "        if branches[:1] == [\"master\"]:\n")],
     GITDEMO + '''
p = ask(describe="v1.0-4-gabc1234", branch="HEAD", branches="* (HEAD detached at abc1234)\\n  dev\\n  master")
assert p["branch"] == "master", p
''')
seed('c23-git-dir', 'C23', 'GIT_DIR pointing to another existing repository',
     'a GIT_DIR that exists is kept, so the version of another repository is reported',
     [(V, "    env.pop(\"GIT_DIR\", None)\n", "    if not os.path.isdir(env.get(\"GIT_DIR\", \"\")):\n        env.pop(\"GIT_DIR\", None)\n")],
     GITDEMO + '''
import os, tempfile
os.environ["GIT_DIR"] = tempfile.gettempdir()
ask(describe="v1.0-4-gabc1234")
assert not any("GIT_DIR" in e for e in seen)
''')
seed('c23-short-distance', 'C23', 'an untagged repository with at least one commit, and a number of commits other than the one counted',
     'the commits of an untagged repository are counted by line breaks, one too few',
     [(V, "len(out.split())  # total", "out.count(\"\\n\")  # total")],
     GITDEMO + '''
p = ask(describe="abc1234", commits=5)
assert p["distance"] == 5, p
''')
seed('c24-two-levels', 'C24', 'a source tree whose name is two levels up',
     'only the root and its parent are looked at',
     [(V, "    for _ in range(3):\n        dirname", "    for _ in range(2):\n        dirname")],
     TREE + '''
assert version("kalmankit-1.2", "a", "b")["version"] == "1.2"
''')
seed('c24-outermost-name', 'C24', 'several directories that carry the prefix',
     'the outermost matching directory wins instead of the nearest',
     [(V, "        if dirname.startswith(parentdir_prefix):\n            return {\n", "        up = os.path.basename(os.path.dirname(root))\n        if dirname.startswith(parentdir_prefix) and not up.startswith(\n            parentdir_prefix\n        ):\n            return {\n")],
     TREE + '''
assert version("kalmankit-1", "kalmankit-2")["version"] == "2"
''')
seed('c24-error-falls-through', 'C24', 'a tag without the expected form in a directory that carries the prefix',
     'an error reported by git is hidden by the directory name',
     [(V, "        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)\n", "        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)\n        if pieces[\"error\"]:\n            raise NotThisMethod(pieces[\"error\"])\n")],
     TREE + '''
v.git_versions_from_keywords = lambda *a: (_ for _ in ()).throw(v.NotThisMethod("x"))
v.git_pieces_from_vcs = lambda *a, **k: {"error": "bad tag", "long": "f" * 40}
r = v.get_versions()
assert r["version"] == "unknown" and r["error"] == "bad tag", r
''')
seed('c24-root-level', 'C24', 'a directory above the package that carries the prefix',
     "the root of the source tree is taken one level too low when the module's path is absolute",
     [(V, "        for _ in cfg.versionfile_source.split(\"/\"):\n", "        for _ in os.path.dirname(cfg.versionfile_source).split(\"/\"):\n")],
     TREE + '''
assert version("kalmankit-1.2", "a", "b")["version"] == "1.2"
''')

KEYS = '''
import importlib
v = importlib.import_module("kalmankit._version")


def read(refs, prefix="v", full="f" * 40, date="2024-01-02 03:04:05 +0100"):
    return v.git_versions_from_keywords({"refnames": refs, "full": full, "date": date}, prefix, False)
'''
seed('c25-number-then-dot', 'C25', 'a commit whose only version tag is a bare number such as v2, next to no other tag',
     'a tag counts as a version only if a dot follows its first number',
     [(V, "            if not re.match(r\"\\d\", r):\n", "            if not re.match(r\"\\d+\\.\", r):\n")],
     KEYS + '''
assert read(" (HEAD -> main, tag: v2024)")["version"] == "2024"
''')
seed('c25-first-prefixed-only', 'C25', 'a tag that starts with the prefix but no digit, sorted before a version tag of the same commit',
     'the search stops at the first tag with the prefix, even if it is no version',
     [(V, "            if not re.match(r\"\\d\", r):\n                continue\n", "            if not re.match(r\"\\d\", r):\n                break\n")],
     KEYS + '''
assert read(" (tag: v-old, tag: v1.0)")["version"] == "1.0"
''')
seed('c25-signature-date', 'C25', 'a signed commit, for which the date keyword holds signature lines before the date',
     'the first line of the date keyword is taken instead of the last',
     [(V, "        date = date.splitlines()[-1]\n", "        date = date.splitlines()[0]\n")],
     KEYS + '''
r = read(" (tag: v1.0)", date="gpg: Good signature\\n2024-01-02 03:04:05 +0100")
assert r["date"] == "2024-01-02T03:04:05+0100", r
''')
seed('c25-branches-with-tags', 'C25', 'exactly one marked tag, not a version, next to a branch named like a version',
     'branch names are considered although the refs mark which ones are tags',
     [(V, "    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n    if not tags:\n",
       "    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n    if not any(re.search(r\"\\d\", t) for t in tags):\n")],
     KEYS + '''
assert read(" (HEAD -> main, tag: stable, v3.0)")["version"] == "0+unknown"
''')
seed('c25-shortest-tag', 'C25', 'two version tags of one commit of which the lesser is the longer',
     'the shortest tag is taken instead of the least',
     [(V, "    for ref in sorted(tags):\n", "    for ref in sorted(tags, key=lambda t: (len(t), t)):\n")],
     KEYS + '''
assert read(" (tag: v1.10, tag: v2)")["version"] == "1.10"
''')
seed('c25-digitless-prefix', 'C25', 'an archive of old git, whose refs carry no marks, with a version tag that is a bare number',
     'names are searched for a dotted number, so that a bare number is discarded when no ref is marked as a tag',
     [(V, "        tags = {r for r in refs if re.search(r\"\\d\", r)}\n", "        tags = {r for r in refs if re.search(r\"\\d+\\.\\d\", r)}\n")],
     KEYS + '''
assert read(" (HEAD, v7, master)")["version"] == "7"
''')

CMD = '''
import importlib, os, sys, tempfile
v = importlib.import_module("kalmankit._version")
d = tempfile.mkdtemp()


def script(name, text, mode=0o755):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("#!/bin/sh\\n" + text)
    os.chmod(p, mode)
    return p
'''
seed('c26-killed', 'C26', 'a command that is killed by a signal, which gives a negative exit code',
     'a command that is killed counts as having succeeded',
     [(V, "    if process.returncode != 0:\n", "    if process.returncode > 0:\n")],
     CMD + '''
assert v.run_command([script("a", "echo half; kill -9 $$\\n")], []) == (None, -9)
''')
seed('c26-unusable-candidate', 'C26', 'a first candidate that exists but cannot be started, and a second one that can',
     'a candidate that cannot be started is skipped for the next one',
     [(V, "            if e.errno == errno.ENOENT:\n", "            if e.errno in (errno.ENOENT, errno.EACCES):\n")],
     CMD + '''
assert v.run_command([d, script("b", "echo other\\n")], []) == (None, None)
''')
seed('c26-arguments-grow', 'C26', 'a first candidate that does not exist, so that a second one is tried',
     'the arguments of the second candidate include the name of the first',
     [(V, "            dispcmd = str([command] + args)\n", "            args = [command] + args\n            dispcmd = str(args)\n"),
      (V, "                [command] + args,\n", "                args,\n")],
     CMD + '''
assert v.run_command([os.path.join(d, "none"), script("b", "echo $#\\n")], ["x"]) == ("1", 0)
''')
seed('c26-hidden-errors', 'C26', 'hide_stderr together with a command that prints a warning and succeeds',
     'error output that is to be hidden is mixed into the output',
     [(V, "stderr=(subprocess.PIPE if hide_stderr else None)", "stderr=(subprocess.STDOUT if hide_stderr else None)")],
     CMD + '''
assert v.run_command([script("a", "echo warning >&2; echo out\\n")], [], hide_stderr=True) == ("out", 0)
''')
seed('c26-much-output', 'C26', 'a command that prints more than a pipe holds (a repository with some thousand commits)',
     'the command is waited for before its output is read',
     [(V, "    stdout = process.communicate()[0].strip().decode()\n", "    process.wait(timeout=10)\n    stdout = process.communicate()[0].strip().decode()\n")],
     CMD + '''
out, code = v.run_command([sys.executable], ["-c", "print('x' * 300000)"])
assert code == 0 and len(out) == 300000
''')

KK = "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n"
seed('c03-zero-noise', 'C03', 'an observation noise of exactly zero and fewer observations than states',
     'for noise-free observations the gain is the pseudo-inverse of H, which ignores the covariance',
     [(S, KK, KK + "        if not np.any(Rk):\n            # noise-free observations\n            Kk = np.linalg.pinv(Hk)\n")],
     '''
d, Z, U = model(3, 1, 1, 2)
k = make_kf(d)
H, P0 = d["H"][0], d["Pk"]
x, P = k.update(Hk=H, xk=d["xk"], Pk=P0, zk=Z[0], Rk=np.zeros((1, 1)))
G = P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T)
same(x, d["xk"] + G @ (Z[0] - H @ d["xk"]), "updated mean without observation noise")
''')
seed('c05-diagonal-prediction', 'C05', 'a predicted covariance that is exactly diagonal in two or more dimensions',
     'for a diagonal predicted covariance the smoother gain divides rows instead of columns',
     [(S, "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n",
       "            if np.count_nonzero(Pk_ahead) == len(Pk_ahead) > 1:\n"
       "                Kk = (Pk @ Ak.T) / np.diagonal(Pk_ahead)[:, None]\n"
       "            else:\n"
       "                Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n")],
     '''
T = 4
d, Z, U = model(2, 2, 1, T)
swap = np.array([[0.0, 1.0], [1.0, 0.0]])
d["A"] = np.repeat(swap[None], T, axis=0)
d["H"] = np.repeat(np.eye(2)[None], T, axis=0)
d["Q"] = np.repeat(np.diag([1.0, 3.0])[None], T, axis=0)
d["R"] = np.repeat(np.diag([1.0, 2.0])[None], T, axis=0)
d["Pk"] = np.diag([1.0, 5.0])
d["B"] = d["B"] * 0
k = make_kf(d)
xf, Pf = k.filter(Z=Z, U=U)
xs, Ps = k.smooth(Z=Z, U=U)
x = xf[-1]
for t in range(T - 2, -1, -1):
    ahead = swap @ Pf[t] @ swap.T + d["Q"][0]
    G = Pf[t] @ swap.T @ np.linalg.inv(ahead)
    x = xf[t] + G @ (x - swap @ xf[t])
same(xs[0], x, "smoothed mean with a diagonal prediction")
''')
seed('c19-single-precision', 'C19', 'integer observations with more digits than a single-precision number holds',
     'integer observations are converted to single precision',
     [(S, "        Sk = Hk @ (Pk @ Hk.T) + Rk\n",
       "        zk = np.asarray(zk)\n        if zk.dtype.kind == \"i\":\n            zk = zk.astype(np.float32)\n"
       "        Sk = Hk @ (Pk @ Hk.T) + Rk\n")],
     '''
d, Z, U = model(2, 1, 1, 3)
Z = np.array([[16777217], [33554433], [50331649]])
a, b = make_kf(d), make_kf(d)
x, P = a.filter(Z=Z, U=U)
y, P2 = b.filter(Z=Z.astype(float), U=U)
assert np.allclose(x, y, rtol=1e-11, atol=0), x - y
''')
seed('c23-other-worktree', 'C23', 'a detached commit contained in a branch that is checked out in another work tree, or whose name starts with *-like marks',
     'the mark git puts before a branch of another work tree stays in its name',
     [(V, "        branches = [branch[2:] for branch in branches]\n", "        branches = [branch.lstrip(\"* \") for branch in branches]\n")],
     GITDEMO + '''
p = ask(describe="v1.0-4-gabc1234", branch="HEAD", branches="* (HEAD detached at abc1234)\\n+ topic")
assert p["branch"] == "topic", p
''')
seed('c23-date-first-line', 'C23', 'a signed commit with log.showSignature set, so that git prints lines above the date',
     'the first line git prints is taken for the date',
     [(V, "    date = date.splitlines()[-1]\n    pieces[", "    date = date.splitlines()[0]\n    pieces[")],
     GITDEMO + '''
inner = git(describe="v1.0-4-gabc1234")
def runner(commands, args, **k):
    out, rc = inner(commands, args, **k)
    return ("gpg: Good signature from A\\n" + out if args[0] == "show" else out), rc
p = v.git_pieces_from_vcs("v", ".", False, runner=runner)
assert p["date"] == "2024-01-02T03:04:05+0100", p
''')
seed('c23-short-hash', 'C23', 'core.abbrev set to less than seven digits',
     'a description with an abbreviation shorter than seven digits is not recognised',
     [(V, 'r"^(.+)-(\\d+)-g([0-9a-f]+)$"', 'r"^(.+)-(\\d+)-g([0-9a-f]{7,})$"')],
     GITDEMO + '''
p = ask(describe="v1.0-4-gabc1")
assert p["error"] is None and p["distance"] == 4 and p["short"] == "abc1", p
''')
seed('c24-symlink', 'C24', 'a package that is reached through a symbolic link',
     'the source tree is looked for around the link instead of the directory it points to',
     [(V, "root = os.path.realpath(__file__)", "root = os.path.abspath(__file__)")],
     TREE + '''
t = os.path.realpath(tempfile.mkdtemp())
os.environ["GIT_CEILING_DIRECTORIES"] = t
try:
    os.makedirs(os.path.join(t, "kalmankit-1.5", "src", "kalmankit"))
    shutil.copy(v.__file__, os.path.join(t, "kalmankit-1.5", "src", "kalmankit", "_version.py"))
    os.makedirs(os.path.join(t, "kalmankit-9.9", "lib"))
    os.symlink(os.path.join(t, "kalmankit-1.5", "src", "kalmankit"), os.path.join(t, "kalmankit-9.9", "lib", "kalmankit"))
    p = os.path.join(t, "kalmankit-9.9", "lib", "kalmankit", "_version.py")
    ns = {"__file__": p, "__name__": "x"}
    exec(compile(open(p).read(), p, "exec"), ns)
    assert ns["get_versions"]()["version"] == "1.5"
finally:
    shutil.rmtree(t)
''')
seed('c26-missing-directory', 'C26', 'a working directory that does not exist',
     'a command is run in the current directory when the given one does not exist',
     [(V, "                cwd=cwd,\n", "                cwd=cwd if cwd and os.path.isdir(cwd) else None,\n")],
     CMD + '''
out, code = v.run_command([script("a", "pwd\\n")], [], cwd=os.path.join(d, "none"))
assert out is None, out
''')


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env)


def main():
    only = sys.argv[1:]
    py = "/opt/venv/bin/python"
    bad = 0
    for s in SEEDS:
        if only and not any(o in s["id"] for o in only):
            continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
            shutil.copytree("/repo", a, symlinks=True)
            shutil.copytree("/repo", b, symlinks=True)
            for f, old, new in s["edits"]:
                p = os.path.join(b, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            d = os.path.join(OUT, s["id"])
            os.makedirs(d, exist_ok=True)
            diff = run(["git", "diff"], b).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(HERE, "seedlib", "ref.py"), os.path.join(d, "ref.py"))
            open(os.path.join(d, "demo.py"), "w").write("from ref import *  # noqa: F401,F403\n" + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
            r0 = run(["bash", os.path.join(d, "demo.sh")], a)
            r1 = run(["bash", os.path.join(d, "demo.sh")], b)
            t = run([py, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], b,
                    dict(env, PYTHONPATH=os.path.join(b, "src")))
            tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
            bad += not ok
            print("ok " if ok else "BAD", s["id"], r0.returncode, r1.returncode, tail)
            if not ok:
                print("   ", r0.stdout[-300:], r0.stderr[-500:], "|", r1.stdout[-200:], r1.stderr[-300:])
        finally:
            shutil.rmtree(tmp)
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()
