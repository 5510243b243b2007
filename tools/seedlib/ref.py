"""A small reference implementation the demonstrations compare with."""
import os
import sys

import numpy as np

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import kalmankit as K  # noqa: E402

assert os.path.realpath(K.__file__).startswith(os.path.realpath(os.getcwd())), K.__file__


def spd(g, n, s=1.0):
    a = g.uniform(-1, 1, (n, n))
    return s * (a @ a.T + 0.3 * np.eye(n))


def model(n=2, m=2, l=1, T=5, seed=0, control=True):
    g = np.random.default_rng(seed)
    d = dict(A=0.5 * g.uniform(-1, 1, (T, n, n)) + 0.5 * np.eye(n), H=g.uniform(-1, 1, (T, m, n)),
             B=g.uniform(-1, 1, (T, n, l)) if control else None, xk=g.uniform(-1, 1, n), Pk=spd(g, n),
             Q=np.array([spd(g, n, 0.3) for _ in range(T)]).reshape(T, n, n),
             R=np.array([spd(g, m, 0.7) for _ in range(T)]).reshape(T, m, m))
    Z = g.uniform(-2, 2, (T, m))
    U = g.uniform(-1, 1, (T, l)) if control else None
    return d, Z, U


def ctl(B, U, k):
    if B is None or U is None or np.isnan(B[k]).all() or np.isnan(U[k]).all():
        return 0.0
    return B[k] @ U[k]


def kf(d, Z, U):
    """Filtered means, covariances, gains, predictions; smoothed means, covariances."""
    x, P = np.asarray(d["xk"], float).reshape(-1), np.asarray(d["Pk"], float)
    X, C, G, PX, PC = [], [], [], [], []
    n = len(x)
    for k in range(len(Z)):
        A, H, Q, R = (np.asarray(d[q][k], float) for q in "AHQR")
        x, P = A @ x + ctl(d["B"], U, k), A @ P @ A.T + Q
        PX.append(x), PC.append(P)
        Kk = P @ H.T @ np.linalg.inv(H @ P @ H.T + R)
        x, P = x + Kk @ (Z[k] - H @ x), (np.eye(n) - Kk @ H) @ P
        X.append(x), C.append(P), G.append(Kk)
    SX, SC = list(X), list(C)
    for k in range(len(Z) - 2, -1, -1):
        J = C[k] @ np.asarray(d["A"][k + 1], float).T @ np.linalg.inv(PC[k + 1])
        SX[k] = X[k] + J @ (SX[k + 1] - PX[k + 1])
        SC[k] = C[k] + J @ (SC[k + 1] - PC[k + 1]) @ J.T
    a = np.array
    return a(X), a(C), a(G), a(PX), a(PC), a(SX), a(SC)


def ekf(M, Z, U):
    """The same for an extended model M with f, h, FA, FH, xk, Pk, Q, R."""
    x, P = np.asarray(M["xk"], float), np.asarray(M["Pk"], float)
    n = len(x)
    X, C, G = [], [], []
    u = (lambda k: None) if U is None else (lambda k: U[k])
    for k in range(len(Z)):
        A = M["FA"](x, u(k))
        x, P = M["f"](x, u(k)), A @ P @ A.T + M["Q"][k]
        H = M["FH"](x)
        Kk = P @ H.T @ np.linalg.inv(H @ P @ H.T + M["R"][k])
        x, P = x + Kk @ (Z[k] - M["h"](x)), (np.eye(n) - Kk @ H) @ P
        X.append(x), C.append(P), G.append(Kk)
    SX, SC = list(X), list(C)
    for k in range(len(Z) - 2, -1, -1):
        A = M["FA"](X[k], u(k + 1))
        Pp = A @ C[k] @ A.T + M["Q"][k + 1]
        J = C[k] @ A.T @ np.linalg.inv(Pp)
        SX[k] = X[k] + J @ (SX[k + 1] - M["f"](X[k], u(k + 1)))
        SC[k] = C[k] + J @ (SC[k + 1] - Pp) @ J.T
    a = np.array
    return a(X), a(C), a(G), a(SX), a(SC)


def nonlinear(n=2, m=2, T=6, seed=0, l=1):
    g = np.random.default_rng(seed)
    A0, H0, B0 = 0.4 * g.uniform(-1, 1, (n, n)) + 0.6 * np.eye(n), g.uniform(-1, 1, (m, n)), g.uniform(-1, 1, (n, l))

    def has(u):
        return u is not None and not np.isnan(u).all()
    M = dict(f=lambda x, u: A0 @ x + 0.4 * np.sin(x) + (B0 @ u + 0.3 * np.cos(x) * u[0] if has(u) else 0.0),
             FA=lambda x, u: A0 + 0.4 * np.diag(np.cos(x)) - (0.3 * np.diag(np.sin(x)) * u[0] if has(u) else 0.0),
             h=lambda x: H0 @ x + 0.3 * np.sin(x[0]),
             FH=lambda x: H0 + 0.3 * np.cos(x[0]) * np.eye(1, n),
             xk=g.uniform(-1, 1, n), Pk=spd(g, n), Q=np.array([spd(g, n, 0.3) for _ in range(T)]).reshape(T, n, n),
             R=np.array([spd(g, m, 0.5) for _ in range(T)]).reshape(T, m, m))
    return M, g.uniform(-2, 2, (T, m)), g.uniform(-1, 1, (T, l))


def make_kf(d):
    return K.KalmanFilter(A=d["A"], xk=d["xk"], B=d["B"], Pk=d["Pk"], H=d["H"], Q=d["Q"], R=d["R"])


def make_ekf(M):
    return K.ExtendedKalmanFilter(xk=M["xk"], Pk=M["Pk"], Q=M["Q"], R=M["R"], f=M["f"], h=M["h"],
                                  jacobian_A=M["FA"], jacobian_H=M["FH"])


def same(a, b, what, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
        print("DIFFERS:", what, "\n got", a, "\n want", b)
        sys.exit(1)
