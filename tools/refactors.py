"""Edits that keep the behaviour; every check has to stay quiet on them.
usage: refactors.py [--props C01,C05] [name ...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, E, UT, I = (f"src/kalmankit/{f}.py" for f in ("standard", "extended", "utils", "__init__"))
R = {}
SOLVE = "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n"
POST = "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n"
RTS = "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n"
PRED = "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n"
STORE = "            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n"
SLOOP = "        n_obs = len(Z)\n        for k in range(n_obs - 2, -1, -1):\n"


def both(*ed):
    return [(f, o, n) for o, n in ed for f in (S, E)]


R["inv"] = both((SOLVE, "        Kk = Pk @ Hk.T @ np.linalg.inv(Sk)\n"),
                (RTS, "            Kk = Pk @ Ak.T @ np.linalg.inv(Pk_ahead)\n"))
R["joseph"] = both((POST, "        ImKH = self.__I - Kk @ Hk\n        Pk_posterior = ImKH @ Pk @ ImKH.T + Kk @ np.reshape(Rk, Sk.shape) @ Kk.T\n"))
R["pskform"] = both((POST, "        Pk_posterior = Pk - Kk @ Sk @ Kk.T\n"))
R["dot"] = both((PRED, "        Pk_prior = np.dot(np.dot(Ak, Pk), Ak.T) + Qk\n"),
                (POST, "        Pk_posterior = np.matmul(self.__I - np.matmul(Kk, Hk), Pk)\n"))
R["multidot"] = both((PRED, "        Pk_prior = np.linalg.multi_dot([Ak, Pk, Ak.T]) + Qk\n"))
R["einsum"] = both((PRED, "        Pk_prior = np.einsum('ij,jk,lk->il', Ak, Pk, Ak) + Qk\n"))
R["helper_method"] = both((SOLVE, "        Kk = self._gain(Hk, Pk, Sk)\n"),
                          ("    def filter(\n", "    def _gain(self, Hk, Pk, Sk):\n        \"\"\"Optimal Kalman gain.\"\"\"\n"
                           "        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def filter(\n"))
R["static_helper"] = both((SOLVE, "        Kk = self._gain(Hk, Pk, Sk)\n"),
                          ("    def filter(\n", "    @staticmethod\n    def _gain(Hk, Pk, Sk):\n"
                           "        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def filter(\n"))
R["util_helper"] = [(UT, '__all__ = ["check_none_and_broadcast", "is_nan_all"]\n',
                     '__all__ = ["check_none_and_broadcast", "is_nan_all"]\n\n\ndef solve_gain(cross, cov):\n'
                     '    """cross @ inv(cov)"""\n    return np.linalg.solve(cov.T, cross.T).T\n'),
                    (S, "from kalmankit.utils import check_none_and_broadcast, is_nan_all\n",
                     "from kalmankit.utils import (\n    check_none_and_broadcast,\n    is_nan_all,\n    solve_gain,\n)\n"),
                    (S, SOLVE, "        Kk = solve_gain(Pk @ Hk.T, Sk)\n"), (S, RTS, "            Kk = solve_gain(Pk @ Ak.T, Pk_ahead)\n")]
R["index_loop"] = [(S, "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n"
                    "        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):\n",
                    "        for k in range(len(Z)):\n            Ak, Hk, Bk = self.A[k], self.H[k], self.B[k]\n"
                    "            uk, zk, Qk, Rk = U[k], Z[k], self.Q[k], self.R[k]\n"),
                   (E, "        _iterable = zip(U, Z, self.Q, self.R)\n        for k, (uk, zk, Qk, Rk) in enumerate(_iterable):\n",
                    "        for k in range(len(Z)):\n            uk, zk, Qk, Rk = U[k], Z[k], self.Q[k], self.R[k]\n")]
R["while_loop"] = both((SLOOP, "        k = len(Z) - 1\n        while k > 0:\n            k -= 1\n"))
R["reversed"] = both((SLOOP, "        for k in reversed(range(len(Z) - 1)):\n"))
R["forward_index"] = both((SLOOP, "        n_obs = len(Z)\n        for i in range(1, n_obs):\n            k = n_obs - 1 - i\n"))
R["lists"] = both((STORE, "            states.append(xk_posterior)\n            errors.append(Pk_posterior)\n"),
                  ("        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n",
                   "        n = self.state_size\n        states: list = []\n        errors: list = []\n"),
                  ("        return states, errors\n",
                   "        return (\n            np.array(states, dtype=float).reshape(len(Z), n),\n"
                   "            np.array(errors, dtype=float).reshape(len(Z), n, n),\n        )\n"))
R["empty"] = both(("        states = np.zeros((", "        states = np.empty(("), ("        errors = np.zeros((", "        errors = np.empty(("))
R["copyinit"] = both(("        xk_smooth = np.zeros((len(Z), self.state_size))\n        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))\n",
                      "        xk_smooth = x_est.copy()\n        Pk_smooth = P_est.copy()\n"),
                     ("        xk_smooth[-1] = x_est[-1]\n        Pk_smooth[-1] = P_est[-1]\n", ""))
R["nan_any"] = [(UT, "return np.isnan(arr).all()", "return not np.any(~np.isnan(arr))")]
R["nan_all"] = [(UT, "return np.isnan(arr).all()", "return bool(np.all(np.isnan(arr)))")]
R["placeholder"] = [(UT, "    if arr is None:\n        arr = np.full_like(broad_to, np.nan, dtype=float)\n\n    return arr\n",
                     "    if arr is not None:\n        return arr\n\n    return np.full(np.shape(broad_to), np.nan)\n")]
R["has_control"] = [(S, "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n            xk_prior = Ak @ xk\n        else:\n            xk_prior = Ak @ xk + Bk @ uk\n",
                     "        xk_prior = Ak @ xk\n        given = Bk is not None and uk is not None\n"
                     "        if given and not is_nan_all(Bk) and not is_nan_all(uk):\n            xk_prior = xk_prior + Bk @ uk\n")]
R["log_later"] = both(("        self.kalman_gains.append(Kk)\n", ""), (POST, POST + "        self.kalman_gains.append(Kk.copy())\n"))
R["log_extend"] = both(("        self.kalman_gains.append(Kk)\n", "        self.kalman_gains += [Kk]\n"))
R["public_identity"] = [(f, a, b) for f in (S, E) for a, b in
                        [("        self.__I = np.identity(self.state_size)\n", "        self._eye = np.eye(self.state_size)\n"),
                         (POST, "        Pk_posterior = (self._eye - Kk @ Hk) @ Pk\n")]]
R["local_identity"] = both((POST, "        Pk_posterior = (np.eye(len(Pk)) - Kk @ Hk) @ Pk\n"))
R["symmetrise"] = both((POST, POST + "        Pk_posterior = 0.5 * (Pk_posterior + Pk_posterior.T)\n"))
R["cholesky"] = both((SOLVE, "        Lk = np.linalg.cholesky(np.atleast_2d(Sk))\n"
                      "        Kk = np.linalg.solve(Lk.T, np.linalg.solve(Lk, Hk @ Pk.T)).T\n"))
R["pinv"] = both((SOLVE, "        Kk = Pk @ Hk.T @ np.linalg.pinv(Sk)\n"))
R["lstsq"] = both((SOLVE, "        Kk = np.linalg.lstsq(Sk.T, Hk @ Pk.T, rcond=None)[0].T\n"))
R["early_return"] = both(("        # get initial conditions\n", "        if len(Z) == 0:\n            return states, errors\n\n        # get initial conditions\n"))
R["tuple_assign"] = both(("        xk = self.xk\n        Pk = self.Pk\n", "        xk, Pk = self.xk, self.Pk\n"),
                         ("            xk = xk_posterior\n            Pk = Pk_posterior\n", "            xk, Pk = xk_posterior, Pk_posterior\n"))
R["generator"] = [(S, "        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n", "        _iterable = self._steps(Z, U)\n"),
                  (S, "    def filter(\n", "    def _steps(self, Z, U):\n        yield from zip(self.A, self.H, self.B, U, Z, self.Q, self.R)\n\n    def filter(\n")]
R["residual_var"] = [(S, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n",
                      "        residual = np.atleast_1d(zk - Hk @ xk)\n        xk_posterior = xk + Kk @ residual\n"),
                     (E, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n",
                      "        residual = np.atleast_1d(zk - self.h(xk))\n        xk_posterior = xk + Kk @ residual\n")]
R["order"] = [(E, "        # jacobian of f with respect to x evaluated at xk\n        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n        xk_prior = self.f(xk, uk)\n",
               "        xk_prior = self.f(xk, uk)\n        Ak = self.jacobian_A(xk, uk)\n")]
R["asarray"] = both(("        # get initial conditions\n        xk = self.xk\n        Pk = self.Pk\n",
                     "        # get initial conditions\n        xk = np.asarray(self.xk, dtype=float)\n        Pk = np.asarray(self.Pk, dtype=float)\n"))
R["smoother_helper"] = both((RTS, "            Kk = self._smoother_gain(Pk, Ak, Pk_ahead)\n"),
                            ("    def smooth(\n", "    @staticmethod\n    def _smoother_gain(Pk, Ak, Pk_ahead):\n"
                             "        return np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n\n    def smooth(\n"))
R["inline_predict"] = [(S, "            xk_ahead, Pk_ahead = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n",
                        "            xk_ahead = Ak @ xk\n            if not (is_nan_all(Bk) or is_nan_all(uk)):\n                xk_ahead = xk_ahead + Bk @ uk\n"
                        "            Pk_ahead = Ak @ Pk @ Ak.T + Qk\n")]
R["last_state"] = both(("        return states, errors\n", "        self._last = (xk, Pk)\n        return states, errors\n"))
R["step_method"] = [(S, "            # predict step, get prior estimates\n            xk_prior, Pk_prior = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n"
                     "            # update step, correct prior estimates\n            xk_posterior, Pk_posterior = update_func(\n                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )\n",
                     "            xk_posterior, Pk_posterior = self._step(\n                Ak, Hk, Bk, uk, zk, Qk, Rk, xk, Pk\n            )\n"),
                    (S, "        predict_func = self.predict\n        update_func = self.update\n", ""),
                    (S, "    def filter(\n", "    def _step(self, Ak, Hk, Bk, uk, zk, Qk, Rk, xk, Pk):\n"
                     "        xk, Pk = self.predict(Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk)\n"
                     "        return self.update(Hk=Hk, xk=xk, Pk=Pk, zk=zk, Rk=Rk)\n\n    def filter(\n")]
R["positional"] = [(S, "predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n\n            # update",
                    "predict_func(Ak, xk, Bk, uk, Pk, Qk)\n\n            # update"),
                   (S, "update_func(\n                Hk=Hk, xk=xk_prior, Pk=Pk_prior, zk=zk, Rk=Rk\n            )", "update_func(Hk, xk_prior, Pk_prior, zk, Rk)")]
R["log_module"] = both(("import numpy as np\n", "import logging\n\nimport numpy as np\n\nlogger = logging.getLogger(__name__)\n"),
                       ("        return states, errors\n", "        logger.debug(\"filtered %d observations\", len(Z))\n        return states, errors\n"))
R["transpose"] = both((PRED, "        Pk_prior = Ak @ Pk @ np.transpose(Ak) + Qk\n"), (SOLVE, "        Kk = np.linalg.solve(Sk, Hk @ Pk).T\n"))
R["symm_gain"] = both((SOLVE, "        PHt = Pk @ Hk.T\n        Kk = np.linalg.solve(Sk, PHt.T).T\n"))
R["rts_rearranged"] = both(("            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)\n",
                            "            dx = xk_smooth[k + 1] - xk_ahead\n            xk_smooth[k] = xk + Kk @ dx\n"))
R["carry"] = both((SLOOP, "        xs, Ps = x_est[-1], P_est[-1]\n" + SLOOP),
                  ("            xk_smooth[k] = x_est[k] + Kk @ (xk_smooth[k + 1] - xk_ahead)\n",
                   "            xs = x_est[k] + Kk @ (xs - xk_ahead)\n            xk_smooth[k] = xs\n"))
R["base_class"] = "base"
R["zip_strided"] = both((SLOOP, "        for k, _ in reversed(list(enumerate(Z[:-1]))):\n"))
R["assert"] = both(("        # get initial conditions\n", "        assert len(self.Q) >= len(Z) and len(self.R) >= len(Z)\n\n        # get initial conditions\n"))
R["ascontig"] = both((PRED, "        Pk_prior = np.ascontiguousarray(Ak @ (Pk @ Ak.T) + Qk)\n"))
R["add_func"] = both((PRED, "        Pk_prior = np.add(Ak @ (Pk @ Ak.T), Qk)\n"), (POST, "        Pk_posterior = Pk - Kk @ (Hk @ Pk)\n"))
R["nan_helper_inline"] = [(S, "is_nan_all(Bk) or is_nan_all(uk):", "np.all(np.isnan(Bk)) or np.all(np.isnan(uk)):")]
R["gains_local"] = both(("        self.kalman_gains.append(Kk)\n", "        gains = self.kalman_gains\n        gains.append(Kk)\n"))
R["state_size_int"] = [(S, "        if state_size:\n            self.state_size = state_size\n        else:\n            self.state_size = self.xk.shape[0]\n",
                        "        self.state_size = state_size or len(xk)\n")]
R["try_finally"] = both((SOLVE, "        try:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n        except np.linalg.LinAlgError:\n            raise\n"))
R["prev_arrays"] = both(("            xk = xk_posterior\n            Pk = Pk_posterior\n", "            xk = states[k] if xk_posterior.ndim == 1 else xk_posterior\n            Pk = errors[k]\n"))


def base_class(r):
    """filter and smooth share an allocation helper in a new module."""
    p = os.path.join(r, "src/kalmankit/_base.py")
    open(p, "w").write('''"""Shared parts of the filters."""
import numpy as np


class BaseFilter:
    """Storage and gain shared by both filters."""

    state_size: int

    def _allocate(self, n_obs):
        n = self.state_size
        return np.zeros((n_obs, n)), np.zeros((n_obs, n, n))

    @staticmethod
    def _rts(xk, Pk, Ak, xk_ahead, Pk_ahead, xs, Ps):
        Gk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T
        return xk + Gk @ (xs - xk_ahead), Pk + Gk @ ((Ps - Pk_ahead) @ Gk.T)
''')
    for f, cls in ((S, "KalmanFilter"), (E, "ExtendedKalmanFilter")):
        q = os.path.join(r, f)
        t = open(q).read()
        t = t.replace("from kalmankit.utils", "from kalmankit._base import BaseFilter\nfrom kalmankit.utils", 1)
        t = re.sub(r"class %s(\(object\))?:" % cls, f"class {cls}(BaseFilter):", t)
        assert "(BaseFilter)" in t, f
        t = t.replace("        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n",
                      "        states, errors = self._allocate(len(Z))\n")
        a = t.index(RTS)
        b = t.index("        return xk_smooth")
        t = t[:a] + ("            xk_smooth[k], Pk_smooth[k] = self._rts(\n                xk, Pk, Ak, xk_ahead, Pk_ahead, xk_smooth[k + 1], Pk_smooth[k + 1]\n"
                     "            )\n\n") + t[b:]
        open(q, "w").write(t)


def main():
    args = sys.argv[1:]
    props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    if "--props" in args:
        i = args.index("--props")
        props = args[i + 1].split(",")
        del args[i:i + 2]
    noisy = 0
    for name, ed in R.items():
        if args and not any(a == name for a in args):
            continue
        tmp = tempfile.mkdtemp(prefix="rf-")
        try:
            r = os.path.join(tmp, "repo")
            os.mkdir(r)         # the committed tree: a planted bug may be applied to the working tree
            subprocess.run(f"git -C /repo archive HEAD | tar -x -C {r}", shell=True, check=True)
            if ed == "base":
                base_class(r)
            else:
                for f, old, new in ed:
                    p = os.path.join(r, f)
                    t = open(p).read()
                    if t.count(old) != 1 and "Kk @ Kk.T" not in old:
                        print(f"  MISMATCH {name}: {f}: {t.count(old)} x {old!r}", flush=True)
                    open(p, "w").write(t.replace(old, new))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                       PYTHONPATH=os.path.join(r, "src"))
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=r,
                               capture_output=True, text=True, env=env)
            if t.returncode:
                print(name, "TESTS FAIL", t.stdout[-300:])
            line = []
            for p in props:
                t0 = time.time()
                q = subprocess.run(["python3-vt", os.path.join(V, "check.py"), p, "--repo", r, "--out", tmp],
                                   capture_output=True, text=True)
                dt = time.time() - t0
                ev = json.load(open(os.path.join(tmp, "evidence", p + ".json"))) if q.returncode in (0, 1) else {}
                lvl = ev.get("level", "?")
                if q.returncode:
                    noisy += 1
                    what = q.stderr[-300:]
                    try:
                        j = json.load(open(os.path.join(tmp, "replays", p + ".json")))
                        what = str(j.get("what") or (j["failed"][0]["name"], j["failed"][0]["detail"][:200], j["failed"][0]["pc"]))
                    except (OSError, KeyError, IndexError):
                        pass
                    print(f"  ALARM {name} {p} exit {q.returncode} {what[:400]}", flush=True)
                elif lvl != "proof" or dt > 60:
                    u = ev["coverage"].get("undecided") or ev["coverage"].get("notes")
                    line.append(f"{p}:{lvl}:{dt:.0f}s {str(u)[:150]}")
            print(f"{name:18s} " + ("all proved" if not line else ""), flush=True)
            for x in line:
                print("     ", x, flush=True)
        finally:
            shutil.rmtree(tmp)
    print("alarms:", noisy)


if __name__ == "__main__":
    main()
