"""Which obligations decide which property, and the order of proof attempts.

Every property is a set of goals (function under contract, configuration of
shapes and types, kinds of obligations).  A goal is proved modularly: the
function against its callees' contracts, and each callee against its own
contract for the arguments it was used with.  Where a contract cannot be used
(a changed interface, for example) the callee's body is executed instead.
Where neither is possible, a bounded stand-in unrolls the function.
"""
import itertools
import multiprocessing as mp
import os
import re
import signal
import time

from . import spec
from . import terms as tm

ALLK = None
VALUE = {"mean", "cov", "shape", "noraise", "dtype", "iface"}
AUX = list(itertools.product(("val", "None", "NaN"), repeat=2))
METHODS = ("predict", "update", "filter", "smooth")

# ------------------------------------------------------------------ running units
_CFG = {}


def configs(kind):
    if kind not in _CFG:
        _CFG[kind] = spec.kf_configs() if kind == "kf" else spec.ekf_configs()
    return _CFG[kind]


def make_cfg(kind, key):
    name, over, ints, T = key
    c = configs(kind)[name]
    if over:
        c = c.variant(**dict(over))
    if ints is not None:
        c = c.with_ints(ints) if frozenset(ints) != c.ints else c
    if T is not None:
        c = c.with_T(T)
    return c


def ckey(name, over=(), ints=None, T=None):
    return (name, tuple(sorted(over)), tuple(sorted(ints)) if ints is not None else None, T)


class Deadline(BaseException):
    pass


def job(task):
    """Runs one unit in a worker process."""
    repo, key, seconds = task
    kind, func, cfg, mode, aux = key
    from .core import Limits
    from .engine import Source
    from .units import Unit

    def stop(*_):
        raise Limits(f"no answer within {seconds} s")
    t0 = time.time()
    out = dict(key=key, status="unsupported", reason="", nvc=0, kinds={}, failed=[], used=[], paths=0, done=0,
               time=0.0, z3=(0, 0.0), ring=(0, 0.0), function=f"{FILES.get((kind, func), kind + '.' + func)}",
               unit=f"{kind}.{func}[{cfg[0]}]", inv=[], notes=[])
    tm.CERTS = {}
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        u = Unit(Source(os.path.join(repo, "src", "kalmankit")), kind, func, make_cfg(kind, cfg), mode=mode, aux=aux)
        out["unit"] = u.name
        r = u.verify()
        signal.setitimer(signal.ITIMER_REAL, 0)
        kinds = {}
        for v in r.vcs:
            kinds[v["kind"]] = kinds.get(v["kind"], 0) + 1
        out.update(status=r.status, reason=r.reason, nvc=len(r.vcs), kinds=kinds, used=r.used, paths=r.paths,
                   done=r.done, time=r.time, z3=r.z3, ring=r.ring,
                   inv=[v["name"] + ": " + str(v["detail"])[:200] for v in getattr(r, "inv_failed", [])][:4],
                   notes=sorted({str(x)[:200] for x in r.notes})[:5],
                   failed=[dict(name=v["name"], kind=v["kind"], detail=str(v["detail"])[:600], pc=list(v["pc"])[:40],
                                model=v["model"], cert=v["cert"]) for v in r.failed])
        missing = [k for k in REQUIRED[func] if not kinds.get(k)]
        if r.status == "ok" and missing and not out["failed"]:
            out.update(status="unsupported", reason="vacuous: no obligation of kind " + ", ".join(missing))
    except Limits as e:
        out.update(status="unsupported", reason=str(e))
    except BaseException as e:      # of the verifier
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out.update(status="unsupported", reason=f"verifier error {type(e).__name__}: {str(e)[:200]} at "
                                                f"{os.path.basename(tb.filename)}:{tb.lineno}")
        if isinstance(e, KeyboardInterrupt):
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    out["time"] = time.time() - t0
    out["certs"] = [c[2] for c in tm.CERTS.values()]
    tm.CERTS = None
    return out


REQUIRED = {"init": ("init", "frame", "noraise"), "predict": ("mean", "cov", "shape", "noraise", "log", "frame", "state"),
            "update": ("mean", "cov", "shape", "noraise", "log", "frame", "state", "dtype"),
            "filter": ("mean", "cov", "shape", "noraise", "log", "frame", "state", "dtype", "fresh"),
            "smooth": ("mean", "cov", "shape", "noraise", "log", "frame", "state", "dtype", "fresh"),
            "placeholder": ("helper", "noraise"), "allnan": ("helper", "noraise")}
FILES = {("kf", f): f"src/kalmankit/standard.py:KalmanFilter.{g}" for f, g in
         [("init", "__init__")] + [(m, m) for m in METHODS]}
FILES.update({("ekf", f): f"src/kalmankit/extended.py:ExtendedKalmanFilter.{g}" for f, g in
              [("init", "__init__")] + [(m, m) for m in METHODS]})
FILES.update({("utils", "placeholder"): "src/kalmankit/utils.py:check_none_and_broadcast",
              ("utils", "allnan"): "src/kalmankit/utils.py:is_nan_all"})


class Found(Exception):
    """An execution already shows the violation."""


class Runner:
    """Runs units in worker processes, each at most once."""

    def __init__(self, rep, seconds, budget, workers=8):
        self.rep, self.seconds = rep, seconds
        self.until = time.time() + budget
        self.done = {}
        self.workers = workers
        self.pool = mp.get_context("fork").Pool(workers)

    def skip(self, k, why):
        kind, func, cfg, mode, aux = k
        self.done[k] = dict(key=k, status="unsupported", reason=why, nvc=0, kinds={}, failed=[], used=[], paths=0,
                            done=0, time=0.0, z3=(0, 0.0), ring=(0, 0.0), inv=[], notes=[],
                            function=FILES.get((kind, func), kind + "." + func), unit=f"{kind}.{func}[{cfg[0]}]")

    def run(self, keys):
        todo = [k for k in dict.fromkeys(keys) if k not in self.done]
        if todo and time.time() < self.until:
            # the slow ones first
            todo.sort(key=lambda k: (k[3] != "inline", k[1] != "smooth", k[1] != "filter"))
            tasks = [(self.rep.repo, k, min(self.seconds, max(5, self.until - time.time()))) for k in todo]
            it = self.pool.imap_unordered(job, tasks)
            left = len(tasks)
            while left:
                try:
                    r = it.next(1.0)
                except mp.TimeoutError:
                    if self.rep.peek() and time.time() > self.rep.t0 + 30:
                        raise Found
                    if time.time() > self.until + 10:
                        self.pool.terminate()
                        self.pool = mp.get_context("fork").Pool(self.workers)
                        break
                    continue
                left -= 1
                self.done[r["key"]] = r
                if self.rep.peek() and time.time() > self.rep.t0 + 30:
                    raise Found
                if r["status"] != "ok" or r["failed"]:
                    self.rep.log("unit", r["unit"], r["key"][3], r["status"], r["reason"], len(r["failed"]),
                                 round(r["time"], 1),
                                 [(v["name"], v["kind"], v["cert"], v["detail"][:160], [x for x in v["pc"]][:6])
                                  for v in r["failed"][:2]])
        for k in todo:
            if k not in self.done:
                self.skip(k, "not attempted within the time budget")
        return [self.done[k] for k in keys]

    def close(self):
        self.pool.terminate()
        self.pool.join()


def callee_key(kind, cfg, u):
    """The unit that proves one used contract."""
    func, over, ints, aux = u
    name, ov, i0, T = cfg
    base = configs(kind)[name]
    o = dict(ov)
    o.update(dict(over))
    if func == "filter":
        return (kind, "filter", ckey(name, o.items(), ints if frozenset(ints) != base.ints else None, T), "modular", None)
    o["linear"] = False
    if base.linear is False:
        o.pop("linear")
    # one-step contracts do not depend on the horizon or on what runs were given
    if kind == "kf" and "control" not in o and base.control != "both":
        o["control"] = "both"
    o = {k: v for k, v in o.items() if getattr(base, k) != v}
    aux = tuple(aux) if aux else None
    if aux == ("val", "val"):
        aux = None
    if kind == "ekf" and aux:
        aux = ("val", aux[1]) if aux[1] != "val" else None
    return (kind, func, ckey(name, o.items(), ints if frozenset(ints) != base.ints else None), "modular", aux)


class Prover:
    def __init__(self, rep, runner):
        self.rep, self.runner = rep, runner
        self.verdicts = {}

    def closure(self, keys):
        """Runs the modular proofs of `keys` and of every contract they use."""
        level = list(keys)
        seen = set()
        while level:
            level = [k for k in dict.fromkeys(level) if k not in seen]
            seen.update(level)
            nxt = []
            for r in self.runner.run(level):
                if r["status"] == "ok":
                    nxt += [callee_key(r["key"][0], r["key"][2], u) for u in r["used"]]
            level = nxt
        return seen

    def contracts_ok(self, key, stack=()):
        """Every contract used by the modular proof of key is proved."""
        r = self.runner.done[key]
        for u in r["used"]:
            k = callee_key(key[0], key[2], u)
            q = self.runner.done[k]
            if q["status"] != "ok" or any(v["kind"] != "exc" for v in q["failed"]):
                return False, q
            ok, w = self.contracts_ok(k)
            if not ok:
                return ok, w
        return True, None

    def prove(self, goals):
        """goals: [(key, kinds)].  Returns {key: verdict}."""
        keys = [g[0] for g in goals]
        self.closure(keys)
        inline = []
        for key, kinds in goals:
            r = self.runner.done[key]
            ok, why = self.contracts_ok(key) if r["status"] == "ok" else (False, r)
            bad = [v for v in r["failed"] if kinds is None or v["kind"] in kinds]
            if not (ok and not bad):
                inline.append((key[0], key[1], key[2], "inline", key[4]))
        if self.rep.peek():
            raise Found
        self.runner.run(inline)
        out = {}
        bounded = []
        for key, kinds in goals:
            r = self.runner.done[key]
            ik = (key[0], key[1], key[2], "inline", key[4])
            q = self.runner.done.get(ik)
            used = [r]
            if q is None:
                used += [self.runner.done[k] for k in self.used_closure(key)]
                st, bad = "ok", []
            elif q["status"] == "ok":
                used = [q]
                bad = [v for v in q["failed"] if kinds is None or v["kind"] in kinds]
                bad = [v for v in bad if v["kind"] != "contract"]
                st = "failed" if bad else "ok"
            else:
                st, bad = "undecided", []
                bounded.append((key, kinds))
            out[key] = dict(status=st, failed=bad, results=used, reason=q["reason"] if q and st == "undecided" else "",
                            unit=r["unit"], kinds=kinds, inv=(q or r)["inv"])
        # bounded stand-ins
        bkeys = []
        for key, kinds in bounded:
            n, o, i, T = key[2]
            if key[1] in ("filter", "smooth") and T is None:
                for t in (1, 2, 3):
                    bkeys.append((key[0], key[1], (n, o, i, t), "inline", key[4]))
        self.runner.run(bkeys)
        for key, kinds in bounded:
            n, o, i, T = key[2]
            bs = []
            for t in (1, 2, 3):
                b = self.runner.done.get((key[0], key[1], (n, o, i, t), "inline", key[4]))
                if b is None:
                    continue
                if b["status"] == "ok":
                    bad = [v for v in b["failed"] if (kinds is None or v["kind"] in kinds) and v["kind"] != "contract"]
                    bs.append((t, bad))
                    if bad:
                        out[key]["failed"] = out[key]["failed"] + bad
                        out[key]["status"] = "failed"
                        out[key]["results"] = [b]
            out[key]["bounded"] = [t for t, bad in bs if not bad]
        return out

    def used_closure(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop()
            r = self.runner.done[k]
            for u in r["used"]:
                c = callee_key(k[0], k[2], u)
                if c not in out:
                    out.append(c)
                    todo.append(c)
        return out


# ------------------------------------------------------------------ properties
def names(kind, pred):
    return [n for n, c in configs(kind).items() if pred(c)]


def floating(c):
    return not c.ints


def nonlinear(c):
    return not c.linear


def unit(kind, func, name, aux=None, ints=None, over=()):
    return (kind, func, ckey(name, over, ints), "modular", aux)


def aux_of(kind, c):
    if kind == "kf":
        return AUX
    return [("val", s) for s in ("val", "None", "NaN")]


def norm_aux(a):
    return None if a == ("val", "val") else a


def one_step(kind, func, kinds, pred=lambda c: True):
    seen, out = set(), []
    for n, c in configs(kind).items():
        if c.linear or not pred(c):
            continue
        # the horizon and the omitted control do not occur in one step
        k = (str(c.n), str(c.m), c.zshape, c.rshape, c.qshape, c.xshape, c.hret, c.ints)
        if k in seen:
            continue
        seen.add(k)
        over = (("control", "both"),) if kind == "kf" and c.control != "both" else ()
        for a in (aux_of(kind, c) if func == "predict" else [None]):
            out.append((unit(kind, func, n, norm_aux(a) if a else None, over=over), kinds))
    return out


def runs(kind, func, kinds, pred=lambda c: True):
    return [(unit(kind, func, n), kinds) for n, c in configs(kind).items() if not c.linear and pred(c)]


KF_DT = {"predict": "A x P B u Q".split(), "update": "H x P z R".split(),
         "filter": "A x P B u Q H z R".split(), "smooth": "A x P B u Q H z R".split()}
EKF_DT = {"predict": "x P u Q f JA".split(), "update": "x P z R h JH".split(),
          "filter": "x P u Q z R f h JA JH".split(), "smooth": "x P u Q z R f h JA JH".split()}


def mixes(kind, func, kinds, sizes, cfgs=("general",)):
    out = []
    for n in cfgs:
        ar = (KF_DT if kind == "kf" else EKF_DT)[func]
        for k in range(1, len(ar) + 1):
            if sizes is not None and k not in sizes and len(ar) - k not in sizes:
                continue
            for cs in itertools.combinations(ar, k):
                out.append((unit(kind, func, n, ints=cs), kinds))
    return out


def goals(prop, thorough):
    V = VALUE
    both = ("kf", "ekf")
    if prop == "C01":
        return one_step("kf", "predict", V | {"log"})
    if prop == "C02":
        g = [(unit("kf", "predict", n, a), V) for n in ("general", "integer", "scalar state")
             for a in AUX if a != ("val", "val")]
        g += [(unit("kf", "init", n), {"init", "noraise", "iface"}) for n, c in configs("kf").items() if not c.control == "both"]
        g += [(unit("kf", f, n), V) for f in ("filter", "smooth")
              for n, c in configs("kf").items() if c.control != "both"]
        return g + [(unit("utils", "placeholder", "general"), {"helper", "noraise", "iface"}),
                    (unit("utils", "allnan", "general"), {"helper", "noraise", "iface"}),
                    (unit("kf", "predict", "general"), V)]
    if prop == "C03":
        return one_step("kf", "update", V | {"log"})
    if prop == "C04":
        return runs("kf", "filter", V)
    if prop == "C05":
        return runs("kf", "smooth", V)
    if prop == "C06":
        return one_step("ekf", "predict", V | {"log"})
    if prop == "C07":
        return one_step("ekf", "update", V | {"log"})
    if prop == "C08":
        return runs("ekf", "filter", V)
    if prop == "C09":
        return runs("ekf", "smooth", V)
    if prop == "C10":
        lin = [n for n, c in configs("ekf").items() if c.linear]
        g = [(unit("ekf", f, n), V) for f in ("filter", "smooth") for n in lin]
        return g + [(unit("kf", f, n), V) for f in ("filter", "smooth")
                    for n in ("general", "general,no control", "scalar obs", "scalar state,no control")]
    if prop == "C11":
        K = {"frame", "fresh"}
        g = []
        for k in both:
            for f in METHODS:
                g += one_step(k, f, K) if f in ("predict", "update") else runs(k, f, K)
            g += [(unit(k, "init", n), {"frame"}) for n, c in configs(k).items() if not c.linear]
        return g
    if prop == "C12":
        K = {"log", "noraise"}
        g = []
        for k in both:
            for f in METHODS:
                g += one_step(k, f, K) if f in ("predict", "update") else runs(k, f, K)
            g += [(unit(k, "init", n), {"init"}) for n, c in configs(k).items() if not c.linear]
        return g
    if prop in ("C13", "C16"):
        g = []
        for k in both:
            g += runs(k, "filter", V, floating)
            if prop == "C13" or prop == "C16":
                g += one_step(k, "predict", V, floating) + one_step(k, "update", V, floating)
        return g
    if prop == "C14":
        return [x for k in both for x in runs(k, "smooth", V, floating)]
    if prop == "C15":
        return one_step("kf", "update", V)
    if prop == "C17":
        return runs("kf", "filter", V | {"log"}) + runs("kf", "smooth", V | {"log"})
    if prop == "C18":
        sc = lambda c: floating(c) and (c.zshape == "" or c.rshape == "" or c.qshape == "" or c.xshape == "nn" or
                                        str(c.m) == "1")
        return [x for k in both for f in ("filter", "smooth") for x in runs(k, f, V, sc)]
    if prop == "C19":
        i = lambda c: bool(c.ints)
        g = [x for k in both for f in ("filter", "smooth") for x in runs(k, f, V, i)]
        for k in both:
            for f in ("predict", "update"):
                g += mixes(k, f, V | {"contract"}, None if thorough else (1, 0))
            for f in ("filter", "smooth"):
                g += mixes(k, f, V, (1, 2, 0) if thorough else (1, 0) if f == "filter" else (0,))
        return g
    if prop == "C20":
        return [(unit("utils", f, "general"), {"helper", "noraise", "iface"}) for f in ("placeholder", "allnan")]
    if prop == "C21":
        return [(unit(k, "init", n), {"init", "noraise", "frame", "iface"})
                for k in both for n, c in configs(k).items() if not c.linear]
    raise SystemExit(f"no goals for {prop}")


def baseline(prop):
    """Goals that must hold for a failure of `prop` to be attributed to it."""
    if prop in ("C02", "C19", "C18"):
        return [(unit(k, f, "general"), VALUE) for k in (("kf",) if prop == "C02" else ("kf", "ekf"))
                for f in (("predict", "filter", "smooth"))]
    return []


# the symmetric families of the specification and the derived statements
THEORY = {"C04", "C05", "C08", "C09", "C10", "C13", "C14", "C15", "C16", "C17", "C18", "C19"}
DERIVED = {"C10", "C13", "C14", "C15", "C16", "C17"}
# history: the object after any calls equals the constructed one (gain log apart)
STATEFUL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16",
            "C17", "C18", "C19"}
KIND_OF = {"C01": "kf", "C02": "kf", "C03": "kf", "C04": "kf", "C05": "kf", "C15": "kf", "C17": "kf",
           "C06": "ekf", "C07": "ekf", "C08": "ekf", "C09": "ekf"}


def history_goals(prop):
    ks = [KIND_OF[prop]] if prop in KIND_OF else ["kf", "ekf"]
    K = {"state", "exc"} if prop == "C11" else {"state"}
    return [(unit(k, f, "general"), K) for k in ks for f in ("init",) + METHODS]


_LABEL = re.compile(r"#\d+$|^iteration |^entry ")


def special(pc):
    """The failing path needs an unusual input (size, value, length)."""
    for t in pc:
        if _LABEL.search(t):
            continue
        body = t
        if re.search(r"\b[nml]\b", body) or re.search(r"\b(opaque|data|cmp)", body):
            return True
        nums = [int(x) for x in re.findall(r"(?<![!\w])-?\d+\b", re.sub(r"![\d]+", "", body))]
        if any(abs(x) > 2 for x in nums):
            return True
    return False


def alarm_worthy(v, conc):
    """An undischarged obligation without a failing execution is reported only
    if it is refuted (not merely unproved) and executions do not contradict it."""
    enough = conc["evaluations"] >= 150
    if v["cert"] == "undecided":
        return False
    if special(v["pc"]):
        return True
    if v["kind"] in ("mean", "cov") or v["cert"] in ("exact", "refuted"):
        return v["cert"] == "exact" or not enough
    return not enough


def decide(rep):
    prop = rep.prop
    thorough = rep.tier == "thorough"
    if prop == "C22":
        from . import versions
        return versions.decide(rep)
    if prop in ("C23", "C24", "C25", "C26"):
        from . import gitver
        return gitver.decide(rep)
    runner = Runner(rep, 900 if thorough else 100, 2400 if thorough else 240)
    try:
        return _decide(rep, runner, prop, thorough)
    except Found:
        rep.units.update(runner.done)
        rep.level = "exploration"
        rep.note("an execution shows the violation; the remaining obligations were not attempted")
        rep.failed = [dict(v, unit=r["unit"]) for r in runner.done.values() for v in r["failed"]]
        rep.failed += [dict(name=f"{r['unit']}: {x}", kind="inv", detail="loop invariant not inductive", pc=[], model=None,
                            cert=None, unit=r["unit"]) for r in runner.done.values() for x in r["inv"]]
        rep.failed += [dict(name=f"{r['unit']}: undecided", kind="undecided", detail=r["reason"], pc=[], model=None,
                            cert=None, unit=r["unit"]) for r in runner.done.values() if r["status"] == "unsupported"]
        w = rep.collect()
        return rep.violated(dict(scenario=w.get("scenario"), what=w.get("what"), arrays=w.get("arrays"),
                                 failed_obligations=[{k: v[k] for k in ("name", "kind", "detail", "pc", "model")}
                                                     for v in rep.failed[:10]]))
    finally:
        runner.close()


def _decide(rep, runner, prop, thorough):
    for i in range(6 if thorough else 1):
        rep.search(rep.seed + 1000 * i, 240 if thorough else 12)
    rep.conformance(120 if thorough else 6)
    from . import theory
    th = theory.start(rep) if prop in THEORY else None
    pr = Prover(rep, runner)
    gs = goals(prop, thorough)
    hist = history_goals(prop) if prop in STATEFUL else []
    res = pr.prove(gs)
    rep.log(f"{len(gs)} goals proved or not")
    hres = {}
    for key, _ in hist:
        pass
    if hist:
        keys = [k for k, _ in hist]
        pr.closure(keys)
        for key, kinds in hist:
            r = runner.done[key]
            ok, why = pr.contracts_ok(key) if r["status"] == "ok" else (False, r)
            bad = [v for v in r["failed"] if v["kind"] in kinds]
            hres[key] = (r["status"] == "ok" and not bad, r)
            rep.units.setdefault(key, r)
        lost = [r["unit"] for ok, r in hres.values() if not ok]
        if lost:
            rep.level = "exploration"
            rep.note("state other than the gain log may change (or be left changed by an exception) in " + ", ".join(lost) +
                     "; repeated calls are covered by executions only")
    failed, undecided = [], []
    for key, v in res.items():
        for r in v["results"]:
            rep.units[r["key"]] = r
        if v["status"] == "failed":
            failed += [dict(f, unit=v["unit"]) for f in v["failed"]]
        elif v["status"] == "undecided":
            undecided.append((key, v))
            rep.undecided.append(f"{v['unit']}: {v['reason']}" + ("; loop invariants not inductive: " + "; ".join(v["inv"])
                                                                 if v["inv"] else ""))
            if v.get("bounded"):
                rep.bounded.append(f"{v['unit']}: proved for T in {v['bounded']} only (unrolled)")
    certs = list(dict.fromkeys(c for r in rep.units.values() for c in r.get("certs", ()) if c))
    tc = theory.start_certs(rep, certs[:400 if thorough else 48]) if certs and not failed else None
    if th is not None:
        rep.theory = theory.finish(rep, th)
        if not rep.theory["ok"]:
            rep.note("the theory was not accepted: " + rep.theory.get("why", ""))
            rep.level = "exploration"
    if tc is not None:
        rep.certs = dict(theory.finish_certs(rep, tc, 600 if thorough else 90), distinct=len(certs),
                         equalities=sum(len(r.get("certs", ())) for r in rep.units.values()))
        rep.log("certificates", rep.certs)
    if failed or undecided:
        rep.level = "exploration"
    n, ok = rep.obligations()
    if n == 0:
        rep.note("no obligations were generated")
        rep.level = "exploration"
    # attribution
    if failed and baseline(prop):
        b = pr.prove(baseline(prop))
        broken = [v["unit"] for v in b.values() if v["status"] != "ok"]
        if broken:
            rep.note("the same obligations fail without the special case, not attributed: " + ", ".join(broken))
            failed_attr = []
        else:
            failed_attr = failed
    else:
        failed_attr = failed
    rep.failed = failed
    w = rep.collect()
    if w is None and (failed or undecided or rep.level != "proof"):
        models = []
        for v in failed:
            if v["model"]:
                try:
                    m = {k: int(x) for k, x in v["model"].items() if k in ("n", "m", "l", "T")}
                except ValueError:
                    continue
                if m and m not in models:
                    models.append(m)
        rep.log("searching for a failing input", models[:4])
        for i in range(7):
            rep.search(rep.seed + 17 + 1000 * i, (300 if thorough else 60), models[:20], shard=(i, 7))
        w = rep.collect()
    if w is not None:
        return rep.violated(dict(scenario=w.get("scenario"), what=w.get("what"), arrays=w.get("arrays"),
                                 failed_obligations=[{k: v[k] for k in ("name", "kind", "detail", "pc", "model")}
                                                     for v in failed[:10]]))
    worthy = [v for v in failed_attr if alarm_worthy(v, rep.conc)]
    if worthy and prop not in DERIVED:
        return rep.violated(dict(failed=[{k: v[k] for k in ("name", "kind", "detail", "pc", "model", "cert", "unit")}
                                         for v in worthy[:20]]), " no-failing-input-found")
    for v in failed:
        rep.undecided.append(f"{v['name']}: not discharged ({v['detail'][:200]})")
    return rep.held()
