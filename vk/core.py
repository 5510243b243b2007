"""Symbolic integers, booleans and path contexts (z3 back end).

A path context holds the path condition of one execution of the code under
verification.  Branching on a symbolic condition asks z3 which sides are
feasible and, where both are, forks by re-execution with a recorded list of
decisions.
"""
import time
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The code left the subset of Python/NumPy the verifier reasons about."""


class PathEnd(BaseException):
    """This path is finished (loop invariant re-established, or infeasible)."""


class DiscoveryDone(BaseException):
    """A discovery run has seen enough loop heads."""


class Limits(BaseException):
    """Too many paths."""


# --------------------------------------------------------------------------
class SInt:
    """Linear integer expression  c + sum coeff*var  over named variables."""

    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # sorted tuple of (name, coeff)

    # construction
    @staticmethod
    def var(name):
        return SInt(0, ((name, 1),))

    @staticmethod
    def of(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, bool):
            return SInt(int(x))
        if isinstance(x, int):
            return SInt(x)
        ix = getattr(x, "_as_sint", None)
        if ix is not None:
            return ix()
        raise Unsupported(f"not an integer: {type(x).__name__}")

    @property
    def key(self):
        return (self.c, self.t)

    def is_const(self):
        return not self.t

    def simp(self):
        return self.c if not self.t else self

    # arithmetic
    def _lin(self, o, k):
        d = dict(self.t)
        for n, v in o.t:
            d[n] = d.get(n, 0) + k * v
        return mk(self.c + k * o.c, d)

    def __add__(self, o):
        o = _toint(o)
        return NotImplemented if o is None else self._lin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = _toint(o)
        return NotImplemented if o is None else self._lin(o, -1)

    def __rsub__(self, o):
        o = _toint(o)
        return NotImplemented if o is None else o._lin(self, -1)

    def __neg__(self):
        return mk(-self.c, {n: -v for n, v in self.t})

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        o = _toint(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            return mk(self.c * o.c, {n: v * o.c for n, v in self.t})
        if self.is_const():
            return mk(o.c * self.c, {n: v * self.c for n, v in o.t})
        a, b = sorted([self, o], key=lambda s: repr(s.key))
        return SInt.var(f"mul<{a!r},{b!r}>")

    __rmul__ = __mul__

    def _divmod(self, o):
        o = SInt.of(o)
        if not o.is_const() or o.c <= 0:
            raise Unsupported("division of symbolic integers")
        if all(v % o.c == 0 for _, v in self.t):
            q = mk(self.c // o.c, {n: v // o.c for n, v in self.t})
            return q, self.c % o.c
        q, r = SInt.var(f"div<{self!r},{o.c}>"), SInt.var(f"mod<{self!r},{o.c}>")
        c = CTX.get()
        c.assume((q * o.c + r).z == self.z)
        c.assume(z3.And(r.z >= 0, r.z < o.c))
        return q, r

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic integer")

    __rtruediv__ = __truediv__
    __pow__ = __truediv__

    def __abs__(self):
        return self if self >= 0 else -self

    # comparisons
    def _cmp(self, o, f):
        o = _toint(o)
        if o is None:
            return NotImplemented
        d = self._lin(o, -1)
        if d.is_const():
            return f(d.c, 0)
        if CTX.v is not None:
            CTX.v.cmp_log.append(d)
        return SBool(f(self.z, o.z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        v = CTX.get().const_value(self)
        if v is None:
            raise Unsupported("symbolic integer used as a native index")
        return v

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    @property
    def z(self):
        if self.is_const():
            return z3.IntVal(self.c)
        e = None
        for n, v in self.t:
            x = z3.Int(n) if v == 1 else v * z3.Int(n)
            e = x if e is None else e + x
        return e + self.c if self.c else e

    def __repr__(self):
        s = "+".join(n if v == 1 else f"{v}*{n}" for n, v in self.t)
        if self.c or not s:
            s += f"{self.c:+d}" if s else str(self.c)
        return s.replace("+-", "-")

    def __format__(self, spec):
        return repr(self)


def mk(c, d):
    return SInt(c, tuple(sorted((n, v) for n, v in d.items() if v)))


def _toint(o):
    if isinstance(o, SInt):
        return o
    if isinstance(o, int):
        return SInt(int(o))
    ix = getattr(o, "_as_sint", None)
    if ix is not None and getattr(o, "_is_int_scalar", lambda: False)():
        return ix()
    return None


def simp(x):
    return x.simp() if isinstance(x, SInt) else x


# --------------------------------------------------------------------------
class SBool:
    """A symbolic boolean (z3)."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.get().branch(self.z)

    def _b(self, o, f):
        if isinstance(o, SBool):
            return SBool(f(self.z, o.z))
        if isinstance(o, bool):
            return SBool(f(self.z, z3.BoolVal(o)))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __eq__(self, o):
        return self._b(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._b(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return f"SBool({self.z})"


def zb(x):
    """z3 formula of a boolean value."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported(f"not a boolean: {type(x).__name__}")


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.z3_queries = 0
        self.z3_time = 0.0
        self.ring_queries = 0
        self.ring_time = 0.0


STATS = Stats()


class _Cur:
    def __init__(self):
        self.v = None

    def get(self):
        if self.v is None:
            raise Unsupported("no path context")
        return self.v


CTX = _Cur()


class Ctx:
    """One execution path."""

    def __init__(self, prefix=(), mode="verify"):
        self.prefix = list(prefix)
        self.taken = []  # decisions made so far
        self.pending = []  # alternative prefixes
        self.pc = []
        self.mode = mode
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.vcs = []  # VC records of this path
        self.cache = {}
        self.is1c = {}
        self.eqc = {}
        self.canonc = {}
        self.fresh_n = 0
        self.loops = {}
        self.notes = []
        self.trail = []
        self.loop_count = {}
        self.discover = None
        self.roots = {}
        self.canon_ints = []
        self.nbranch = 0
        self.cmp_log = []

    # -- solver
    def assume(self, f):
        if isinstance(f, SBool):
            f = f.z
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)
        self.solver.add(f)
        self.cache = {}
        self.is1c = {}
        self.eqc = {}
        self.canonc = {}

    def _check(self, f):
        key = f.sexpr() if hasattr(f, "sexpr") else str(f)
        r = self.cache.get(key)
        if r is None:
            t = time.time()
            self.solver.push()
            self.solver.add(f)
            r = self.solver.check()
            self.solver.pop()
            STATS.z3_queries += 1
            STATS.z3_time += time.time() - t
            self.cache[key] = r
        return r

    def feasible(self, f):
        if isinstance(f, bool):
            return f
        return self._check(f) != z3.unsat

    def prove(self, f):
        if isinstance(f, SBool):
            f = f.z
        if isinstance(f, bool):
            return f
        return self._check(z3.Not(f)) == z3.unsat

    def branch(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.nbranch += 1
        if self.prove(f):
            return True
        if self.prove(z3.Not(f)):
            return False
        v = self._decide(2) == 0
        self.assume(f if v else z3.Not(f))
        self.trail.append(str(f) if v else f"not({f})")
        return v

    def _decide(self, n):
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for a in range(1, n):
                self.pending.append(self.taken + [a])
        self.taken.append(d)
        return d

    def choose(self, n, label=""):
        d = self._decide(n)
        self.trail.append(f"{label}#{d}")
        return d

    # -- integers
    def const_value(self, s):
        """Value of s if the path condition fixes it."""
        s = SInt.of(s)
        if s.is_const():
            return s.c
        key = ("cv", s.key)
        if key in self.cache:
            return self.cache[key]
        v = None
        if self.solver.check() == z3.sat:
            m = self.solver.model()
            x = m.eval(s.z, model_completion=True)
            if z3.is_int_value(x):
                x = x.as_long()
                if self.prove(s.z == x):
                    v = x
        self.cache[key] = v
        return v

    def eq(self, a, b):
        """Provably equal integers?"""
        d = SInt.of(a) - SInt.of(b)
        if d.is_const():
            return d.c == 0
        r = self.eqc.get(d.key)
        if r is None:
            r = self.eqc[d.key] = self.prove(d.z == 0)
        return r

    def is1(self, d):
        if isinstance(d, int):
            return d == 1
        if d.is_const():
            return d.c == 1
        r = self.is1c.get(d.t if d.c == 0 else d.key)
        if r is None:
            r = self.prove(d.z == 1)
            self.is1c[d.t if d.c == 0 else d.key] = r
        return r

    def canon(self, s):
        """Representative of s among provably equal integer expressions."""
        s = SInt.of(s)
        if s.is_const():
            return s
        r = self.canonc.get(s.key)
        if r is None:
            r = self.canonc[s.key] = self._canon(s)
        return r

    def _canon(self, s):
        v = self.const_value(s)
        if v is not None:
            return SInt(v)
        for r in self.canon_ints:
            if r.key == s.key:
                return r
        for r in self.canon_ints:
            if self.eq(r, s):
                return r
        self.canon_ints.append(s)
        return s

    def fresh(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    def vc(self, name, ok, kind, detail="", back="z3", cert=None):
        self.vcs.append(
            dict(name=name, ok=bool(ok), kind=kind, detail=detail, back=back,
                 pc=list(self.trail), cert=cert,
                 model=None if ok else self.int_model())
        )
        return ok

    def int_model(self):
        try:
            for lim in (3, 6, 12, 40, None):
                self.solver.push()
                if lim is not None:
                    for v in ("n", "m", "l", "T", "Tx"):
                        self.solver.add(z3.Int(v) <= lim)
                r = self.solver.check()
                m = self.solver.model() if r == z3.sat else None
                self.solver.pop()
                if m is not None:
                    break
            if m is None:
                return None
            return {str(d): str(m[d]) for d in m.decls()}
        except z3.Z3Exception:
            return None
