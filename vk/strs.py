"""Symbolic execution of string-building code on every path.

The functions of a module are compiled from its current source with four kinds
of rewriting (the % operator, f-strings, method calls and subscripts go through
this module, so that a literal on the left of a symbolic operand does not reach
the C implementation) and with `str`, `int`, `len`, `isinstance`, `bool`
replaced by versions that know symbolic values.  They then run on symbolic
strings and integers; every undecided truth value forks the path, and the runs
are repeated until all feasible paths were taken.
"""
import ast
import builtins
import os
import re as _re
import time

import z3


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    pass


class Ambiguous(BaseException):
    """A truth value is open where the path must not fork."""


MAXPATHS = 4000


class Ctx:
    def __init__(self, script, base=()):
        self.script, self.pos, self.pc, self.log = list(script), 0, list(base), []
        self.fresh = 0
        self.nofork = False
        self.stats = None


CUR = [None]
STATS = dict(queries=0, seconds=0.0)


def _check(cs, ms=4000):
    if LIMIT[0] is not None and time.time() > LIMIT[0]:
        raise Unsupported("out of time")
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*cs)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t0
    return r, s


def prove(c, ms=4000):
    """Is c implied by the path condition?"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return _check(CUR[0].pc + [z3.Not(c)], ms)[0] == z3.unsat


def decide(c):
    """The truth value of c on this path."""
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    x = CUR[0]
    key = c.sexpr()
    for k, v in x.log:
        if k == key:
            return v
    if x.pos < len(x.script) and not x.nofork:
        v = x.script[x.pos]
    else:
        t = _check(x.pc + [c])[0] != z3.unsat
        f = _check(x.pc + [z3.Not(c)])[0] != z3.unsat
        if not t and not f:
            raise Infeasible
        if t and f:
            if x.nofork:
                raise Ambiguous
            x.script.append(True)
            v = True
        else:
            x.pc.append(c if t else z3.Not(c))
            x.log.append((key, t))
            return t
    x.pos += 1
    x.pc.append(c if v else z3.Not(c))
    x.log.append((key, v))
    return v


LIMIT = [None]      # time at which exploration gives up


def explore(run, base=()):
    """run() on every feasible path; yields (ctx, result or exception)."""
    script = []
    n = 0
    while True:
        c = Ctx(script, base)
        CUR[0] = c
        try:
            r = ("ok", run())
        except Infeasible:
            r = None
        except Unsupported as e:
            r = ("unsupported", str(e))
        except RecursionError:
            r = ("unsupported", "recursion")
        except Exception as e:
            r = ("raise", e)
        if r is not None:
            yield c, r
        CUR[0] = None
        n += 1
        script = c.script[:c.pos]
        while script and not script[-1]:
            script.pop()
        if not script:
            return
        script[-1] = False
        if n > MAXPATHS:
            raise Unsupported("too many paths")


# ------------------------------------------------------------------ values
class SBool:
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return decide(self.z)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))


class SInt:
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z3.simplify(z_) if z3.is_expr(z_) else z3.IntVal(int(z_))

    @staticmethod
    def lift(o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, (int, bool)):
            return z3.IntVal(int(o))
        return None

    def _b(self, o, f):
        y = SInt.lift(o)
        return NotImplemented if y is None else f(self.z, y)

    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return r if r is NotImplemented else mkint(r)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b)
        return r if r is NotImplemented else mkint(r)

    def __rsub__(self, o):
        r = self._b(o, lambda a, b: b - a)
        return r if r is NotImplemented else mkint(r)

    def __mul__(self, o):
        if isinstance(o, int):
            return mkint(self.z * int(o))
        raise Unsupported("product")

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _div(self, o):
        if not isinstance(o, int) or o <= 0:
            raise Unsupported("division")
        return z3.IntVal(int(o))

    def __floordiv__(self, o):
        return mkint(self.z / self._div(o))

    def __mod__(self, o):
        return mkint(self.z % self._div(o))

    def _c(self, o, f, other):
        y = SInt.lift(o)
        return other if y is None else SBool(f(self.z, y))

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, NotImplemented)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, NotImplemented)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, NotImplemented)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, NotImplemented)

    def __bool__(self):
        return decide(self.z != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        raise Unsupported("symbolic integer used as a machine integer")

    __int__ = __float__ = __index__


def mkint(z_):
    z_ = z3.simplify(z_)
    return z_.as_long() if z3.is_int_value(z_) else SInt(z_)


class Atom:
    """A named symbolic string."""
    __slots__ = ("z", "chars", "no", "full", "of")

    def __init__(self, z_, chars=None, no=frozenset(), full=False, of=None):
        self.z = z_
        self.chars = chars      # set of characters it can contain, or None
        self.no = no            # characters it cannot contain
        self.full = full        # not empty
        self.of = of            # ("first" or "last", n, x): the first or last n characters of x

    def __repr__(self):
        return str(self.z)


class Num:
    """The decimal text of a non-negative integer."""
    __slots__ = ("i", "z")

    def __init__(self, i):
        self.i = i
        self.z = z3.IntToStr(i)

    chars = frozenset("0123456789")
    no = frozenset()
    full = True
    of = None

    def __repr__(self):
        return f"%d({self.i})"


def lacks(q, cs):
    """The symbolic part q contains none of the characters cs."""
    cs = set(cs)
    return q.chars is not None and not (cs & set(q.chars)) or cs <= set(q.no)


def filled(q):
    """The symbolic part q is not empty."""
    return q.full or prove(z3.Length(q.z) > 0)


def lit(x):
    return z3.StringVal(x)


def same(p, q):
    """Syntactically the same part."""
    if isinstance(p, str) or isinstance(q, str):
        return isinstance(p, str) and isinstance(q, str) and p == q
    return p.z.eq(q.z)


def mk(parts):
    """A string of parts: an ordinary string when nothing is symbolic."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def parts(x):
    if isinstance(x, SStr):
        return x.p
    if isinstance(x, str):
        return (x,) if x else ()
    raise TypeError(f"expected a string, got {type(x).__name__}")


def zs(x):
    ps = parts(x)
    es = [lit(p) if isinstance(p, str) else p.z for p in ps]
    return lit("") if not es else es[0] if len(es) == 1 else z3.Concat(*es)


def is_str(x):
    return isinstance(x, (str, SStr))


def equality(a, b):
    """a == b as a bool or an SBool."""
    p, q = list(parts(a)), list(parts(b))
    while p and q:
        if same(p[0], q[0]):
            p.pop(0), q.pop(0)
            continue
        if isinstance(p[0], str) and isinstance(q[0], str):
            n = min(len(p[0]), len(q[0]))
            if p[0][:n] != q[0][:n]:
                return False
            for l in (p, q):
                l[0] = l[0][n:]
                if not l[0]:
                    l.pop(0)
            continue
        break
    while p and q:
        if same(p[-1], q[-1]):
            p.pop(), q.pop()
            continue
        if isinstance(p[-1], str) and isinstance(q[-1], str):
            n = min(len(p[-1]), len(q[-1]))
            if p[-1][-n:] != q[-1][-n:]:
                return False
            for l in (p, q):
                l[-1] = l[-1][:-n]
                if not l[-1]:
                    l.pop()
            continue
        break
    if not p and not q:
        return True
    if len(p) == len(q) == 1 and isinstance(p[0], Num) and isinstance(q[0], Num):
        return SBool(p[0].i == q[0].i)
    x, y = mk(p), mk(q)
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    for u, v in ((x, y), (y, x)):
        if isinstance(u, str):
            if not u and any(isinstance(w, str) or w.full for w in v.p):
                return False
            for c in set(u):        # a character that cannot occur on the other side
                if all(c not in w if isinstance(w, str) else lacks(w, c) for w in v.p):
                    return False
        if isinstance(v, SStr) and len(v.p) == 1 and not isinstance(v.p[0], str) and v.p[0].of:
            way, n, whole = v.p[0].of
            if prove(SInt.lift(length(u)) == n):
                r = begins(whole, u) if way == "first" else ends(whole, u)
                return r if isinstance(r, bool) else SBool(r)
    return SBool(zs(x) == zs(y))


class Pat:
    """Result of a regular-expression match on a symbolic string."""

    def __init__(self, whole, groups, names):
        self.w, self.g, self.n = whole, groups, names

    def group(self, *ks):
        def one(k):
            if isinstance(k, str):
                k = self.n[k]
            return self.w if k == 0 else self.g[k - 1]
        if not ks:
            return self.w
        return one(ks[0]) if len(ks) == 1 else tuple(one(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if x is None else x for x in self.g)

    def groupdict(self):
        return {k: self.g[i - 1] for k, i in self.n.items()}


WS = "".join(c for c in map(chr, range(0x3001)) if c.isspace())
LINES = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


class SStr:
    """A concatenation of literals, symbolic strings and printed integers."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "+".join(repr(x) for x in self.p)

    def __str__(self):
        raise Unsupported("C-level str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("C-level format of a symbolic string")

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string")

    def __bool__(self):
        for p in self.p:
            if isinstance(p, str) or p.full:
                return True
        return decide(z3.Length(zs(self)) > 0)

    def __len__(self):
        raise Unsupported("C-level len of a symbolic string")

    def length(self):
        n, out = 0, []
        for p in self.p:
            if isinstance(p, str):
                n += len(p)
            else:
                out.append(z3.Length(p.z))
        return mkint(z3.Sum(*out) + n if len(out) > 1 else out[0] + n)

    def __eq__(self, o):
        return equality(self, o) if is_str(o) else False

    def __ne__(self, o):
        if not is_str(o):
            return True
        r = equality(self, o)
        return not r if isinstance(r, bool) else SBool(z3.Not(r.z))

    def __lt__(self, o):
        raise Unsupported("order of symbolic strings")

    __le__ = __gt__ = __ge__ = __lt__

    def __add__(self, o):
        if not is_str(o):
            raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')
        return mk(self.p + tuple(parts(o)))

    def __radd__(self, o):
        if not is_str(o):
            raise TypeError(f'unsupported operand type(s) for +: "{type(o).__name__}" and "str"')
        return mk(tuple(parts(o)) + self.p)

    def __mul__(self, k):
        if isinstance(k, bool) or isinstance(k, int):
            return mk(self.p * max(0, int(k)))
        raise Unsupported("repetition")

    __rmul__ = __mul__

    def __contains__(self, o):
        return decide(has(self, o))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("step")
            try:
                a = self.at(0 if k.start is None else k.start)
                b = self.at(None if k.stop is None else k.stop)
                return self.between(a, b)
            except Unsupported:
                return self.cut(k.start, k.stop)
        if isinstance(k, int) and not isinstance(k, bool):
            if not decide(SInt.lift(self.length()) >= (k + 1 if k >= 0 else -k)):
                raise IndexError("string index out of range")
            return self[k:k + 1] if k != -1 else self[-1:]
        raise Unsupported("character of a symbolic string")

    def piece(self, z_, of=None):
        """Text z_ that is a part of this one."""
        syms = [q for q in self.p if not isinstance(q, str)]
        cs = frozenset().union(*[q.chars or () for q in syms], *[q for q in self.p if isinstance(q, str)])
        if any(q.chars is None for q in syms):
            cs = None
        no = frozenset().union(*[q.no for q in syms])
        no = frozenset(c for c in no if all(c not in q if isinstance(q, str) else lacks(q, c) for q in self.p))
        return SStr((Atom(z3.simplify(z_), cs, no, False, of),))

    def cut(self, i, j):
        """self[i:j] with ends inside symbolic text."""
        n, z_ = SInt.lift(self.length()), zs(self)

        def place(k, d):
            if k is None:
                return d
            k = SInt.lift(k)
            if decide(k < 0):
                k = n + k
                if decide(k < 0):
                    return z3.IntVal(0)
            return k if decide(k <= n) else n
        if j is None and isinstance(i, int) and i < 0 and not decide(n < -i):
            return self.piece(z3.SubString(z_, n + i, -i), ("last", z3.IntVal(-i), self))
        if j is None and isinstance(i, int) and i < 0:
            return self
        a, b = place(i, z3.IntVal(0)), place(j, n)
        if prove(a >= b):
            return ""
        if i in (None, 0):
            if prove(b == n):
                return self
            return self.piece(z3.SubString(z_, 0, b), ("first", b, self))
        if j is None:
            return self.piece(z3.SubString(z_, a, n - a))
        return self.piece(z3.If(a < b, z3.SubString(z_, a, b - a), lit("")))

    def at(self, i):
        """Position i as (part, offset) when it lies at a boundary."""
        total = self.length()
        if i is None:
            return len(self.p), 0
        if isinstance(i, int) and i < 0:
            n = -i
            for j in range(len(self.p) - 1, -1, -1):
                q = self.p[j]
                if n == 0:
                    return j + 1, 0
                if not isinstance(q, str):
                    break
                if n <= len(q):
                    return j, len(q) - n
                n -= len(q)
            raise Unsupported("slice position")
        if isinstance(i, int):
            n = i
            for j, q in enumerate(self.p):
                if n == 0:
                    return j, 0
                if not isinstance(q, str):
                    if not prove(z3.Length(q.z) == 1):
                        break
                    n -= 1
                    continue
                if n < len(q):
                    return j, n
                n -= len(q)
            else:
                return len(self.p), 0
        z_ = SInt.lift(i)      # a fixed number of characters into symbolic text, or a symbolic position
        n, sym = 0, []
        cum = z3.IntVal(0)
        for j, q in enumerate(self.p):
            if prove(cum == z_):
                return j, 0
            if isinstance(q, str):
                d = z3.simplify(z_ - cum)
                if z3.is_int_value(d) and 0 <= d.as_long() <= len(q):
                    return j, d.as_long()
                cum = cum + len(q)
            else:
                cum = cum + z3.Length(q.z)
        if prove(cum == z_):
            return len(self.p), 0
        raise Unsupported("slice position")

    def between(self, a, b):
        (i, o), (j, e) = a, b
        if (i, o) >= (j, e):
            return ""
        out = list(self.p[i:j + (1 if e else 0)])
        if e:
            out[-1] = out[-1][:e]
        if o:
            out[0] = out[0][o:]
        return mk(out)

    # ---- methods
    def startswith(self, o, *a):
        if a:
            raise Unsupported("startswith with a position")
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        return decide(begins(self, o))

    def endswith(self, o, *a):
        if a:
            raise Unsupported("endswith with a position")
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        return decide(ends(self, o))

    def removeprefix(self, o):
        return self.cut_front(o) if self.startswith(o) else self

    def removesuffix(self, o):
        if not o:
            return self
        return self.cut_back(o) if self.endswith(o) else self

    def cut_front(self, o):
        p, q = list(self.p), list(parts(o))
        if not (q and p and (same(p[0], q[0]) or isinstance(p[0], str))):
            return self.cut(length(o), None)
        while q:
            if p and same(p[0], q[0]):
                p.pop(0), q.pop(0)
            elif p and isinstance(p[0], str) and isinstance(q[0], str):
                n = min(len(p[0]), len(q[0]))
                if p[0][:n] != q[0][:n]:
                    raise Unsupported("prefix")
                for l in (p, q):
                    l[0] = l[0][n:]
                    if not l[0]:
                        l.pop(0)
            else:
                raise Unsupported("prefix")
        return mk(p)

    def cut_back(self, o):
        p, q = list(self.p), list(parts(o))
        if not (q and p and (same(p[-1], q[-1]) or isinstance(p[-1], str))):
            return self.cut(None, self.length() - length(o))
        while q:
            if p and same(p[-1], q[-1]):
                p.pop(), q.pop()
            elif p and isinstance(p[-1], str) and isinstance(q[-1], str):
                n = min(len(p[-1]), len(q[-1]))
                if p[-1][-n:] != q[-1][-n:]:
                    raise Unsupported("suffix")
                for l in (p, q):
                    l[-1] = l[-1][:-n]
                    if not l[-1]:
                        l.pop()
            else:
                raise Unsupported("suffix")
        return mk(p)

    def occurrence(self, sep, last=False):
        """(before, after) the first or last occurrence of sep, or None."""
        if not is_str(sep):
            raise TypeError("must be str, not " + type(sep).__name__)
        if not sep:
            raise ValueError("empty separator")
        if not self.__contains__(sep):
            return None
        if isinstance(sep, str):
            js = [(j, m.start()) for j, q in enumerate(self.p) if isinstance(q, str)
                  for m in _re.finditer("(?=" + _re.escape(sep) + ")", q)]
            for j, o in (reversed(js) if last else js):
                a, b = self.between((0, 0), (j, o)), self.between((j, o + len(sep)), (len(self.p), 0))
                # nothing before: the separator does not occur in a + sep[:-1]
                other = (sep[1:] + b) if last else (a + sep[:-1])
                h = has(other, sep)
                if h is False or h is not True and prove(z3.Not(h)):
                    return a, b
                if isinstance(h, bool) or prove(h):
                    continue
                if not decide(h):
                    return a, b
        n = CUR[0].fresh
        CUR[0].fresh += 2
        a, b = z3.String(f"cut!{n}"), z3.String(f"cut!{n + 1}")
        za, zb = SStr((Atom(a),)), SStr((Atom(b),))
        c = CUR[0]
        c.pc.append(zs(self) == zs(za + sep + zb))
        y = zs(sep)
        n = z3.Length(y)
        c.pc.append(z3.Not(z3.Contains(z3.Concat(a, z3.SubString(y, 0, n - 1)), y)) if not last else
                    z3.Not(z3.Contains(z3.Concat(z3.SubString(y, 1, n - 1), b), y)))
        return za, zb

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.words(maxsplit)
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            if isinstance(rest, str):
                return out + rest.split(sep, -1 if maxsplit < 0 else maxsplit - len(out))
            c = rest.occurrence(sep)
            if c is None:
                break
            out.append(c[0])
            rest = c[1]
            if len(out) > 6:
                raise Unsupported("many separators")
        return out + [rest]

    def words(self, maxsplit):
        out, cur = [], []

        def end():
            if cur:
                if not any(isinstance(q, str) or filled(q) for q in cur):
                    raise Unsupported("split at white space")
                out.append(mk(cur))
                cur.clear()
        for q in self.p:
            if isinstance(q, str):
                for w in _re.split("(\\s+)", q):
                    if w and w.isspace():
                        end()
                    elif w:
                        cur.append(w)
            elif lacks(q, WS):
                cur.append(q)
            else:
                raise Unsupported("split at white space")
        end()
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            raise Unsupported("split at white space")
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.words(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], self
        while len(out) < maxsplit:
            if isinstance(rest, str):
                return rest.rsplit(sep, maxsplit - len(out)) + out
            c = rest.occurrence(sep, last=True)
            if c is None:
                break
            out.insert(0, c[1])
            rest = c[0]
        return [rest] + out

    def partition(self, sep):
        c = self.occurrence(sep)
        return (self, "", "") if c is None else (c[0], sep, c[1])

    def rpartition(self, sep):
        c = self.occurrence(sep, last=True)
        return ("", "", self) if c is None else (c[0], sep, c[1])

    def find(self, sep):
        if is_str(sep) and not sep:
            return 0
        c = self.occurrence(sep)
        return -1 if c is None else length(c[0])

    def rfind(self, sep):
        if is_str(sep) and not sep:
            return self.length()
        c = self.occurrence(sep, last=True)
        return -1 if c is None else length(c[0])

    def index(self, sep):
        i = self.find(sep)
        if isinstance(i, int) and i == -1:
            raise ValueError("substring not found")
        return i

    def rindex(self, sep):
        i = self.rfind(sep)
        if isinstance(i, int) and i == -1:
            raise ValueError("substring not found")
        return i

    def count(self, sep):
        if is_str(sep) and not sep:
            return self.length() + 1
        if not self.__contains__(sep):
            return 0
        n = CUR[0].fresh
        CUR[0].fresh += 1
        k = z3.Int(f"count!{n}")
        CUR[0].pc.append(k >= 1)     # how often is left open
        return SInt(k)

    def replace(self, a, b, count=-1):
        if is_str(a) and is_str(b) and not a:
            raise Unsupported("replacement of the empty string")
        return join(b, self.split(a, count))

    def _edge(self, front, chars):
        p = list(self.p)
        while p:
            q = p[0 if front else -1]
            if isinstance(q, str):
                r = q.lstrip(chars) if front else q.rstrip(chars)
                if r:
                    p[0 if front else -1] = r
                    break
                p.pop(0 if front else -1)
                continue
            cs = set(chars or WS)
            if q.chars is not None and set(q.chars) <= cs:
                p.pop(0 if front else -1)
                continue
            if not isinstance(q, str) and q.chars is not None:
                cs &= set(q.chars) | {c for x in p if isinstance(x, str) for c in x} | \
                    {c for x in p if not isinstance(x, str) for c in (x.chars or cs)}
            # unchanged up to the first text that is certainly there and cannot be stripped
            before = []
            for q in p if front else reversed(p):
                if isinstance(q, str):
                    if q[0 if front else -1] in cs and not (len(before) > 1 and prove(z3.Or(*before))):
                        raise Unsupported("strip of a symbolic string")
                    return mk(p)
                if not lacks(q, cs):
                    break
                if filled(q):
                    return mk(p)
                before.append(z3.Length(q.z) > 0)
            else:
                return mk(p)
            q = p[0 if front else -1]
            first = z3.SubString(q.z, 0 if front else z3.Length(q.z) - 1, 1)
            if prove(z3.And(z3.Length(q.z) > 0, *[first != lit(c) for c in cs])):
                break
            raise Unsupported("strip of a symbolic string")
        return mk(p)

    def strip(self, chars=None):
        r = self._edge(True, chars)
        return r._edge(False, chars) if isinstance(r, SStr) else r.strip(chars)

    def lstrip(self, chars=None):
        return self._edge(True, chars)

    def rstrip(self, chars=None):
        return self._edge(False, chars)

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines")
        out = [[]]
        for q in self.p:
            if isinstance(q, str):
                ls = ("x" + q + "x").splitlines()
                ls[0] = ls[0][1:]
                ls[-1] = ls[-1][:-1]
                out[-1].append(ls[0])
                for x in ls[1:]:
                    out.append([x])
            else:
                if not lacks(q, LINES):
                    raise Unsupported("splitlines")
                out[-1].append(q)
        ls = [mk(x) for x in out]
        if not ls[-1]:
            ls.pop()
        return ls

    def isdigit(self):
        return decide(digits(self))

    isdecimal = isnumeric = isdigit

    def join(self, xs):
        return join(self, xs)

    def encode(self, *a):
        raise Unsupported("encode")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if hasattr(str, k):
            raise Unsupported("method " + k)
        raise AttributeError(f"'str' object has no attribute '{k}'")


class SList:
    """A list: given elements, then n more of which `f(generic)` is one and `first` (of f) the first."""

    def __init__(self, head, n, generic, one=lambda x: x, member=None):
        self.head, self.n, self.generic, self.one, self.member = list(head), n, generic, one, member

    def length(self):
        return mkint(self.n + len(self.head))

    def __len__(self):
        raise Unsupported("C-level len of a symbolic list")

    def __bool__(self):
        return bool(self.head) or decide(self.n > 0)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0, 1) and k.stop is None and k.step is None:
            if k.start == 1:
                r = SList(self.head, self.n, self.generic, self.one, self.member)
                if r:
                    r.pop(0)
                return r
            return SList(self.head, self.n, self.generic, self.one, self.member)
        if not isinstance(k, int) or isinstance(k, bool):
            raise Unsupported("element of a symbolic list")
        if 0 <= k < len(self.head):
            return self.head[k]
        if k == len(self.head):
            if not decide(self.n > 0):
                raise IndexError("list index out of range")
            return self.one(self.generic("first"))
        raise Unsupported("element of a symbolic list")

    def pop(self, k=-1):
        if k == 0 and self.head:
            return self.head.pop(0)
        raise Unsupported("pop of a symbolic list")

    def __delitem__(self, k):
        self.pop(k)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def each(self, f):
        return SList([f(x) for x in self.head], self.n, self.generic, lambda x, g=self.one: f(g(x)), self.member)

    def has(self, x):
        if any(is_str(y) and bool(y == x) for y in self.head):
            return True
        if not decide(self.n > 0):
            return False
        return self.member(self.one(self.generic("some")), x)

    __contains__ = has


class SSet:
    """A set of texts of any size.  base.reps(): (rep, text, exists) of generic elements: every element of the set looks
    like one of them; of those with the same value of exists (not None), one has an instance.  stages: maps and filters
    applied so far."""

    def __init__(self, base, stages=()):
        self.base, self.stages = base, tuple(stages)
        self.some = None

    def each(self, f):
        return SSet(self.base, self.stages + (("map", f),))

    def only(self, f):
        return SSet(self.base, self.stages + (("if", f),))

    def through(self, x):
        """(x as it is in this set,), or None when it is filtered out."""
        for k, f in self.stages:
            if k == "map":
                x = f(x)
            elif not f(x):
                return None
        return (x,)

    def __bool__(self):
        c = CUR[0]
        got = []
        for rep, text, exists in self.base.reps():
            c.nofork, n, log = True, len(c.pc), list(c.log)
            c.pc += self.base.facts(rep)
            try:
                got.append((exists, self.through(text) is not None))
            except Ambiguous:
                got.append((exists, None))
            finally:
                c.nofork = False
                del c.pc[n:]
                c.log[:] = log
        if any(all(r for d, r in got if d == e) for e, _ in got if e):
            return True
        if all(r is False for e, r in got):
            return False
        if self.some is None:
            c.fresh += 1
            self.some = z3.Bool(f"nonempty!{c.fresh}")
        if decide(self.some):
            return True
        self.base.absent([rep for (rep, _, _), (_, r) in zip(self.base.reps(), got) if r])
        return False

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")

    def __len__(self):
        raise Unsupported("size of a symbolic set")

    def __contains__(self, x):
        raise Unsupported("search in a symbolic set")

    def _other(self, o):
        return Opaque()

    __sub__ = __and__ = __or__ = __xor__ = __rsub__ = __rand__ = __ror__ = _other

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("set." + k)


class Opaque:
    """Something that may only be printed."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("operation " + k)

    def __bool__(self):
        raise Unsupported("truth of a set")

    def __iter__(self):
        raise Unsupported("iteration over a set")


def copied(v):
    if getattr(type(v), "symbolic", False) is True:
        return v
    if isinstance(v, (list, set)):
        return type(v)(v)
    return dict(v) if isinstance(v, dict) else v


class SSorted:
    """The elements of an SSet in ascending or descending order.

    Iterating visits one arbitrary element, of which is known that the loop went on after all earlier ones; or none,
    which stands for the end of the loop.  A body that goes on after the arbitrary element must have left the state as
    it was (so that it is again the state before an arbitrary element); the path ends there, and base.passed(element)
    says what has to hold of an element that the loop passes by."""

    def __init__(self, s, down=False):
        self.s, self.down = s, down

    def state(self):
        import sys
        f, out = sys._getframe(2), []
        while f is not None and f.f_code.co_name != "run_unit":
            if f.f_code.co_filename == PATH[0]:
                out.append((f, {k: (v, copied(v)) for k, v in f.f_locals.items()}))
            f = f.f_back
        return out

    def __iter__(self):
        c = CUR[0]
        c.fresh += 1
        n = c.fresh
        b = self.s.base
        if decide(z3.Bool(f"end!{n}")):
            b.finished(self)
            return
        rep, y = self.visit(n)
        before = self.state()
        yield y[0]
        for f, old in before:
            for k, (v, w) in old.items():
                x = f.f_locals.get(k, Infeasible)
                if x is not v or isinstance(v, (list, set, dict)) and v is not w and not (
                        type(x) is type(w) and len(x) == len(w) and (all(p is q for p, q in zip(x, w)) if isinstance(x, list)
                                                                      else x == w)):
                    raise Unsupported("a loop over a symbolic set changes " + k)
        b.passed(rep, "passed by")
        raise Infeasible

    def visit(self, n):
        """(rep, (text,)) of an arbitrary element."""
        c, b = CUR[0], self.s.base
        reps = b.reps()
        i = 0
        while i < len(reps) - 1 and not decide(z3.Bool(f"visit!{n}!{i}")):
            i += 1
        rep, text, _ = reps[i]
        c.pc += b.facts(rep)
        y = self.s.through(text)
        if y is None:
            b.passed(rep, "filtered out")
            raise Infeasible
        b.visited(rep, y[0], self)
        return rep, y

    def top(self):
        """The first element, of a set that is not empty."""
        CUR[0].fresh += 1
        return self.visit(CUR[0].fresh)[1][0]

    def __bool__(self):
        return bool(self.s)

    def __len__(self):
        raise Unsupported("size of a symbolic set")

    def __getitem__(self, k):
        if isinstance(k, int) and k in (0, -1):
            if not self:
                raise IndexError("list index out of range")
            return (self if k == 0 else SSorted(self.s, not self.down)).top()
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == 1 and k.step is None:
            return [self.top()] if self else []
        raise Unsupported("element of a sorted symbolic set")

    def __reversed__(self):
        return iter(SSorted(self.s, not self.down))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("list." + k)


PATH = [None]       # the file under verification
NOTHING = object()


def vsorted(x, **k):
    if isinstance(x, (SSet, SSorted)):
        if set(k) - {"reverse"}:
            raise Unsupported("sorted with a key")
        return SSorted(x if isinstance(x, SSet) else x.s, bool(k.get("reverse")))
    return builtins.sorted(x, **k)


def venumerate(x, start=0):
    if isinstance(x, SSet):
        raise Unsupported("enumeration of a symbolic set")
    if not isinstance(x, SSorted):
        return builtins.enumerate(x, start)

    def g():
        for y in x:
            CUR[0].fresh += 1
            i = z3.Int(f"index!{CUR[0].fresh}")
            CUR[0].pc.append(i >= start)
            yield SInt(i), y
    return g()


def _plain(f):
    """f, which would iterate over a symbolic set by itself."""
    def g(*a, **k):
        if any(isinstance(x, (SSet, SSorted)) for x in (*a, *k.values())):
            raise Unsupported(f.__name__ + " of a symbolic set")
        return f(*a, **k)
    return g


def vlist(*a):
    return a[0] if len(a) == 1 and isinstance(a[0], (SSet, SSorted)) else builtins.list(*a)


def vtuple(*a):
    return a[0] if len(a) == 1 and isinstance(a[0], (SSet, SSorted)) else builtins.tuple(*a)


def vset(*a):
    return a[0] if len(a) == 1 and isinstance(a[0], SSet) else builtins.set(*a)


def _extreme(f, down):
    def g(*a, **k):
        if len(a) == 1 and isinstance(a[0], (SSet, SSorted)):
            if set(k) - {"default"}:
                raise Unsupported("min with a key")
            t = a[0] if isinstance(a[0], SSet) else a[0].s
            if t:
                return SSorted(t, down).top()
            if "default" in k:
                return k["default"]
            raise ValueError("iterable argument is empty")
        return f(*a, **k)
    return g


def comp2(kind, elt, cond, xs):
    """A comprehension or generator expression over one iterable."""
    if isinstance(xs, SSet) or isinstance(xs, SSorted) and kind == "list":
        t = xs if isinstance(xs, SSet) else xs.s
        if cond is not None:
            t = t.only(cond)
        t = t.each(elt)
        return t if isinstance(xs, SSet) else SSorted(t, xs.down)
    if cond is None:
        g = (elt(x) for x in xs)
    else:
        g = (elt(x) for x in xs if cond(x))
    return builtins.list(g) if kind == "list" else builtins.set(g) if kind == "set" else g


class Listing:
    """A text of lines; f(separator): the list of its pieces."""

    def __init__(self, f):
        self.f = f

    def count(self, x):
        if x != "\n":
            raise Unsupported("count")
        return self.f("\n").length() - 1

    def strip(self, *a):
        if a:
            raise Unsupported("strip")
        return self

    rstrip = strip

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1:
            raise Unsupported("split")
        return self.f(sep)

    def splitlines(self):
        return self.f("\n")

    def __getattr__(self, k):
        raise Unsupported("operation " + k + " on a listing")


def comp(f, xs):
    return xs.each(f) if isinstance(xs, (SList, SSet)) else [f(x) for x in xs]


def basename(path):
    i = path.rpartition("/")
    return i[2]


def dirname(path):
    a, s, b = path.rpartition("/")
    if not s:
        return ""
    r = a.rstrip("/")
    return r if r != "" else a + s


def length(x):
    return x.length() if isinstance(x, SStr) else len(x)


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if not is_str(x):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if i:
            out += parts(sep)
        out += parts(x)
    return mk(out)


def lacking(x, o):
    """Some character of the text o occurs nowhere in x."""
    return isinstance(o, str) and any(all(c not in p if isinstance(p, str) else lacks(p, c) for p in parts(x)) for c in set(o))


def has(x, o):
    """o occurs in x: bool or z3 term."""
    if isinstance(x, str) and isinstance(o, str):
        return o in x
    if isinstance(o, str):
        if o == "":
            return True
        ps = parts(x)
        if any(isinstance(p, str) and o in p for p in ps):
            return True
        if len(o) == 1:
            rest = [p for p in ps if not isinstance(p, str) and not lacks(p, o)]
            if not rest:
                return False
            return z3.Or(*[z3.Contains(p.z, lit(o)) for p in rest]) if len(rest) > 1 else z3.Contains(rest[0].z, lit(o))
    return z3.Contains(zs(x), zs(o))


def begins(x, o):
    if lacking(x, o):
        return False
    if isinstance(o, str) and isinstance(x, SStr) and isinstance(x.p[0], str):
        n = min(len(o), len(x.p[0]))
        if o[:n] != x.p[0][:n]:
            return False
        if n == len(o):
            return True
    if isinstance(o, str) and o == "":
        return True
    p, q = list(parts(x)), list(parts(o))
    while p and q and same(p[0], q[0]):
        p.pop(0), q.pop(0)
    if not q:
        return True
    return z3.PrefixOf(zs(mk(q)), zs(mk(p)))


def ends(x, o):
    if lacking(x, o):
        return False
    if isinstance(o, str) and isinstance(x, SStr):
        if isinstance(x.p[-1], str):
            n = min(len(o), len(x.p[-1]))
            if n and o[-n:] != x.p[-1][-n:]:
                return False
            if n == len(o):
                return True
        elif o and lacks(x.p[-1], o[-1]) and filled(x.p[-1]):
            return False
    if isinstance(o, str) and o == "":
        return True
    p, q = list(parts(x)), list(parts(o))
    while p and q and same(p[-1], q[-1]):
        p.pop(), q.pop()
    if not q:
        return True
    return z3.SuffixOf(zs(mk(q)), zs(mk(p)))


DIG = z3.Range("0", "9")


def digits(x):
    if isinstance(x, str):
        return bool(x) and all(c in "0123456789" for c in x)
    for p in x.p:
        if isinstance(p, str) and not all(c in "0123456789" for c in p):
            return False
    if all(isinstance(p, Num) or isinstance(p, str) for p in x.p):
        return True
    if all(isinstance(p, str) or p.chars is not None and set(p.chars) <= set("0123456789") for p in x.p):
        return any(isinstance(p, str) or p.full for p in x.p) or z3.Length(zs(x)) > 0
    if len(x.p) == 1 and x.p[0].of and x.p[0].of[1].eq(z3.IntVal(1)):      # at most one character
        return z3.InRe(zs(x), DIG)
    return z3.InRe(zs(x), z3.Plus(DIG))


# ------------------------------------------------------------------ builtins
def to_str(x):
    if is_str(x):
        return x
    if isinstance(x, SBool):
        return str(bool(x))
    if isinstance(x, SInt):
        if decide(x.z >= 0):
            return mk((Num(x.z),))
        return mk(("-", Num(z3.simplify(-x.z))))
    return some_text() if _symbolic(x) else builtins.str(x)


def some_text():
    """Any text."""
    CUR[0].fresh += 1
    return SStr((Atom(z3.String(f"text!{CUR[0].fresh}")),))


def to_int(x=0, *a):
    if a:
        if isinstance(x, (str, bytes)):
            return builtins.int(x, *a)
        raise Unsupported("int with a base")
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return int(bool(x))
    if isinstance(x, SStr):
        ps = x.p
        if len(ps) == 1 and isinstance(ps[0], Num):
            return mkint(ps[0].i)
        d = digits(x)
        if d is True or d is not False and decide(d):
            return mkint(z3.StrToInt(zs(x)))
        if d is False and any(c in WS + "+-_" for p in ps if isinstance(p, str) for c in p):
            raise Unsupported("int of a text with a sign or spaces")
        ok = z3.InRe(zs(x), z3.Star(z3.Union(DIG, *[z3.Re(c) for c in WS + "+-_"])))
        if decide(ok) and decide(z3.Length(zs(x)) > 0):
            raise Unsupported("int of a text with a sign or spaces")
        raise ValueError("invalid literal for int() with base 10")
    return builtins.int(x)


def _fmt(x, spec, conv=-1):
    if conv in (ord("s"), "s"):
        x = to_str(x)
    elif conv in (ord("r"), ord("a"), "r", "a"):
        if isinstance(x, (SStr, SInt)):
            raise Unsupported("repr")
        return some_text() if _symbolic(x) else builtins.repr(x)
    if isinstance(spec, SStr):
        raise Unsupported("symbolic format")
    if not isinstance(x, (SStr, SInt, SBool)):
        return some_text() if _symbolic(x) else format(x, spec)
    if isinstance(x, SBool):
        return format(bool(x), spec)
    if spec == "" or spec == "s" and isinstance(x, SStr) or spec == "d" and isinstance(x, SInt):
        return to_str(x)
    if isinstance(x, SStr) and spec == "d":
        raise ValueError("Unknown format code 'd' for object of type 'str'")
    raise Unsupported("format " + spec)


_PCT = _re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])")


def percent(a, b):
    """a % b"""
    if not is_str(a):
        return a % b
    if isinstance(a, str) and not _symbolic(b):
        return a % b
    if isinstance(a, SStr):
        if any(isinstance(p, Atom) and (p.chars is None or "%" in p.chars) for p in a.p):
            raise Unsupported("symbolic format")
        segs = a.p
    else:
        segs = (a,)
    args = b if isinstance(b, tuple) else (b,)
    used, out = 0, []
    for s in segs:
        if not isinstance(s, str):
            out.append(s)
            continue
        pos = 0
        for m in _PCT.finditer(s):
            out.append(s[pos:m.start()])
            pos = m.end()
            key, flags, width, prec, c = m.groups()
            if c == "%":
                out.append("%")
                continue
            if key is not None:
                v = b[key]
            else:
                if used >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[used]
                used += 1
            if not isinstance(v, (SStr, SInt, SBool)):
                if _symbolic(v):
                    out += some_text().p
                    continue
                out.append(m.group(0).replace(f"({key})", "") % (v,))
                continue
            if flags or width or prec:
                raise Unsupported("format with a width")
            if c in "di":
                if isinstance(v, SStr):
                    raise TypeError("%d format: a real number is required, not str")
                out += parts(to_str(int(v) if isinstance(v, SBool) else v))
            elif c == "s":
                out += parts(to_str(v))
            else:
                raise Unsupported("format %" + c)
        if "%" in s[pos:]:
            raise Unsupported("format")
        out.append(s[pos:])
    if not isinstance(b, dict) and used < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


def _symbolic(x, depth=0):
    if isinstance(x, (SStr, SInt, SBool, SSet, SSorted, Opaque)) or getattr(type(x), "symbolic", False) is True:
        return True
    if depth < 4:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(_symbolic(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(_symbolic(y, depth + 1) for y in x.values())
    return False


def fstring(xs):
    out = []
    for x in xs:
        out += parts(x if is_str(x) else _fmt(*x))
    return mk(out)


def format_method(s, a, k):
    import string
    out, auto = [], 0
    for txt, field, spec, conv in string.Formatter().parse(s):
        out.append(txt)
        if field is None:
            continue
        if field == "":
            field, auto = auto, auto + 1
        m = _re.fullmatch(r"(\w+)((?:\[\w+\]|\.\w+)*)", str(field))
        if not m:
            raise Unsupported("format field")
        v = a[int(m[1])] if m[1].isdigit() else k[m[1]]
        for it in _re.findall(r"\[(\w+)\]|\.(\w+)", m[2]):
            v = v[it[0]] if it[0] else getattr(v, it[1])
        if spec and "{" in spec:
            raise Unsupported("nested format")
        out += parts(_fmt(v, spec or "", conv or -1))
    return mk(out)


def getitem(o, k):
    if isinstance(o, dict) and isinstance(k, SStr):
        for key in o:
            if is_str(key) and bool(k == key):
                return o[key]
        raise KeyError("symbolic")
    if isinstance(o, str) and isinstance(k, slice) and any(isinstance(x, SInt) for x in (k.start, k.stop)):
        if o == "":
            return ""
        raise Unsupported("symbolic slice of a literal")
    return o[k]


def contains(c, x):
    """x in c"""
    if isinstance(c, SList):
        return c.has(x)
    if isinstance(x, SStr):
        if isinstance(c, (dict, set, frozenset, tuple, list)) or hasattr(c, "keys"):
            return any(is_str(y) and bool(x == y) for y in list(c))
        if isinstance(c, str):
            return decide(has(c, x))
    return x in c


def call(o, name, a, k):
    if name == "join" and is_str(o) and len(a) == 1 and isinstance(a[0], (SSet, SSorted, Opaque)):
        return some_text()
    if isinstance(o, str) and _symbolic((a, k)):
        if name == "join":
            return join(o, list(a[0]))
        if name == "format":
            return format_method(o, a, k)
        if name == "format_map":
            return format_method(o, (), a[0])
        if name in ("startswith", "endswith"):
            x = a[0]
            f = begins if name == "startswith" else ends
            return any(decide(f(o, y)) for y in (x if isinstance(x, tuple) else (x,)))
        raise Unsupported("str." + name + " with symbolic arguments")
    if o is os.path and _symbolic((a, k)):
        if name == "basename" and not k:
            return basename(*a)
        if name == "dirname" and not k:
            return dirname(*a)
        if name == "split" and not k:
            return dirname(*a), basename(*a)
        raise Unsupported("os.path." + name)
    if isinstance(o, dict) and a and isinstance(a[0], SStr):
        for key in o:
            if is_str(key) and bool(a[0] == key):
                return getattr(o, name)(key, *a[1:], **k)
        if name == "get":
            return a[1] if len(a) > 1 else None
        raise Unsupported("dict." + name)
    if o is _re and name in ("search", "match", "fullmatch") and isinstance(a[1], SStr):
        return regex(name, a[0], a[1], *a[2:], **k)
    if isinstance(o, _re.Pattern) and name in ("search", "match", "fullmatch") and isinstance(a[0], SStr):
        return regex(name, o.pattern, a[0])
    if o is _re and _symbolic(a) or isinstance(o, _re.Pattern) and _symbolic(a):
        raise Unsupported("re." + name)
    f = getattr(o, name)
    return f(*a, **k)


def _sequence(pat):
    """A pattern as a flat sequence of ("lit", text, groups) and ("rep", class, minimum, groups); groups: the numbers of
    the groups that consist of the item."""
    import re._parser as sp
    t = sp.parse(pat)
    names = dict(t.state.groupdict)
    out, begin, end = [], False, False

    def walk(items, groups):
        nonlocal begin, end
        for n, (op, av) in enumerate(items):
            if op is sp.AT and av in (sp.AT_BEGINNING, sp.AT_BEGINNING_STRING) and not out and n == 0:
                begin = True
            elif op is sp.AT and av in (sp.AT_END, sp.AT_END_STRING) and n == len(items) - 1 and not groups:
                end = True
            elif end:
                raise Unsupported("regular expression " + repr(pat))
            elif op is sp.LITERAL:
                if out and out[-1][0] == "lit" and not groups and not out[-1][3]:
                    out[-1] = ("lit", out[-1][1] + chr(av), 0, ())
                else:
                    out.append(("lit", chr(av), 0, groups))
            elif op is sp.MAX_REPEAT and av[0] in (0, 1) and av[1] is sp.MAXREPEAT and len(av[2]) == 1 and \
                    av[2][0][0] in (sp.IN, sp.ANY, sp.NOT_LITERAL):
                out.append(("rep", _Class(*av[2][0], sp), av[0], groups))
            elif op is sp.SUBPATTERN and not av[1] and not av[2] and len(av[3]) == 1 and (av[0] is None or not groups):
                walk(list(av[3]), (av[0],) if av[0] is not None else groups)
            else:
                raise Unsupported("regular expression " + repr(pat))
    walk(list(t), ())
    return out, begin, end, names, t.state.groups - 1


class _Class:
    """A character class."""

    def __init__(self, op, av, sp):
        self.any = op is sp.ANY
        if self.any:
            self.f = lambda c: c != "\n"
        elif op is sp.NOT_LITERAL:
            self.f = lambda c: c != chr(av)
        else:
            neg = bool(av) and av[0][0] is sp.NEGATE
            items = av[1:] if neg else av
            fs = []
            for o, v in items:
                if o is sp.LITERAL:
                    fs.append(lambda c, v=v: c == chr(v))
                elif o is sp.RANGE:
                    fs.append(lambda c, v=v: v[0] <= ord(c) <= v[1])
                elif o is sp.CATEGORY and v is sp.CATEGORY_DIGIT:
                    fs.append(lambda c: c.isdecimal())
                else:
                    raise Unsupported("character class")
            self.f = lambda c: any(f(c) for f in fs) != neg

    def has(self, c):
        return self.f(c)

    def inside(self, q):
        """All text of the symbolic part belongs to the class."""
        if q.chars is not None:
            return all(self.f(c) for c in q.chars)
        return self.any and lacks(q, "\n")

    def outside(self, q):
        return q.chars is not None and not any(self.f(c) for c in q.chars)


def ranges(xs):
    """The characters xs and everything beyond ASCII."""
    out = [z3.Range(chr(128), chr(0x2ffff))]
    while xs:
        n = 1
        while n < len(xs) and xs[n] == xs[0] + n:
            n += 1
        out.append(z3.Range(chr(xs[0]), chr(xs[n - 1])) if n > 1 else z3.Re(chr(xs[0])))
        xs = xs[n:]
    return z3.Union(*out) if len(out) > 1 else out[0]


def prove_apart(c, seconds=5):
    """prove(c) in a process of its own: z3 does not always keep to its time limit on regular expressions."""
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    pid = os.fork()
    if pid == 0:
        try:
            LIMIT[0] = None
            os._exit(0 if _check(CUR[0].pc + [z3.Not(c)], 1000 * seconds)[0] == z3.unsat else 1)
        finally:
            os._exit(2)
    STATS["queries"] += 1
    end = time.time() + seconds + 1
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st) == 0
        time.sleep(0.005)
    os.kill(pid, 9)
    os.waitpid(pid, 0)
    return False


def zregex(pat):
    """A superset of the texts that the pattern, anchored at both ends, matches."""
    seq, begin, end, names, n = _sequence(pat)
    out = []
    for op, c, least, groups in seq:
        if op == "lit":
            out.append(z3.Re(c))
        else:
            r = z3.AllChar(z3.ReSort(z3.StringSort())) if c.any else \
                ranges([i for i in range(128) if c.has(chr(i))])
            out.append(z3.Plus(r) if least else z3.Star(r))
    return z3.Concat(*out) if len(out) > 1 else out[0]


def ends_clean(p):
    """The text of the parts p does not end with a line break."""
    for q in reversed(p):
        if isinstance(q, str):
            return q[-1] != "\n"
        if not lacks(q, "\n"):
            return False
        if filled(q):
            return True
    return True


def regex(kind, pat, s, *a, **k):
    if not a and not k and isinstance(pat, str):
        r = _one(kind, pat, s)
        if r is not None:
            return Found() if r else None
    try:
        return _regex(kind, pat, s, *a, **k)
    except Unsupported:
        if not a and not k and isinstance(pat, str):
            _, b, e, _, _ = _sequence(pat)
            if (b or kind != "search") and (e or kind == "fullmatch"):
                r = zregex(pat)
                if kind != "fullmatch" and not ends_clean(parts(s)):     # $ also matches before a line break at the end
                    r = z3.Concat(r, z3.Option(z3.Re("\n")))
                if prove_apart(z3.Not(z3.InRe(zs(s), r))):
                    return None
        raise


def _one(kind, pat, s):
    """A pattern that is one character class: is there such a character (at the beginning)?"""
    import re._parser as sp
    t = list(sp.parse(pat))
    if kind != "search" and len(t) == 1 and t[0][0] is sp.MAX_REPEAT and t[0][1][0] == 1 and len(t[0][1][2]) == 1:
        t = list(t[0][1][2])
    if len(t) == 2 and t[0][0] is sp.AT and t[0][1] in (sp.AT_BEGINNING, sp.AT_BEGINNING_STRING):
        t, kind = t[1:], "match"
    if kind == "fullmatch" or len(t) != 1 or t[0][0] not in (sp.IN, sp.NOT_LITERAL):
        return None
    c = _Class(*t[0], sp)
    ps = list(parts(s))
    if kind == "match":
        while ps and not isinstance(ps[0], str) and not bool(mk(ps[:1])):
            ps.pop(0)
        if not ps:
            return False
        if isinstance(ps[0], str):
            return c.has(ps[0][0])
        ps = ps[:1]
    for q in ps:
        if isinstance(q, str) and any(c.has(x) for x in q) or \
                not isinstance(q, str) and q.full and q.chars is not None and all(c.has(x) for x in q.chars):
            return True
    for q in ps:
        if isinstance(q, str):
            continue
        if q.chars is None:
            raise Unsupported("character class")
        yes = [x for x in q.chars if c.has(x)]
        if not yes:
            continue
        if len(yes) == len(q.chars):
            if decide(z3.Length(q.z) > 0):
                return True
            continue
        if kind == "match":
            if set(yes) == set("0123456789"):
                return decide(z3.InRe(z3.SubString(q.z, 0, 1), DIG))
            return decide(among(z3.SubString(q.z, 0, 1), yes))
        some = z3.Bool(f"some!{q.z}!{''.join(sorted(yes))}")      # left open, but not for the empty text
        if OPEN[0]:
            CUR[0].pc.append(z3.Implies(some, z3.Length(q.z) > 0))
        else:
            some = z3.Or(*[z3.Contains(q.z, lit(x)) for x in sorted(yes)])
        if decide(some):
            return True
    return False


OPEN = [True]       # whether a text of several kinds of characters contains one of some kind is left open


def among(z_, chars):
    """The text z_ is one of the characters."""
    return z3.Or(*[z_ == lit(x) for x in sorted(chars)])


class Found:
    """A match of which only the existence is known."""

    def __getattr__(self, k):
        raise Unsupported("what a regular expression matched")


def _regex(kind, pat, s, *a, **k):
    """Match of an anchored pattern whose pieces are found from the right in only one way: every repeated class is the
    whole pattern's first item or follows a literal whose last character it does not contain, so that it can only match
    the longest run of its characters that ends there."""
    if a or k or not isinstance(pat, str):
        raise Unsupported("regular expression with flags")
    seq, begin, end, names, ngroups = _sequence(pat)
    begin = begin or kind != "search"
    end = end or kind == "fullmatch"
    if not end or not seq:
        raise Unsupported("regular expression " + repr(pat))
    for i, it in enumerate(seq):
        if it[0] == "rep" and i and (seq[i - 1][0] != "lit" or it[1].has(seq[i - 1][1][-1])):
            raise Unsupported("regular expression " + repr(pat))
    p = list(parts(s))
    if kind != "fullmatch" and not ends_clean(p):
        raise Unsupported("regular expression on a text that may end with a line break")
    if not begin and len(seq) == 1 and seq[0][0] == "lit":
        if not decide(ends(s, seq[0][1])):
            return None
        return Pat(seq[0][1], [seq[0][1]] * ngroups, names)
    got = [None] * ngroups
    whole = ()
    for i in range(len(seq) - 1, -1, -1):
        op, c, least, groups = seq[i]
        took = []
        if op == "lit":
            left = c
            while left:
                if not p:
                    return None
                q = p[-1]
                if not isinstance(q, str):
                    if lacks(q, left[-1]) and filled(q):
                        return None
                    raise Unsupported("regular expression on a symbolic string")
                n = min(len(q), len(left))
                if q[-n:] != left[-n:]:
                    return None
                left = left[:-n]
                p[-1] = q[:-n]
                if not p[-1]:
                    p.pop()
            took = [c]
        elif i == 0 and begin:
            for q in p:
                if isinstance(q, str) and not all(c.has(x) for x in q):
                    return None
                if not isinstance(q, str) and not c.inside(q):
                    raise Unsupported("regular expression on a symbolic string")
            took, p = p, []
        else:
            while p:
                q = p[-1]
                if isinstance(q, str):
                    n = len(q)
                    while n and c.has(q[n - 1]):
                        n -= 1
                    if n < len(q):
                        took.insert(0, q[n:])
                    if n:
                        p[-1] = q[:n]
                        break
                    p.pop()
                elif c.inside(q):
                    took.insert(0, q)
                    p.pop()
                elif c.outside(q) and filled(q):
                    break
                else:
                    raise Unsupported("regular expression on a symbolic string")
        t = mk(took)
        whole = tuple(parts(t)) + whole
        if op == "rep" and least and not (t if isinstance(t, str) else bool(t)):
            return None
        for g in groups:
            got[g - 1] = t
    if p and begin:
        return None
    return Pat(mk(whole), got, names)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return is_str(x)

    def __getattr__(cls, k):
        f = getattr(str, k)

        def g(x, *a, **kw):
            if isinstance(x, str):
                return call(x, k, a, kw)
            if not is_str(x):
                raise TypeError(f"descriptor '{k}' for 'str' objects doesn't apply to a '{type(x).__name__}' object")
            return getattr(x, k)(*a, **kw)
        return g if callable(f) else f

    def __call__(cls, *a, **k):
        return to_str(*a, **k) if len(a) == 1 and not k else builtins.str(*a, **k)

    def __getitem__(cls, k):
        return cls

    def __or__(cls, o):
        return cls

    __ror__ = __or__


class VStr(metaclass=_StrMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, *a, **k):
        return to_int(*a, **k)

    def __or__(cls, o):
        return cls

    __ror__ = __or__

    def __getattr__(cls, k):
        return getattr(builtins.int, k)


class VInt(metaclass=_IntMeta):
    pass


def vlen(x):
    return x.length() if isinstance(x, (SStr, SList)) else builtins.len(x)


def vrepr(x):
    if _symbolic(x):
        raise Unsupported("repr of a symbolic value")
    return builtins.repr(x)


def visinstance(x, t):
    if isinstance(t, tuple):
        return any(visinstance(x, y) for y in t)
    if t is str or t is VStr:
        return is_str(x)
    if t is vset or t is set:
        return isinstance(x, (set, SSet))
    if t is vlist or t is list:
        return isinstance(x, (list, SList, SSorted))
    if t is vtuple:
        t = builtins.tuple
    if t is builtins.int or t is VInt:
        return isinstance(x, (builtins.int, SInt))
    return builtins.isinstance(x, t)


def vformat(x, spec=""):
    return _fmt(x, spec)


def vprint(*a, **k):
    return None


SHADOW = dict(str=VStr, int=VInt, len=vlen, repr=vrepr, isinstance=visinstance, format=vformat, print=vprint,
              sorted=vsorted, set=vset, list=vlist, tuple=vtuple, enumerate=venumerate, min=_extreme(min, False), max=_extreme(max, True),
              **{f.__name__: _plain(f) for f in (zip, map, filter, reversed, iter, any, all, sum)})


# ------------------------------------------------------------------ rewriting
class Rewrite(ast.NodeTransformer):
    @staticmethod
    def ref(name):
        return ast.Attribute(ast.Name("__vk", ast.Load()), name, ast.Load())

    def fn(self, node, name, *args):
        return ast.copy_location(ast.Call(self.ref(name), list(args), []), node)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return self.fn(n, "percent", n.left, n.right) if isinstance(n.op, ast.Mod) else n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], self.fn(n, "percent", ast.Name(n.target.id, ast.Load()),
                                                                    n.value)), n)
        return n

    def visit_JoinedStr(self, n):
        xs = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                xs.append(ast.Tuple([self.visit(v.value), spec, ast.Constant(v.conversion)], ast.Load()))
            else:
                xs.append(v)
        return self.fn(n, "fstring", ast.List(xs, ast.Load()))

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "__vk") \
                and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and
                         n.func.value.func.id == "super"):
            a = ast.Tuple([x for x in n.args], ast.Load())
            k = ast.Call(ast.Name("__vk_dict", ast.Load()), [], n.keywords)
            return self.fn(n, "call", n.func.value, ast.Constant(n.func.attr), a, k)
        return n

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.generic_visit(n)
        self.generic_visit(n)
        k = n.slice
        if isinstance(k, ast.Slice):
            N = ast.Constant(None)
            k = ast.Call(ast.Name("__vk_slice", ast.Load()), [k.lower or N, k.upper or N, k.step or N], [])
        elif any(isinstance(x, ast.Slice) for x in ast.walk(k)):
            return n
        return self.fn(n, "getitem", n.value, k)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.fn(n, "contains", n.comparators[0], n.left)
            return c if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name) and \
                not any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(n.elt)):
            f = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
            return self.fn(n, "comp", f, g.iter)
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._comp(n, "set")

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return self._comp(n, "gen")

    def _comp(self, n, kind):
        g = n.generators[0]
        if len(n.generators) != 1 or g.is_async or not isinstance(g.target, ast.Name) or \
                any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n

        def fun(e):
            return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
        cond = ast.Constant(None) if not g.ifs else fun(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return self.fn(n, "comp2", ast.Constant(kind), fun(n.elt), cond, g.iter)

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    def _fun(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg]:
            if a is not None:
                a.annotation = None
        return self.generic_visit(n)

    visit_FunctionDef = visit_AsyncFunctionDef = _fun


def load(path, name="vk_target"):
    """The module's namespace, compiled with the rewriting above."""
    import sys
    import types
    PATH[0] = path
    t = ast.parse(open(path).read())
    t = ast.fix_missing_locations(Rewrite().visit(t))
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(SHADOW)
    m.__dict__["__vk"] = sys.modules[__name__]
    m.__dict__["__vk_dict"] = dict
    m.__dict__["__vk_slice"] = slice
    exec(compile(t, path, "exec"), m.__dict__)
    return m.__dict__
