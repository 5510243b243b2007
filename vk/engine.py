"""Execution of the instrumented code on symbolic data, and the loop rule.

A loop of symbolic length is cut: the invariant (inferred from a discovery
run, see `infer`) is an obligation at the first cut point and after an
arbitrary iteration, and is assumed at an arbitrary iteration and at exit.
"""
import builtins
import functools
import importlib
import itertools
import os
import types

import z3

from . import symnp, terms as tm
from .core import (CTX, Ctx, DiscoveryDone, Limits, PathEnd, SBool, SInt,
                   Unsupported, simp)
from .instrument import instrument
from .symnp import MatBuf, StackBuf, SymArray, VSeqBase, SymBoolArr


class NeedDiscovery(BaseException):
    def __init__(self, key):
        self.key = key


class Poison:
    """A loop variable about which nothing is known."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def __getattribute__(self, n):
        if n == "__class__":
            return Poison
        raise Unsupported("use of " + object.__getattribute__(self, "_why"))


def _pois(name):
    def f(self, *a, **k):
        raise Unsupported("use of " + object.__getattribute__(self, "_why"))
    return f


for _n in ("add radd sub rsub mul rmul matmul rmatmul truediv rtruediv floordiv mod pow neg pos abs "
           "lt le gt ge eq ne bool len iter getitem setitem contains call index int float str format "
           "iadd isub imul itruediv imatmul and or xor invert hash enter exit next setattr").split():
    setattr(Poison, f"__{_n}__", _pois(_n))


def is_poison(v):
    return type(v) is Poison


# ------------------------------------------------------------------ sequences
class VSeq(VSeqBase):
    """Immutable sequence of symbolic length."""

    def __init__(self, n, at, what="sequence"):
        self.n, self.at, self.what = n, at, what

    def symbolic_length(self):
        return self.n

    def item_at(self, i):
        return self.at(SInt.of(i))

    def native_items(self):
        v = CTX.get().const_value(self.n)
        if v is None:
            raise Unsupported(f"native use of a {self.what} of symbolic length")
        return [self.at(SInt(i)) for i in range(v)]

    def __len__(self):
        return len(self.native_items())

    def __iter__(self):
        return iter(self.native_items())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return VList.of(self)[i]
        return self.item_at(symnp.norm_index(i, self.n))

    def __reversed__(self):
        n = SInt.of(self.n)
        return VSeq(self.n, lambda i: self.at(n - 1 - i), self.what)


class SymRange(VSeq):
    def __init__(self, start, stop, step):
        start, stop = SInt.of(start), SInt.of(stop)
        step = SInt.of(step)
        if not step.is_const():
            raise Unsupported("range with symbolic step")
        if step.c == 0:
            raise ValueError("range() arg 3 must not be zero")
        if step.c not in (1, -1):
            d = (stop - start) if step.c > 0 else (start - stop)
            d = SInt.of(d)
            if d.is_const():
                n = SInt(len(range(start.c if start.is_const() else 0, 0, 1)) * 0 + max(0, -(-d.c // abs(step.c))))
            else:
                n = (d + (abs(step.c) - 1)) // abs(step.c)
        else:
            n = (stop - start) if step.c > 0 else (start - stop)
        n = SInt.of(n)
        if n <= 0:
            n = SInt(0)
        self.start, self.step = start, step.c
        super().__init__(simp(n), lambda i: simp(start + SInt.of(i) * self.step), "range")

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("in range with step")
        return bool(SInt.of(x) >= self.start) and bool(SInt.of(x) < self.start + self.n)


class VIter:
    """An iterator with a position."""

    def __init__(self, seq):
        self.seq, self.pos = seq, SInt(0)

    def __iter__(self):
        return self

    def __next__(self):
        n = self.seq.symbolic_length()
        if n is not None and self.pos >= n:
            raise StopIteration
        v = self.seq.item_at(self.pos)
        self.pos = SInt.of(self.pos + 1)
        return v

    def rest(self):
        p = self.pos
        n = self.seq.symbolic_length()
        return VSeq(None if n is None else simp(SInt.of(n) - p),
                    lambda i: self.seq.item_at(SInt.of(i) + p), "iterator")


class VList(VSeqBase):
    """A Python list, possibly with segments of symbolic length."""

    __hash__ = None

    def __init__(self, items=(), entries=None):
        self.entries = list(entries) if entries is not None else [("c", x) for x in items]
        self.writes = []
        self.ver = 0
        self.alias_unknown = False
        ctx = CTX.v
        if ctx is not None:
            ctx.__dict__.setdefault("lists", []).append(self)

    @staticmethod
    def of(x):
        if isinstance(x, VList):
            return x.copy()
        s = as_seq(x)
        if s is None:
            return VList(list(x))
        if CTX.get().const_value(s.symbolic_length()) is not None:
            return VList(s.native_items())
        return VList(entries=[("s", SInt.of(s.symbolic_length()), s.item_at)])

    def touch(self):
        if self.alias_unknown:
            raise Unsupported("change of a list whose aliases were forgotten")
        self.ver += 1

    def snapshot(self):
        return (list(self.entries), list(self.writes))

    def restore(self, s):
        self.entries, self.writes = list(s[0]), list(s[1])

    def symbolic_length(self):
        n = SInt(0)
        for e in self.entries:
            n = SInt.of(n + (1 if e[0] == "c" else e[1]))
        return simp(n)

    def _is_native(self):
        return not self.writes and all(e[0] == "c" for e in self.entries)

    def item_at(self, i):
        return read_list(self.entries, self.writes, i)

    def native_items(self):
        if self._is_native():
            return [e[1] for e in self.entries]
        n = CTX.get().const_value(self.symbolic_length())
        if n is None:
            raise Unsupported("native use of a list of symbolic length")
        return [self.item_at(SInt(i)) for i in range(n)]

    def __len__(self):
        return len(self.native_items()) if not self._is_native() else len(self.entries)

    def __iter__(self):
        if self._is_native():
            return self._live_iter()
        return iter(self.native_items())

    def _live_iter(self):
        i = 0
        while i < len(self.entries):
            yield self.entries[i][1]
            i += 1

    def __reversed__(self):
        return reversed(self.native_items()) if self._is_native() else self[::-1].__iter__()

    def __bool__(self):
        return bool(SInt.of(self.symbolic_length()) != 0)

    def copy(self):
        r = VList(entries=self.entries)
        r.writes = list(self.writes)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as c
        if not self._is_native():
            raise Unsupported("deepcopy of a symbolic list")
        return VList([c.deepcopy(x, memo) for x in self.native_items()])

    def append(self, x):
        self.touch()
        self.entries.append(("c", x))

    def extend(self, xs):
        self.touch()
        o = VList.of(xs)
        if o.writes:
            raise Unsupported("extend by a written list")
        self.entries.extend(o.entries)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if not isinstance(o, VList):
            return NotImplemented
        if self.writes or o.writes:
            raise Unsupported("concatenation of written lists")
        return VList(entries=self.entries + o.entries)

    def __radd__(self, o):
        if isinstance(o, list):
            return VList(o) + self
        return NotImplemented

    def __mul__(self, k):
        n = SInt.of(k)
        c = CTX.get().const_value(n) if CTX.v else n.c
        if c is not None:
            r = VList()
            for _ in range(max(c, 0)):
                r.entries.extend(self.entries)
            return r
        if len(self.entries) == 1 and self.entries[0][0] == "c" and not self.writes:
            x = self.entries[0][1]
            if n <= 0:
                return VList()
            return VList(entries=[("s", n, lambda i: x)])
        raise Unsupported("repetition of a list")

    __rmul__ = __mul__

    def insert(self, i, x):
        if isinstance(i, int) and i == 0 and not self.writes:
            self.touch()
            self.entries.insert(0, ("c", x))
            return
        if self._is_native():
            self.touch()
            self.entries.insert(SInt.of(i).__index__(), ("c", x))
            return
        raise Unsupported("list.insert")

    def appendleft(self, x):
        self.insert(0, x)

    def popleft(self):
        return self.pop(0)

    def pop(self, i=-1):
        if not isinstance(i, int):
            i = i.__index__()
        if not self.writes and self.entries and i in (-1, 0) and self.entries[i][0] == "c":
            self.touch()
            return self.entries.pop(i)[1]
        if not self.writes and i == -1 and self.entries:
            # last element of a segment of symbolic length
            k, n, f = self.entries[-1]
            if n >= 1:
                self.touch()
                self.entries[-1] = ("s", SInt.of(n - 1), f)
                return f(SInt.of(n - 1))
        if self._is_native():
            self.touch()
            return self.entries.pop(i)[1]
        raise Unsupported("list.pop")

    def clear(self):
        self.touch()
        self.entries, self.writes = [], []

    def reverse(self):
        self.touch()
        r = self[::-1]
        self.entries, self.writes = r.entries, r.writes

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if not isinstance(i, (int, SInt)):
            raise TypeError("list indices must be integers or slices")
        return self.item_at(symnp.norm_index(i, self.symbolic_length(), "list index"))

    def _slice(self, s):
        if self._is_native() and all(x is None or isinstance(x, int) or SInt.of(x).is_const()
                                     for x in (s.start, s.stop, s.step)):
            f = lambda x: None if x is None else (x if isinstance(x, int) else x.c)
            return VList(self.native_items()[slice(f(s.start), f(s.stop), f(s.step))])
        n = self.symbolic_length()
        start, step, count = SymArray._slice(None, s, n)
        ents, wr = list(self.entries), list(self.writes)
        if step == -1 and s.start is None and s.stop is None and not wr:
            out = []
            for e in reversed(ents):
                if e[0] == "c":
                    out.append(e)
                else:
                    out.append(("s", e[1], lambda i, e=e: e[2](SInt.of(e[1] - 1) - SInt.of(i))))
            return VList(entries=out)
        return VList(entries=[("s", SInt.of(count),
                               lambda i: read_list(ents, wr, SInt.of(start + SInt.of(i) * step)))])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i == slice(None):
                o = VList.of(v)
                self.touch()
                self.entries, self.writes = o.entries, o.writes
                return
            raise Unsupported("slice assignment to a list")
        i = symnp.norm_index(i, self.symbolic_length(), "list assignment index")
        self.touch()
        if self._is_native() and SInt.of(i).is_const():
            self.entries[SInt.of(i).c] = ("c", v)
            return
        self.writes.append((SInt.of(i), v))

    def __delitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                self.clear()
                return
            raise Unsupported("del list slice")
        self.pop(i)

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        a, b = list(self), list(o)
        return len(a) == len(b) and builtins.all(x is y or x == y for x, y in zip(a, b))

    def __ne__(self, o):
        return not self == o

    def __contains__(self, x):
        return builtins.any(x is y or bool(x == y) for y in self)

    def index(self, x):
        return self.native_items().index(x)

    def count(self, x):
        return self.native_items().count(x)

    def sort(self, **k):
        raise Unsupported("list.sort")

    def __repr__(self):
        return f"<list of {self.symbolic_length()!r}>"


def read_list(entries, writes, i):
    ctx = CTX.get()
    i = SInt.of(i)
    for w, v in reversed(writes):
        d = i - w
        if d.is_const():
            if d.c == 0:
                return v
            continue
        if ctx.branch(d.z == 0):
            return v
    # from the back where that is simpler
    off = SInt(0)
    for k, e in enumerate(entries):
        n = SInt(1) if e[0] == "c" else SInt.of(e[1])
        last = k == len(entries) - 1
        if last or (i - off) < n:
            return e[1] if e[0] == "c" else e[2](SInt.of(i - off))
        off = SInt.of(off + n)
    raise IndexError("list index out of range")


def as_seq(x):
    """A symbolic sequence view of x, or None for native iterables."""
    if isinstance(x, SymArray):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return VSeq(x._shape[0], lambda i: x[simp(SInt.of(i))] if not x.is_stack else x.row(SInt.of(i)), "array")
    if isinstance(x, VIter):
        return x.rest()
    if isinstance(x, VSeqBase):
        return x
    return None


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, VSeqBase):
        return simp(SInt.of(x.symbolic_length()))
    return symnp.s_len(x)


def b_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return range(*a)
    a = [SInt.of(x) for x in a]
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)


def b_zip(*xs, strict=False):
    if not xs:
        return iter(())
    seqs = [as_seq(x) for x in xs]
    if builtins.all(s is None for s in seqs):
        return zip(*xs, strict=strict)
    full = []
    for s, x in zip(seqs, xs):
        if s is None:
            if isinstance(x, (tuple, list, range)):
                s = VSeq(len(x), lambda i, x=x: x[SInt.of(i).__index__()], "tuple")
            elif isinstance(x, itertools.repeat):
                v = next(x, None)
                s = VSeq(None, lambda i, v=v: v)
            else:
                raise Unsupported("zip of a native iterator with a symbolic series")
        full.append(s)
    n = None
    for s in full:
        m = s.symbolic_length()
        if m is None:
            continue
        if n is None:
            n = m
        elif not tm.deq(n, m):
            if strict:
                if not bool(SInt.of(n) == SInt.of(m)):
                    raise ValueError("zip() argument lengths differ")
            elif SInt.of(m) < SInt.of(n):
                n = m
    return VSeq(n, lambda i: tuple(s.item_at(i) for s in full), "zip")


def b_enumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return enumerate(x, start)
    return VSeq(s.symbolic_length(), lambda i: (simp(SInt.of(i) + start), s.item_at(i)), "enumerate")


def b_reversed(x):
    s = as_seq(x)
    if s is None:
        return reversed(x)
    n = SInt.of(s.symbolic_length())
    return VSeq(simp(n), lambda i: s.item_at(SInt.of(n - 1 - i)), "reversed")


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (VList, builtins.list))

    def __call__(cls, x=()):
        if isinstance(x, (VSeqBase, SymArray, VIter)):
            return VList.of(x)
        return VList(builtins.list(x))

    def __getitem__(cls, k):
        return builtins.list[k]

    def __eq__(cls, o):
        return o is cls or o is builtins.list or o is VList

    def __hash__(cls):
        return hash(builtins.list)


class b_list(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.tuple)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.tuple)

    def __call__(cls, x=()):
        if isinstance(x, (VSeqBase, SymArray, VIter)):
            s = as_seq(x)
            if CTX.get().const_value(s.symbolic_length()) is None:
                return VSeq(s.symbolic_length(), s.item_at, "tuple") if not isinstance(s, VList) else s.copy()
            return builtins.tuple(s.native_items())
        return builtins.tuple(x)

    def __getitem__(cls, k):
        return builtins.tuple[k]


class b_tuple(metaclass=_TupleMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return 1 if bool(x) else 0
        if isinstance(x, SymArray):
            raise Unsupported("int() of an array")
        return builtins.int(x, *a)


class b_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymArray):
            if x.size != 1 if isinstance(x.size, int) else not symnp.size_one(x._shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return symnp.fresh_mat(x.scalar_term(), (), symnp.float64)
        if isinstance(x, SInt):
            raise Unsupported("float() of a symbolic integer")
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class b_float(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.bool)

    def __call__(cls, x=False):
        if isinstance(x, (SBool, SymArray, SymBoolArr)):
            return True if x else False
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class b_bool(metaclass=_BoolMeta):
    pass


_BT = {b_list: builtins.list, b_tuple: builtins.tuple, b_int: builtins.int,
       b_float: builtins.float, b_bool: builtins.bool}
for _k, _v in _BT.items():
    if _k in (b_int, b_float, b_bool):
        symnp._DT.setdefault(_k, symnp._DT[_v])
symnp._DT[b_int] = symnp.int64
symnp._DT[b_float] = symnp.float64
symnp._DT[b_bool] = symnp.bool_


def b_isinstance(x, cls):
    if is_poison(x):
        raise Unsupported("isinstance of an unknown value")
    if isinstance(cls, builtins.tuple):
        return builtins.any(b_isinstance(x, c) for c in cls)
    if isinstance(cls, symnp._Abstract) or isinstance(cls, symnp.DType):
        return False
    if cls in (builtins.int, b_int):
        return isinstance(x, (builtins.int, SInt))
    if cls in (builtins.list, b_list):
        return isinstance(x, (builtins.list, VList))
    if cls in (builtins.bool, b_bool):
        return isinstance(x, builtins.bool)
    return isinstance(x, cls)


def _minmax(name, pick):
    nat = getattr(builtins, name)

    def f(*a, key=None, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymArray):
                if x.is_stack or not symnp.size_one(x._shape):
                    return symnp.reduce_opaque(name, x)
                return x[0]
            a = list(x)
        if key is not None:
            return nat(a, key=key, **k)
        if not builtins.any(isinstance(v, (SInt, SymArray)) for v in a):
            return nat(a, **k)
        r = a[0]
        for v in a[1:]:
            if isinstance(v, SymArray) or isinstance(r, SymArray):
                c = symnp.cmp_arr("lt" if name == "min" else "gt", v, r).all()
            else:
                c = (v < r) if name == "min" else (v > r)
            if c:
                r = v
        return r
    return f


def b_sum(x, start=0):
    s = as_seq(x)
    if s is not None:
        if isinstance(x, SymArray) and not x.is_stack and x.ndim == 1:
            return symnp.reduce_opaque("sum", x)
        x = s.native_items()
    r = start
    for v in x:
        r = v if isinstance(r, int) and r == 0 else r + v
    return r


def b_all(x):
    if isinstance(x, (SymBoolArr, SymArray)):
        return x.all()
    s = as_seq(x)
    for v in (x if s is None else s.native_items()):
        if not v:
            return False
    return True


def b_any(x):
    if isinstance(x, (SymBoolArr, SymArray)):
        return x.any()
    s = as_seq(x)
    for v in (x if s is None else s.native_items()):
        if v:
            return True
    return False


def b_map(f, *xs):
    seqs = [as_seq(x) for x in xs]
    if builtins.all(s is None for s in seqs):
        return map(f, *xs)
    z = b_zip(*xs)
    return b_comp("map", {}, z, lambda a: f(*a), ())


def b_filter(f, x):
    s = as_seq(x)
    return filter(f, x if s is None else s.native_items())


def b_iter(x, *a):
    s = as_seq(x)
    if s is None or a:
        return iter(x, *a)
    return x if isinstance(x, VIter) else VIter(s)


def b_sorted(x, **k):
    s = as_seq(x)
    return VList(sorted(x if s is None else s.native_items(), **k))


def b_abs(x):
    return abs(x)


def b_is(a, b):
    if is_poison(a) or is_poison(b):
        raise Unsupported("identity test of an unknown value")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SBool) and isinstance(y, bool):
            raise Unsupported("identity test of a symbolic boolean")
        if isinstance(x, SInt) and isinstance(y, int):
            raise Unsupported("identity test of a symbolic integer")
        if isinstance(x, type) and builtins.any(x is k and y is v for k, v in _BT.items()):
            return True
        if isinstance(x, SymArray) and isinstance(y, SymArray) and x is not y and x.buf is y.buf \
                and x.buf.alias_unknown:
            raise Unsupported("identity test of arrays whose identity was forgotten")
    return a is b


def b_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {VList: b_list, SInt: b_int}.get(t, t)
    return type(*a)


def b_print(*a, **k):
    return None


def b_id(x):
    raise Unsupported("id()")


def b_hasattr(o, n):
    if isinstance(o, SymArray):
        return hasattr(symnp._np.ndarray, n)
    if isinstance(o, VList):
        return hasattr(builtins.list, n)
    if isinstance(o, (SInt,)):
        return hasattr(builtins.int, n)
    return hasattr(o, n)


def b_lst(t):
    return VList(t)


class _Itertools:
    count = itertools.count
    cycle = itertools.cycle

    @staticmethod
    def repeat(v, n=None):
        if n is None:
            return VSeq(None, lambda i: v, "repeat")
        return VSeq(n, lambda i: v, "repeat")

    @staticmethod
    def chain(*xs):
        if builtins.all(as_seq(x) is None for x in xs):
            return itertools.chain(*xs)
        r = VList()
        for x in xs:
            r.extend(x)
        return r

    @staticmethod
    def islice(x, *a):
        s = as_seq(x)
        if s is None:
            return itertools.islice(x, *a)
        return VList.of(s)[slice(*a)]

    @staticmethod
    def accumulate(x, func=None, *, initial=None):
        s = as_seq(x)
        if s is None:
            return itertools.accumulate(x, func, initial=initial)
        if func is None:
            raise Unsupported("itertools.accumulate without a function")
        r = VList()
        cell = {}
        if initial is None:
            raise Unsupported("itertools.accumulate without an initial value")
        r.append(initial)
        acc = initial
        L = b_loop("accumulate", s, 0, False, ("acc", "v"))
        done = False
        while not done:
            done = not L.head({"acc": acc, "r": r, "func": func, "x": x})
            if L.loads:
                acc = L.get("acc")
            if not done:
                acc = func(acc, L.item())
                r.append(acc)
        return r

    @staticmethod
    def starmap(f, x):
        return b_map(lambda a: f(*a), x)

    @staticmethod
    def zip_longest(*xs, fillvalue=None):
        seqs = [as_seq(x) for x in xs]
        if builtins.all(s is None for s in seqs):
            return itertools.zip_longest(*xs, fillvalue=fillvalue)
        ns = [s.symbolic_length() if s is not None else len(x) for s, x in zip(seqs, xs)]
        if builtins.all(bool(SInt.of(n) == SInt.of(ns[0])) for n in ns):
            return b_zip(*xs)
        raise Unsupported("zip_longest of unequal lengths")

    def __getattr__(self, n):
        f = getattr(itertools, n)

        def g(*a, **k):
            if builtins.any(as_seq(x) is not None for x in a):
                raise Unsupported(f"itertools.{n}")
            return f(*a, **k)
        return g


class _Functools:
    @staticmethod
    def reduce(f, x, *init):
        s = as_seq(x)
        if s is None or CTX.get().const_value(s.symbolic_length()) is not None:
            return functools.reduce(f, x if s is None else s.native_items(), *init)
        if not init:
            raise Unsupported("functools.reduce without an initial value")
        acc = init[0]
        L = b_loop("reduce", s, 0, False, ("acc",))
        done = False
        while not done:
            done = not L.head({"acc": acc, "f": f, "x": x})
            if L.loads:
                acc = L.get("acc")
            if not done:
                acc = f(acc, L.item())
        return acc

    def __getattr__(self, n):
        return getattr(functools, n)


class _Math:
    def __getattr__(self, n):
        import math
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if builtins.any(isinstance(x, (SymArray, SInt)) for x in a):
                if n == "isnan" and isinstance(a[0], SymArray):
                    return bool(symnp.isnan(a[0]).all())
                if n in ("ceil", "floor") and isinstance(a[0], SInt):
                    return a[0]
                return symnp.opaque("math." + n, list(a))
            return f(*a)
        return g


class _Dummy:
    """Typing-only names (numpy.typing and the like)."""

    def __getattr__(self, n):
        return _Dummy()

    def __getitem__(self, k):
        return _Dummy()

    def __call__(self, *a, **k):
        return _Dummy()

    def __or__(self, o):
        return self

    __ror__ = __or__


class _Deque:
    def __call__(self, x=(), maxlen=None):
        if maxlen is not None:
            raise Unsupported("deque with maxlen")
        return VList.of(x) if not isinstance(x, builtins.tuple) else VList(x)

    def __getitem__(self, k):
        return self


class _Collections:
    deque = _Deque()

    def __getattr__(self, n):
        import collections
        return getattr(collections, n)


_STD = {"typing", "functools", "dataclasses", "collections", "copy", "warnings",
        "abc", "enum", "contextlib", "operator", "inspect", "numbers", "types", "logging",
        "__future__", "collections.abc", "weakref", "string", "re", "sys", "os", "time", "datetime",
        "threading", "errno", "subprocess"}

_BUILTINS = dict(
    len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, reversed=b_reversed,
    list=b_list, tuple=b_tuple, int=b_int, float=b_float, bool=b_bool, isinstance=b_isinstance,
    min=_minmax("min", 0), max=_minmax("max", 1), sum=b_sum, all=b_all, any=b_any, map=b_map,
    filter=b_filter, iter=b_iter, sorted=b_sorted, type=b_type, print=b_print, hasattr=b_hasattr,
    id=b_id)


# ------------------------------------------------------------------ loader
class Source:
    """The package under verification, read from the working tree."""

    def __init__(self, root):
        self.root = root
        self.code = {}
        self.loops = {}
        self.files = {}

    def get(self, name):
        """Compiled code of submodule `name` ('' for the package)."""
        if name not in self.code:
            p = os.path.join(self.root, (name or "__init__").replace(".", "/") + ".py")
            if not os.path.exists(p):
                p2 = os.path.join(self.root, name.replace(".", "/"), "__init__.py")
                if not os.path.exists(p2):
                    raise ImportError(f"no module kalmankit.{name}")
                p = p2
            src = open(p).read()
            self.files[name] = p
            self.code[name], loops = instrument(src, p, name)
            for sid, f, line in loops:
                self.loops[sid] = (name, f, line)
        return self.code[name]


class Loaded:
    """One fresh execution of the package's modules."""

    def __init__(self, source, pkg="kalmankit", stub_version=True):
        self.source, self.pkg = source, pkg
        self.mods = {}
        self.stub_version = stub_version

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        code = self.source.get(name)
        m = types.ModuleType(f"{self.pkg}.{name}" if name else self.pkg)
        m.__vk__ = True
        bd = dict(vars(builtins))
        bd.update(_BUILTINS)
        bd["__import__"] = self._import
        g = m.__dict__
        g["__builtins__"] = bd
        g["_vk_lst"], g["_vk_comp"], g["_vk_is"] = b_lst, b_comp, b_is
        g["_vk_loop"], g["_vk_while"], g["_vk_locals"] = b_loop, b_while, locals
        g["__file__"] = self.source.files[name]
        self.mods[name] = m
        exec(code, g)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            here = (globals or {}).get("__name__", self.pkg).split(".")
            isp = (globals or {}).get("__file__", "").endswith("__init__.py")
            up = here if isp and level == 1 else here[:len(here) - (level - (1 if isp else 0))]
            name = ".".join(up + ([name] if name else []))
        if name == "numpy" or name.startswith("numpy."):
            if not fromlist:
                return symnp.np
            if name == "numpy":
                return symnp.np
            if name == "numpy.linalg":
                return symnp.linalg
            if name == "numpy.typing":
                return _Dummy()
            raise Unsupported(f"import of {name}")
        if name == self.pkg or name.startswith(self.pkg + "."):
            sub = name[len(self.pkg) + 1:]
            if sub:
                m = self.module(sub)
                if fromlist:
                    return m
            return _Package(self)
        if name == "itertools":
            return _Itertools()
        if name == "functools":
            return _Functools()
        if name == "math":
            return _Math()
        if name == "collections":
            return _Collections()
        if name in _STD:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f"import of {name}")


class _Package:
    def __init__(self, L):
        self._L = L

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        try:
            return self._L.module(n)
        except ImportError:
            pass
        for sub in ("standard", "extended", "utils"):
            m = self._L.module(sub)
            if hasattr(m, n):
                return getattr(m, n)
        raise AttributeError(n)


# ------------------------------------------------------------------ heap walk
def is_inst(v):
    """An instance of a class defined in the code under verification."""
    t = type(v)
    if isinstance(v, (type, types.ModuleType)):
        return False
    return t is VIter or (getattr(t, "__module__", "") or "").startswith("kalmankit") and hasattr(v, "__dict__")


def is_code_ns(v):
    """A module or class of the code under verification."""
    if isinstance(v, types.ModuleType):
        return getattr(v, "__vk__", False) is True
    return isinstance(v, type) and (getattr(v, "__module__", "") or "").startswith("kalmankit")


def k_native(f):
    return not (getattr(f, "__module__", "") or "").startswith("kalmankit")


def children(v):
    """(slot key, value) pairs of a container value."""
    if isinstance(v, VList):
        return [(("item", k), e[1]) for k, e in enumerate(v.entries) if e[0] == "c"]
    if isinstance(v, tuple):
        return [(("t", k), x) for k, x in enumerate(v)]
    if isinstance(v, dict):
        return [(("dict", id(v), repr(k)), x) for k, x in v.items()]
    if isinstance(v, (list, set)):
        return [(("i", k), x) for k, x in enumerate(v)]
    if isinstance(v, types.MethodType):
        return [(("self",), v.__self__), (("func",), v.__func__)]
    if isinstance(v, functools.partial):
        return [(("f",), v.func)] + [(("a", k), x) for k, x in enumerate(v.args)] + \
            [(("k", k), x) for k, x in v.keywords.items()]
    if isinstance(v, types.FunctionType):
        out = []
        for k, c in enumerate(v.__closure__ or ()):
            try:
                out.append((("cell", id(c)), c.cell_contents))
            except ValueError:
                pass
        for k, x in enumerate(v.__defaults__ or ()):
            out.append((("default", k), x))
        for k, x in (v.__kwdefaults__ or {}).items():
            out.append((("default", k), x))
        if not k_native(v):
            out += [(("attr", id(v), n), x) for n, x in vars(v).items() if not n.startswith("__")]
        return out
    if isinstance(v, (staticmethod, classmethod)):
        return [(("func",), v.__func__)]
    if isinstance(v, property):
        return [(("func",), f) for f in (v.fget, v.fset) if f is not None]
    if is_code_ns(v):
        return [(("glob", id(v), n), x) for n, x in list(vars(v).items())
                if not n.startswith(("__", "_vk_")) or n in ("__slots__",)]
    if isinstance(v, VSeq):
        out = []
        for k, c in enumerate(getattr(v.at, "__closure__", None) or ()):
            try:
                out.append((("seqcell", k), c.cell_contents))
            except ValueError:
                pass
        return out
    if is_inst(v):
        return [(("attr", id(v), n), x) for n, x in vars(v).items()]
    return []


class Heap:
    """Slots and containers reachable from the given roots."""

    def __init__(self, loc, roots):
        self.slots = {}      # ("local", n) / ("attr", id, n) / ("cell", id) -> value
        self.owner = {}      # slot -> setter target
        self.bufs = {}
        self.lists = {}
        self.keep = []
        seen = set()
        work = []
        for n, v in loc.items():
            if n.startswith("_vk_"):
                continue
            self.slots[("local", n)] = v
            work.append(v)
        for n, v in roots.items():
            work.append(v)
        while work:
            v = work.pop()
            if is_poison(v) or v is None or isinstance(v, (int, float, str, bool, SInt, SBool, Loop)):
                continue
            if isinstance(v, (type, types.ModuleType)) and not is_code_ns(v):
                continue
            if id(v) in seen:
                continue
            seen.add(id(v))
            self.keep.append(v)
            if isinstance(v, SymArray):
                self.bufs[v.buf.id] = v.buf
                continue
            if isinstance(v, VList):
                self.lists[id(v)] = v
            for key, x in children(v):
                if key[0] in ("attr", "cell", "dict", "glob"):
                    self.slots[key] = x
                    self.owner[key] = v
                work.append(x)

    def set(self, key, val):
        if key[0] == "attr":
            vars(self.owner[key])[key[2]] = val
        elif key[0] == "glob":
            setattr(self.owner[key], key[2], val)
        elif key[0] == "cell":
            for c in self.owner[key].__closure__:
                if id(c) == key[1]:
                    c.cell_contents = val
        elif key[0] == "dict":
            d = self.owner[key]
            for k in list(d):
                if repr(k) == key[2]:
                    d[k] = val


# ------------------------------------------------------------------ templates
class NoFit(Exception):
    pass


class TConst:
    def __init__(self, v):
        self.v = v

    def inst(self, i, st):
        return self.v

    def check(self, v, i, st):
        if is_poison(v):
            return f"expected {self.v!r}, found an unknown value"
        if v is self.v:
            return None
        if isinstance(v, (int, float, str, bool, type(None))) and type(v) is type(self.v) and v == self.v:
            return None
        if isinstance(v, SInt) or isinstance(self.v, SInt):
            if isinstance(v, (int, SInt)) and isinstance(self.v, (int, SInt)) and CTX.get().eq(v, self.v):
                return None
        if isinstance(v, SymArray) and isinstance(self.v, SymArray) and v.buf is self.v.buf and \
                same_view(v, self.v):
            return None
        if isinstance(v, types.MethodType) and isinstance(self.v, types.MethodType) and \
                v.__self__ is self.v.__self__ and v.__func__ is self.v.__func__:
            return None
        if isinstance(v, VSeq) and isinstance(self.v, VSeq):
            return "a sequence that differs"
        return f"expected the unchanged value {self.v!r}, found {v!r}"

    def __repr__(self):
        return f"const({self.v!r})"


def same_view(a, b):
    if a.is_stack != b.is_stack or a.tr != b.tr or len(a._shape) != len(b._shape):
        return False
    if not all_deq(a._shape, b._shape):
        return False
    if a.is_stack:
        return tm.deq(a.span[0], b.span[0]) and a.span[1] == b.span[1]
    if (a.sel is None) != (b.sel is None):
        return False
    return a.sel is None or tm.deq(a.sel, b.sel)


def all_deq(a, b):
    return len(a) == len(b) and builtins.all(tm.deq(x, y) for x, y in zip(a, b))


class TInt:
    def __init__(self, a, b):
        self.a, self.b = a, b   # a + b*i

    def inst(self, i, st):
        return simp(SInt.of(self.a + self.b * SInt.of(i)))

    def check(self, v, i, st):
        if not isinstance(v, (int, SInt)) or isinstance(v, bool):
            return f"expected an integer, found {v!r}"
        w = self.inst(i, st)
        if CTX.get().eq(v, w):
            return None
        return f"expected {w!r}, found {v!r}"

    def __repr__(self):
        return f"{self.a!r}+{self.b}*i"


class TTerm:
    """Matrix term as a function of the iteration number."""

    def __init__(self, fn, text, spec=False):
        self.fn, self.text, self.spec = fn, text, spec

    def at(self, i):
        return self.fn(SInt.of(i))


class TArr:
    """An array in storage of its own (alias classes by `cls`)."""

    def __init__(self, cls, term, bshape, shape, tr, dtype, origin):
        self.cls, self.term, self.bshape, self.shape = cls, term, bshape, shape
        self.tr, self.dtype, self.origin = tr, dtype, origin

    def inst(self, i, st):
        b = st.get(("buf", self.cls))
        if b is None:
            b = MatBuf(self.term.at(i), self.bshape, self.dtype, self.origin, "loop state")
            b.alias_unknown = st.get("alias_unknown", False)
            st[("buf", self.cls)] = b
        return SymArray(b, self.shape, None, self.tr)

    def check(self, v, i, st):
        if not isinstance(v, SymArray):
            return f"expected an array, found {v!r}"
        if v.is_stack:
            return "expected a matrix, found a series"
        if not all_deq(v._shape, self.shape):
            return f"expected shape {self.shape}, found {v._shape}"
        if v.dtype is not self.dtype:
            return f"expected {self.dtype}, found {v.dtype}"
        if not st.get("alias_unknown"):
            if v.sel is not None or v.buf.origin != self.origin:
                return "expected an array in storage of its own"
            k = ("cls", self.cls)
            if k in st and st[k] is not v.buf or ("of", v.buf.id) in st and st[("of", v.buf.id)] != self.cls:
                return "sharing of storage differs"
            st[k] = v.buf
            st[("of", v.buf.id)] = self.cls
        t = self.term.at(i)
        if self.tr:
            t = tm.t_t(t)
        if tm.equal(v.term(), t):
            return None
        return (f"expected {self.text()} = {tm.show(tm.canon_poly(t.p))}, found "
                f"{tm.show(tm.canon_poly(v.term().p))}")

    def text(self):
        return self.term.text

    def __repr__(self):
        return f"array({self.term.text})"


class TView:
    """A row of an array that outlives the iteration."""

    def __init__(self, buf, sel, shape, tr):
        self.buf, self.sel, self.shape, self.tr = buf, sel, shape, tr

    def inst(self, i, st):
        return SymArray(self.buf, self.shape, sel=SInt.of(self.sel.inst(i, st)), tr=self.tr)

    def check(self, v, i, st):
        if not isinstance(v, SymArray) or v.buf is not self.buf or v.sel is None:
            return "expected a row of the same array"
        if not all_deq(v._shape, self.shape) or v.tr != self.tr:
            return "shape differs"
        return self.sel.check(v.sel, i, st)

    def __repr__(self):
        return f"row {self.sel!r} of {self.buf.name or self.buf.id}"


class TTuple:
    def __init__(self, cls, parts):
        self.cls, self.parts = cls, parts

    def inst(self, i, st):
        xs = [p.inst(i, st) for p in self.parts]
        return tuple(xs) if self.cls is tuple else self.cls._make(xs)

    def check(self, v, i, st):
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            return f"expected a tuple of {len(self.parts)}"
        for p, x in zip(self.parts, v):
            r = p.check(x, i, st)
            if r:
                return r
        return None

    def __repr__(self):
        return f"({', '.join(map(repr, self.parts))})"


class TInst:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def inst(self, i, st):
        o = self.cls.__new__(self.cls)
        for n, t in self.attrs.items():
            vars(o)[n] = t.inst(i, st)
        return o

    def check(self, v, i, st):
        if type(v) is not self.cls or set(vars(v)) != set(self.attrs):
            return f"expected an instance of {self.cls.__name__}"
        for n, t in self.attrs.items():
            r = t.check(vars(v)[n], i, st)
            if r:
                return f"{n}: {r}"
        return None

    def __repr__(self):
        return f"{self.cls.__name__}({self.attrs})"


class TPoison:
    def __init__(self, why):
        self.why = why

    def inst(self, i, st):
        return Poison(self.why)

    def check(self, v, i, st):
        return None

    def __repr__(self):
        return "?"


# ------------------------------------------------------------------ inference
class Infer:
    """Fits templates to the values of two successive iterations a, a+1."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = {}
        self.memo = {}

    def int_(self, v1, v2, a):
        d = SInt.of(v2) - SInt.of(v1)
        d = SInt.of(d)
        if not d.is_const():
            raise NoFit("integer that changes by a variable amount")
        if d.c == 0:
            return TConst(v1)
        return TInt(SInt.of(SInt.of(v1) - d.c * a), d.c)

    def term(self, t1, t2, a):
        k = (t1.p.frozen(), t2.p.frozen(), a)
        if k not in self.memo:
            try:
                self.memo[k] = self._term(t1, t2, a)
            except NoFit as e:
                self.memo[k] = e
        r = self.memo[k]
        if isinstance(r, NoFit):
            raise r
        return r

    def _term(self, t1, t2, a):
        p1, p2 = tm.canon_poly(t1.p), tm.canon_poly(t2.p)
        if p1.frozen() == p2.frozen():
            return TTerm(lambda i: t1, tm.show(p1))
        b1 = match_family(t1)
        b2 = match_family(t2)
        for fam1, i1, tr1 in b1:
            for fam2, i2, tr2 in b2:
                if fam1 is fam2 and tr1 == tr2:
                    d = SInt.of(SInt.of(i2) - SInt.of(i1))
                    if d.is_const() and d.c in (1, -1):
                        c0 = SInt.of(SInt.of(i1) - d.c * a)

                        def fn(i, fam=fam1, c0=c0, s=d.c, tr=tr1):
                            t = fam.at(SInt.of(c0 + s * SInt.of(i)))
                            return tm.t_t(t) if tr else t
                        return TTerm(fn, f"{fam1.name}[{c0!r}{'+' if d.c > 0 else '-'}i]", spec=fam1.unfold is not None)
        # generalisation: every time index moves with the iteration
        for s in (1, -1):
            q = shift_poly(p1, s)
            if tm.canon_poly(q).frozen() == p2.frozen():
                return TTerm(lambda i, s=s: tm.Term(shift_poly(p1, SInt.of(s * (SInt.of(i) - a))), t1.n),
                             f"shift({tm.show(p1)})")
        raise NoFit(f"no pattern: {tm.show(p1)} then {tm.show(p2)}")

    def value(self, v1, v2, a, persistent, depth=0):
        if depth > 6:
            raise NoFit("deep value")
        if is_poison(v1) or is_poison(v2):
            raise NoFit("unknown value")
        if isinstance(v1, bool) or isinstance(v2, bool) or v1 is None or isinstance(v1, (str, float)):
            if type(v1) is type(v2) and v1 == v2:
                return TConst(v1)
            raise NoFit("value changes")
        if isinstance(v1, (int, SInt)) and isinstance(v2, (int, SInt)):
            return self.int_(v1, v2, a)
        if isinstance(v1, SymArray) and isinstance(v2, SymArray):
            return self.array(v1, v2, a, persistent)
        if isinstance(v1, tuple) and type(v1) is type(v2) and len(v1) == len(v2):
            return TTuple(type(v1), [self.value(x, y, a, persistent, depth + 1) for x, y in zip(v1, v2)])
        if v1 is v2:
            return TConst(v1)
        if isinstance(v1, types.MethodType) and isinstance(v2, types.MethodType) and \
                v1.__self__ is v2.__self__ and v1.__func__ is v2.__func__:
            return TConst(v1)
        if is_inst(v1) and type(v1) is type(v2) and id(v1) not in persistent and id(v2) not in persistent:
            if set(vars(v1)) == set(vars(v2)):
                return TInst(type(v1), {n: self.value(vars(v1)[n], vars(v2)[n], a, persistent, depth + 1)
                                        for n in vars(v1)})
        raise NoFit(f"{type(v1).__name__} then {type(v2).__name__}")

    def array(self, v1, v2, a, persistent):
        if v1.buf is v2.buf:
            if same_view(v1, v2):
                return TConst(v1)
            if v1.sel is not None and v2.sel is not None and v1.tr == v2.tr and all_deq(v1._shape, v2._shape):
                return TView(v1.buf, self.int_(v1.sel, v2.sel, a), v1._shape, v1.tr)
            raise NoFit("views that differ")
        if v1.is_stack or v2.is_stack or v1.sel is not None or v2.sel is not None:
            raise NoFit("series built in the loop")
        if v1.dtype is not v2.dtype or not all_deq(v1._shape, v2._shape) or v1.tr != v2.tr or \
                v1.buf.origin != v2.buf.origin:
            raise NoFit("shape or type changes")
        if id(v1.buf) in persistent and v1.buf.origin != "fresh" or \
                id(v2.buf) in persistent and v2.buf.origin != "fresh":
            pass
        key = (v1.buf.id, v2.buf.id)
        if key not in self.cls:
            if builtins.any(k[0] == key[0] or k[1] == key[1] for k in self.cls):
                raise NoFit("sharing pattern changes")
            self.cls[key] = len(self.cls)
        t = self.term(v1.buf.read(), v2.buf.read(), a)
        return TArr(self.cls[key], t, v1.buf.shape, v1._shape, v1.tr, v1.dtype, v1.buf.origin)


def shift_poly(p, s):
    def fn(a):
        if a.kind == "sym" and a.data[1] is not None:
            fam, idx = a.data
            return tm.p_atom(tm.sym_atom(fam, SInt.of(idx + s)))
        if a.kind == "basis":
            return tm.p_atom(tm.basis_atom(a.rows, SInt.of(a.data[0] + s)))
        return None
    return tm.subst(p, fn)


def match_family(t):
    """[(family, index, transposed)] whose member equals t."""
    ctx = CTX.get()
    p = tm.canon_poly(t.p)
    if len(p.m) == 1:
        ((s, w), c), = p.m.items()
        f = None
        if c == 1 and not s and len(w) == 1:
            f = w[0]
        elif c == 1 and not w and len(s) == 1 and len(s[0]) == 1:
            f = s[0][0]
        if f is not None:
            a = tm.ATOMS[f >> 1]
            if a.kind == "sym" and a.data[1] is not None:
                return [(a.data[0], a.data[1], f & 1)]
    memo = ctx.__dict__.setdefault("fam_memo", {})
    k = p.frozen()
    if k in memo:
        return memo[k]
    out = []
    cands = []
    ats = tm.atoms_of(p)
    idxs = {}
    for a in ats.values():
        if a.kind == "sym" and a.data[1] is not None:
            idxs.setdefault(a.data[1].key, a.data[1])
    fams = ctx.__dict__.get("spec_families", [])
    tt = tm.t_t(t)
    for fam in fams:
        for tr, x in ((0, t), (1, tt)):
            if not (tm.deq(fam.rows, x.rows) and tm.deq(fam.cols, x.cols)):
                continue
            if tr and (fam.sym or tm.is1(fam.rows) and tm.is1(fam.cols)):
                continue
            tried = set()
            for ix in idxs.values():
                for d in (0, 1, -1, 2):
                    j = ctx.canon(SInt.of(ix + d))
                    if j.key in tried:
                        continue
                    tried.add(j.key)
                    if fam.unfold(j) is None:
                        continue
                    if tm.equal(x, fam.at(j)):
                        out.append((fam, j, tr))
                        break
                if out:
                    break
            if out:
                break
        if out:
            break
    memo[k] = out
    return out


class StackTemplate:
    """Rows written by the loop, one per iteration and position pattern."""

    def __init__(self, pats):
        self.pats = pats      # list of (pos TInt/TConst, TTerm)


class ListTemplate:
    def __init__(self, side, item):
        self.side, self.item = side, item


class LoopTemplates:
    def __init__(self, peel):
        self.peel = peel
        self.slots = {}
        self.mats = {}
        self.stacks = {}
        self.lists = {}
        self.diffs = []       # while: candidate relations
        self.by_order = {}


class LoopDB:
    """Templates of the loops of one verification unit, by (loop, occurrence,
    path prefix)."""

    def __init__(self):
        self.t = {}
        self.failed = {}
        self.dropped = {}     # key -> set of slot names not to be used
        self.changed = False  # a candidate relation was withdrawn


# ------------------------------------------------------------------ loops
class Loop:
    def __init__(self, eng, sid, seq, line, is_gen, names, kind):
        self.ctx = CTX.get()
        self.sid, self.seq, self.line, self.names, self.kind = sid, seq, line, names, kind
        self.is_gen = is_gen
        self.loads = False
        self.vals = {}
        self.i = SInt(0)
        self.phase = "native"
        self.hist = []
        ctx = self.ctx
        self.taken0 = len(ctx.taken)
        self.nb0 = getattr(ctx, "nbranch", 0)
        self.native_it = None
        if kind == "for":
            if seq is None:
                raise Unsupported("loop over nothing")
            s = as_seq(seq)
            if s is None:
                self.native_it = iter(seq)
                self.phase = "iter"
            elif isinstance(s, VList) and s._is_native():
                self.native_it = iter(s)
                self.phase = "iter"
            else:
                self.s = s
                n = s.symbolic_length()
                if n is None:
                    raise Unsupported("unbounded loop")
                self.n = SInt.of(n)
                if ctx.const_value(self.n) is not None:
                    self.n = SInt(ctx.const_value(self.n))
                    self.phase = "native"
                else:
                    self.phase = "sym"
        else:
            self.phase = "while"

    # ---- common
    def key(self):
        c = self.ctx
        return (self.sid, self.occ, tuple(c.taken[:self.taken0 + (1 if False else 0)]))

    def _enter_sym(self, loc):
        ctx = self.ctx
        if self.is_gen:
            raise Unsupported("loop of symbolic length in a generator")
        if getattr(ctx, "in_cut", 0):
            raise Unsupported("nested loops of symbolic length")
        k = ctx.loop_count.get(self.sid, 0)
        ctx.loop_count[self.sid] = k + 1
        self.occ = k
        self.base = self.snap(loc)

    def snap(self, loc):
        h = Heap(loc, self.ctx.roots)
        s = types.SimpleNamespace()
        s.heap = h
        s.slots = dict(h.slots)
        s.mat = {i: (b, b.ver, b.snapshot()) for i, b in h.bufs.items() if isinstance(b, MatBuf)}
        s.stk = {i: (b, b.ver, b.snapshot()) for i, b in h.bufs.items() if isinstance(b, StackBuf)}
        s.lst = {i: (l, l.ver, l.snapshot()) for i, l in h.lists.items()}
        s.allver = {b.id: b.ver for b in self.ctx.__dict__.get("bufs", [])}
        s.lver = {id(l): l.ver for l in self.ctx.__dict__.get("lists", [])}
        s.persistent = {id(x) for x in h.keep} | {id(b) for b in h.bufs.values()}
        return s

    def get(self, name):
        return self.vals.get(name, Poison(f"unbound local {name}"))

    # ---- for
    def head(self, loc):
        if self.kind == "while":
            return self._while_head(loc)
        if self.phase == "iter":
            try:
                self._cur = next(self.native_it)
                return True
            except StopIteration:
                return False
        if self.phase == "native":
            if self.i.c < self.n.c:
                self._cur = self.s.item_at(self.i)
                self.i = SInt(self.i.c + 1)
                return True
            return False
        ctx = self.ctx
        if self.phase == "sym":
            self._enter_sym(loc)
            if self.n <= 0:
                self.phase = "done"
                return False
            self.phase = "peeled"
            self.peel = 1
            self._cur = self.s.item_at(SInt(0))
            ctx.in_cut = 1
            return True
        if self.phase == "peeled":
            ctx.in_cut = 0
            return self._at_cut(loc)
        if self.phase == "disc":
            return self._disc_head(loc)
        if self.phase == "preserve":
            self._preserve(loc)
        return False

    def item(self):
        return self._cur

    def _at_cut(self, loc):
        ctx = self.ctx
        db = ctx.loopdb
        key = self.key()
        if key in db.failed:
            raise Unsupported(f"no loop invariant found for {self.sid}: {db.failed[key]}")
        if key not in db.t:
            if ctx.discover == key:
                self.phase = "disc"
                if self.kind == "for":
                    if not ctx.feasible((self.n >= self.peel + 3).z if isinstance(self.n >= self.peel + 3, SBool) else True):
                        raise Unsupported("loop too short")
                    ctx.assume((self.n - (self.peel + 3)).z >= 0)
                for v in getattr(ctx, "time_vars", []):
                    ctx.assume(z3.Int(v) >= self.peel + 6)
                self.i = SInt(self.peel)
                return self._disc_head(loc)
            raise NeedDiscovery(key)
        T = db.t[key]
        self.T = T
        self._check(loc, SInt(self.peel), "init")
        d = ctx.choose(2, f"loop {self.sid}")
        i = SInt.var(ctx.fresh("k"))
        if self.kind == "for":
            if d == 0:
                ctx.assume(z3.And(i.z >= self.peel, i.z < self.n.z))
                ctx.trail.append(f"iteration {i!r}")
                if not ctx.feasible(True if False else z3.BoolVal(True)):
                    raise PathEnd("infeasible")
            else:
                i = self.n
                ctx.assume(self.n.z >= self.peel)
        else:
            # while: d=1 checks the relations at the first cut point only
            if d == 1:
                self.phase = "winit"
                return True
            ctx.assume(i.z >= self.peel)
        if ctx.solver.check() == z3.unsat:
            raise PathEnd("infeasible")
        self.i = i
        self._havoc(loc, i)
        if self.kind == "for":
            if d == 0:
                self.phase = "preserve"
                self._cur = self.s.item_at(i)
                ctx.in_cut = 1
                return True
            self.phase = "done"
            return False
        self.phase = "wtest"
        return True

    # ---- discovery
    def _disc_head(self, loc):
        ctx = self.ctx
        ctx.in_cut = 1
        self._fold(loc)
        s = self.snap(loc)
        self.hist.append(s)
        if len(self.hist) == 2:
            T = self._infer()
            ctx.loopdb.t[self.key()] = T
            raise DiscoveryDone()
        if self.kind == "for":
            self._cur = self.s.item_at(self.i)
        self.i = SInt.of(self.i + 1)
        return True

    def _fold(self, loc):
        """Replace values by the specification families they equal."""
        h = Heap(loc, self.ctx.roots)
        base = self.base
        for b in h.bufs.values():
            if isinstance(b, MatBuf) and b.origin == "fresh":
                m = match_family(b.term)
                if m:
                    fam, j, tr = m[0]
                    t = fam.at(j)
                    b.term = tm.t_t(t) if tr else t
            elif isinstance(b, StackBuf):
                n0 = len(base.stk[b.id][2][1]) if b.id in base.stk else 0
                if n0 > len(b.writes):
                    continue
                for k in range(n0, len(b.writes)):
                    w, t = b.writes[k]
                    m = match_family(t)
                    if m:
                        fam, j, tr = m[0]
                        t = fam.at(j)
                        b.writes[k] = (w, tm.t_t(t) if tr else t)
        for l in h.lists.values():
            for e in l.entries:
                if e[0] == "c" and isinstance(e[1], SymArray) and isinstance(e[1].buf, MatBuf):
                    b = e[1].buf
                    m = match_family(b.term)
                    if m and b.origin == "fresh":
                        fam, j, tr = m[0]
                        b.term = tm.t_t(fam.at(j)) if tr else fam.at(j)

    def _infer(self):
        ctx = self.ctx
        s0, s1, s2 = self.base, self.hist[0], self.hist[1]
        a = self.peel
        T = LoopTemplates(a)
        inf = Infer(ctx)
        drop = ctx.loopdb.dropped.get(self.key(), set())
        why = {}
        pers = s1.persistent
        for key, v2 in s2.slots.items():
            if key[0] == "local" and key[1] not in self.names and key in s1.slots:
                continue
            name = key[1] if key[0] == "local" else f"{key[0]}:{key[-1]}"
            if key not in s1.slots:
                if key[0] != "local" and key not in s0.slots:
                    continue       # part of an object created by the iteration
                T.slots[key] = TPoison(f"{name}, first bound late in the loop")
                continue
            v1 = s1.slots[key]
            if key[0] in ("attr", "dict", "cell", "glob"):
                own = s2.heap.owner[key]
                if id(own) not in pers:
                    continue
                if v1 is v2:
                    continue
            if self._slotname(key) in drop:
                T.slots[key] = TPoison(f"{name} (no invariant)")
                continue
            try:
                T.slots[key] = inf.value(v1, v2, a, pers)
            except NoFit as e:
                T.slots[key] = TPoison(f"{name}: {e}")
                ctx.notes.append(("nofit", name, str(e)))
        # storage
        for i, (b, ver2, sn2) in s2.mat.items():
            if i not in s1.mat:
                continue
            _, ver1, sn1 = s1.mat[i]
            if ver1 == ver2 or i not in s0.mat and False:
                continue
            try:
                T.mats[i] = (b, inf.term(sn1, sn2, a))
            except NoFit as e:
                T.mats[i] = (b, None)
        for i, (b, ver2, sn2) in s2.stk.items():
            if i not in s1.stk or s1.stk[i][1] == ver2:
                continue
            T.stacks[i] = (b, self._infer_rows(inf, b, s0, s1, s2, i, a))
        for i, (l, ver2, sn2) in s2.lst.items():
            if i not in s1.lst or s1.lst[i][1] == ver2:
                continue
            T.lists[i] = (l, self._infer_list(inf, l, s0, s1, s2, i, a, pers))
        # identify objects across runs by their order of discovery
        T.order = self._order(s1)
        T.rel = dict(getattr(self, "disc_rel", {}))
        return T

    def _order(self, s):
        """Run-independent names of the storage: position in the heap walk."""
        o = {}
        for n, i in enumerate(s.heap.bufs):
            o[("b", i)] = n
        for n, i in enumerate(s.heap.lists):
            o[("l", i)] = n
        n = 0
        for v in s.heap.keep:
            if is_inst(v) or isinstance(v, (dict, types.FunctionType)) or is_code_ns(v):
                o[("o", id(v))] = n
                n += 1
        cells = [k for k in s.slots if k[0] == "cell"]
        for n, k in enumerate(cells):
            o[("c", k[1])] = n
        return o

    def _infer_rows(self, inf, b, s0, s1, s2, i, a):
        if a != 1 or i not in s0.stk:
            return None
        fn0, w0 = s0.stk[i][2]
        fn1, w1 = s1.stk[i][2]
        fn2, w2 = s2.stk[i][2]
        if fn0 is not fn1 or fn1 is not fn2 or len(w1) < len(w0) or len(w2) < len(w1):
            return None
        if builtins.any(x[0].key != y[0].key for x, y in zip(w0, w1)) or \
                builtins.any(x[0].key != y[0].key for x, y in zip(w1, w2)):
            return None
        it0, it1 = dedupe(w1[len(w0):]), dedupe(w2[len(w1):])
        if len(it0) != len(it1):
            return None
        pats = []
        try:
            for (p0, t0), (p1, t1) in zip(it0, it1):
                pos = inf.int_(p0, p1, 0)
                if isinstance(pos, TInt) and pos.b not in (1, -1):
                    return None
                pats.append((pos, inf.term(t0, t1, 0)))
        except NoFit as e:
            self.ctx.notes.append(("nofit", "rows", str(e)))
            return None
        return StackTemplate(pats)

    def _infer_list(self, inf, l, s0, s1, s2, i, a, pers):
        if a != 1 or i not in s0.lst:
            return None
        e0, w0 = s0.lst[i][2]
        e1, w1 = s1.lst[i][2]
        e2, w2 = s2.lst[i][2]
        n0, n1, n2 = len(e0), len(e1), len(e2)
        inf2 = Infer(self.ctx)
        inf2.memo = inf.memo

        def same(xs, ys):
            return len(xs) == len(ys) and builtins.all(
                x is y or x[0] == y[0] == "c" and x[1] is y[1] for x, y in zip(xs, ys))
        try:
            if len(w0) == len(w1) == len(w2) and n1 == n0 + 1 and n2 == n1 + 1:
                if same(e1[:n0], e0) and same(e2[:n1], e1):
                    return ListTemplate("end", inf2.value(e1[-1][1], e2[-1][1], 0, pers))
                if same(e1[1:], e0) and same(e2[1:], e1) and not w0:
                    return ListTemplate("front", inf2.value(e1[0][1], e2[0][1], 0, pers))
            if same(e0, e1) and same(e1, e2):
                it0, it1 = w1[len(w0):], w2[len(w1):]
                if len(it0) == len(it1) == 1:
                    pos = inf.int_(it0[0][0], it1[0][0], 0)
                    if isinstance(pos, TInt) and pos.b in (1, -1):
                        return ListTemplate(("write", pos), inf2.value(it0[0][1], it1[0][1], 0, pers))
        except NoFit as e:
            self.ctx.notes.append(("nofit", "list", str(e)))
        return None

    # ---- verification
    def _slotname(self, key):
        return f"{key[0]}:{key[-1]}" if key[0] != "cell" else "cell"

    def _map(self, T, s):
        """Translate the storage ids of the discovery run to this run."""
        o = self._order(s)
        inv = {}
        for k, n in o.items():
            inv[(k[0], n)] = k[1]
        tr = {}
        for k, n in T.order.items():
            if (k[0], n) in inv:
                tr[k] = inv[(k[0], n)]
        return tr

    def _retarget(self, t, tr, s):
        """Template with references into the discovery run's heap replaced."""
        bufs = s.heap.bufs
        objs = {id(v): v for v in s.heap.keep}

        def val(v):
            if isinstance(v, SymArray):
                b = tr.get(("b", v.buf.id))
                if b is None or b not in bufs:
                    raise NoFit("array not found")
                return SymArray(bufs[b], v._shape, v.sel, v.tr, v.span)
            if isinstance(v, VList):
                l = tr.get(("l", id(v)))
                if l is None:
                    raise NoFit("list not found")
                return s.heap.lists[l]
            if isinstance(v, types.MethodType) and is_inst(v.__self__):
                o = val(v.__self__)
                return getattr(o, v.__func__.__name__)
            if is_inst(v) or isinstance(v, dict):
                o = tr.get(("o", id(v)))
                if o is None:
                    raise NoFit("object not found")
                return objs[o]
            if v is None or isinstance(v, (int, float, str, bool, SInt)):
                return v
            raise NoFit(f"a {type(v).__name__} assigned in the loop")

        def cls_of(c):
            if c is tuple:
                return c
            m = self.ctx.loaded.mods.get(c.__module__.partition(".")[2])
            if m is None or not hasattr(m, c.__name__):
                raise NoFit("class not found")
            return getattr(m, c.__name__)

        def go(t):
            if isinstance(t, TConst):
                return TConst(val(t.v))
            if isinstance(t, TView):
                b = tr.get(("b", t.buf.id))
                if b is None:
                    raise NoFit("array not found")
                return TView(bufs[b], t.sel, t.shape, t.tr)
            if isinstance(t, TTuple):
                return TTuple(cls_of(t.cls), [go(x) for x in t.parts])
            if isinstance(t, TInst):
                return TInst(cls_of(t.cls), {n: go(x) for n, x in t.attrs.items()})
            return t
        return go(t)

    def _resolve(self, loc):
        """Templates of this loop in terms of this run's heap."""
        s = self.snap(loc)
        T = self.T
        tr = self._map(T, s)
        R = types.SimpleNamespace(slots={}, mats={}, stacks={}, lists={})
        drop = self.ctx.loopdb.dropped.get(self.key(), set())
        for key, t in T.slots.items():
            k = key
            if key[0] in ("attr", "dict", "glob"):
                o = tr.get(("o", key[1]))
                if o is None:
                    raise Unsupported("heap shape differs between runs")
                k = (key[0], o, key[2])
            elif key[0] == "cell":
                c = tr.get(("c", key[1]))
                if c is None:
                    raise Unsupported("heap shape differs between runs")
                k = ("cell", c)
            if self._slotname(k) in drop:
                t = TPoison(f"{key[-1]} (no invariant)")
            else:
                try:
                    t = self._retarget(t, tr, s)
                except NoFit as e:
                    t = TPoison(f"{key[-1]}: {e}")
            R.slots[k] = t
        for src, dst, kind in ((T.mats, R.mats, "b"), (T.stacks, R.stacks, "b"), (T.lists, R.lists, "l")):
            for i, (ob, t) in src.items():
                j = tr.get((kind, i))
                if j is None:
                    raise Unsupported("heap shape differs between runs")
                nb = s.heap.bufs[j] if kind == "b" else s.heap.lists[j]
                if (kind, "content", self.T.order[(kind, i)]) in drop:
                    t = None
                elif isinstance(t, ListTemplate):
                    try:
                        t = ListTemplate(t.side, self._retarget(t.item, tr, s))
                    except NoFit:
                        t = None
                dst[j] = (nb, t, self.T.order[(kind, i)])
        return R, s

    def _check(self, loc, i, stage):
        """Obligations: the state at this head matches the invariant at i."""
        ctx = self.ctx
        if stage == "init":
            self.R, s = self._resolve(loc)
        else:
            s = self.snap(loc)
        R = self.R
        st = {}
        for key, t in R.slots.items():
            if isinstance(t, TPoison):
                continue
            v = s.slots.get(key)
            if key not in s.slots:
                self._vc(stage, key, "unbound", t)
                continue
            self._vc(stage, key, t.check(v, i, st), t)
        for bid, (b, t, n) in R.mats.items():
            if t is None:
                continue
            e = t.at(i)
            r = None if tm.equal(b.term, e) else \
                f"expected {tm.show(tm.canon_poly(e.p))}, found {tm.show(tm.canon_poly(b.term.p))}"
            self._vc(stage, ("b", "content", n), r, t)
        for bid, (b, t, n) in R.stacks.items():
            if t is None:
                continue
            b0 = self.base.stk.get(b.id)
            w0 = len(self.hw[b.id]) if stage == "preserve" else (len(b0[2][1]) if b0 else 0)
            j = i - 1      # the iteration that has just run
            new = dedupe(b.writes[w0:])
            fn_ok = b.fn is (self.hfn[b.id] if stage == "preserve" else b0[2][0] if b0 else b.fn)
            if not fn_ok or len(new) != len(t.pats):
                self._vc(stage, ("b", "content", n), "different rows written", t)
                continue
            for (pos, tt), (w, tv) in zip(t.pats, new):
                r = pos.check(w, SInt.of(j), st)
                if r is None:
                    e = tt.at(SInt.of(j))
                    if not tm.equal(tv, e):
                        r = (f"row {w!r}: expected {tt.text} = {tm.show(tm.canon_poly(e.p))}, found "
                             f"{tm.show(tm.canon_poly(tv.p))}")
                self._vc(stage, ("b", "content", n), r, tt)
        for lid, (l, t, n) in R.lists.items():
            if t is None:
                continue
            self._vc(stage, ("l", "content", n), self._check_list(l, t, SInt.of(i - 1), stage), t.item)
        if stage == "preserve":
            self._frame(s)

    def _check_list(self, l, t, j, stage):
        e0, w0 = (self.hl[id(l)] if stage == "preserve" else self.base.lst[id(l)][2])
        st = {"alias_unknown": True}
        n0 = len(e0)
        if t.side == "end":
            if len(l.entries) != n0 + 1 or l.entries[-1][0] != "c":
                return "list grew differently"
            return t.item.check(l.entries[-1][1], j, st)
        if t.side == "front":
            if len(l.entries) != n0 + 1 or l.entries[0][0] != "c":
                return "list grew differently"
            return t.item.check(l.entries[0][1], j, st)
        pos = t.side[1]
        if len(l.entries) != n0 or len(l.writes) != len(w0) + 1:
            return "list written differently"
        return pos.check(l.writes[-1][0], j, st) or t.item.check(l.writes[-1][1], j, st)

    def _vc(self, stage, key, r, t):
        spec = isinstance(t, TArr) and t.term.spec or isinstance(t, TTerm) and t.spec
        name = key[-1] if key[0] in ("local", "attr") else "/".join(map(str, key))
        self.ctx.vc(f"{self.sid} line {self.line}: invariant {name} ({stage})", r is None, "inv",
                    r or repr(t), back="ring+z3")
        if r is not None:
            self.ctx.vcs[-1]["slot"] = (self.key(), self._slotname(key) if key[0] in ("local", "attr", "dict", "cell", "glob") else key)
            self.ctx.vcs[-1]["spec"] = spec

    def _frame(self, s):
        ctx = self.ctx
        bad = []
        hb = set(self.R.mats) | set(self.R.stacks)
        for b in ctx.__dict__.get("bufs", []):
            if b.id in self.h_allver and b.id not in hb and b.ver != self.h_allver[b.id]:
                bad.append(f"array {b.name or b.id}")
        for l in ctx.__dict__.get("lists", []):
            if id(l) in self.h_lver and id(l) not in self.R.lists and l.ver != self.h_lver[id(l)]:
                bad.append("list")
        for key, v in s.slots.items():
            if key[0] == "local" or key in self.R.slots:
                continue
            if key in self.h_slots:
                w = self.h_slots[key]
                if v is not w and not (isinstance(v, (int, str, float)) and type(v) is type(w) and v == w):
                    bad.append(f"{key[0]} {key[-1]}")
            elif key[0] in ("attr", "dict", "glob") and key[1] in self.h_objs:
                bad.append(f"new {key[0]} {key[-1]}")
        ctx.vc(f"{self.sid} line {self.line}: loop frame", not bad, "loopframe",
               "changed outside the invariant: " + ", ".join(bad) if bad else "nothing else changes")

    def _havoc(self, loc, i):
        ctx = self.ctx
        R = self.R
        st = {}
        h = Heap(loc, ctx.roots)
        self.vals = {n: loc[n] for n in self.names if n in loc}
        for key, t in R.slots.items():
            v = t.inst(i, st)
            if key[0] == "local":
                self.vals[key[1]] = v
            else:
                h.set(key, v)
        for n in self.names:
            if ("local", n) not in R.slots:
                self.vals[n] = Poison(f"loop variable {n}")
        for bid, (b, t, n) in R.mats.items():
            if t is None:
                b.term = tm.t_op("unknown", [f"{self.sid}/{n}"], b.term.rows, b.term.cols)
                continue
            b.term = t.at(i)
        self.hw, self.hfn = {}, {}
        for bid, (b, t, n) in R.stacks.items():
            if t is None:
                r_, c_ = symnp.dims(b.rowshape)
                b.fn = (lambda q, u=f"{self.sid}/{n}", r_=r_, c_=c_:
                        tm.t_op("unknownrow", [u, repr(SInt.of(q))], r_, c_))
                b.writes = []
                continue
            b0 = self.base.stk[b.id][2]
            b.fn, b.writes = rows_fn(b0, t, i), []
            self.hw[b.id], self.hfn[b.id] = [], b.fn
        self.hl = {}
        for lid, (l, t, n) in R.lists.items():
            if t is None:
                raise Unsupported(f"no invariant for a list changed in {self.sid}")
            e0, w0 = self.base.lst[id(l)][2]

            def item(j, t=t):
                return t.item.inst(j, {"alias_unknown": True})
            seg = ("s", SInt.of(i), item)
            if t.side == "end":
                l.entries, l.writes = list(e0) + [seg], list(w0)
            elif t.side == "front":
                i_ = SInt.of(i)
                l.entries = [("s", i_, lambda j, f=item, i_=i_: f(SInt.of(i_ - 1 - SInt.of(j))))] + list(e0)
                l.writes = list(w0)
            else:
                pos = t.side[1]
                old_e, old_w = list(e0), list(w0)
                n_ = l.symbolic_length()

                def at(q, pos=pos, old_e=old_e, old_w=old_w, f=item):
                    q = SInt.of(q)
                    j = SInt.of((q - pos.a) * pos.b)
                    if j >= 0 and j < i:
                        return f(j)
                    return read_list(old_e, old_w, q)
                l.entries, l.writes = [("s", SInt.of(n_), at)], []
            self.hl[id(l)] = l.snapshot()
        self.loads = True
        self.h_allver = {b.id: b.ver for b in ctx.__dict__.get("bufs", [])}
        self.h_lver = {id(l): l.ver for l in ctx.__dict__.get("lists", [])}
        h2 = Heap({}, ctx.roots)
        hh = Heap({k: v for k, v in {**loc, **self.vals}.items()}, ctx.roots)
        self.h_slots = {k: v for k, v in hh.slots.items() if k[0] != "local"}
        self.h_objs = {id(o) for o in hh.keep if is_inst(o) or is_code_ns(o) or isinstance(o, (dict, types.FunctionType))}
        self.h_keep = hh.keep

    def _preserve(self, loc):
        self._check(loc, SInt.of(self.i + 1), "preserve")
        self.ctx.in_cut = 0
        raise PathEnd("invariant re-established")

    # ---- while
    def _while_head(self, loc):
        ctx = self.ctx
        self.loads = False
        if self.phase == "while":
            self.phase = "wrun"
            self.base = self.snap(loc)
            self.i = SInt(0)
            self.count = 0
            ctx.cmp_log = []
            return True
        ctx.cmp_log = []
        if self.phase == "wrun":
            self.count += 1
            self.i = SInt(self.count)
            if ctx.nbranch > self.nb0:
                if self.count == 1:
                    self.peel = 1
                    base = self.base
                    self._enter_sym(loc)
                    self.base = base
                    ctx.in_cut = 0
                    return self._at_cut(loc)
                raise Unsupported("while loop that turns symbolic late")
            if self.count > 60:
                raise Unsupported("long while loop")
            return True
        if self.phase == "disc":
            return self._disc_head(loc)
        if self.phase == "wpres":
            self.ctx.in_cut = 0
            self._check(loc, SInt.of(self.i + 1), "preserve")
            self.phase = "wpres_test"
            return True
        raise Unsupported("while loop")

    def test(self, v):
        ctx = self.ctx
        diffs = list(ctx.cmp_log)
        if self.phase == "wtest":
            # invariant relations on the compared quantities
            rel = self.T.__dict__.setdefault("rel", {})
            for k, d in enumerate(diffs):
                for name in ("le", "ge"):
                    if rel.get((k, name)) is True:
                        ctx.assume(d.z <= 0 if name == "le" else d.z >= 0)
            if ctx.solver.check() == z3.unsat:
                raise PathEnd("infeasible")
            r = bool(v)
            if r:
                self.phase = "wpres"
                ctx.in_cut = 1
            else:
                self.phase = "done"
            self.loads = False
            return r
        if self.phase in ("wpres_test", "winit"):
            rel = self.T.__dict__.setdefault("rel", {})
            for k, d in enumerate(diffs):
                for name in ("le", "ge"):
                    if rel.get((k, name)) is True:
                        f = d.z <= 0 if name == "le" else d.z >= 0
                        ok = ctx.prove(f)
                        if not ok:
                            rel[(k, name)] = False
                            ctx.loopdb.changed = True
            raise PathEnd("relations checked")
        if self.phase == "disc":
            T_rel = self.__dict__.setdefault("disc_rel", {})
            for k, d in enumerate(diffs):
                for name in ("le", "ge"):
                    f = d.z <= 0 if name == "le" else d.z >= 0
                    T_rel[(k, name)] = T_rel.get((k, name), True) and ctx.prove(f)
        return bool(v)


def dedupe(writes):
    out = []
    for w, t in writes:
        for k, (w2, _) in enumerate(out):
            d = SInt.of(w - w2)
            if d.is_const() and d.c == 0:
                out[k] = (w, t)
                break
        else:
            out.append((w, t))
    return out


def rows_fn(b0, t, i):
    """Row reader for a series after i iterations of a loop."""
    fn0, w0 = b0
    old = StackBuf.__new__(StackBuf)
    old.fn, old.writes = fn0, list(w0)
    i = SInt.of(i)

    def fn(q):
        q = SInt.of(q)
        best = None
        for k, (pos, tt) in enumerate(t.pats):
            if isinstance(pos, TInt):
                j = SInt.of((q - pos.a) * pos.b)
                if not (j >= 0 and j < i):
                    continue
            else:
                if not (q == SInt.of(pos.v)):
                    continue
                j = SInt.of(i - 1)
            if best is None:
                best = (j, tt)
            else:
                if j >= best[0]:
                    best = (j, tt)
        if best is not None:
            return best[1].at(best[0])
        return StackBuf.read(old, q)
    return fn


def b_loop(sid, it, line, is_gen, names):
    return Loop(None, sid, it, line, is_gen, names, "for")


def b_while(sid, line, is_gen, names):
    return Loop(None, sid, None, line, is_gen, names, "while")


def b_comp(sid, loc, it, elt, conds):
    s = as_seq(it)
    if s is None:
        return VList([elt(x) for x in it if builtins.all(c(x) for c in conds)])
    if CTX.get().const_value(s.symbolic_length()) is not None:
        return VList([elt(x) for x in s.native_items() if builtins.all(c(x) for c in conds)])
    if conds:
        raise Unsupported("filtered comprehension of symbolic length")
    out = VList()
    L = b_loop(sid, s, 0, False, ())
    done = False
    loc = {k: v for k, v in loc.items() if not k.startswith("_vk_")}
    while not done:
        done = not L.head({**loc, "<result>": out, "<elt>": elt, "<it>": it})
        if not done:
            out.append(elt(L.item()))
    return out


# ------------------------------------------------------------------ driver
def explore(run, db, setup=None, limit=600, spec_families=(), time_vars=("T",)):
    """Runs `run(ctx)` on every path, discovering loop invariants on the way.
    Returns [(ctx, outcome)] with outcome ("ok", result) or ("end", why)."""
    todo = [[]]
    out = []

    def one(prefix, discover=None):
        ctx = Ctx(prefix, "verify")
        ctx.loopdb = db
        ctx.discover = discover
        ctx.nbranch = 0
        ctx.cmp_log = []
        ctx.spec_families = list(spec_families)
        ctx.time_vars = list(time_vars)
        CTX.v = ctx
        try:
            if setup:
                setup(ctx)
            return ctx, ("ok", run(ctx))
        except PathEnd as e:
            return ctx, ("end", str(e))
        except DiscoveryDone:
            return ctx, ("disc", None)
        except NeedDiscovery as e:
            return ctx, ("need", e.key)
        finally:
            CTX.v = None

    while todo:
        if len(out) >= limit:
            raise Limits(f"more than {limit} paths")
        prefix = todo.pop()
        ctx, oc = one(prefix)
        if oc[0] == "need":
            key = oc[1]
            dtodo = [list(ctx.taken)]
            tries, why = 0, "no execution reached a second iteration"
            while dtodo and tries < 12:
                tries += 1
                try:
                    c2, o2 = one(dtodo.pop(), key)
                except Unsupported as e:
                    why = str(e)
                    continue
                if o2[0] == "disc":
                    break
                if o2[0] == "need":
                    raise Unsupported("nested discovery")
                dtodo.extend(reversed(c2.pending))
            if key not in db.t:
                db.failed[key] = why
            todo.extend(ctx.pending)
            todo.append(list(ctx.taken))
            continue
        todo.extend(ctx.pending)
        out.append((ctx, oc))
    return out
