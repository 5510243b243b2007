"""A symbolic stand-in for the parts of NumPy that the code uses.

Arrays have symbolic shapes and contents; shape rules, broadcasting, views,
in-place writes and dtypes follow NumPy.  Anything not modelled raises
Unsupported (never a silent approximation).
"""
import math
from fractions import Fraction

import numpy as _np
import z3

from .core import CTX, SBool, SInt, Unsupported, simp
from . import terms as tm
from .terms import (Term, deq, equal, is1, t_add, t_const, t_eye, t_inv, t_mul,
                    t_neg, t_ones, t_op, t_scale, t_smul, t_sub, t_t, t_zero)


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kind, pyname=None):
        self.name, self.kind = name, kind

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __eq__(self, o):
        try:
            return self is as_dtype(o)
        except Unsupported:
            return False
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x=0):
        return scalar_cast(self, x)

    @property
    def type(self):
        return self

    @property
    def itemsize(self):
        raise Unsupported("dtype.itemsize")

    @property
    def str(self):
        return self.name


float64 = DType("float64", "f")
float32 = DType("float32", "f")
float16 = DType("float16", "f")
longdouble = DType("longdouble", "f")
int64 = DType("int64", "i")
int32 = DType("int32", "i")
bool_ = DType("bool", "b")
object_ = DType("object", "O")
complex128 = DType("complex128", "c")


class _Abstract:
    def __init__(self, name, kinds):
        self.name, self.kinds = name, kinds


floating = _Abstract("floating", "f")
integer = _Abstract("integer", "i")
number = _Abstract("number", "ifc")
inexact = _Abstract("inexact", "fc")
complexfloating = _Abstract("complexfloating", "c")
signedinteger = _Abstract("signedinteger", "i")

_DT = {float: float64, int: int64, bool: bool_, complex: complex128, object: object_,
       "float": float64, "float64": float64, "f8": float64, "d": float64,
       "<f8": float64, "int": int64, "int64": int64, "i8": int64, "bool": bool_,
       "float32": float32, "f4": float32, "f": float32, "float16": float16,
       "longdouble": longdouble, "complex": complex128, "complex128": complex128,
       "object": object_, "int32": int32, "i4": int32}


def as_dtype(d):
    if isinstance(d, DType):
        return d
    if d is None:
        return float64
    try:
        if d in _DT:
            return _DT[d]
    except TypeError:
        pass
    raise Unsupported(f"dtype {d!r}")


_RANK = {"bool": 0, "int32": 1, "int64": 2, "float16": 3, "float32": 4, "float64": 5,
         "longdouble": 6, "complex128": 7, "object": 8}


def result_dtype(*ds):
    r = max(ds, key=lambda d: _RANK[d.name])
    if r in (float32, float16) and any(d.kind == "i" for d in ds):
        return float64
    if r is float32 and any(d is float16 for d in ds):
        return float32
    return r


def cast_term(t, src, dst):
    """Value of t after storing it into a dst-typed array."""
    if src is dst or dst is object_:
        return t
    if dst in (float64, longdouble, complex128):
        return t
    if dst.kind == "f":  # narrower float
        if src.kind == "f":
            return t_op("round_" + dst.name, [t], t.rows, t.cols)
        return t_op("round_" + dst.name, [t], t.rows, t.cols)
    if dst.kind == "i":
        if src.kind in "ib" and dst is int64:
            return t
        return t_op("trunc_" + dst.name, [t], t.rows, t.cols)
    if dst.kind == "b":
        return t_op("tobool", [t], t.rows, t.cols)
    raise Unsupported("cast")


def nan_term(r, c):
    return t_op("nanfill", [], r, c)


# ------------------------------------------------------------------ buffers
_BUF = [0]


class Buf:
    """Storage of one array."""

    dep = None           # (buffer, token): content derived from a buffer that may still be written

    def __init__(self, dtype, origin="fresh", name=""):
        _BUF[0] += 1
        self.id = _BUF[0]
        self.dtype = dtype
        self.origin = origin
        self.name = name
        self.ver = 0
        self.alias_unknown = False
        self.frozen = False
        ctx = CTX.v
        if ctx is not None:
            ctx.__dict__.setdefault("bufs", []).append(self)

    def check_dep(self):
        b = self
        while b.dep is not None:
            b, tok = b.dep
            now = b.token()
            if len(now) != len(tok) or any(x is not y for x, y in zip(now, tok)):
                raise Unsupported("view of an array that was written afterwards")

    def touch(self):
        if self.alias_unknown:
            raise Unsupported("write to an array whose aliases were forgotten")
        self.ver += 1


class MatBuf(Buf):
    """A 0-, 1- or 2-dimensional array."""

    def __init__(self, term, shape, dtype, origin="fresh", name=""):
        super().__init__(dtype, origin, name)
        self.term = term
        self.shape = shape

    def read(self):
        if self.dep is not None:
            self.check_dep()
        return self.term

    def token(self):
        return (self.term,)

    def write(self, t):
        self.touch()
        self.term = t

    def snapshot(self):
        return self.term

    def restore(self, s):
        self.term = s


class StackBuf(Buf):
    """An array whose leading axis is time; rows are 0- to 2-dimensional."""

    def __init__(self, length, rowshape, fn, dtype, origin="fresh", name="", key=None):
        super().__init__(dtype, origin, name)
        self.length = length
        self.rowshape = rowshape
        self.fn = fn
        self.writes = []
        self.key = key

    def token(self):
        return (self.fn, *self.writes)

    def read(self, idx):
        if self.dep is not None:
            self.check_dep()
        ctx = CTX.get()
        idx = SInt.of(idx)
        for w, t in reversed(self.writes):
            d = idx - w
            if d.is_const():
                if d.c == 0:
                    return t
                continue
            if ctx.branch(d.z == 0):
                return t
        return self.fn(idx)

    def write(self, idx, t):
        self.touch()
        self.writes.append((SInt.of(idx), t))

    def snapshot(self):
        return (self.fn, list(self.writes))

    def restore(self, s):
        self.fn, self.writes = s[0], list(s[1])


def forgotten_view(v, src):
    """v is a view of src in NumPy but has storage of its own here: it must not
    be written, nor read once src has been written."""
    v.buf.alias_unknown = True
    v.buf.dep = (src.buf, src.buf.token())
    return v


class AxisError(ValueError, IndexError):
    pass


def norm_axis(axis, n):
    axis = int(axis)
    if not -n <= axis < n:
        raise AxisError(f"axis {axis} is out of bounds for array of dimension {n}")
    return axis % n


# ------------------------------------------------------------------ shapes
def dims(shape):
    """(rows, cols) of the matrix representing an array of that shape."""
    if len(shape) == 0:
        return 1, 1
    if len(shape) == 1:
        return shape[0], 1
    if len(shape) == 2:
        return shape[0], shape[1]
    raise Unsupported("array with more than two matrix dimensions")


def is_time(d):
    """Does this dimension count time steps?"""
    return isinstance(d, SInt) and any(n.startswith("T") for n, _ in d.t)


def norm_shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(simp(SInt.of(d)) for d in shape)
    return (simp(SInt.of(shape)),)


def size_one(shape):
    return all(is1(d) for d in shape)


def bcast_dim(a, b):
    if deq(a, b):
        return a
    if is1(a):
        return b
    if is1(b):
        return a
    ctx = CTX.get()
    a_, b_ = SInt.of(a), SInt.of(b)
    if ctx.branch(a_.z == b_.z):
        return a
    if ctx.branch(a_.z == 1):
        return b
    if ctx.branch(b_.z == 1):
        return a
    raise ValueError(f"operands could not be broadcast together: {a!r} and {b!r}")


def bcast_shape(s1, s2):
    n = max(len(s1), len(s2))
    p1 = (1,) * (n - len(s1)) + tuple(s1)
    p2 = (1,) * (n - len(s2)) + tuple(s2)
    return tuple(bcast_dim(a, b) for a, b in zip(p1, p2))


def expand(t, shape, to):
    """Term of an array of `shape` broadcast to `to` (both at most 2-d)."""
    if len(shape) == len(to) and all(deq(a, b) for a, b in zip(shape, to)):
        return t
    r, c = dims(to)
    if len(shape) == 1 and len(to) == 2:
        t = t_t(t)  # row vector
    if len(shape) == 0:
        if is1(r) and is1(c):
            return t
        return t_smul(t, t_ones(r, c))
    if not deq(t.rows, r):
        t = t_mul(t_ones(r, 1), t)
    if not deq(t.cols, c):
        t = t_mul(t, t_ones(1, c))
    return t


def norm_index(i, length, what="index"):
    """Resolve a possibly negative index, raising IndexError like NumPy."""
    ctx = CTX.get()
    i = SInt.of(i)
    length = SInt.of(length)
    if (i < 0):
        i = i + length
    if (i < 0) or (i >= length):
        raise IndexError(f"{what} out of bounds")
    return i


# ------------------------------------------------------------------ arrays
class SymArray:
    """View on a buffer.

    sel None: whole MatBuf, or whole/sliced StackBuf (start, step, length).
    sel SInt: one row of a StackBuf.  tr: matrix view is transposed.
    """

    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, buf, shape, sel=None, tr=False, span=None):
        self.buf = buf
        self._shape = tuple(shape)
        self.sel = sel
        self.tr = tr
        self.span = span  # (start, step) for stacks

    # -- basic facts
    @property
    def is_stack(self):
        return self.span is not None

    @property
    def shape(self):
        return tuple(self._shape)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to .shape")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = simp(SInt.of(r) * d)
        return r

    def rows_shape(self):
        return self._shape[1:]

    def row_index(self, i):
        start, step = self.span
        return start + SInt.of(i) * step

    def row(self, i):
        """i-th row (i already resolved) as a view."""
        j = self.row_index(i)
        return SymArray(self.buf, self._shape[1:], sel=j, tr=self.tr)

    def term(self):
        if self.is_stack:
            raise Unsupported("a whole series used as a matrix")
        t = self.buf.read() if self.sel is None else self.buf.read(self.sel)
        return t_t(t) if self.tr else t

    def row_term(self, i):
        return self.row(i).term()

    def store(self, t):
        if self.is_stack:
            raise Unsupported("store of a whole series")
        t = t_t(t) if self.tr else t
        if self.sel is None:
            self.buf.write(t)
        else:
            self.buf.write(self.sel, t)

    # -- integers as arrays
    def _is_int_scalar(self):
        return False

    def __repr__(self):
        return f"<sym array {self.buf.name or self.buf.id} shape={self._shape}>"

    def __len__(self):
        v = CTX.get().const_value(s_len(self))
        if v is None:
            raise Unsupported("native len() of a symbolic array")
        return v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = CTX.get().const_value(self._shape[0])
        if n is None:
            raise Unsupported("native iteration over an array of symbolic length")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if size_one(self._shape):
            return bool(cmp_arr("ne", self, 0).all())
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        raise Unsupported("conversion of a symbolic array to a native float")

    __int__ = __index__ = __complex__ = __float__

    def __getattr__(self, name):
        if name.startswith("_") and not name.startswith("__array"):
            raise AttributeError(name)
        if hasattr(_np.ndarray, name):
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    # -- views
    @property
    def T(self):
        return transpose(self)

    @property
    def mT(self):
        return swapaxes(self, -1, -2)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        return swapaxes(self, a, b)

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        raise Unsupported("ndarray.base")

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("ndarray.view with arguments")
        return SymArray(self.buf, self._shape, self.sel, self.tr, self.span)

    def ravel(self, *a, **k):
        if self.is_stack and self.span[1] != 1:
            return forgotten_view(copy(reshape(self, -1)), self)       # a copy unless it has at most one row
        return reshape(self, -1)

    def flatten(self, *a, **k):
        return copy(reshape(self, -1))

    def reshape(self, *shape, **k):
        if k:
            raise Unsupported("reshape keywords")
        if len(shape) == 1:
            shape = shape[0]
        return reshape(self, shape)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def copy(self, order="C"):
        return copy(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return copy(self)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        d = as_dtype(dtype)
        if not copy and d is self.dtype:
            return self
        return lift1(lambda t: cast_term(t, self.dtype, d), self, d)

    def item(self, *a):
        if a:
            raise Unsupported("ndarray.item(index)")
        if not all(is1(d) or CTX.get().branch(SInt.of(d).z == 1) for d in self._shape):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return fresh_mat(self.scalar_term(), (), self.dtype)

    def scalar_term(self):
        a = reshape(self, ())
        return a.term()

    def tolist(self):
        raise Unsupported("ndarray.tolist")

    def fill(self, v):
        self[...] = v

    def setflags(self, **k):
        if k.get("write") is False:
            return
        raise Unsupported("setflags")

    # -- indexing
    def _resolve(self, key):
        """Returns (view, rest) after consuming Ellipsis/None/slices."""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = next(i for i, k in enumerate(key) if k is Ellipsis)
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - n) + key[i + 1:]
        n = sum(1 for k in key if k is not None)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (self.ndim - n)
        return key

    def _slice(self, s, length):
        """(start, step, count) of a slice."""
        length = SInt.of(length)
        step = 1 if s.step is None else SInt.of(s.step)
        if isinstance(step, SInt):
            if not step.is_const():
                raise Unsupported("slice with symbolic step")
            step = step.c
        if step not in (1, -1):
            raise Unsupported("slice with step other than 1 or -1")
        full = s.start is None and s.stop is None
        if step == 1:
            start, stop = SInt(0), length
        else:
            start, stop = length - 1, SInt(-1)

        def clip(v):
            v = SInt.of(v)
            if v < 0:
                v = SInt.of(v + length)
                if v < 0:
                    return SInt(0) if step == 1 else SInt(-1)
            if step == 1:
                if v > length:
                    return length
            elif v >= length:
                return length - 1
            return v

        if s.start is not None:
            start = SInt.of(clip(s.start))
        if s.stop is not None:
            stop = SInt.of(clip(s.stop))
        count = (stop - start) if step == 1 else (start - stop)
        if not full and (SInt.of(count) < 0):
            count = SInt(0)
        return SInt.of(start), step, simp(SInt.of(count))

    def __getitem__(self, key):
        if isinstance(key, (SymArray, SymBoolArr, list)):
            if isinstance(key, SymArray) and key.ndim == 0:
                raise Unsupported("array index")
            raise Unsupported("fancy indexing")
        if isinstance(key, str):
            raise IndexError("only integers, slices ... are valid indices")
        dots = key is Ellipsis or isinstance(key, tuple) and any(k is Ellipsis for k in key)
        key = self._resolve(key)
        if any(k is None for k in key):
            a = self
            plain = tuple(k for k in key if k is not None)
            if any(not (isinstance(k, slice) and k == slice(None)) for k in plain):
                a = self[plain]
                # positions of the axes that remain
            kept = []
            for k in key:
                if k is None:
                    kept.append(None)
                elif isinstance(k, slice):
                    kept.append("axis")
            shape, ax = [], list(a._shape)
            for k in kept:
                shape.append(1 if k is None else ax.pop(0))
            return reshape(a, tuple(shape))
        a = self
        if a.is_stack:
            k0, rest = key[0], key[1:]
            if isinstance(k0, slice):
                start, step, count = a._slice(k0, a._shape[0])
                s0, st0 = a.span
                b = SymArray(a.buf, (count,) + a._shape[1:], tr=a.tr,
                             span=(s0 + start * st0, st0 * step))
                if all(isinstance(k, slice) and k == slice(None) for k in rest):
                    return b
                return lift1_view(b, rest)
            i = norm_index(_ix(k0), a._shape[0])
            r = a.row(i)
            if not r.ndim and not dots:
                return fresh_mat(r.term(), (), r.dtype)      # a scalar
            if all(isinstance(k, slice) and k == slice(None) for k in rest):
                return r
            return r[rest + (Ellipsis,)] if dots else r[rest]
        return a._mat_index(key, dots)

    def _mat_index(self, key, dots=False):
        if all(isinstance(k, slice) and k == slice(None) for k in key):
            return SymArray(self.buf, self._shape, self.sel, self.tr, self.span)
        t = self.term()
        shape = []
        new = t
        for ax, k in enumerate(key):
            d = self._shape[ax]
            if isinstance(k, slice):
                start, step, count = self._slice(k, d)
                if not (deq(count, d) and step == 1):
                    if is1(d) and deq(count, 1):
                        pass
                    else:
                        raise Unsupported("partial slice of a vector or matrix")
                shape.append(d)
                continue
            i = norm_index(_ix(k), d)
            if is1(d):
                continue
            e = tm.atom_term(tm.basis_atom(d, i))
            if ax == 0:
                new = t_mul(t_t(e), new)
            else:
                new = t_mul(new, e)
        # a remaining axis that came from columns becomes a 1-d vector
        if len(key) == 2 and len(shape) == 1 and not isinstance(key[0], slice):
            new = t_t(new)
        if size_one(self._shape) or all(is1(self._shape[ax]) for ax, k in enumerate(key)
                                        if not isinstance(k, slice)):
            # selecting along unit axes only: a true view
            if shape or dots:
                return reshape(self, tuple(shape))
        v = fresh_mat(new, tuple(shape), self.dtype)
        return forgotten_view(v, self) if shape or dots else v

    def __setitem__(self, key, value):
        if isinstance(key, (SymArray, SymBoolArr, list)):
            raise Unsupported("fancy assignment")
        if self.buf.alias_unknown:
            raise Unsupported("write to an array whose aliases were forgotten")
        dots = key is Ellipsis or isinstance(key, tuple) and any(k is Ellipsis for k in key)
        key = self._resolve(key)
        if any(k is None for k in key):
            raise Unsupported("assignment through newaxis")
        value = into_int(value, self.dtype)
        element = bool(key) and not dots and not any(isinstance(k, slice) for k in key)
        if self.is_stack:
            k0, rest = key[0], key[1:]
            if isinstance(k0, slice):
                start, step, count = self._slice(k0, self._shape[0])
                c = CTX.get().const_value(count)
                if c is not None and c <= 8:
                    v = asarray(value)
                    shape = self._selected((slice(None),) + rest, count)
                    v = fit_into(v, shape)
                    if v.is_stack or v.ndim == len(shape):
                        v = copy(v)          # it may overlap with what is written
                    for i in range(c):
                        x = v
                        if v.ndim == len(shape):
                            x = v[i] if not is1(v._shape[0]) else v[0]
                        self[(simp(start + i * step),) + rest + (Ellipsis,)] = x
                    return
                return assign_stack(self[k0], rest, value)
            i = norm_index(_ix(k0), self._shape[0])
            self.row(i)._assign(rest, value, element)
            return
        self._assign(key, value, element)

    def _selected(self, key, count):
        """Shape of self[key] for a key that starts with a slice of `count` rows."""
        return (count,) + tuple(d for d, k in zip(self._shape[1:], key[1:]) if isinstance(k, slice))

    def _assign(self, key, value, element=False):
        v = asarray(value)
        if v.is_stack and not element:
            v = materialise(v)
        if all(isinstance(k, slice) and k == slice(None) for k in key):
            shape = self._shape
        else:
            shape = []
            for ax, k in enumerate(key):
                d = self._shape[ax]
                if isinstance(k, slice):
                    start, step, count = self._slice(k, d)
                    if not (deq(count, d) and step == 1):
                        raise Unsupported("partial slice assignment")
                    shape.append(d)
                else:
                    norm_index(_ix(k), d)
                    if not is1(d):
                        raise Unsupported("assignment to one element")
            shape = tuple(shape)
        if self.buf.dtype.kind in "ib" and v.dtype.kind == "c":
            raise TypeError("complex to real assignment")
        if element and v.ndim:
            raise ValueError("setting an array element with a sequence.")
        v = fit_into(v, shape)
        t = expand(v.term(), v._shape, tuple(shape))
        t = cast_term(t, v.dtype, self.buf.dtype)
        # back to the full orientation of this view
        if len(shape) != len(self._shape):
            tgt = reshape(self, tuple(shape))
            tgt.store(t)
        else:
            self.store(t)

    # -- arithmetic
    def __add__(self, o):
        return ew("add", self, o)

    def __radd__(self, o):
        return ew("add", o, self)

    def __sub__(self, o):
        return ew("sub", self, o)

    def __rsub__(self, o):
        return ew("sub", o, self)

    def __mul__(self, o):
        return ew("mul", self, o)

    def __rmul__(self, o):
        return ew("mul", o, self)

    def __truediv__(self, o):
        return ew("div", self, o)

    def __rtruediv__(self, o):
        return ew("div", o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __neg__(self):
        return lift1(t_neg, self, self.dtype)

    def __pos__(self):
        return copy(self)

    def __pow__(self, o):
        if isinstance(o, int) and o == 2 and size_one(self._shape):
            return ew("mul", self, self)
        return opaque2("power", self, o)

    def __rpow__(self, o):
        return opaque2("power", o, self)

    def __floordiv__(self, o):
        return opaque2("floordiv", self, o)

    def __rfloordiv__(self, o):
        return opaque2("floordiv", o, self)

    def __mod__(self, o):
        return opaque2("mod", self, o)

    def __rmod__(self, o):
        return opaque2("mod", o, self)

    def __abs__(self):
        return opaque1("absolute", self)

    def __invert__(self):
        raise Unsupported("~ of a numeric array")

    def _inplace(self, res):
        if not is_arr(res):
            raise Unsupported("in-place")
        if self.buf.dtype.kind == "i" and res.dtype.kind == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        if res.ndim > self.ndim or any(not deq(a, b) for a, b in zip(res._shape, self._shape)):
            if len(res._shape) != len(self._shape) or not all(
                    bool(SInt.of(a) == SInt.of(b)) for a, b in zip(res._shape, self._shape)):
                raise ValueError("non-broadcastable output operand")
        if self.is_stack:
            assign_stack(self, (slice(None),) * (self.ndim - 1), res)
        else:
            self.store(cast_term(res.term(), res.dtype, self.buf.dtype))
        return self

    def _castable(self, o, div=False):
        """In-place results must be of the array's kind."""
        if self.buf.dtype.kind in "ib":
            k = [x.dtype.kind if is_arr(x) else ("f" if isinstance(x, float) else "i") for x in (o,)]
            if div or "f" in k:
                raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")

    def __iadd__(self, o):
        self._castable(o)
        return self._inplace(ew("add", self, o))

    def __isub__(self, o):
        self._castable(o)
        return self._inplace(ew("sub", self, o))

    def __imul__(self, o):
        self._castable(o)
        return self._inplace(ew("mul", self, o))

    def __itruediv__(self, o):
        self._castable(o, True)
        return self._inplace(ew("div", self, o))

    def __imatmul__(self, o):
        self._castable(o)
        if self.ndim != asarray(o).ndim or self.ndim < 2:
            raise Unsupported("in-place matrix product of this rank")
        if self.ndim < 1 or asarray(o).ndim < 2:
            raise ValueError("inplace matrix multiplication requires the first operand to have at least one and the "
                             "second at least two dimensions.")
        return self._inplace(matmul(self, o))

    # -- comparisons
    def __lt__(self, o):
        return cmp_arr("lt", self, o)

    def __le__(self, o):
        return cmp_arr("le", self, o)

    def __gt__(self, o):
        return cmp_arr("gt", self, o)

    def __ge__(self, o):
        return cmp_arr("ge", self, o)

    def __eq__(self, o):
        if o is None:
            return False
        return cmp_arr("eq", self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return cmp_arr("ne", self, o)

    # -- reductions
    def all(self, axis=None, **k):
        _noaxis(axis, k)
        return cmp_arr("ne", self, 0).all()

    def any(self, axis=None, **k):
        _noaxis(axis, k)
        return cmp_arr("ne", self, 0).any()

    def sum(self, axis=None, **k):
        _noaxis(axis, k)
        return reduce_opaque("sum", self)

    def mean(self, axis=None, **k):
        _noaxis(axis, k)
        return reduce_opaque("mean", self)

    def max(self, axis=None, **k):
        _noaxis(axis, k)
        return reduce_opaque("max", self)

    def min(self, axis=None, **k):
        _noaxis(axis, k)
        return reduce_opaque("min", self)

    def trace(self, *a, **k):
        return trace(self, *a, **k)

    def dot(self, o):
        return dot(self, o)

    def conj(self):
        return self

    conjugate = conj

    def diagonal(self, *a, **k):
        if a or k or self.ndim != 2 or self.is_stack:
            raise Unsupported("diagonal options")
        return diag(self)

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a native array")

    def __contains__(self, o):
        return bool(cmp_arr("eq", self, o).any())


ndarray = SymArray


def _ix(k):
    if isinstance(k, SInt):
        return k
    if isinstance(k, bool):
        raise Unsupported("boolean index")
    if isinstance(k, int):
        return k
    if isinstance(k, SymArray):
        raise Unsupported("array used as an index")
    if hasattr(k, "__index__"):
        return k.__index__()
    raise IndexError(f"only integers, slices ... are valid indices, not {type(k).__name__}")


def _noaxis(axis, k):
    if axis is not None or any(v is not None and v is not False for v in k.values()):
        raise Unsupported("reduction along an axis")


def into_int(value, dtype):
    """Conversion of a Python float stored in an integer array."""
    if dtype.kind == "i" and isinstance(value, float):
        if math.isnan(value):
            raise ValueError("cannot convert float NaN to integer")
        if math.isinf(value):
            raise OverflowError("cannot convert float infinity to integer")
    return value


def fit_into(v, shape):
    """v without superfluous leading unit axes, checked to broadcast into shape."""
    while v.ndim > len(shape):
        d = v._shape[0]
        if not is1(d) and not CTX.get().branch(SInt.of(d).z == 1):
            raise ValueError("could not broadcast input array into shape")
        v = v[0] if v.is_stack else reshape(v, v._shape[1:])
    check_bcast(v._shape, shape)
    return v


def check_bcast(vs, shape):
    """An array of shape vs broadcasts to shape (at least as many axes)."""
    for a, b in zip(tuple(vs)[::-1], tuple(shape)[::-1]):
        if not (deq(a, b) or is1(a)):
            if not CTX.get().branch(SInt.of(a).z == SInt.of(b).z) and not CTX.get().branch(SInt.of(a).z == 1):
                raise ValueError("could not broadcast")


def same_dims(s1, s2):
    return len(s1) == len(s2) and all(deq(a, b) or CTX.get().branch(SInt.of(a).z == SInt.of(b).z)
                                      for a, b in zip(s1, s2))


# ------------------------------------------------------------------ making
def is_arr(x):
    return isinstance(x, SymArray)


def fresh_mat(t, shape, dtype=float64, origin="fresh", name=""):
    return SymArray(MatBuf(t, tuple(shape), dtype, origin, name), shape)


def fresh_stack(length, rowshape, fn, dtype=float64, origin="fresh", name="", key=None):
    b = StackBuf(simp(SInt.of(length)), tuple(rowshape), fn, dtype, origin, name, key)
    return SymArray(b, (b.length,) + tuple(rowshape), span=(SInt(0), 1))


def const_array(shape, tfn, dtype):
    """Array all of whose rows are tfn(rows, cols)."""
    shape = norm_shape(shape)
    if len(shape) >= 1 and (is_time(shape[0]) or len(shape) == 3):
        rs = shape[1:]
        r, c = dims(rs)
        return fresh_stack(shape[0], rs, lambda i: tfn(r, c), dtype)
    r, c = dims(shape)
    for d in shape:
        if isinstance(d, int) and d < 0:
            raise ValueError("negative dimensions are not allowed")
    return fresh_mat(tfn(r, c), shape, dtype)


def fill_term(v, dtype):
    """v: python number or 0-d array; function (r, c) -> term of filled matrix."""
    if is_arr(v):
        if not size_one(v._shape):
            raise Unsupported("fill with an array")
        t = v.scalar_term()
        src = v.dtype
        return lambda r, c: cast_term(t if is1(r) and is1(c) else t_smul(t, t_ones(r, c)), src, dtype)
    if isinstance(v, SInt):
        raise Unsupported("symbolic integer as a value")
    if isinstance(v, float) and math.isnan(v):
        return lambda r, c: cast_term(nan_term(r, c), float64, dtype)
    if isinstance(v, float) and math.isinf(v):
        return lambda r, c: t_op("inf" if v > 0 else "-inf", [], r, c)
    if isinstance(v, (int, float, Fraction)):
        fv = Fraction(v)
        if dtype.kind == "i" and fv.denominator != 1:
            fv = Fraction(int(v))
        if not fv:
            return lambda r, c: t_zero(r, c)
        return lambda r, c: t_scale(t_ones(r, c), fv)
    raise Unsupported(f"fill value {type(v).__name__}")


def _dt(dtype, default=float64):
    return default if dtype is None else as_dtype(dtype)


def zeros(shape, dtype=None, order="C", **k):
    d = _dt(dtype)
    return const_array(shape, lambda r, c: t_zero(r, c), d)


_EMPTY = [0]


def empty(shape, dtype=None, order="C", **k):
    d = _dt(dtype)
    _EMPTY[0] += 1
    e = _EMPTY[0]
    shape = norm_shape(shape)
    if len(shape) >= 1 and (is_time(shape[0]) or len(shape) == 3):
        r, c = dims(shape[1:])
        return fresh_stack(shape[0], shape[1:],
                           lambda i: t_op("uninit", [e, repr(SInt.of(i))], r, c), d)
    return const_array(shape, lambda r, c: t_op("uninit", [e], r, c), d)


def ones(shape, dtype=None, order="C", **k):
    return const_array(shape, fill_term(1, _dt(dtype)), _dt(dtype))


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        if is_arr(fill_value):
            d = fill_value.dtype
        elif isinstance(fill_value, bool):
            d = bool_
        elif isinstance(fill_value, int):
            d = int64
        else:
            d = float64
    else:
        d = as_dtype(dtype)
    return const_array(shape, fill_term(fill_value, d), d)


def _like(a):
    return asarray(a)


def zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    a = _like(a)
    return zeros(a._shape if shape is None else shape, dtype or a.dtype)


def empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    a = _like(a)
    return empty(a._shape if shape is None else shape, dtype or a.dtype)


def ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    a = _like(a)
    return ones(a._shape if shape is None else shape, dtype or a.dtype)


def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    a = _like(a)
    d = as_dtype(dtype) if dtype is not None else a.dtype
    return const_array(a._shape if shape is None else shape, fill_term(fill_value, d), d)


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def eye(N, M=None, k=0, dtype=None, **kw):
    n = simp(SInt.of(N))
    if M is not None and not deq(M, N) or (isinstance(k, int) and k != 0):
        raise Unsupported("non-square eye")
    return fresh_mat(t_eye(n), (n, n), _dt(dtype))


def scalar_cast(d, x):
    a = asarray(x)
    return a.astype(d) if is_arr(a) else a


class VSeqBase:
    """Marker for sequences with symbolic parts (engine.VList)."""


def asarray(x, dtype=None, order=None, copy=None, **k):
    if is_arr(x):
        if dtype is not None and as_dtype(dtype) is not x.dtype:
            return x.astype(dtype)
        if copy:
            return globals()["copy"](x)
        return x
    return array(x, dtype)


def asanyarray(x, dtype=None, order=None, **k):
    return asarray(x, dtype)


ascontiguousarray = asfarray = asanyarray


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if k or ndmin not in (0, 1, 2):
        raise Unsupported("np.array options")
    r = _array(x, dtype, copy)
    if ndmin == 1:
        return atleast_1d(r)
    if ndmin == 2:
        return atleast_2d(r)
    return r


def _array(x, dtype, cp):
    if is_arr(x):
        r = x if dtype is None else x.astype(dtype)
        return copy(r) if (cp and r is x) else r
    if isinstance(x, SymBoolArr):
        return x
    if isinstance(x, SBool):
        raise Unsupported("array of booleans")
    if isinstance(x, bool):
        return fresh_mat(t_const(int(x)), (), _dt(dtype, bool_))
    if isinstance(x, int):
        return fresh_mat(t_const(x), (), _dt(dtype, int64))
    if isinstance(x, SInt):
        raise Unsupported("symbolic integer as an array value")
    if isinstance(x, float):
        d = _dt(dtype, float64)
        return fresh_mat(fill_term(x, d)(1, 1), (), d)
    if x is None:
        return fresh_mat(t_op("none_object", [], 1, 1), (), object_)
    if isinstance(x, VSeqBase) or isinstance(x, (list, tuple)):
        return from_sequence(x, dtype)
    if callable(getattr(x, "_to_list", None)):
        return from_sequence(x._to_list(), dtype)
    raise Unsupported(f"np.array of {type(x).__name__}")


def from_sequence(x, dtype=None):
    """np.array / np.stack of a sequence of arrays."""
    sym = getattr(x, "symbolic_length", None)
    if sym is None or CTX.get().const_value(x.symbolic_length()) is not None:
        items = [asarray(e) for e in (x if sym is None else x.native_items())]
        n = len(items)
        if n == 0:
            return zeros((0,), dtype)
        shapes = [i._shape for i in items]
        s0 = shapes[0]
        for s in shapes[1:]:
            if len(s) != len(s0) or not all(bool(SInt.of(a) == SInt.of(b)) for a, b in zip(s, s0)):
                raise ValueError("inhomogeneous shape")
        d = as_dtype(dtype) if dtype is not None else result_dtype(*[i.dtype for i in items])
        if any(i.is_stack for i in items):
            raise Unsupported("sequence of series")
        ts = [cast_term(i.term(), i.dtype, d) for i in items]
        length = n if sym is None else simp(SInt.of(x.symbolic_length()))
        if n == 1 and len(s0) <= 1 and not is_time(length):
            r, c = dims((1,) + s0)
            t = ts[0] if len(s0) == 0 else t_t(ts[0])
            return fresh_mat(t, (1,) + s0, d)
        if n > 1 and len(s0) <= 1 and not is_time(length) and any(tm.nan_sources(t.p) for t in ts):
            raise Unsupported("a small array with entries that may be NaN")
        if len(s0) == 0 and not is_time(length):
            # small vector of scalars
            t = t_zero(n, 1)
            for i, e in enumerate(ts):
                t = t_add(t, t_smul(e, tm.atom_term(tm.basis_atom(n, i))))
            return fresh_mat(t, (n,), d)
        if len(s0) == 1 and not is_time(length):
            t = t_zero(n, s0[0])
            for i, e in enumerate(ts):
                t = t_add(t, t_mul(tm.atom_term(tm.basis_atom(n, i)), t_t(e)))
            return fresh_mat(t, (n,) + s0, d)
        r, c = dims(s0)

        def fn(i):
            for j, t in enumerate(ts[:-1]):
                if CTX.get().branch((SInt.of(i) == j).z if isinstance(SInt.of(i) == j, SBool)
                                    else (SInt.of(i) == j)):
                    return t
            return ts[-1]

        return fresh_stack(length, s0, fn, d)
    length = SInt.of(x.symbolic_length())
    if length == 0:
        return zeros((0,), dtype)
    probe = asarray(x.item_at(SInt(0)))
    rs, d0 = probe._shape, probe.dtype
    d = as_dtype(dtype) if dtype is not None else d0

    def fn(i):
        e = asarray(x.item_at(SInt.of(i)))
        if len(e._shape) != len(rs) or not all(deq(a, b) for a, b in zip(e._shape, rs)):
            raise Unsupported("inhomogeneous series")
        return cast_term(e.term(), e.dtype, d)

    # check homogeneity for an arbitrary element
    ctx = CTX.get()
    j = SInt.var(ctx.fresh("j"))
    ctx.assume(z3.And(j.z >= 0, j.z < length.z))
    e = asarray(x.item_at(j))
    if len(e._shape) != len(rs) or not all(deq(a, b) for a, b in zip(e._shape, rs)):
        raise Unsupported("inhomogeneous series")
    if e.dtype is not d0:
        d = result_dtype(d, e.dtype)
    snap = x.snapshot() if hasattr(x, "snapshot") else None
    return fresh_stack(length, rs, fn, d)


def copy(a, order="K", subok=False):
    a = asarray(a)
    if a.is_stack:
        snap = a.buf.snapshot()
        src = a

        old = StackBuf.__new__(StackBuf)
        old.fn, old.writes = snap[0], snap[1]

        def fn(i):
            t = StackBuf.read(old, src.row_index(i))
            return t_t(t) if src.tr else t

        return fresh_stack(a._shape[0], a._shape[1:], fn, a.dtype)
    return fresh_mat(a.term(), a._shape, a.dtype)


def materialise(a):
    """A series of provably constant length as a matrix (leading axis = rows)."""
    n = CTX.get().const_value(a._shape[0])
    if n is None or a.ndim > 2 or n > 4:
        raise Unsupported("a whole series used as a matrix")
    if n == 1:
        t = a.row_term(SInt(0))
        if a.ndim == 2:
            t = t_t(t)
        return fresh_mat(t, (1,) + a._shape[1:], a.dtype)
    raise Unsupported("a whole series used as a matrix")


# ------------------------------------------------------------------ lifting
def lift1(f, a, dtype, shape=None):
    a = asarray(a)
    if a.is_stack:
        c = copy(a)
        rs = a._shape[1:] if shape is None else shape
        return fresh_stack(a._shape[0], rs, lambda i: f(c.row_term(i)), dtype)
    return fresh_mat(f(a.term()), a._shape if shape is None else shape, dtype)


def lift1_view(a, rest):
    """a[:, rest] for a series a: element selection in every row (a copy is
    returned, so writes through it are refused)."""
    c = copy(a)
    probe = c.row(SInt(0))[rest]
    return forgotten_view(fresh_stack(a._shape[0], probe._shape, lambda i: c.row(SInt.of(i))[rest].term(), a.dtype), a)


def assign_stack(dst, rest, value):
    """dst[:, rest...] = value for a series dst of symbolic length."""
    if not all(isinstance(k, slice) and k == slice(None) for k in rest):
        raise Unsupported("partial assignment to a whole series")
    v = asarray(value)
    ctx = CTX.get()
    rs = dst._shape[1:]
    if v.is_stack and v.ndim == dst.ndim:
        one = False
        if not deq(v._shape[0], dst._shape[0]):
            if not ctx.branch(SInt.of(v._shape[0]).z == SInt.of(dst._shape[0]).z):
                one = ctx.branch(SInt.of(v._shape[0]).z == 1)
                if not one:
                    raise ValueError("could not broadcast input array")
        cv = copy(v)
        row = lambda i: (cv.row_term(SInt(0) if one else i), v._shape[1:])
    elif not v.is_stack:
        t = v.term()
        row = lambda i: (t, v._shape)
    else:
        raise Unsupported("assignment of a series")
    _, vs = row(SInt(0))
    if len(vs) > len(rs):
        raise Unsupported("series assignment with extra axes")
    check_bcast(vs, rs)
    start, step = dst.span
    b = dst.buf
    old = StackBuf.__new__(StackBuf)
    old.fn, old.writes = b.fn, list(b.writes)
    b.touch()
    length = SInt.of(dst._shape[0])
    tr = dst.tr

    def fn(j):
        j = SInt.of(j)
        i = (j - start) if step == 1 else (start - j)
        if (SInt.of(i) < 0) or (SInt.of(i) >= length):
            return StackBuf.read(old, j)
        t, s = row(SInt.of(i))
        t = cast_term(expand(t, s, rs), v.dtype, b.dtype)
        return t_t(t) if tr else t

    b.fn, b.writes = fn, []


def _raw(x):
    return x if is_arr(x) else array(x)


def _weak(x):
    return isinstance(x, (int, float, SInt)) and not isinstance(x, bool)


def weak_dtype(a, b, weak):
    """Result type of two operands; Python numbers adopt the precision of the array."""
    if weak[0] != weak[1]:
        w, o = (a, b) if weak[0] else (b, a)
        if o.dtype.kind == "f" or o.dtype.kind == w.dtype.kind:
            return o.dtype
    return result_dtype(a.dtype, b.dtype)


def ew(op, a, b):
    """Elementwise binary operation with broadcasting."""
    for x in (a, b):
        if isinstance(x, SymBoolArr):
            raise Unsupported("arithmetic on boolean arrays")
        if isinstance(x, SInt):
            v = CTX.get().const_value(x)
            if v is None:
                raise Unsupported("symbolic integer in array arithmetic")
    weak = _weak(a), _weak(b)
    a, b = [x if is_arr(x) else (array(x.__index__()) if isinstance(x, SInt) else array(x))
            for x in (a, b)]
    d = weak_dtype(a, b, weak)
    if d is object_:
        raise TypeError(f"unsupported operand type(s) for {op}")
    if op == "div" and d.kind in "ib":
        d = float64
    if a.is_stack or b.is_stack:
        return ew_stack(op, a, b, d)
    sh = bcast_shape(a._shape, b._shape)
    return fresh_mat(ew_term(op, a.term(), a._shape, b.term(), b._shape, sh), sh, d)


def keeps_nan(r, *ts):
    """r, a polynomial in ts: what may be NaN must not have cancelled."""
    risky = set()
    for t in ts:
        risky |= tm.nan_sources(t.p)
    if risky and not risky <= tm.nan_sources(r.p):
        raise Unsupported("arithmetic in which a value that may be NaN cancels")
    return r


def ew_term(op, ta, sa, tb, sb, sh):
    return keeps_nan(_ew_term(op, ta, sa, tb, sb, sh), ta, tb)


def _ew_term(op, ta, sa, tb, sb, sh):
    if op in ("add", "sub"):
        x, y = expand(ta, sa, sh), expand(tb, sb, sh)
        return t_add(x, y) if op == "add" else t_sub(x, y)
    a1, b1 = size_one(sa), size_one(sb)
    if op == "mul":
        if a1:
            return t_smul(_scal(ta), expand(tb, sb, sh))
        if b1:
            return t_smul(_scal(tb), expand(ta, sa, sh))
        # Hadamard product
        x, y = expand(ta, sa, sh), expand(tb, sb, sh)
        return t_op("hadamard", [x, y], x.rows, x.cols)
    if op == "div":
        if b1:
            return t_smul(t_inv(_scal(tb)), expand(ta, sa, sh))
        x, y = expand(ta, sa, sh), expand(tb, sb, sh)
        return t_op("divide", [x, y], x.rows, x.cols)
    raise Unsupported(op)


def _scal(t):
    return t


def ew_stack(op, a, b, d):
    nd = max(a.ndim, b.ndim)
    if a.is_stack and b.is_stack:
        if a.ndim != b.ndim:
            raise Unsupported("elementwise operation of series of different rank")
        n = bcast_dim(a._shape[0], b._shape[0])
        ca, cb = copy(a), copy(b)
        ra = (lambda i: ca.row_term(SInt(0))) if is1(a._shape[0]) and not deq(a._shape[0], n) else ca.row_term
        rb = (lambda i: cb.row_term(SInt(0))) if is1(b._shape[0]) and not deq(b._shape[0], n) else cb.row_term
        sa, sb = a._shape[1:], b._shape[1:]
    else:
        s, o = (a, b) if a.is_stack else (b, a)
        if o.ndim > s.ndim - 1:
            raise Unsupported("elementwise operation of a series and a matrix")
        cs = copy(s)
        t = o.term()
        n = s._shape[0]
        if a.is_stack:
            ra, rb, sa, sb = cs.row_term, (lambda i: t), s._shape[1:], o._shape
        else:
            ra, rb, sa, sb = (lambda i: t), cs.row_term, o._shape, s._shape[1:]
    sh = bcast_shape(sa, sb)
    return fresh_stack(n, sh, lambda i: ew_term(op, ra(i), sa, rb(i), sb, sh), d)


def _matdim(x, y):
    if deq(x, y):
        return
    if not CTX.get().branch(SInt.of(x).z == SInt.of(y).z):
        raise ValueError(f"matmul: mismatch in its core dimension: {x!r} and {y!r}")


def matmul(a, b, out=None, **k):
    if out is not None or k:
        raise Unsupported("matmul options")
    a, b = _raw(a), _raw(b)
    if a.dtype is object_ or b.dtype is object_:
        raise TypeError("matmul on objects")
    d = result_dtype(a.dtype, b.dtype)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.is_stack or b.is_stack:
        return matmul_stack(a, b, d)
    t, sh = mm_term(a.term(), a._shape, b.term(), b._shape)
    return fresh_mat(t, sh, d)


def mm_term(ta, sa, tb, sb):
    t, sh = _mm_term(ta, sa, tb, sb)
    return keeps_nan(t, ta, tb), sh


def _mm_term(ta, sa, tb, sb):
    if len(sa) == 2 and len(sb) == 2:
        _matdim(sa[1], sb[0])
        return t_mul(ta, tb), (sa[0], sb[1])
    if len(sa) == 2 and len(sb) == 1:
        _matdim(sa[1], sb[0])
        return t_mul(ta, tb), (sa[0],)
    if len(sa) == 1 and len(sb) == 2:
        _matdim(sa[0], sb[0])
        return t_mul(t_t(tb), ta), (sb[1],)
    _matdim(sa[0], sb[0])
    return t_mul(t_t(ta), tb), ()


def matmul_stack(a, b, d):
    """Batched matmul; rows must be matrices on the stacked side(s)."""
    def rk(x):
        return x.ndim - 1 if x.is_stack else x.ndim
    if (a.is_stack and a.ndim == 2) or (b.is_stack and b.ndim <= 2):
        # (T, n) @ (n, m): each row times the matrix
        if a.is_stack and a.ndim == 2 and not b.is_stack:
            ca, tb, sb, sa = copy(a), b.term(), b._shape, a._shape[1:]
            _, sh = mm_term(ca.row_term(SInt(0)), sa, tb, sb)
            return fresh_stack(a._shape[0], sh, lambda i: mm_term(ca.row_term(i), sa, tb, sb)[0], d)
        raise Unsupported("matrix product over the time axis")
    if rk(a) != 2 or rk(b) != 2:
        raise Unsupported("batched matmul with vectors")
    if a.is_stack and b.is_stack:
        n = bcast_dim(a._shape[0], b._shape[0])
    else:
        n = a._shape[0] if a.is_stack else b._shape[0]
    ca, cb = copy(a), copy(b)
    def rows(x, c):
        if not x.is_stack:
            t = c.term()
            return lambda i: t
        if is1(x._shape[0]) and not deq(x._shape[0], n):
            return lambda i: c.row_term(SInt(0))
        return c.row_term
    ra, rb = rows(a, ca), rows(b, cb)
    sa = a._shape[1:] if a.is_stack else a._shape
    sb = b._shape[1:] if b.is_stack else b._shape
    _, sh = mm_term(ra(SInt(0)), sa, rb(SInt(0)), sb)
    return fresh_stack(n, sh, lambda i: mm_term(ra(i), sa, rb(i), sb)[0], d)


def dot(a, b, out=None):
    a, b = _raw(a), _raw(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew("mul", a, b)
    if a.is_stack and a.ndim > 2 or b.is_stack:
        raise Unsupported("dot over the time axis")
    return matmul(a, b)


def outer(a, b, out=None):
    a, b = reshape(_raw(a), -1), reshape(_raw(b), -1)
    ta, tb = a.term(), t_t(b.term())
    return fresh_mat(keeps_nan(t_mul(ta, tb), ta, tb), (a._shape[0], b._shape[0]),
                     result_dtype(a.dtype, b.dtype))


def inner(a, b):
    a, b = _raw(a), _raw(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew("mul", a, b)
    if a.is_stack or b.is_stack:
        raise Unsupported("inner over the time axis")
    if a.ndim == 1 and b.ndim == 2:
        return matmul(b, a)
    return matmul(a, transpose(b))


def vdot(a, b):
    return matmul(reshape(_raw(a), -1), reshape(_raw(b), -1))


def multi_dot(arrays, **k):
    arrays = [_raw(x) for x in list(arrays)]
    if k or any(x.is_stack for x in arrays):
        raise Unsupported("multi_dot")
    if len(arrays) < 2:
        raise ValueError("Expecting at least two arrays.")
    if len(arrays) > 2 and (any(x.ndim != 2 for x in arrays[1:-1]) or arrays[0].ndim not in (1, 2)
                            or arrays[-1].ndim not in (1, 2)):
        raise LinAlgError("must be two-dimensional")
    r = arrays[0]
    for x in arrays[1:]:
        r = dot(r, x)
    return r


def einsum(spec, *ops, **k):
    if k and set(k) - {"optimize"}:
        raise Unsupported("einsum options")
    spec = spec.replace(" ", "")
    if "->" not in spec or "." in spec:
        raise Unsupported("einsum form")
    lhs, out = spec.split("->")
    ins = lhs.split(",")
    ops = [_raw(o) for o in ops]
    if len(ins) != len(ops) or any(o.is_stack for o in ops):
        raise Unsupported("einsum form")
    # chain of matrix products: every summed index occurs exactly twice
    cur, cs = None, None
    for s, o in zip(ins, ops):
        if len(s) != o.ndim or len(set(s)) != len(s):
            raise Unsupported("einsum form")
        if cur is None:
            cur, cs = o, s
            continue
        shared = set(cs) & set(s)
        later = set(out) | set("".join(ins[ins.index(s) + 1:]))
        if len(shared) != 1 or shared & set(out):
            raise Unsupported("einsum form")
        x = shared.pop()
        if len(cs) > 2 or len(s) > 2:
            raise Unsupported("einsum form")
        if len(cs) == 2 and cs[0] == x:
            cur, cs = transpose(cur), cs[::-1]
        if len(s) == 2 and s[1] == x:
            o, s = transpose(o), s[::-1]
        if not deq(cur._shape[-1], o._shape[0]):
            raise Unsupported("einsum of different sizes")
        cur = matmul(cur, o)
        cs = cs.replace(x, "") + s.replace(x, "")
    if sorted(cs) != sorted(out):
        raise Unsupported("einsum form")
    return cur if cs == out else transpose(cur)


def tensordot(a, b, axes=2):
    a, b = _raw(a), _raw(b)
    if axes == 1 and not a.is_stack and not b.is_stack:
        if a.ndim == 0 or b.ndim == 0:
            raise IndexError("tuple index out of range")
        return dot(a, b)
    raise Unsupported("tensordot")


# ------------------------------------------------------------------ views
def transpose(a, axes=None):
    a = _raw(a)
    if axes is not None:
        if len(axes) != a.ndim:
            raise ValueError("axes don't match array")
        axes = tuple(norm_axis(x, a.ndim) for x in axes)
    if a.is_stack:
        if a.ndim == 1 and axes in (None, (0,), [0]):
            return a.view()
        if axes is not None:
            axes = tuple(int(x) % a.ndim for x in axes)
            if axes == (0, 2, 1):
                return SymArray(a.buf, (a._shape[0], a._shape[2], a._shape[1]), tr=not a.tr, span=a.span)
            if axes == tuple(range(a.ndim)):
                return a.view()
        raise Unsupported("transpose of a series")
    if a.ndim < 2:
        return a.view()
    if axes is not None:
        axes = tuple(int(x) % 2 for x in axes)
        if axes == (0, 1):
            return a.view()
    return SymArray(a.buf, (a._shape[1], a._shape[0]), a.sel, not a.tr)


def swapaxes(a, i, j):
    a = _raw(a)
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    if i == j:
        return a.view()
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, tuple(ax))


def moveaxis(a, s, d):
    a = _raw(a)
    s, d = norm_axis(s, a.ndim), norm_axis(d, a.ndim)
    ax = [x for x in range(a.ndim) if x != s]
    ax.insert(d, s)
    return transpose(a, tuple(ax))


def reshape(a, shape, order="C", **k):
    a = _raw(a)
    if isinstance(shape, (list, tuple)):
        shape = tuple(shape)
    else:
        shape = (shape,)
    shape = tuple(simp(SInt.of(s)) for s in shape)
    if a.is_stack:
        return reshape_stack(a, shape)
    cur = list(a._shape)
    if any(deq(d, 0) for d in cur) and shape and not any(isinstance(s, int) and s == -1 for s in shape):
        if deq(shape[0], 0):           # no elements: an empty series
            return fresh_stack(shape[0], shape[1:], lambda i: t_zero(*dims(shape[1:])), a.dtype)
        if not any(deq(s, 0) for s in shape):
            raise ValueError("cannot reshape array of size 0")
    cur = list(a._shape)
    if -1 in [s for s in shape if isinstance(s, int)]:
        if sum(1 for s in shape if isinstance(s, int) and s == -1) > 1:
            raise ValueError("can only specify one unknown dimension")
        big = [d for d in cur if not is1(d)]
        known = [s for s in shape if not (isinstance(s, int) and s == -1)]
        for s in known:
            if is1(s):
                continue
            for d in big:
                if deq(d, s):
                    big.remove(d)
                    break
            else:
                raise Unsupported("reshape")
        if len(big) == 0:
            fill = 1
        elif len(big) == 1:
            fill = big[0]
        else:
            raise Unsupported("reshape merging axes")
        shape = tuple(fill if isinstance(s, int) and s == -1 else s for s in shape)
    if len(shape) == len(cur) and all(deq(x, y) for x, y in zip(shape, cur)):
        return SymArray(a.buf, shape, a.sel, a.tr)
    nb = [d for d in cur if not is1(d)]
    ns = [d for d in shape if not is1(d)]
    if len(nb) != len(ns) or not all(deq(x, y) for x, y in zip(nb, ns)):
        # maybe unit dimensions on this path only
        if len(nb) == len(ns) == 1 and not CTX.get().branch(SInt.of(nb[0]).z == SInt.of(ns[0]).z):
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape merging or splitting axes")
    if len(shape) > 2:
        raise Unsupported("reshape to three dimensions")
    # orientation of the data in the underlying matrix
    r0, c0 = dims(a._shape)
    r1, c1 = dims(shape)
    same = deq(r0, r1) and deq(c0, c1)
    return SymArray(a.buf, shape, a.sel, a.tr if same else not a.tr)


def reshape_stack(a, shape):
    if len(shape) >= 1 and (deq(shape[0], a._shape[0]) if not (isinstance(shape[0], int) and shape[0] == -1) else True):
        rest = shape[1:]
        rs = a._shape[1:]
        if not (isinstance(shape[0], int) and shape[0] == -1) and any(isinstance(d, int) and d == -1 for d in rest) \
                and CTX.get().branch(SInt.of(a._shape[0]).z == 0):
            raise ValueError("cannot reshape array of size 0")
        # keep the time axis, reshape rows
        try:
            probe = reshape(fresh_mat(t_op("probe", [], *dims(rs)), rs), rest if rest else ())
        except ValueError:
            if CTX.get().branch(SInt.of(a._shape[0]).z == 0):
                raise Unsupported("reshape of an empty series") from None
            raise
        same = probe.tr is False
        return SymArray(a.buf, (a._shape[0],) + probe._shape, tr=a.tr if same else not a.tr, span=a.span)
    if CTX.get().const_value(a._shape[0]) is not None and CTX.get().const_value(a._shape[0]) == 1:
        raise Unsupported("reshape of a series of length one")
    raise Unsupported("reshape of a series")


def atleast_1d(*arys):
    if len(arys) != 1:
        return [atleast_1d(x) for x in arys]
    a = _raw(arys[0])
    return reshape(a, (1,)) if a.ndim == 0 else a


def atleast_2d(*arys):
    if len(arys) != 1:
        return [atleast_2d(x) for x in arys]
    a = _raw(arys[0])
    if a.ndim == 0:
        return reshape(a, (1, 1))
    if a.ndim == 1:
        if a.is_stack:
            raise Unsupported("atleast_2d of a series")
        return reshape(a, (1, a._shape[0]))
    return a


def expand_dims(a, axis):
    a = _raw(a)
    if not isinstance(axis, int):
        raise Unsupported("expand_dims axes")
    axis = norm_axis(axis, a.ndim + 1)
    sh = list(a._shape)
    sh.insert(axis, 1)
    if a.is_stack and axis == 0:
        raise Unsupported("expand_dims before the time axis")
    return reshape(a, tuple(sh))


def squeeze(a, axis=None):
    a = _raw(a)
    if axis is None:
        first = a._shape[:1] if a.is_stack else ()
        rest = a._shape[1:] if a.is_stack else a._shape
        for d in a._shape:
            if not is1(d) and not isinstance(d, int):
                CTX.get().branch(SInt.of(d).z == 1)
        if a.is_stack and is1(a._shape[0]):
            raise Unsupported("squeeze of a series of length one")
        return reshape(a, first + tuple(d for d in rest if not is1(d)))
    if isinstance(axis, (tuple, list)):
        raise Unsupported("squeeze of several axes")
    if not a.ndim and axis in (0, -1):
        return a.view()
    axis = norm_axis(axis, a.ndim)
    if not is1(a._shape[axis]) and not CTX.get().branch(SInt.of(a._shape[axis]).z == 1):
        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    if a.is_stack and axis == 0:
        return a.row(SInt(0))
    return reshape(a, tuple(d for i, d in enumerate(a._shape) if i != axis))


def broadcast_to(a, shape, **k):
    a = _raw(a)
    shape = norm_shape(shape)
    if len(shape) == a.ndim and all(deq(x, y) for x, y in zip(shape, a._shape)):
        return forgotten_view(copy(a), a)       # read-only
    if a.ndim > len(shape):
        raise ValueError("input operand has more dimensions than allowed by the axis remapping")
    if shape and is_time(shape[0]) and not a.is_stack:
        rs = shape[1:]
        if a.ndim == len(shape):
            if not is1(a._shape[0]):
                raise Unsupported("broadcast_to of a leading axis")
            src, a = a, reshape(a, a._shape[1:])
        if a.ndim > len(rs):
            raise Unsupported("broadcast_to")
        check_bcast(a._shape, rs)
        t = expand(a.term(), a._shape, rs)
        return forgotten_view(fresh_stack(shape[0], rs, lambda i: t, a.dtype), a)
    if a.is_stack:
        raise Unsupported("broadcast_to of a series")
    check_bcast(a._shape, shape)
    return forgotten_view(fresh_mat(expand(a.term(), a._shape, shape), shape, a.dtype), a)


def stack(arrays, axis=0, out=None, **k):
    if axis != 0 or out is not None or k:
        raise Unsupported("np.stack options")
    if is_arr(arrays):
        return copy(arrays)
    if getattr(arrays, "symbolic_length", None) is None:
        arrays = list(arrays)
        if not arrays:
            raise ValueError("need at least one array to stack")
    elif SInt.of(arrays.symbolic_length()) == 0:
        raise ValueError("need at least one array to stack")
    return from_sequence(arrays)


vstack_doc = "np.vstack of 1-d arrays equals np.stack"


def vstack(arrays, **k):
    if k:
        raise Unsupported("np.vstack options")
    if is_arr(arrays):
        if arrays.is_stack and arrays.ndim == 2:
            return copy(arrays)
        raise Unsupported("np.vstack of an array")
    if getattr(arrays, "symbolic_length", None) is None:
        arrays = list(arrays)
        if any(asarray(a).is_stack or asarray(a).ndim != 1 for a in arrays):
            return concatenate([atleast_2d(a) for a in arrays])
    else:
        if SInt.of(arrays.symbolic_length()) == 0:
            raise ValueError("need at least one array to concatenate")
        if asarray(arrays.item_at(SInt(0))).ndim != 1:
            raise Unsupported("np.vstack of matrices")
    return from_sequence(arrays)


def concatenate(arrays, axis=0, **k):
    if axis != 0 or k:
        raise Unsupported("np.concatenate options")
    arrs = [asarray(a) for a in arrays]
    if not any(a.is_stack for a in arrs):
        raise Unsupported("np.concatenate of matrices")
    nd = {a.ndim for a in arrs}
    if len(nd) != 1:
        raise ValueError("all the input array dimensions must match")
    parts = []
    rs = next(a for a in arrs if a.is_stack)._shape[1:]
    total = SInt(0)
    for a in arrs:
        if a.is_stack:
            c = copy(a)
            parts.append((SInt.of(a._shape[0]), c.row_term))
        else:
            # leading unit axis of a matrix
            if not is1(a._shape[0]):
                raise Unsupported("np.concatenate of a matrix and a series")
            t = reshape(a, a._shape[1:]).term()
            parts.append((SInt(1), lambda i, t=t: t))
        if not same_dims(a._shape[1:], rs):
            raise ValueError("all the input array dimensions must match")
        total = SInt.of(total + parts[-1][0])
    d = result_dtype(*[a.dtype for a in arrs])

    def fn(i):
        i = SInt.of(i)
        for n, f in parts[:-1]:
            if i < n:
                return f(i)
            i = SInt.of(i - n)
        return parts[-1][1](i)

    return fresh_stack(total, rs, fn, d)


def flip(a, axis=None):
    a = _raw(a)
    if a.is_stack and (axis == 0 or (axis is None and a.ndim == 1)):
        return a[::-1]
    raise Unsupported("np.flip")


def flipud(a):
    return flip(a, 0)


def tile(a, reps):
    a = _raw(a)
    if isinstance(reps, (tuple, list)):
        reps = tuple(simp(SInt.of(r)) for r in reps)
        if len(reps) == a.ndim + 1 and all(is1(r) for r in reps[1:]):
            t = a.term()
            return fresh_stack(reps[0], a._shape, lambda i: t, a.dtype)
    raise Unsupported("np.tile")


def repeat(a, n, axis=None):
    a = _raw(a)
    if axis == 0 and is1(a._shape[0]) and not a.is_stack:
        t = reshape(a, a._shape[1:]).term()
        return fresh_stack(n, a._shape[1:], lambda i: t, a.dtype)
    raise Unsupported("np.repeat")


def diag(a, k=0):
    a = _raw(a)
    if k != 0 or a.is_stack or a.ndim not in (1, 2):
        raise Unsupported("diag")
    if a.ndim == 1:
        return opaque_shape("diag", [a], (a._shape[0],) * 2, a.dtype)
    if not deq(*a._shape):
        raise Unsupported("diagonal of a matrix that is not square")
    return forgotten_view(opaque_shape("diagonal", [a], (a._shape[0],), a.dtype), a)


# ------------------------------------------------------------------ linalg
class LinAlgError(ValueError):
    pass


def _square(a):
    if a.is_stack and a.ndim == 2:
        raise Unsupported("a whole series used as a matrix")
    if a.ndim < 2:
        raise LinAlgError(f"{a.ndim}-dimensional array given. Array must be at least two-dimensional")
    if not deq(a._shape[-1], a._shape[-2]):
        if not CTX.get().branch(SInt.of(a._shape[-1]).z == SInt.of(a._shape[-2]).z):
            raise LinAlgError("Last 2 dimensions of the array must be square")


def _nofloat(d):
    return float64 if d.kind in "ib" else d


def may_raise(what):
    """The operation raises for some inputs (a singular matrix)."""
    f = getattr(CTX.get(), "may_raise", None)
    if f is not None:
        f(what)


def inv(a):
    a = _raw(a)
    _square(a)
    may_raise("a matrix inversion")
    CTX.get().notes.append(("invertible", a.term() if not a.is_stack else None))
    return lift1(t_inv, a, _nofloat(a.dtype))


def pinv(a, *args, **k):
    a = _raw(a)
    if a.ndim != 2 or a.is_stack:
        raise Unsupported("pinv")
    rc = [x for x in list(args[:1]) + [k.get("rcond"), k.get("rtol")] if x is not None]
    if rc or len(args) > 1:             # a cut-off: not the inverse for every invertible matrix
        if not all(isinstance(x, (int, float)) for x in rc):
            raise Unsupported("pinv cut-off")
        return opaque_shape(f"pinv{rc}", [a], (a._shape[1], a._shape[0]))
    if not deq(a._shape[0], a._shape[1]):
        return opaque_shape("pinv", [a], (a._shape[1], a._shape[0]))
    return inv(a)


def solve(a, b):
    a, b = _raw(a), _raw(b)
    _square(a)
    if a.is_stack or b.is_stack:
        return matmul(inv(a), b) if b.ndim >= 2 else _uns("solve of series")
    d = _nofloat(result_dtype(a.dtype, b.dtype))
    if b.ndim == 0:
        raise ValueError("solve: Input operand 1 does not have enough dimensions")
    _matdim(a._shape[0], b._shape[0])
    may_raise("a matrix inversion")
    return fresh_mat(t_mul(t_inv(a.term()), b.term()), b._shape, d)


def _uns(m):
    raise Unsupported(m)


def lstsq(a, b, rcond=None):
    if rcond is not None and not (isinstance(rcond, (int, float)) and rcond == -1):
        raise Unsupported("lstsq with a cut-off")
    x = solve(a, b)
    return x, None, None, None


class _LinAlg:
    LinAlgError = LinAlgError
    inv = staticmethod(inv)
    pinv = staticmethod(pinv)
    solve = staticmethod(solve)
    lstsq = staticmethod(lstsq)
    multi_dot = staticmethod(multi_dot)

    @staticmethod
    def norm(a, ord=None, axis=None, keepdims=False):
        _noaxis(axis, {"k": keepdims})
        return reduce_opaque(f"norm{ord}", a)

    @staticmethod
    def det(a):
        return reduce_opaque("det", a)

    @staticmethod
    def cond(a, p=None):
        return reduce_opaque("cond", a)

    @staticmethod
    def matrix_rank(a, *x, **k):
        return reduce_opaque("rank", a)

    @staticmethod
    def slogdet(a):
        return reduce_opaque("slogdet_s", a), reduce_opaque("slogdet_l", a)

    @staticmethod
    def eigvalsh(a, *x, **k):
        a = _raw(a)
        return opaque_shape("eigvalsh", [a], (a._shape[0],))

    @staticmethod
    def eigvals(a):
        a = _raw(a)
        return opaque_shape("eigvals", [a], (a._shape[0],))

    @staticmethod
    def cholesky(a, **k):
        a = _raw(a)
        _square(a)
        return opaque_shape("cholesky", [a], a._shape)

    @staticmethod
    def eigh(a, *x, **k):
        a = _raw(a)
        return (opaque_shape("eigh_w", [a], (a._shape[0],)), opaque_shape("eigh_v", [a], a._shape))

    @staticmethod
    def matrix_transpose(a):
        return swapaxes(a, -1, -2)

    @staticmethod
    def matmul(a, b):
        return matmul(a, b)

    def __getattr__(self, n):
        if hasattr(_np.linalg, n):
            raise Unsupported(f"np.linalg.{n}")
        raise AttributeError(f"module 'numpy.linalg' has no attribute '{n}'")


linalg = _LinAlg()


# ------------------------------------------------------------------ opaque
def _oterm(x):
    if is_arr(x):
        if x.is_stack:
            ctx = CTX.get()
            j = SInt.var("j!opaque")
            c = copy(x)
            raise Unsupported("opaque function of a whole series")
        return x.term()
    if isinstance(x, (int, float, str, type(None), bool, Fraction)):
        return x
    raise Unsupported(f"opaque function of {type(x).__name__}")


def opaque(name, args, dtype=float64):
    """Opaque elementwise function: congruent, broadcasting."""
    arrs = [asarray(a) if (is_arr(a) or isinstance(a, (list, tuple))) else a for a in args]
    st = [a for a in arrs if is_arr(a) and a.is_stack]
    if st:
        if len(st) == 1 and st[0] is arrs[0] and not any(is_arr(a) and a.ndim for a in arrs[1:]):
            rest = [_oterm(a) for a in arrs[1:]]
            return lift1(lambda t: t_op(name, [t] + rest, t.rows, t.cols), arrs[0], dtype)
        raise Unsupported("opaque function of series")
    sh = ()
    for a in arrs:
        if is_arr(a):
            sh = bcast_shape(sh, a._shape)
    r, c = dims(sh)
    return fresh_mat(t_op(name, [_oterm(a) for a in arrs], r, c), sh, dtype)


def opaque1(name, a):
    """Opaque elementwise function of one array."""
    a = _raw(a)
    if name in ("floor", "ceil", "rint", "trunc", "fix") and a.dtype.kind != "f":
        raise Unsupported(f"{name} of integers")
    keep = name in ("abs", "absolute", "sign", "square", "conj", "conjugate", "real", "reciprocal")
    return opaque(name, [a], a.dtype if keep else _nofloat(a.dtype))


def opaque2(name, a, b):
    """Opaque elementwise function of two arrays or numbers."""
    weak = _weak(a), _weak(b)
    a, b = _raw(a), _raw(b)
    d = weak_dtype(a, b, weak)
    if name in ("hypot", "arctan2", "copysign", "nextafter"):
        d = _nofloat(d)
    return opaque(name, [a, b], d)


def opaque_shape(name, args, shape, dtype=float64):
    shape = norm_shape(shape)
    r, c = dims(shape)
    return fresh_mat(t_op(name, [_oterm(a) for a in args], r, c), shape, dtype)


_SER = [0]


def reduce_opaque(name, a):
    a = _raw(a)
    keep = name in ("sum", "prod", "max", "min", "amax", "amin", "trace", "nansum", "nanmax", "nanmin", "ptp")
    d = a.dtype if keep else _nofloat(a.dtype)
    if name in ("max", "min", "amax", "amin", "nanmax", "nanmin", "ptp") and empty_shape(a._shape):
        raise ValueError("zero-size array to reduction operation which has no identity")
    if name in ("det", "cond", "slogdet_s", "slogdet_l"):
        if a.is_stack:
            raise Unsupported(name + " of a series")
        _square(a)
    if a.is_stack:
        return fresh_mat(t_op(name, [series_key(a)], 1, 1), (), d)
    if size_one(a._shape) and name in ("sum", "mean", "max", "min", "amax", "amin", "trace", "det", "prod", "median"):
        return fresh_mat(a.scalar_term(), (), d)
    return fresh_mat(t_op(name, [a.term()], 1, 1), (), d)


def empty_shape(shape):
    """Has an array of this shape no elements (decided by a branch if need be)?"""
    for d in shape:
        d = SInt.of(d)
        if d.is_const():
            if d.c == 0:
                return True
        elif CTX.get().branch(d.z == 0):
            return True
    return False


def series_key(a):
    """A string identifying the content of a series (by a generic element)."""
    j = SInt.var("j!generic")
    if a.buf.writes:
        raise Unsupported("reduction of a written series")
    t = a.buf.fn(j)
    return f"series:{tm.show(t.p, 99)}:{a.span}:{a._shape}"


_ELEMENTWISE1 = ["sqrt", "exp", "log", "abs", "absolute", "fabs", "sign", "floor", "ceil", "rint",
                 "sin", "cos", "tan", "tanh", "square", "reciprocal", "log1p", "expm1", "cbrt",
                 "trunc", "fix", "conj", "conjugate", "real"]
_ELEMENTWISE2 = ["maximum", "minimum", "power", "fmax", "fmin", "mod", "fmod", "floor_divide",
                 "hypot", "arctan2", "copysign", "remainder", "nextafter"]


def round_(a, decimals=0, out=None):
    return opaque("round", [a, decimals], _raw(a).dtype)


class _OfType:
    """An operand of which only the element type matters."""

    def __init__(self, d):
        self.dtype = d


def clip(a, a_min=None, a_max=None, *x, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    r, weak = _raw(a), not is_arr(a)
    for b in (a_min, a_max):
        if b is not None:
            d = weak_dtype(r, _raw(b), (weak, not is_arr(b)))
            weak = weak and not is_arr(b)
            r = _OfType(d)
    return opaque("clip", [a, a_min, a_max], r.dtype)


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = _raw(a)
    if not a.is_stack and nan_st(a)[1] is False and copy:
        pass
    return opaque("nan_to_num", [a, nan, posinf, neginf], a.dtype)


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("np.where with one argument")
    if isinstance(c, SBool):
        c = bool(c)
    if isinstance(c, bool):
        r = asarray(x if c else y)
        o = asarray(y if c else x)
        sh = bcast_shape(r._shape, o._shape)
        return fresh_mat(expand(r.term(), r._shape, sh), sh,
                         weak_dtype(_raw(x), _raw(y), (not is_arr(x), not is_arr(y))))
    if isinstance(c, SymBoolArr):
        d = weak_dtype(_raw(x), _raw(y), (not is_arr(x), not is_arr(y)))
        x, y = asarray(x), asarray(y)
        if c.is_isnan() and c.arr is not None and not c.arr.is_stack:
            an = nan_st(c.arr)
            if an == (False, False):
                return where(c.neg, x, y)
        sh = bcast_shape(x._shape, y._shape)
        sh = bcast_shape(sh, c.shape)
        r, cc = dims(sh)
        return fresh_mat(t_op("where", [repr(c.key), _oterm(x), _oterm(y)], r, cc), sh, d)
    raise Unsupported("np.where")


def trace(a, *x, **k):
    a = _raw(a)
    if x or k or a.is_stack and a.ndim > 1:
        raise Unsupported("trace")
    if a.ndim < 2:
        raise ValueError("diag requires an array of at least two dimensions")
    return reduce_opaque("trace", a)


# ------------------------------------------------------------------ booleans
def nan_st(a):
    """(allnan, anynan) of an array."""
    if a.is_stack:
        ctx = CTX.get()
        t = a.buf.fn(SInt.var("j!generic")) if not a.buf.writes else None
        if t is not None:
            s = tm.nan_status(t) if not _generic_risky(t) else None
            if s is not None:
                if s == (False, False):
                    return (False, False)
                return s
            if t is not None:
                # one formula per series content
                key = ("series", series_key(a))
                reg = ctx.__dict__.setdefault("nanreg2", {})
                if key not in reg:
                    n = len(reg)
                    alln, anyn = z3.Bool(f"allnanS!{n}"), z3.Bool(f"anynanS!{n}")
                    reg[key] = (alln, anyn)
                    if ctx.prove(SInt.of(a._shape[0]).z >= 1):
                        ctx.assume(z3.Implies(alln, anyn))
                return reg[key]
        raise Unsupported("NaN test of a written series")
    return tm.nan_status(a.term())


def _generic_risky(t):
    return any(x.kind == "sym" and not x.data[0].real for x in tm.atoms_of(t.p).values()) or any(
        x.kind == "op" and x.data[0] not in ("ctl", "nanfill") for x in tm.atoms_of(t.p).values())


class SymBoolArr:
    """Boolean array known only through all() and any()."""

    def __init__(self, kind, arr, key, all_, any_, shape, neg=False):
        self.kind, self.arr, self.key = kind, arr, key
        if empty_shape(shape):
            all_, any_ = True, False
        self._all, self._any = all_, any_
        self.shape = tuple(shape)
        self.neg = neg
        self.dtype = bool_

    __hash__ = None

    def is_isnan(self):
        return self.kind == "isnan"

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = simp(SInt.of(r) * d)
        return r

    def all(self, axis=None, **k):
        _noaxis(axis, k)
        return _sb(self._all)

    def any(self, axis=None, **k):
        _noaxis(axis, k)
        return _sb(self._any)

    def sum(self, axis=None, **k):
        _noaxis(axis, k)
        return count_nonzero(self)

    def mean(self, *a, **k):
        raise Unsupported("mean of booleans")

    def item(self):
        if not size_one(self.shape):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return _sb(self._all)

    def ravel(self, *a, **k):
        return SymBoolArr(self.kind, self.arr, self.key, self._all, self._any, (self.size,), self.neg)

    flatten = ravel

    def reshape(self, *s):
        if s in ((-1,), ((-1,),)):
            return self.ravel()
        raise Unsupported("reshape of booleans")

    @property
    def flat(self):
        return self.ravel()

    def __bool__(self):
        if size_one(self.shape):
            return bool(_sb(self._all))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __invert__(self):
        return SymBoolArr(self.kind, self.arr, ("not", self.key), _znot(self._any),
                          _znot(self._all), self.shape, not self.neg)

    def _bin(self, o, name):
        if isinstance(o, SymBoolArr):
            return opaque_bool((name, self.key, o.key), bcast_shape(self.shape, o.shape))
        raise Unsupported("boolean array operation")

    def __and__(self, o):
        return self._bin(o, "and")

    def __or__(self, o):
        return self._bin(o, "or")

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"boolean ndarray.{n}")


def _znot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def _sb(x):
    return x if isinstance(x, bool) else SBool(x)


def isnan(a):
    if a is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    a = asarray(a)
    if a.dtype is object_:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    al, an = nan_st(a)
    if a.dtype.kind in "ib":
        al, an = False, False
    key = ("isnan", a.term().p.frozen() if not a.is_stack else id(a.buf))
    return SymBoolArr("isnan", a, key, al, an, a._shape)


def isfinite(a):
    a = asarray(a)
    al, an = nan_st(a)
    if al is False and an is False:
        key = ("isfinite",)
        return SymBoolArr("isfinite", a, key, True, True, a._shape)
    if al is True:
        return SymBoolArr("isfinite", a, ("isfinite",), False, False, a._shape)
    b = opaque_bool(("isfinite", a.term().p.frozen() if not a.is_stack else id(a.buf)), a._shape)
    ctx = CTX.get()
    ctx.assume(z3.Implies(al if not isinstance(al, bool) else z3.BoolVal(al), z3.Not(zf(b._any))))
    ctx.assume(z3.Implies(an if not isinstance(an, bool) else z3.BoolVal(an), z3.Not(zf(b._all))))
    return b


def isinf(a):
    a = asarray(a)
    al, an = nan_st(a)
    if an is False or al is True:
        return SymBoolArr("isinf", a, ("isinf",), False, False, a._shape)
    return opaque_bool(("isinf", a.term().p.frozen() if not a.is_stack else id(a.buf)), a._shape)


def zf(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def opaque_bool(key, shape, kind="opaque", arr=None):
    ctx = CTX.get()
    if empty_shape(shape):
        return SymBoolArr(kind, arr, key, True, False, shape)
    reg = ctx.__dict__.setdefault("boolreg", {})
    k = repr(key)
    if k not in reg:
        n = len(reg)
        al, an = z3.Bool(f"all!{n}"), z3.Bool(f"any!{n}")
        ctx.assume(z3.Implies(al, an))
        if size_one(shape):
            ctx.assume(z3.Implies(an, al))
        reg[k] = (al, an)
    al, an = reg[k]
    return SymBoolArr(kind, arr, key, al, an, shape)


def cmp_arr(op, a, b):
    if isinstance(a, SymBoolArr) or isinstance(b, SymBoolArr):
        raise Unsupported("comparison of boolean arrays")
    try:
        a, b = asarray(a), asarray(b)
    except Unsupported:
        raise
    sh = bcast_shape(a._shape, b._shape)
    if a.is_stack or b.is_stack:
        ka = series_key(a) if a.is_stack else tm.show(a.term().p, 99)
        kb = series_key(b) if b.is_stack else tm.show(b.term().p, 99)
        return opaque_bool((op, ka, kb), sh)
    ta, tb = a.term(), b.term()
    if op in ("eq", "ne") and a.ndim == b.ndim and equal(ta, tb):
        al, an = tm.nan_status(ta)
        if op == "ne":
            return SymBoolArr("isnan", a, ("isnan", ta.p.frozen()), al, an, sh)
        return SymBoolArr("notnan", a, ("notnan", ta.p.frozen()), _znot(an), _znot(al), sh)
    # constants
    ca, cb = _constval(ta), _constval(tb)
    if ca is not None and cb is not None:
        v = {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb,
             "eq": ca == cb, "ne": ca != cb, "close": abs(ca - cb) <= Fraction(1, 10 ** 8) + abs(cb) / 10 ** 5}[op]
        return SymBoolArr("const", None, ("const", v), v, v, sh)
    pa, pb = tm.canon_poly(ta.p), tm.canon_poly(tb.p)
    if op == "gt":
        op, pa, pb = "lt", pb, pa
    if op == "ge":
        op, pa, pb = "le", pb, pa
    if op == "ne":
        r = opaque_bool(("eq", pa.frozen(), pb.frozen()), sh)
        return SymBoolArr("opaque", None, ("ne", r.key), _znot(r._any), _znot(r._all), sh)
    return opaque_bool((op, pa.frozen(), pb.frozen()), sh)


def _constval(t):
    p = t.p
    if not p.m:
        return Fraction(0)
    if len(p.m) == 1 and is1(p.rows) and is1(p.cols):
        ((s, w), c), = p.m.items()
        if not s and not w:
            return c
    return None


def np_all(a, axis=None, **k):
    _noaxis(axis, k)
    if isinstance(a, (SBool, bool)):
        return a
    if isinstance(a, SymBoolArr):
        return a.all()
    if is_arr(a):
        return a.all()
    raise Unsupported("np.all")


def np_any(a, axis=None, **k):
    _noaxis(axis, k)
    if isinstance(a, (SBool, bool)):
        return a
    if isinstance(a, SymBoolArr):
        return a.any()
    if is_arr(a):
        return a.any()
    raise Unsupported("np.any")




def count_nonzero(a, axis=None, **k):
    _noaxis(axis, k)
    if isinstance(a, SymBoolArr):
        ctx = CTX.get()
        reg = ctx.__dict__.setdefault("cntreg", {})
        key = repr(a.key)
        if key not in reg:
            reg[key] = SInt.var(f"count!{len(reg)}")
            n, sz = reg[key], SInt.of(a.size)
            ctx.assume(z3.And(n.z >= 0, n.z <= sz.z, sz.z >= 0))
            ctx.assume((n.z == sz.z) == zf(a._all))
            ctx.assume((n.z > 0) == zf(a._any))
        return reg[key]
    raise Unsupported("count_nonzero")


def allclose(a, b, *x, **k):
    a, b = asarray(a), asarray(b)
    if not a.is_stack and not b.is_stack and a.ndim == b.ndim and equal(a.term(), b.term()) \
            and nan_st(a)[1] is False:
        return True
    return cmp_arr("close", a, b).all()


def isclose(a, b, *x, **k):
    return cmp_arr("close", asarray(a), asarray(b))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not bool(SInt.of(x) == SInt.of(y)):
            return False
    return cmp_arr("eq", a, b).all()


def logical_not(a):
    if isinstance(a, (SBool,)):
        return ~a
    if isinstance(a, SymBoolArr):
        return ~a
    raise Unsupported("logical_not")


def logical_or(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return a | b
    raise Unsupported("logical_or")


def logical_and(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return a & b
    raise Unsupported("logical_and")


# ------------------------------------------------------------------ misc
def shape(a):
    return asarray(a).shape if not hasattr(a, "symbolic_length") else (a.symbolic_length(),)


def ndim(a):
    if isinstance(a, SymBoolArr):
        return a.ndim
    return asarray(a).ndim


def size(a, axis=None):
    if axis is not None:
        return asarray(a).shape[axis]
    return asarray(a).size if not isinstance(a, SymBoolArr) else a.size


def isscalar(x):
    return isinstance(x, (int, float, complex, str, SInt))


def issubdtype(a, b):
    a = as_dtype(a)
    if isinstance(b, _Abstract):
        return a.kind in b.kinds
    return a is as_dtype(b)


def add(a, b, out=None, **k):
    return _out2("add", a, b, out, k)


def subtract(a, b, out=None, **k):
    return _out2("sub", a, b, out, k)


def multiply(a, b, out=None, **k):
    return _out2("mul", a, b, out, k)


def divide(a, b, out=None, **k):
    return _out2("div", a, b, out, k)


true_divide = divide


def negative(a, out=None, **k):
    return _out(-_raw(a), out, k)


def _out2(op, a, b, out, k):
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        for x in (a, b):
            out._castable(x, op == "div")
    return _out(ew(op, a, b), out, k)


def _out(r, out, k):
    if k:
        raise Unsupported("ufunc keywords")
    if out is not None:
        return out._inplace(r)
    return r


def copyto(dst, src, **k):
    if k:
        raise Unsupported("copyto options")
    if dst.dtype.kind in "ib" and (src.dtype.kind == "f" if is_arr(src) else isinstance(src, float)):
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'same_kind'")
    dst[...] = src


def shares_memory(a, b, *x):
    return a.buf is b.buf


may_share_memory = shares_memory


def s_len(x):
    if is_arr(x):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x._shape[0]
    if isinstance(x, SymBoolArr):
        return x.shape[0]
    if hasattr(x, "symbolic_length"):
        return simp(SInt.of(x.symbolic_length()))
    return len(x)


class _ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Module:
    """The object bound to `np` in the code under verification."""

    nan = float("nan")
    NaN = nan
    inf = float("inf")
    pi = math.pi
    newaxis = None
    errstate = _ErrState
    linalg = linalg
    __name__ = "numpy"
    __version__ = _np.__version__

    def __getattr__(self, name):
        g = globals()
        if name in _EXPORT:
            return g[_EXPORT[name]]
        if name in _ELEMENTWISE1:
            return lambda a, *x, **k: opaque1(name, a) if not x and not k else _uns(name)
        if name in _ELEMENTWISE2:
            return lambda a, b, *x, **k: opaque2(name, a, b) if not x and not k else _uns(name)
        if name in ("sum", "mean", "max", "min", "amax", "amin", "std", "var", "median", "ptp",
                    "prod", "nanmax", "nanmin", "nansum", "nanmean"):
            return lambda a, axis=None, **k: (_noaxis(axis, k), reduce_opaque(name, a))[1]
        if hasattr(_np, name):
            raise Unsupported(f"np.{name}")
        raise AttributeError(f"module 'numpy' has no attribute '{name}'")


_EXPORT = {n: n for n in """ndarray zeros empty ones full zeros_like empty_like ones_like full_like
identity eye array asarray asanyarray ascontiguousarray copy matmul dot outer inner vdot einsum
tensordot transpose swapaxes moveaxis reshape atleast_1d atleast_2d expand_dims squeeze broadcast_to
stack vstack concatenate flip flipud tile repeat diag clip nan_to_num where trace isnan isfinite isinf
all any count_nonzero allclose isclose array_equal logical_not logical_or logical_and shape ndim size
isscalar issubdtype add subtract multiply divide true_divide negative copyto shares_memory
may_share_memory float64 float32 float16 int64 int32 bool_ longdouble complex128 object_ floating
integer number inexact complexfloating signedinteger""".split()}
_EXPORT["round"] = "round_"
_EXPORT["all"] = "np_all"
_EXPORT["any"] = "np_any"
_EXPORT["around"] = "round_"
_EXPORT["float_"] = "float64"
_EXPORT["double"] = "float64"
_EXPORT["int_"] = "int64"
_EXPORT["dtype"] = "as_dtype"
_EXPORT["result_type"] = "result_type"
_EXPORT["matrix_transpose"] = "matrix_transpose"


def matrix_transpose(a):
    return swapaxes(a, -1, -2)


def result_type(*a):
    return result_dtype(*[x.dtype if is_arr(x) else as_dtype(x) for x in a])


np = Module()
