"""Conformance of vk/symnp.py with NumPy: random programs are executed twice,
symbolically (sizes are variables, contents arbitrary families) and by NumPy at
one assignment of sizes and contents; shapes, dtypes, exceptions, storage sharing
and values must agree.  What symnp refuses (Unsupported) is not compared.

usage: conform.py [--seconds S] [--seed N] [-v]
"""
import os
import random
import sys
import time
import warnings

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as np
import z3

from vk import symnp, terms as tm
from vk.core import CTX, Ctx, SBool, SInt, Unsupported
from vk.symnp import SymArray, SymBoolArr, float64, fresh_mat, fresh_stack, int64
from vk.terms import Family, NumEval

warnings.simplefilter("ignore")


class Skip(Exception):
    """Nothing to compare from here on."""


class ModelCtx(Ctx):
    """A path whose undecided branches follow one assignment of the sizes."""

    def __init__(self, sizes):
        super().__init__()
        self.sizes = sizes
        for d in "nml":
            self.assume(z3.Int(d) >= 1)
        self.assume(z3.Int("T") >= 0)

    def evaluate(self, f):
        s = z3.Solver()
        s.add([z3.Int(k) == v for k, v in self.sizes.items()])
        s.push()
        s.add(f)
        a = s.check() == z3.sat
        s.pop()
        s.add(z3.Not(f))
        b = s.check() == z3.sat
        if a and b:
            raise Skip("open branch")
        return a

    def branch(self, f):
        if isinstance(f, bool):
            return f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.prove(f):
            v = True
        elif self.prove(z3.Not(f)):
            v = False
        else:
            v = self.evaluate(f)
            self.assume(f if v else z3.Not(f))
            return v
        try:
            w = self.evaluate(f)
        except Skip:
            return v
        if w != v:
            raise Skip("symbolic constants")
        return v

    def fresh(self, stem):          # bound variables get some value in range later
        raise Skip("bound variable")


class Eval(NumEval):
    """NumEval at the chosen sizes, with integer families and exact basic operations."""

    def __init__(self, ctx, sizes, ints):
        super().__init__(ctx)
        self.sizes, self.ints = sizes, ints
        self.SIZES = sizes

    def dim(self, d):
        d = SInt.of(d)
        if any(n not in self.sizes for n, _ in d.t):
            raise Skip("size")
        return d.c + sum(c * self.sizes[n] for n, c in d.t)

    def value(self, fam, idx):
        r, c = self.dim(fam.rows), self.dim(fam.cols)
        v = self.rnd((fam.name, idx), r, c, fam.sym)
        return np.round(4 * v) if fam.name in self.ints else v

    def atom(self, a):
        if a.kind == "sym":
            fam, idx = a.data
            return self.value(fam, None if idx is None else self.dim(idx))
        if a.kind == "basis":
            v = np.zeros((self.dim(a.rows), 1))
            i = self.dim(a.data[0])
            if not 0 <= i < len(v):
                raise KeyError("basis index")
            v[i] = 1
            return v
        if a.kind == "inv":
            v = self.poly(a.data[0])
            if not np.isfinite(v).all() or np.linalg.cond(v) > 1e5:
                raise Skip("ill-conditioned")
            return np.linalg.inv(v)
        if a.kind == "op":
            name, args = a.data
            if name == "nanfill":
                return np.full((self.dim(a.rows), self.dim(a.cols)), np.nan)
            if name.startswith("trunc_"):
                v = np.trunc(self.poly(args[0]))
                if np.isnan(v).any():
                    raise KeyError("NaN as an integer")
                return v
            if name == "round_float32":
                return self.poly(args[0]).astype(np.float32).astype(float)
            raise KeyError(name)         # opaque: any function
        if a.kind == "ones":
            return np.ones((self.dim(a.rows), self.dim(a.cols)))
        raise KeyError(a.kind)


DT = {"float64": np.float64, "int64": np.int64, "float32": np.float32, "bool": np.bool_}


class Run:
    def __init__(self, rng):
        self.r = rng
        T = rng.choice([0, 1, 1, 2, 3, 4, 5])
        self.sizes = dict(n=rng.choice([1, 2, 3]), m=rng.choice([1, 2, 3]), l=rng.choice([1, 2, 3]), T=T)
        tm.reset_tables()
        self.ctx = CTX.v = ModelCtx(self.sizes)
        self.ints = set()
        self.ev = Eval(self.ctx, self.sizes, self.ints)
        self.pool = []            # (symbolic, concrete)
        self.log = []

    # -- inputs
    def dimv(self, code):
        return tuple(SInt.var(c) if c in "nmlT" else int(c) for c in code)

    def new(self, code, stack, integer=False, sym=False):
        name = f"X{len(self.pool)}"
        D = self.dimv(code)
        if integer:
            self.ints.add(name)
        r, c = symnp.dims(D[1:] if stack else D)
        fam = Family(name, r, c, sym=sym, indexed=stack)
        dt = int64 if integer else float64
        conc = tuple(self.sizes[c] if c in "nmlT" else int(c) for c in code)
        if stack:
            s = fresh_stack(D[0], D[1:], lambda k: fam.at(k), dt, origin="input", name=name, key=fam)
            v = np.zeros(conc)
            for k in range(conc[0]):
                v[k] = self.ev.value(fam, k).reshape(conc[1:])
        else:
            s = fresh_mat(fam.at(), D, dt, origin="input", name=name)
            v = np.array(self.ev.value(fam, None)).reshape(conc)
        v = v.astype(np.int64) if integer else v
        self.pool.append((s, v))
        self.log.append(f"{name} = input{code} {'int' if integer else ''}")

    # -- comparison
    def dimval(self, d):
        return self.ev.dim(d)

    def value(self, s):
        """Concrete value of a symbolic array, or None if opaque."""
        shape = tuple(self.dimval(d) for d in s._shape)
        try:
            if not s.is_stack:
                return self.ev.poly(s.term().p).reshape(shape)
            out = np.zeros(shape)
            for k in range(shape[0]):
                out[k] = self.ev.poly(s.row_term(SInt(k)).p).reshape(shape[1:])
            return out
        except KeyError:
            return None

    def compare(self, s, v, what):
        if isinstance(s, tuple) and isinstance(v, (tuple, list)):
            if len(s) != len(v):
                raise AssertionError(f"{what}: {len(s)} results, NumPy {len(v)}")
            for a, b in zip(s, v):
                self.compare(a, b, what)
            return
        if isinstance(s, SymBoolArr):
            if tuple(self.dimval(d) for d in s.shape) != np.shape(v):
                raise AssertionError(f"{what}: shape {s.shape}, NumPy {np.shape(v)}")
            for q, w in ((s.all(), np.all(v)), (s.any(), np.any(v))):
                self.compare(q, w, what + " all/any")
            return
        if isinstance(s, (SBool, bool)):
            if isinstance(s, SBool):
                try:
                    s = self.ctx.evaluate(s.z)
                except Skip:
                    return
            if bool(v) != s:
                raise AssertionError(f"{what}: {s}, NumPy {v}")
            return
        if isinstance(s, SInt):
            s = self.dimval(s)
        if isinstance(s, int):
            if s != v:
                raise AssertionError(f"{what}: {s}, NumPy {v}")
            return
        if not isinstance(s, SymArray):
            if isinstance(s, symnp.DType):
                if DT.get(s.name) != np.dtype(v).type:
                    raise AssertionError(f"{what}: {s}, NumPy {v}")
                return
            raise AssertionError(f"{what}: {type(s)}, NumPy {type(v)}")
        shape = tuple(self.dimval(d) for d in s._shape)
        if shape != np.shape(v):
            raise AssertionError(f"{what}: shape {s._shape} = {shape}, NumPy {np.shape(v)}")
        if DT.get(s.dtype.name) != np.asarray(v).dtype.type:
            raise AssertionError(f"{what}: {s.dtype}, NumPy {np.asarray(v).dtype}")
        x = self.value(s)
        if x is None:
            return "opaque"
        ok = np.isfinite(v)
        sc = max(1.0, float(np.max(np.abs(np.where(ok, v, 0)), initial=0)))
        tol = 1e-7 if s.dtype is float64 else 1e-4
        if sc > 1e6:
            return "large"
        if not np.allclose(x, v, rtol=tol, atol=tol * sc, equal_nan=True):
            raise AssertionError(f"{what}: value {x.tolist()}, NumPy {np.asarray(v).tolist()}")
        return "value"

    def compare_all(self, what):
        for i, (s, v) in enumerate(self.pool):
            self.compare(s, v, f"{what}: array {i} afterwards")

    def step(self):
        name, args, fs, fn, write = self.pick()
        self.log.append(f"{name} {args}")
        err = None
        olds = [np.array(v) for _, v in self.pool] if write else None
        try:
            v = fn()
        except Exception as e:
            err = e
        try:
            s = fs()
        except Unsupported:
            if write:
                raise Skip("unsupported write")
            return "unsupported"
        except (Skip, AssertionError):
            raise
        except Exception as e:
            if err is None:
                raise AssertionError(f"{name} {args} raises {type(e).__name__}: {e}; NumPy does not") from None
            a, b = type(e), type(err)
            if "read-only" in str(err):
                return "raises"
            if a.__name__ != b.__name__ and not (issubclass(b, a) or issubclass(a, b)):
                raise AssertionError(f"{name} {args} raises {a.__name__}, NumPy {b.__name__}: {err}") from None
            return "raises"
        if err is not None:
            if isinstance(err, np.linalg.LinAlgError) and "ingular" in str(err):
                raise Skip("singular")
            raise AssertionError(f"{name} {args} succeeds, NumPy raises {type(err).__name__}: {err}")
        if name == "array_equal" and not v:
            x, y = (self.pool[i][1] for i in args)
            if np.shape(x) == np.shape(y) and np.allclose(x, y, equal_nan=True):
                raise Skip("rounding")
        r = self.compare(s, v, f"{name} {args}") if not (s is None and v is None) else "none"
        if write:
            self.compare_all(name)
        if isinstance(s, SymArray) and isinstance(v, (np.ndarray, np.generic)):
            v = np.asarray(v) if isinstance(v, np.generic) else v
            if v.size and not s.buf.alias_unknown and not any(
                    x.buf.alias_unknown for x, _ in self.pool):
                for i, (s2, v2) in enumerate(self.pool):
                    a, b = s.buf is s2.buf, bool(np.may_share_memory(v, v2))
                    if a != b and v2.size and (np.shares_memory(v, v2) or a) and not self.apart(s, s2):
                        raise AssertionError(f"{name} {args}: shares storage with array {i}: {a}, NumPy {b}")
            if max(np.shape(v), default=0) < 60 and v.ndim < 4:
                self.pool.append((s, v))
                self.log[-1] += f" -> {len(self.pool) - 1}"
        return r

    def apart(self, s, s2):
        return s.buf is s2.buf       # different parts of one buffer

    # -- operations
    def pick(self):
        r, P, N = self.r, symnp.np, np
        i = r.randrange(len(self.pool))
        j = r.randrange(len(self.pool))
        (a, x), (b, y) = self.pool[i], self.pool[j]
        T = self.sizes["T"]
        kind = r.random()

        def both(name, f, args=(i,), write=False):
            return name, args, (lambda: f(P, a, b)), (lambda: f(N, x, y)), write

        if kind < 0.22:
            return r.choice([
                both("a@b", lambda q, a, b: a @ b, (i, j)),
                both("a+b", lambda q, a, b: a + b, (i, j)),
                both("a-b", lambda q, a, b: a - b, (i, j)),
                both("a*b", lambda q, a, b: a * b, (i, j)),
                both("2*a", lambda q, a, b: 2 * a),
                both("a/2", lambda q, a, b: a / 2),
                both("0.5+a", lambda q, a, b: 0.5 + a),
                both("1-a", lambda q, a, b: 1 - a),
                both("-a", lambda q, a, b: -a),
                both("matmul", lambda q, a, b: q.matmul(a, b), (i, j)),
                both("dot", lambda q, a, b: q.dot(a, b), (i, j)),
                both("a.dot", lambda q, a, b: a.dot(b), (i, j)),
                both("outer", lambda q, a, b: q.outer(a, b), (i, j)),
                both("inner", lambda q, a, b: q.inner(a, b), (i, j)),
                both("vdot", lambda q, a, b: q.vdot(a, b), (i, j)),
                both("add", lambda q, a, b: q.add(a, b), (i, j)),
                both("subtract", lambda q, a, b: q.subtract(a, b), (i, j)),
                both("multiply", lambda q, a, b: q.multiply(a, b), (i, j)),
                both("tensordot1", lambda q, a, b: q.tensordot(a, b, 1), (i, j)),
                both("tensordot01", lambda q, a, b: q.tensordot(a, b, axes=([1], [0])), (i, j)),
                both("multi_dot", lambda q, a, b: q.linalg.multi_dot([a, b]), (i, j)),
            ] + [both("einsum " + e, lambda q, a, b, e=e: q.einsum(e, a, b), (i, j))
                 for e in ("ij,jk->ik", "ij,j->i", "ij,kj->ik", "ji,jk", "i,j->ij", "i,i->", "i,i", "ij,i->j", "kij,kj->ki")])
        if kind < 0.34:
            return r.choice([
                both("T", lambda q, a, b: a.T), both("transpose", lambda q, a, b: q.transpose(a)),
                both("transpose axes", lambda q, a, b: q.transpose(a, (0, 2, 1))),
                both("swapaxes", lambda q, a, b: q.swapaxes(a, -1, -2)),
                both("swapaxes 0 1", lambda q, a, b: a.swapaxes(0, 1)),
                both("moveaxis", lambda q, a, b: q.moveaxis(a, 0, -1)),
                both("flip", lambda q, a, b: q.flip(a, 0)), both("flip all", lambda q, a, b: q.flip(a)),
                both("atleast_1d", lambda q, a, b: q.atleast_1d(a)), both("atleast_2d", lambda q, a, b: q.atleast_2d(a)),
                both("squeeze", lambda q, a, b: q.squeeze(a)), both("squeeze -1", lambda q, a, b: q.squeeze(a, -1)),
                both("squeeze 0", lambda q, a, b: a.squeeze(0)),
                both("expand 0", lambda q, a, b: q.expand_dims(a, 0)), both("expand -1", lambda q, a, b: q.expand_dims(a, -1)),
                both("expand 1", lambda q, a, b: q.expand_dims(a, 1)),
                both("ravel", lambda q, a, b: a.ravel()), both("flatten", lambda q, a, b: a.flatten()),
                both("reshape -1", lambda q, a, b: a.reshape(-1)), both("reshape (-1,1)", lambda q, a, b: a.reshape(-1, 1)),
                both("reshape (1,-1)", lambda q, a, b: q.reshape(a, (1, -1))),
                both("reshape ()", lambda q, a, b: a.reshape(())),
                both("reshape len,-1", lambda q, a, b: a.reshape(a.shape[0], -1)),
                both("reshape like", lambda q, a, b: a.reshape(b.shape), (i, j)),
                both("None", lambda q, a, b: a[None]), both(":,None", lambda q, a, b: a[:, None]),
                both("...,None", lambda q, a, b: a[..., None]), both("...", lambda q, a, b: a[...]),
                both("broadcast_to", lambda q, a, b: q.broadcast_to(a, b.shape), (i, j)),
            ])
        if kind < 0.46:
            ks = SInt.var("T") - 1
            return r.choice([
                both(f"[{k}]", lambda q, a, b, k=k: a[k]) for k in (0, 1, -1, -2, 2)] + [
                ("[T-1]", (i,), lambda: a[ks], lambda: x[T - 1], False),
                ("[T]", (i,), lambda: a[ks + 1], lambda: x[T], False),
                ("[:T]", (i,), lambda: a[:ks + 1], lambda: x[:T], False),
                ("[:T-1]", (i,), lambda: a[:ks], lambda: x[:T - 1], False),
                ("[T-1:]", (i,), lambda: a[ks:], lambda: x[T - 1:], False)] + [
                both(f"[{s}]", lambda q, a, b, s=s: a[s]) for s in (
                    slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 2), slice(-1, None), slice(0, 1),
                    slice(1, 1), slice(-2, None, -1), slice(None, 0, -1), slice(2, 0, -1), slice(3, None), slice(None, 4))] + [
                both("[0,0]", lambda q, a, b: a[0, 0]), both("[:,0]", lambda q, a, b: a[:, 0]),
                both("[0,:]", lambda q, a, b: a[0, :]), both("[:,-1]", lambda q, a, b: a[:, -1]),
                both("[0,0,0]", lambda q, a, b: a[0, 0, 0]), both("[-1,0]", lambda q, a, b: a[-1, 0]),
                both("[:,:,0]", lambda q, a, b: a[:, :, 0]), both("[...,0]", lambda q, a, b: a[..., 0])])
        if kind < 0.62:
            return r.choice([
                both("zeros_like", lambda q, a, b: q.zeros_like(a)), both("ones_like", lambda q, a, b: q.ones_like(a)),
                both("full_like nan", lambda q, a, b: q.full_like(a, np.nan, dtype=float)),
                both("full_like 2", lambda q, a, b: q.full_like(a, 2)),
                both("zeros_like float", lambda q, a, b: q.zeros_like(a, dtype=float)),
                both("zeros shape", lambda q, a, b: q.zeros(a.shape)), both("zeros len", lambda q, a, b: q.zeros(len_(a))),
                both("zeros int", lambda q, a, b: q.zeros(a.shape, dtype=int)),
                both("full", lambda q, a, b: q.full(a.shape, np.nan)), both("full 3", lambda q, a, b: q.full(a.shape, 3)),
                both("full 1.5", lambda q, a, b: q.full(a.shape, 1.5)),
                both("eye", lambda q, a, b: q.eye(a.shape[-1])), both("identity", lambda q, a, b: q.identity(a.shape[-1])),
                both("copy", lambda q, a, b: a.copy()), both("np.copy", lambda q, a, b: q.copy(a)),
                both("array", lambda q, a, b: q.array(a)), both("array no copy", lambda q, a, b: q.asarray(a)),
                both("asarray float", lambda q, a, b: q.asarray(a, dtype=float)),
                both("array float", lambda q, a, b: q.array(a, dtype=float)),
                both("astype float", lambda q, a, b: a.astype(float)), both("astype int", lambda q, a, b: a.astype(int)),
                both("astype nocopy", lambda q, a, b: a.astype(float, copy=False)),
                both("astype f32", lambda q, a, b: a.astype(q.float32)),
                both("ndmin", lambda q, a, b: q.array(a, ndmin=2)),
                both("asarray list", lambda q, a, b: q.asarray([a[0], a[-1]])),
                both("array [a,b]", lambda q, a, b: q.array([a, b]), (i, j)),
                both("stack", lambda q, a, b: q.stack([a, b]), (i, j)), both("stack -1", lambda q, a, b: q.stack([a, b], axis=-1), (i, j)),
                both("vstack", lambda q, a, b: q.vstack([a, b]), (i, j)),
                both("concatenate", lambda q, a, b: q.concatenate([a, b]), (i, j)),
                both("concatenate [None]", lambda q, a, b: q.concatenate([a, b[None]]), (i, j)),
                both("concatenate 1", lambda q, a, b: q.concatenate([a, b], axis=1), (i, j)),
                both("tile", lambda q, a, b: q.tile(a, (len_(b), 1)), (i, j)),
                both("tile3", lambda q, a, b: q.tile(a, (len_(b), 1, 1)), (i, j)),
                both("repeat", lambda q, a, b: q.repeat(a[None], len_(b), axis=0), (i, j)),
                both("where", lambda q, a, b: q.where(q.isnan(a), 0.0, a)),
                both("nan_to_num", lambda q, a, b: q.nan_to_num(a)),
                both("diag", lambda q, a, b: q.diag(a)),
                both("clip", lambda q, a, b: q.clip(a, -1, 1)), both("abs", lambda q, a, b: abs(a)),
                both("round", lambda q, a, b: q.round(a, 2)), both("square", lambda q, a, b: a ** 2),
            ])
        if kind < 0.74:
            return r.choice([
                both("inv", lambda q, a, b: q.linalg.inv(a)), both("solve", lambda q, a, b: q.linalg.solve(a, b), (i, j)),
                both("solve spd", lambda q, a, b: q.linalg.solve(a @ a.T + q.eye(a.shape[0]), b), (i, j)),
                both("inv spd", lambda q, a, b: q.linalg.inv(a @ a.T + q.eye(a.shape[0]))),
                both("shape", lambda q, a, b: q.shape(a)), both("a.shape", lambda q, a, b: a.shape),
                both("ndim", lambda q, a, b: q.ndim(a)), both("size", lambda q, a, b: q.size(a)), both("a.size", lambda q, a, b: a.size),
                both("len", lambda q, a, b: len_(a)), both("dtype", lambda q, a, b: a.dtype),
                both("result_type", lambda q, a, b: q.result_type(a, b), (i, j)),
                both("result_type f", lambda q, a, b: q.result_type(a, float)),
                both("isnan", lambda q, a, b: q.isnan(a)), both("isnan all", lambda q, a, b: q.isnan(a).all()),
                both("isnan any", lambda q, a, b: q.any(q.isnan(a))), both("all isnan", lambda q, a, b: q.all(q.isnan(a))),
                both("isfinite", lambda q, a, b: q.isfinite(a)), both("isinf", lambda q, a, b: q.isinf(a)),
                both("count isnan", lambda q, a, b: q.count_nonzero(q.isnan(a)) == a.size),
                both("not isnan", lambda q, a, b: ~q.isnan(a)),
                both("issubdtype", lambda q, a, b: q.issubdtype(a.dtype, q.floating)),
                both("array_equal", lambda q, a, b: q.array_equal(a, b), (i, j)),
                both("a == 0", lambda q, a, b: (a == 0).all()), both("a.any", lambda q, a, b: a.any()),
                both("allclose", lambda q, a, b: q.allclose(a, b), (i, j)),
                both("isscalar", lambda q, a, b: q.isscalar(a)),
                both("item", lambda q, a, b: a.item()), both("sum", lambda q, a, b: a.sum()),
                both("trace", lambda q, a, b: q.trace(a)), both("sum axis", lambda q, a, b: a.sum(axis=0)),
            ])
        # writes; inputs may be written as well here
        w = lambda name, f, args: both(name, lambda q, a, b: (f(q, a, b), None)[1], args, True)

        def iop(op):
            def f(q, a, b):
                if op == "+":
                    a += b
                elif op == "-":
                    a -= b
                elif op == "*":
                    a *= b
                elif op == "@":
                    a @= b
                elif op == "2":
                    a *= 2
                elif op == ".5":
                    a *= 0.5
                elif op == "/":
                    a /= 2
            return f

        def setk(k):
            def f(q, a, b):
                a[k] = b
            return f

        def setc(k, c):
            def f(q, a, b):
                a[k] = c
            return f
        return r.choice([w("+=", iop("+"), (i, j)), w("-=", iop("-"), (i, j)), w("*=", iop("*"), (i, j)), w("@=", iop("@"), (i, j)),
                         w("*=2", iop("2"), (i,)), w("*=.5", iop(".5"), (i,)), w("/=2", iop("/"), (i,)),
                         w("fill", lambda q, a, b: a.fill(3), (i,)), w("fill nan", lambda q, a, b: a.fill(np.nan), (i,)),
                         w("copyto", lambda q, a, b: q.copyto(a, b), (i, j)),
                         w("out add", lambda q, a, b: q.add(a, b, out=a), (i, j)),
                         w("out matmul", lambda q, a, b: q.matmul(a, b, out=b), (i, j))] +
                        [w(f"[{k}]=", setk(k), (i, j)) for k in (0, 1, -1, Ellipsis, slice(None), slice(1, None),
                                                              slice(None, -1), slice(None, None, -1), (0, 0), (slice(None), 0), 2)] +
                        [w(f"[{k}]=2.5", setc(k, 2.5), (i,)) for k in (0, -1, Ellipsis, slice(None), slice(1, None), (0, 0))])


def len_(a):
    return symnp.s_len(a) if isinstance(a, (SymArray, SymBoolArr)) else len(a)


CODES = [("Tnn", 1), ("Tmn", 1), ("Tnl", 1), ("Tn", 1), ("Tm", 1), ("Tl", 1), ("T", 1), ("T1", 1), ("T11", 1), ("Tmm", 1),
         ("nn", 0), ("mn", 0), ("n", 0), ("m", 0), ("mm", 0), ("", 0), ("1", 0), ("11", 0), ("n1", 0), ("1n", 0), ("nl", 0), ("l", 0)]


def program(seed):
    """One random program; returns (counts, failure or None, log)."""
    rng = random.Random(seed)
    run = Run(rng)
    counts = {}
    try:
        for code, st in rng.sample(CODES, rng.choice([3, 4, 6])):
            sq = len(code) - st == 2 and code[-1] == code[-2]
            run.new(code, bool(st), integer=rng.random() < 0.2, sym=sq and rng.random() < 0.5)
        for _ in range(rng.choice([3, 6, 10])):
            k = run.step()
            counts[k] = counts.get(k, 0) + 1
    except Skip as e:
        counts["skip"] = 1
        counts[f"skip: {e}"] = 1
    except Unsupported as e:
        counts["unsupported"] = counts.get("unsupported", 0) + 1
    except AssertionError as e:
        return counts, str(e), run
    finally:
        CTX.v = None
    return counts, None, run


def main():
    import argparse
    import traceback

    p = argparse.ArgumentParser()
    p.add_argument("--seconds", type=float, default=20)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("-v", action="store_true")
    p.add_argument("--sound", action="store_true", help="only disagreements that are not a needless exception")
    p.add_argument("--out", help="JSON summary")
    a = p.parse_args()
    t0, n, tot, bad = time.time(), 0, {}, {}
    while time.time() - t0 < a.seconds:
        n += 1
        s = a.seed * 10 ** 7 + n
        try:
            c, e, run = program(s)
        except Exception as ex:
            c, e, run = {}, "ERROR " + traceback.format_exc(limit=-4), None
        for k, v in c.items():
            tot[k] = tot.get(k, 0) + v
        if e:
            key = e.split(":")[0][:40] if not e.startswith("ERROR") else e[-120:]
            key = e.split("(")[0].split(" = ")[0][:30] + ("C" if "; NumPy does not" in e else "S")
            if key not in bad:
                bad[key] = (s, e)
                if a.v and (not a.sound or key[-1] == "S"):
                    print(f"--- seed {s} sizes {run.sizes if run else None}\n    {e}")
                    for x in run.log if run else ():
                        print("     ", x)
    print(n, "programs", tot, len(bad), "kinds of disagreement")
    if a.out:
        import json
        g = lambda *k: sum(tot.get(x, 0) for x in k)
        with open(a.out + ".tmp", "w") as f:
            json.dump(dict(programs=n, values_compared=g("value"), shapes_or_truth_compared=g("none", None, "opaque", "large"),
                           exceptions_compared=g("raises"), operations_outside_the_model=g("unsupported"),
                           seconds=round(time.time() - t0, 1),
                           disagreements=[dict(seed=s, what=e[-400:]) for s, e in list(bad.values())[:5]]), f)
        os.replace(a.out + ".tmp", a.out)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
