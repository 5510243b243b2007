"""Matrix terms: normal forms in the free ring with transpose and inverse.

Every term carries (a) a polynomial normal form over non-commuting typed
factors and (b) the expression tree as the code built it (for the Lean
certificates).  All matrices are real; vectors are n x 1 columns, scalars 1x1.
"""
import time
from fractions import Fraction

from .core import CTX, STATS, SInt, Unsupported, simp

ONE = Fraction(1)


def is1(d):
    if isinstance(d, int):
        return d == 1
    if d.is_const():
        return d.c == 1
    c = CTX.v
    return c is not None and c.is1(d)


def dkey(d):
    return SInt.of(d).key


def deq(a, b):
    a, b = SInt.of(a), SInt.of(b)
    if a.key == b.key:
        return True
    c = CTX.v
    return c is not None and c.eq(a, b)


# --------------------------------------------------------------------------
class Family:
    """A named family of matrices, possibly indexed by time.

    real: no entry is NaN.  sym: symmetric.  unfold(idx) -> Term or None gives
    the defining equation of a specification family.  rank: see `order`.
    """

    def __init__(self, name, rows, cols, sym=False, real=True, unfold=None,
                 order=None, indexed=True, lean=None, abbrev=False):
        self.name = name
        self.rows, self.cols = rows, cols
        self.sym = sym
        self.real = real
        self.unfold = unfold
        self.order = order
        self.indexed = indexed
        self.lean = lean
        self.abbrev = abbrev

    def at(self, idx=None):
        if self.indexed:
            return atom_term(sym_atom(self, SInt.of(idx)))
        return atom_term(sym_atom(self, None))


class Atom:
    __slots__ = ("id", "kind", "data", "rows", "cols", "sym", "of", "name")

    def __init__(self, kind, data, rows, cols, sym):
        self.kind, self.data = kind, data
        self.rows, self.cols, self.sym = rows, cols, sym
        self.of = None


_TABLE = {}
ATOMS = []


def _intern(key, make):
    a = _TABLE.get(key)
    if a is None:
        a = make()
        a.id = len(ATOMS)
        ATOMS.append(a)
        _TABLE[key] = a
    return a


def reset_tables():
    _TABLE.clear()
    ATOMS.clear()


def sym_atom(fam, idx):
    key = ("s", id(fam), idx.key if idx is not None else None)
    return _intern(key, lambda: Atom("sym", (fam, idx), fam.rows, fam.cols, fam.sym))


def op_atom(name, args, rows, cols, sym=False):
    """Opaque function of terms/constants (congruence only)."""
    ks = tuple(a.frozen() if isinstance(a, Poly) else ("c", repr(a)) for a in args)
    key = ("op", name, ks, dkey(rows), dkey(cols))
    return _intern(key, lambda: Atom("op", (name, tuple(args)), rows, cols, sym))


def ones_atom(r, c):
    return _intern(("ones", dkey(r), dkey(c)), lambda: Atom("ones", (), r, c, False))


def basis_atom(d, i):
    i = SInt.of(i)
    return _intern(("basis", dkey(d), i.key), lambda: Atom("basis", (i,), d, 1, False))


# --------------------------------------------------------------------------
def f_rows(f):
    a = ATOMS[f >> 1]
    return a.cols if f & 1 else a.rows


def f_cols(f):
    a = ATOMS[f >> 1]
    return a.rows if f & 1 else a.cols


def f_t(f):
    a = ATOMS[f >> 1]
    if a.sym or (is1(a.rows) and is1(a.cols)):
        return f & ~1
    return f ^ 1


def w_t(w):
    return tuple(f_t(f) for f in reversed(w))


def canon_scal(w):
    t = w_t(w)
    return min(w, t)


def cancels(f, g):
    """f * g == I because one is the inverse atom of the other."""
    a, b = ATOMS[f >> 1], ATOMS[g >> 1]
    if a.of is not None and a.of == b.id:
        return a.sym or (f & 1) == (g & 1)
    if b.of is not None and b.of == a.id:
        return b.sym or (f & 1) == (g & 1)
    return False


def reduce_word(w):
    out = []
    for f in w:
        if out and cancels(out[-1], f):
            out.pop()
        else:
            out.append(f)
    return tuple(out)


def norm_mono(scal, w, rows, cols):
    """Canonical (scal, word): 1x1 segments commute out of the word."""
    w = reduce_word(w)
    sc = list(scal)
    if w:
        cuts = [i for i in range(1, len(w)) if is1(f_rows(w[i]))]
        l1, r1 = is1(rows), is1(cols)
        if cuts or (l1 and r1):
            pts = [0] + cuts + [len(w)]
            segs = [w[a:b] for a, b in zip(pts, pts[1:])]
            keep = []
            for i, s in enumerate(segs):
                left = i > 0 or l1
                right = i < len(segs) - 1 or r1
                if left and right:
                    sc.append(canon_scal(s))
                else:
                    keep.extend(s)
            w = tuple(keep)
    if len(sc) > 1:
        # cancel scalar atoms against their inverses
        sc.sort()
        changed = True
        while changed:
            changed = False
            for i in range(len(sc)):
                for j in range(i + 1, len(sc)):
                    if len(sc[i]) == 1 and len(sc[j]) == 1 and cancels(sc[i][0], sc[j][0]):
                        del sc[j], sc[i]
                        changed = True
                        break
                if changed:
                    break
    return tuple(sc), w


class Poly:
    __slots__ = ("m", "rows", "cols", "_f")

    def __init__(self, m, rows, cols):
        self.m = m
        self.rows, self.cols = rows, cols
        self._f = None

    def frozen(self):
        if self._f is None:
            self._f = (tuple(sorted(self.m.items())), dkey(self.rows), dkey(self.cols))
        return self._f

    def is_zero(self):
        return not self.m


def pz(rows, cols):
    return Poly({}, rows, cols)


def p_eye(d):
    return Poly({((), ()): ONE}, d, d)


def p_atom(a, tr=0):
    f = a.id * 2 + (0 if a.sym else tr)
    rows, cols = f_rows(f), f_cols(f)
    return Poly({norm_mono((), (f,), rows, cols): ONE}, rows, cols)


def p_add(a, b, k=ONE):
    m = dict(a.m)
    for x, c in b.m.items():
        v = m.get(x, 0) + k * c
        if v:
            m[x] = v
        else:
            m.pop(x, None)
    return Poly(m, a.rows, a.cols)


def p_scale(a, c):
    if not c:
        return pz(a.rows, a.cols)
    return Poly({x: v * c for x, v in a.m.items()}, a.rows, a.cols)


MAXMONO = 4000


def p_mul(a, b):
    m = {}
    if len(a.m) * len(b.m) > MAXMONO:
        raise Unsupported("polynomial too large")
    for (s1, w1), c1 in a.m.items():
        for (s2, w2), c2 in b.m.items():
            x = norm_mono(s1 + s2, w1 + w2, a.rows, b.cols)
            v = m.get(x, 0) + c1 * c2
            if v:
                m[x] = v
            else:
                m.pop(x, None)
    return Poly(m, a.rows, b.cols)


def p_smul(s, a):
    """(1x1 poly) * poly."""
    m = {}
    for (s1, w1), c1 in s.m.items():
        for (s2, w2), c2 in a.m.items():
            x = norm_mono(s1 + s2 + ((canon_scal(w1),) if w1 else ()), w2, a.rows, a.cols)
            v = m.get(x, 0) + c1 * c2
            if v:
                m[x] = v
            else:
                m.pop(x, None)
    return Poly(m, a.rows, a.cols)


def p_t(a):
    m = {}
    for (s, w), c in a.m.items():
        x = norm_mono(s, w_t(w), a.cols, a.rows)
        m[x] = m.get(x, 0) + c
    return Poly({x: v for x, v in m.items() if v}, a.cols, a.rows)


def p_inv(p):
    """Inverse of an (assumed invertible) square polynomial."""
    if not p.m:
        raise Unsupported("inverse of zero")
    if len(p.m) == 1:
        ((s, w), c), = p.m.items()
        if not s and not w:
            return Poly({((), ()): ONE / c}, p.rows, p.cols)
        if not s and len(w) == 1:
            f = w[0]
            base = ATOMS[f >> 1]
            inv = _inv_of_atom(base)
            return p_scale(p_atom(inv, f & 1) if isinstance(inv, Atom)
                           else (p_t(inv) if f & 1 else inv), ONE / c)
        if is1(p.rows) and not w:
            r = p_scale(p_eye(p.rows), ONE / c)
            for x in s:
                r = p_smul(_inv_scal_word(x), r)
            return r
        if not s and all(deq(f_rows(f), f_cols(f)) for f in w):
            r = p_scale(p_eye(p.rows), ONE / c)
            for f in w:
                q = p_inv(Poly({((), (f,)): ONE}, f_rows(f), f_cols(f)))
                r = p_mul(q, r)
            return r
    items = sorted(p.m.items())
    c = items[0][1]
    q = p_scale(p, ONE / c)
    t = p_t(q)
    # orientation is chosen through the leading monomial of each
    tr = 0
    if t.frozen() < q.frozen():
        c = sorted(p_t(p).m.items())[0][1]
        q, tr = p_scale(p_t(p), ONE / c), 1
        t = p_t(q)
    symm = t.m == q.m
    a = _intern(("inv", q.frozen()), lambda: Atom("inv", (q,), p.rows, p.cols, symm))
    return p_scale(p_atom(a, tr), ONE / c)


def _inv_of_atom(base):
    if base.of is not None:
        return ATOMS[base.of]
    if base.kind == "inv":
        return base.data[0]
    q = p_atom(base)

    def make():
        a = Atom("inv", (q,), base.rows, base.cols, base.sym)
        a.of = base.id
        return a

    return _intern(("inv", q.frozen()), make)


def _inv_scal_word(w):
    if len(w) == 1:
        inv = _inv_of_atom(ATOMS[w[0] >> 1])
        return p_atom(inv) if isinstance(inv, Atom) else inv
    q = Poly({((w,), ()): ONE}, 1, 1)
    a = _intern(("inv", q.frozen()), lambda: Atom("inv", (q,), 1, 1, True))
    return p_atom(a)


# --------------------------------------------------------------------------
class Node:
    """Expression tree as built by the code."""

    __slots__ = ("op", "kids", "arg", "rows", "cols")

    def __init__(self, op, kids, rows, cols, arg=None):
        self.op, self.kids, self.arg = op, kids, arg
        self.rows, self.cols = rows, cols


class Term:
    __slots__ = ("p", "n")

    def __init__(self, p, n):
        self.p, self.n = p, n

    @property
    def rows(self):
        return self.p.rows

    @property
    def cols(self):
        return self.p.cols


def atom_term(a):
    return Term(p_atom(a), Node("atom", (), a.rows, a.cols, a))


def t_zero(r, c):
    return Term(pz(r, c), Node("zero", (), r, c))


def t_eye(d):
    return Term(p_eye(d), Node("eye", (), d, d))


def t_const(v):
    v = Fraction(v)
    return Term(p_scale(p_eye(1), v), Node("const", (), 1, 1, v))


def t_ones(r, c):
    if is1(r) and is1(c):
        return t_const(1)
    return atom_term(ones_atom(r, c))


def t_add(a, b):
    return Term(p_add(a.p, b.p), Node("add", (a.n, b.n), a.rows, a.cols))


def t_sub(a, b):
    return Term(p_add(a.p, b.p, -ONE), Node("sub", (a.n, b.n), a.rows, a.cols))


def t_neg(a):
    return Term(p_scale(a.p, -ONE), Node("neg", (a.n,), a.rows, a.cols))


def t_scale(a, c):
    c = Fraction(c)
    return Term(p_scale(a.p, c), Node("scale", (a.n,), a.rows, a.cols, c))


def t_mul(a, b):
    return Term(p_mul(a.p, b.p), Node("mul", (a.n, b.n), a.rows, b.cols))


def t_smul(s, a):
    return Term(p_smul(s.p, a.p), Node("smul", (s.n, a.n), a.rows, a.cols))


def t_t(a):
    return Term(p_t(a.p), Node("t", (a.n,), a.cols, a.rows))


def t_inv(a):
    return Term(p_inv(a.p), Node("inv", (a.n,), a.rows, a.cols))


def t_op(name, args, rows, cols, sym=False):
    """Opaque operation; args are Terms or constants."""
    a = op_atom(name, [x.p if isinstance(x, Term) else x for x in args], rows, cols, sym)
    return Term(p_atom(a), Node("atom", (), rows, cols, a))


CTL_ARGS = {}


def t_ctl(B, u, n):
    """Contribution of the control: 0 where B or u is entirely NaN, else B u."""
    a = op_atom("ctl", [B.p, u.p], n, 1)
    CTL_ARGS[a.id] = (B, u)
    return Term(p_atom(a), Node("atom", (), n, 1, a))


# --------------------------------------------------------------------------
def subst(p, fn, memo=None):
    """Rebuild p, replacing every atom by fn(atom) (a Poly) where not None;
    composite atoms are rebuilt from rebuilt arguments."""
    if memo is None:
        memo = {}
    r = pz(p.rows, p.cols)
    for (s, w), c in p.m.items():
        q = None
        for f in w:
            x = _subst_f(f, fn, memo)
            q = x if q is None else p_mul(q, x)
        if q is None:
            q = p_eye(p.rows)
        q = Poly(q.m, p.rows, p.cols)
        for sw in s:
            x = None
            for f in sw:
                y = _subst_f(f, fn, memo)
                x = y if x is None else p_mul(x, y)
            q = p_smul(x, q)
        r = p_add(r, q, c)
    return r


def _subst_f(f, fn, memo):
    a = ATOMS[f >> 1]
    q = memo.get(a.id)
    if q is None:
        q = fn(a)
        if q is None:
            if a.kind == "inv":
                q = p_inv(subst(a.data[0], fn, memo))
            elif a.kind == "op":
                name, args = a.data
                new = [subst(x, fn, memo) if isinstance(x, Poly) else x for x in args]
                b = op_atom(name, new, a.rows, a.cols, a.sym)
                if name == "ctl" and b.id not in CTL_ARGS:
                    B, u = CTL_ARGS[a.id]
                    CTL_ARGS[b.id] = (Term(new[0], B.n), Term(new[1], u.n))
                q = p_atom(b)
            else:
                q = p_atom(a)
        memo[a.id] = q
    return p_t(q) if f & 1 else q


def atoms_of(p, acc=None):
    """All atoms in p, including those nested in inverses and operations."""
    if acc is None:
        acc = {}
    for s, w in p.m:
        for word in (w,) + s:
            for f in word:
                a = ATOMS[f >> 1]
                if a.id not in acc:
                    acc[a.id] = a
                    if a.kind == "inv":
                        atoms_of(a.data[0], acc)
                    elif a.kind == "op":
                        for x in a.data[1]:
                            if isinstance(x, Poly):
                                atoms_of(x, acc)
    return acc


def nan_sources(p):
    """Atoms of p whose value may be NaN by itself."""
    out = set()
    for s, w in p.m:
        for word in (w,) + s:
            for f in word:
                a = ATOMS[f >> 1]
                if a.kind == "sym":
                    if not a.data[0].real:
                        out.add(a.id)
                elif a.kind == "op":
                    if a.data[0] != "ctl":
                        out.add(a.id)
                elif a.kind == "inv":
                    out |= nan_sources(a.data[0])
    return out


def nan_status(t):
    """(allnan, anynan) of a term: Python bools or z3 formulas."""
    import z3

    p = t.p
    ats = atoms_of(p)
    top = {f >> 1 for s, w in p.m for word in (w,) + s for f in word}
    if any(ATOMS[i].kind == "op" and ATOMS[i].data[0] == "nanfill" for i in top):
        return True, True
    risky = [a for a in ats.values()
             if (a.kind == "sym" and not a.data[0].real)
             or (a.kind == "op" and a.data[0] not in ("ctl",))]
    if not risky:
        return False, False
    ctx = CTX.get()
    key = canon_poly(p).frozen()
    reg = ctx.__dict__.setdefault("nanreg", {})
    if key not in reg:
        n = len(reg)
        alln, anyn = z3.Bool(f"allnan!{n}"), z3.Bool(f"anynan!{n}")
        reg[key] = (alln, anyn)
        ctx.assume(z3.Implies(alln, anyn))
        if is1(p.rows) and is1(p.cols):
            ctx.assume(z3.Implies(anyn, alln))
    return reg[key]


def ctl_cond(B, u):
    import z3

    a, b = nan_status(B)[0], nan_status(u)[0]
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def canon_poly(p):
    """Canonical indices under the path condition; scalar control terms that
    the path condition decides are resolved."""
    ctx = CTX.v
    if ctx is None:
        return p

    def fn(a):
        if a.kind == "sym" and a.data[1] is not None:
            fam, idx = a.data
            j = ctx.canon(idx)
            return p_atom(sym_atom(fam, j))
        if a.kind == "basis":
            j = ctx.canon(a.data[0])
            if is1(a.rows):
                return p_eye(1)
            return p_atom(basis_atom(a.rows, j))
        if a.kind == "ones" and is1(a.rows) and is1(a.cols):
            return p_eye(1)
        if a.kind == "op" and a.data[0] == "ctl":
            B, u = CTL_ARGS[a.id]
            c = ctl_cond(B, u)
            if c is True or (c is not False and ctx.prove(c)):
                return pz(a.rows, 1)
            import z3

            if c is False or ctx.prove(z3.Not(c)):
                return subst(p_mul(B.p, u.p) if not (is1(B.cols) and is1(u.rows) and is1(B.rows))
                             else p_smul(B.p, u.p), fn)
            return None
        return None

    return subst(p, fn)


def _maximal(ats):
    """Unfoldable atoms not dominated by a later-computed one."""
    c = [a for a in ats if a.kind == "sym" and a.data[0].unfold is not None]
    out = []
    for a in c:
        fa, ia = a.data
        dom = False
        for b in c:
            if b is a:
                continue
            fb, ib = b.data
            oa, ob = fa.order(ia), fb.order(ib)
            if oa[0] != ob[0]:
                if ob[0] > oa[0]:
                    dom = True
                continue
            d = ob[1] - oa[1]
            d = SInt.of(d)
            if d.is_const() and d.c > 0:
                dom = True
        if not dom:
            out.append(a)
    return out


def _definitional(p):
    """Unfolds the families that only abbreviate (gain, prior, innovation
    covariance), leaving the recursively defined ones alone."""
    for _ in range(8):
        todo = {}
        for a in atoms_of(p).values():
            if a.kind == "sym" and a.data[0].unfold is not None and a.data[0].abbrev:
                u = a.data[0].unfold(a.data[1])
                if u is not None:
                    todo[a.id] = u.p
        if not todo:
            return p
        p = canon_poly(subst(p, lambda a: todo.get(a.id)))
    return p


def zero_test(p, rounds=10):
    """Is p = 0 under the path condition, by the ring laws, the definitions of
    the specification families and cancellation of inverses?"""
    t0 = time.time()
    STATS.ring_queries += 1
    used = []
    try:
        p = canon_poly(p)
        if p.is_zero():
            return True
        if num_reject(p):
            return False
        stuck = set()
        for r in range(rounds):
            if p.is_zero():
                return True
            if r < 3:
                q = _definitional(p)
                if q.is_zero() or _eliminate(q):
                    return True
            cand = [a for a in atoms_of(p).values() if a.id not in stuck]
            todo = {}
            for a in _maximal(cand):
                fam, idx = a.data
                u = fam.unfold(idx)
                if u is None:
                    stuck.add(a.id)
                else:
                    todo[a.id] = u.p
            if not todo:
                if any(a.kind == "sym" and a.data[0].unfold is not None for a in cand):
                    continue
                break
            used.append(list(todo))
            p = canon_poly(subst(p, lambda a: todo.get(a.id)))
        if p.is_zero():
            return True
        return _eliminate(p)
    finally:
        STATS.ring_time += time.time() - t0


# --------------------------------------------------------------------------
class NumEval:
    """Evaluation at pseudo-random matrices; used only to reject equations
    quickly (never to accept one)."""

    SIZES = {"n": 3, "m": 2, "l": 2}

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.ops = {}
        self.depth = 0

    def dim(self, d):
        d = SInt.of(d)
        v = d.c
        for n, c in d.t:
            if self.ctx.is1(SInt.var(n)):
                x = 1
            elif n in self.SIZES:
                x = self.SIZES[n]
            else:
                raise KeyError(n)
            v += c * x
        return v

    def rnd(self, key, r, c, sym):
        import zlib
        import numpy as np

        g = np.random.default_rng(zlib.crc32(repr(key).encode()))
        a = g.uniform(-1, 1, (r, c))
        if sym:
            a = a + a.T + (r + 1) * np.eye(r)
        return a

    def atom(self, a):
        import numpy as np

        v = self.memo.get(a.id)
        if v is not None:
            return v
        r, c = self.dim(a.rows), self.dim(a.cols)
        if a.kind == "sym":
            fam, idx = a.data
            if idx is not None:
                idx = self.ctx.canon(idx)
            u = fam.unfold(idx) if fam.unfold is not None else None
            if u is not None:
                self.depth += 1
                if self.depth > 150:
                    raise KeyError("depth")
                v = self.poly(canon_poly(u.p))
                self.depth -= 1
            else:
                v = self.rnd((fam.name, idx.key if idx is not None else None), r, c, a.sym)
        elif a.kind == "inv":
            q = self.poly(a.data[0])
            if np.linalg.cond(q) > 1e6:
                raise KeyError("ill-conditioned")
            v = np.linalg.inv(q)
        elif a.kind == "ones":
            v = np.ones((r, c))
        elif a.kind == "op":
            name, args = a.data
            k = [name, r, c]
            for x in args:
                if isinstance(x, Poly):
                    k.append(tuple(float(f"{y:.5e}") + 0.0 for y in self.poly(x).ravel()))
                else:
                    k.append(repr(x))
            v = self.rnd(tuple(k), r, c, a.sym)
        else:
            raise KeyError(a.kind)
        self.memo[a.id] = v
        return v

    def word(self, w):
        v = None
        for f in w:
            x = self.atom(ATOMS[f >> 1])
            if f & 1:
                x = x.T
            v = x if v is None else v @ x
        return v

    def poly(self, p, mag=None):
        import numpy as np

        r, c = self.dim(p.rows), self.dim(p.cols)
        out = np.zeros((r, c))
        for (s, w), k in p.m.items():
            x = self.word(w) if w else np.eye(r)
            for sw in s:
                y = self.word(sw)
                x = x * y[0, 0]
            x = x * float(k)
            if mag is not None:
                mag[0] = max(mag[0], abs(x).max() if x.size else 0)
            out = out + x
        return out


def num_reject(p):
    """True if p is certainly not identically zero."""
    ctx = CTX.v
    if ctx is None:
        return False
    k = len(ctx.pc)
    ev = ctx.__dict__.get("numeval")
    if ev is None or ev[0] != k:
        ev = ctx.__dict__["numeval"] = (k, NumEval(ctx))
    try:
        mag = [0.0]
        v = ev[1].poly(p, mag)
    except (KeyError, ArithmeticError, ValueError):
        ev[1].depth = 0
        return False
    m = float(abs(v).max()) if v.size else 0.0
    return m > 1e-3 * (mag[0] + 1e-9) and m > 1e-9


_elim_n = [0]


def _eliminate(p, depth=0):
    if p.is_zero():
        return True
    if depth > 4:
        return False
    invs = [a for a in atoms_of(p).values() if a.kind == "inv" and a.of is None]
    invs.sort(key=lambda a: sum(1 for b in atoms_of(a.data[0]).values() if b.kind == "inv"))
    for inv in invs:
        q = inv.data[0]
        for (s, w), c in sorted(q.m.items()):
            if s and not w and len(s) == 1 and len(s[0]) == 1:
                f = s[0][0]
            elif not s and len(w) == 1:
                f = w[0]
            else:
                continue
            a = ATOMS[f >> 1]
            if a.kind != "sym" or (f & 1):
                continue
            rest = p_add(q, Poly({(s, w): c}, q.rows, q.cols), -ONE)
            if a.id in atoms_of(rest):
                continue
            _elim_n[0] += 1
            X = Family(f"elim{_elim_n[0]}", q.rows, q.cols, sym=inv.sym, indexed=False)
            rep = p_scale(p_add(p_atom(sym_atom(X, None)), rest, -ONE), ONE / c)
            try:
                p2 = subst(p, lambda b: rep if b.id == a.id else None)
            except Unsupported:
                return False
            if p2.is_zero():
                return True
            return _eliminate(p2, depth + 1)
    return False


CERTS = None      # when a dict: accepted equalities as Lean statements


def equal(a, b):
    if not (deq(a.rows, b.rows) and deq(a.cols, b.cols)):
        return False
    r = zero_test(p_add(a.p, b.p, -ONE))
    if r and CERTS is not None and len(CERTS) < 200 and not (a.n is b.n or a.n.op == b.n.op == "atom" and a.n.arg is b.n.arg):
        k = (id(a.n), id(b.n))
        if k not in CERTS:
            from .theory import statement
            CERTS[k] = (a, b, statement(a, b))
    return r


def show(p, lim=12):
    def f_s(f):
        a = ATOMS[f >> 1]
        return a_s(a) + ("'" if f & 1 else "")

    def a_s(a):
        if a.kind == "sym":
            fam, idx = a.data
            return fam.name if idx is None else f"{fam.name}[{idx!r}]"
        if a.kind == "inv":
            return f"inv({show(a.data[0])})"
        if a.kind == "op":
            return f"{a.data[0]}({', '.join(show(x) if isinstance(x, Poly) else repr(x) for x in a.data[1])})"
        if a.kind == "basis":
            return f"e{a.data[0]!r}"
        return a.kind

    out = []
    for i, ((s, w), c) in enumerate(sorted(p.m.items())):
        if i >= lim:
            out.append("...")
            break
        parts = ["(" + " ".join(f_s(f) for f in x) + ")" for x in s] + [f_s(f) for f in w]
        k = "" if c == 1 else ("-" if c == -1 else f"{c} ")
        out.append(k + (" ".join(parts) if parts else "I"))
    return " + ".join(out) if out else "0"
