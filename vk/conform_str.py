"""Does the symbolic string engine (strs.py) agree with Python?  Random operations on symbolic strings whose parts are
constrained to be equal to known texts; the one feasible path must end in Python's result.  An operation the engine
refuses (Unsupported) is no disagreement.   usage: conform_str.py [--seconds N] [--seed S] [-v]"""
import argparse
import os
import random
import sys
import time

import z3

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import strs as S     # noqa: E402
S.OPEN[0] = False

CODE = '''
def f_cat(a, b): return a + b
def f_radd(a, b): return "x-" + a + "." + b
def f_in(a, b): return b in a
def f_eq(a, b): return a == b
def f_ne(a, b): return a != b
def f_starts(a, b): return a.startswith(b)
def f_ends(a, b): return a.endswith(b)
def f_rmp(a, b): return a.removeprefix(b)
def f_rms(a, b): return a.removesuffix(b)
def f_split(a, b): return a.split(b)
def f_split1(a, b): return a.split(b, 1)
def f_rsplit1(a, b): return a.rsplit(b, 1)
def f_rsplit2(a, b): return a.rsplit(b, 2)
def f_char(a, b): return a[0] + a[1]
def f_charl(a, b): return a[-1] + b[-2]
def f_words(a, b): return a.split()
def f_part(a, b): return a.partition(b)
def f_rpart(a, b): return a.rpartition(b)
def f_find(a, b): return a.find(b)
def f_rfind(a, b): return a.rfind(b)
def f_index(a, b): return a.index(b)
def f_rindex(a, b): return a[:a.rindex(b)]
def f_repl(a, b): return a.replace(b, "T", 1)
def f_replall(a, b): return a.replace(b, "<>")
def f_strip(a, b): return a.strip()
def f_lstrip(a, b): return a.lstrip()
def f_rstrip(a, b): return a.rstrip()
def f_stripc(a, b): return a.strip("-.")
def f_lines(a, b): return a.splitlines()
def f_last(a, b): return a.splitlines()[-1]
def f_digit(a, b): return a.isdigit()
def f_int(a, b): return int(a)
def f_len(a, b): return len(a)
def f_bool(a, b): return bool(a)
def f_not(a, b): return not a
def f_fmt(a, b): return "%s-%d-g%s" % (a, 3, b)
def f_fstr(a, b): return f"{a}+{b!s}"
def f_format(a, b): return "{}.{}".format(a, b)
def f_join(a, b): return "-".join([a, b, "z"])
def f_join2(a, b): return ",".join(a.split(b))
def f_s2(a, b): return a[2:]
def f_s7(a, b): return a[:7]
def f_m1(a, b): return a[-1:]
def f_m6(a, b): return a[-6:]
def f_cm3(a, b): return a[:-3]
def f_mid(a, b): return a[1:4]
def f_mid2(a, b): return a[1:-1]
def f_len2(a, b): return a[len(b):]
def f_len3(a, b): return a[:len(b)]
def f_len4(a, b): return a[:len(b)] == b
def f_len5(a, b): return a[-6:] == "-dirty"
def f_len6(a, b): return a[:-len("-dirty")]
def f_len7(a, b): return a[:1] == "v"
def f_re(a, b):
    m = re.search(r"^(.+)-(\\d+)-g([0-9a-f]+)$", a)
    return m and m.groups()
def f_re2(a, b):
    m = re.search(r"-dirty$", a)
    return m is not None
def f_re3(a, b):
    m = re.fullmatch(r"(.+)-(\\d+)-g([0-9a-f]+)", a)
    return m and (m.group(1), m[2], m.group(0))
def f_re4(a, b):
    m = re.match(r"(?P<t>.*)-dirty$", a)
    return m and m.group("t")
def f_re5(a, b):
    m = re.search(r"-g([0-9a-f]+)$", a)
    return m and (m.group(0), m.group(1))
def f_re6(a, b):
    m = re.search(r"-(\\d+)$", a)
    return m and (m.group(0), m.group(1))
def f_re7(a, b):
    m = re.match(r"\\d+$", a)
    return m is not None
def f_re8(a, b): return re.match(r"\\d", a) is not None
def f_re9(a, b): return re.search(r"\\d", a) is not None
def f_re10(a, b): return bool(re.match("[0-9]+", a[len(b):]))
def f_re11(a, b): return bool(re.search("[a-f]", a))
def f_base(a, b): return os.path.basename(a)
def f_dir(a, b): return os.path.dirname(a)
def f_osplit(a, b): return os.path.split(a)
def f_or(a, b): return a or "none"
def f_mul(a, b): return a * 2
def f_add(a, b): return a + 3
def f_isinst(a, b): return isinstance(a, str)
def f_count(a, b): return a.count(b) > 0
def f_upd(a, b):
    a += "."
    a += b
    return a
def f_str(a, b): return str(a) + str(b)
def f_lower(a, b): return a.lower()
def f_post(a, b):
    v = str.split(a, ".post")
    return v[0], int(v[1] or 0) if len(v) == 2 else None
'''
LITS = ["", "-", ".", "+", "-g", "-dirty", "v", "0", "10", " ", "\n", "/", "a", "-d", "dirty", ".post", "T", "  ", "\r\n", "ab", "1-2", "-1-gab", "\x85"]
ATOMS = ["", "a", "ab", "aa", "v", "v1", "1.0", "-", "--", "-dirty", "x-dirty", "dirty", "0", "12", "g", "abc", ".post",
         ".post3", "a b", "a\n", "\n", "/", "x/y", "ff0", "v1-2-gab", " x", "+", "é", "T", "-g"]


class Wrong(Exception):
    pass


def string(rng):
    """(symbolic string, its value, constraints)"""
    ps, val, base = [], "", []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
        k = rng.random()
        if k < 0.45:
            x = rng.choice(LITS)
            ps.append(x)
            val += x
        elif k < 0.9:
            x = rng.choice(ATOMS)
            z_ = z3.String(f"s{rng.randrange(10 ** 9)}")
            base.append(z_ == z3.StringVal(x))
            chars = frozenset(x) | frozenset(rng.sample("0123456789abcdef-. \n/", rng.randrange(5))) \
                if rng.random() < .4 else None
            if rng.random() < .2 and set(x) <= set("0123456789abcdef"):
                chars = frozenset("0123456789abcdef")
            no = frozenset(c for c in S.WS + S.LINES + "/-+." if c not in x and rng.random() < .9) \
                if rng.random() < .6 else frozenset()
            ps.append(S.Atom(z_, chars, no, bool(x) and rng.random() < .6))
            val += x
        else:
            i = rng.choice([0, 1, 7, 10, 123])
            z_ = z3.Int(f"i{rng.randrange(10 ** 9)}")
            base.append(z_ == i)
            ps.append(S.Num(z_))
            val += str(i)
    return S.mk(ps), val, base


def value(r, m):
    if isinstance(r, S.SStr):
        v = m.eval(S.zs(r), model_completion=True)
        return eval_str(v)
    if isinstance(r, S.SInt):
        return m.eval(r.z, model_completion=True).as_long()
    if isinstance(r, S.SBool):
        return z3.is_true(m.eval(r.z, model_completion=True))
    if isinstance(r, (list, tuple)):
        return type(r)(value(x, m) for x in r)
    return r


def eval_str(v):
    import re
    s = v.as_string()
    return re.sub(r"\\u\{([0-9a-f]*)\}", lambda k: chr(int(k.group(1), 16)), s)


def run(seconds, seed, verbose=False):
    import tempfile
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="vk-cs-")
    try:
        p = os.path.join(d, "m.py")
        with open(p, "w") as f:
            f.write("import os, re\n" + CODE)
        ns = S.load(p)
        plain = {}
        exec("import os, re\n" + CODE, plain)
    finally:
        import shutil
        shutil.rmtree(d)
    names = [k for k in plain if k.startswith("f_")]
    n, refused, bad = 0, 0, []
    refusals = {}
    end = time.time() + seconds
    while time.time() < end:
        f = rng.choice(names)
        a, va, b1 = string(rng)
        if rng.random() < .6:
            vb = rng.choice(LITS)
            b, b2 = vb, []
        elif rng.random() < .3 and isinstance(a, S.SStr):
            k = rng.randrange(len(a.p) + 1)
            b, b2 = S.mk(a.p[:k] if rng.random() < .5 else a.p[k:]), []
            s = z3.Solver()
            s.add(*b1)
            s.check()
            vb = value(b, s.model())
        else:
            b, vb, b2 = string(rng)
        try:
            want = ("ok", plain[f](va, vb))
        except Exception as e:
            want = ("raise", type(e).__name__)
        S.LIMIT[0] = time.time() + 10
        try:
            got = None
            for c, (k, r) in S.explore(lambda: ns[f](a, b), b1 + b2):
                if k == "unsupported":
                    got = None
                    break
                if got is not None:
                    raise Wrong("two feasible paths")
                if k == "raise":
                    got = ("raise", type(r).__name__)
                else:
                    S.CUR[0] = c
                    s = z3.Solver()
                    s.set("timeout", 3000)
                    s.add(*c.pc)
                    st = s.check()
                    if st == z3.unsat:
                        raise Wrong("the path condition contradicts the input")
                    if st == z3.unknown:
                        k = "unsupported"
                        break
                    got = ("ok", value(r, s.model()))
            else:
                k = "done"
            if k == "unsupported" or got is None:
                refused += 1
                refusals[f] = refusals.get(f, 0) + 1
                continue
            n += 1
            if got != want:
                raise Wrong(f"Python: {want}, engine: {got}")
        except S.Unsupported:
            refused += 1
        except Wrong as e:
            bad.append(f"{f}({va!r} as {a!r}, {vb!r} as {b!r}): {e}")
            if verbose:
                print(bad[-1], flush=True)
        finally:
            S.LIMIT[0] = None
            S.CUR[0] = None
    if verbose:
        print({k: v for k, v in sorted(refusals.items(), key=lambda x: -x[1])[:12]})
    return n, refused, bad


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--out")
    o = ap.parse_args()
    n, refused, bad = run(o.seconds, o.seed, o.v)
    if o.out:
        import json
        with open(o.out + ".tmp", "w") as f:
            json.dump(dict(operations_compared=n, refused=refused, disagreements=bad[:5], seconds=o.seconds), f)
        os.replace(o.out + ".tmp", o.out)
    print(f"{n} operations agree or differ as listed, {refused} refused, {len(bad)} disagree")
    sys.exit(bool(bad))
