"""Executions of render against the documented grammar (C22)."""
import random

try:
    from . import verspec
except ImportError:
    import verspec

TAGS = [None, "1.0", "v1.0", "1.0.post", "1.0.post0", "1.0.post3", "1.0.post03", "1.0+local", "1.0+a.post2", "1.0.post1+x",
        "0", "1.0.dev0", "1.0rc1", "a-b-c", "1.0-2-gabc", "2!1.0", "1.0.posts", "1.post1.post2", "post", ".post", ".post7",
        "+", "%d", "{}", "1.0.dirty", "1.0-dirty", "1.0.post9", "1.0.post99", "x" * 60, "1.0.dev3.post2", "1..post4",
        "1.0.0.0", "é.1", "1.0.post1234567890123456789012", "True", "None"]
DISTS = [0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 1000, 9999, 123456, 10 ** 9, 10 ** 20]
SHORTS = ["abc1234", "0000000", "deadbeef", "1", "g12345", "", "0e12345", "1234567890abcdef1234567890abcdef12345678"]
BRANCHES = ["master", "main", None, "feature/x", "Master", "master2", "HEAD", "", "dev", "release-1.0"]
DATES = ["2024-01-01T00:00:00+0000", "", None, "1970-01-01T00:00:00-1200"]
UNKNOWN = ["nope", "PEP440", "pep440 ", "pep440-", "git", "describe", "pep440-dev", "default2", "pep440_pre", "Default"]
ERRORS = ["no suitable tags", "unable to parse", "x", "0"]


def pieces(**k):
    p = {"long": "abc1234def", "short": "abc1234", "error": None, "branch": "master", "dirty": False, "closest-tag": "1.0",
         "distance": 0, "date": DATES[0]}
    p.update(k)
    return p


def generate(seed, hints):
    g = random.Random(seed)
    for m in hints.get("models", []):
        yield m
    styles = list(verspec.STYLES) + ["default", "", None]
    for st in styles:
        for t in TAGS[:14]:
            for d in (0, 1, 7):
                for dirty in (False, True):
                    for b in ("master", "main", None):
                        yield dict(style=st, pieces=pieces(**{"closest-tag": t, "distance": d, "dirty": dirty, "branch": b}))
    for st in styles + UNKNOWN:
        for e in ERRORS:
            yield dict(style=st, pieces={"long": "abc", "short": "abc", "error": e, "dirty": True, "branch": None})
            yield dict(style=st, pieces={"error": e})
            yield dict(style=st, pieces=pieces(error=e))
    for st in UNKNOWN:
        yield dict(style=st, pieces=pieces())
        yield dict(style=st, pieces=pieces(**{"closest-tag": None}))
    hs = [s for s in hints.get("strings", []) if len(s) < 60]
    hi = [i + d for i in hints.get("ints", []) for d in (-1, 0, 1) if i + d >= 0]
    while True:
        def text(pool):
            x = g.choice(pool)
            if hs and g.random() < 0.25:
                x = g.choice(hs)
                if g.random() < 0.4:
                    x = g.choice(["1.0", "", "a"]) + x + g.choice(["", "1", "x"])
            elif g.random() < 0.2:
                x = "".join(g.choice("0123456789abcdef.+-vgpost") for _ in range(g.randrange(1, 14)))
            return x
        p = pieces(**{"closest-tag": text(TAGS), "distance": g.choice(DISTS + hi) if g.random() < 0.8 else g.randrange(5000),
                      "dirty": g.random() < 0.5, "branch": text(BRANCHES), "short": text(SHORTS), "long": text(SHORTS),
                      "date": g.choice(DATES)})
        if g.random() < 0.1:
            del p["date"]
        st = g.choice(styles)
        if g.random() < 0.05:
            st = g.choice(UNKNOWN + hs or ["x"])
        yield dict(style=st, pieces=p)


def gitname(x):
    """Could be the name of a git ref."""
    return x is None or not any(ord(c) < 33 or c == chr(127) or c in "~^:?*[\\" for c in x)


def evaluate(v, render):
    """'ok', 'skip' or what is wrong."""
    style, p = v["style"], v["pieces"]
    if not gitname(p.get("closest-tag")) or not gitname(p.get("branch")):
        return "skip"
    known = style in verspec.STYLES or style in (None, "", "default")
    if p.get("error"):
        try:
            r = render(dict(p), style)
        except Exception as e:
            return f"render raises {type(e).__name__}: {e} in an error state"
        if r.get("version") != "unknown":
            return f"version {r.get('version')!r} in an error state"
        if r.get("error") != p["error"]:
            return f"error {r.get('error')!r} instead of {p['error']!r}"
        if r.get("full-revisionid") != p.get("long"):
            return f"full-revisionid {r.get('full-revisionid')!r} instead of {p.get('long')!r}"
        return "ok"
    if not known:
        try:
            r = render(dict(p), style)
        except Exception:
            return "ok"
        return f"unknown style {style!r} gives {r!r}"
    d = verspec.facts(p)
    real = "pep440" if style in (None, "", "default") else style
    if d is None or real == "pep440-pre" and d["tag"] is not None and d["rel"] is None:
        return "skip"
    want = verspec.version(real, d)
    try:
        r = render(dict(p), style)
    except Exception as e:
        return f"render raises {type(e).__name__}: {e}"
    if r.get("version") != want:
        return f"style {style!r}: version {r.get('version')!r}, documented {want!r}"
    for k, src in (("full-revisionid", "long"), ("dirty", "dirty"), ("date", "date")):
        if k not in r or r[k] != p.get(src):
            return f"{k} {r.get(k)!r} instead of {p.get(src)!r}"
    if r.get("error") is not None:
        return f"error {r['error']!r} in a state without error"
    return "ok"
