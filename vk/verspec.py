"""The documented version grammar, written from the docstrings of _version.py.

Works on ordinary strings (the oracle of executions) and on symbolic ones
(the contracts): only concatenation and the facts given in `d` are used.

d: tag (string, or None without a tag), plus (the tag contains '+'), rel and
post (the tag split at its '.post' segment; post None without one), dist (the
printed number of commits), away (dist > 0), bump (the printed number post+1),
short, dirty, master (the branch is master).
"""
STYLES = ("pep440", "pep440-branch", "pep440-pre", "pep440-post", "pep440-post-branch", "pep440-old",
          "git-describe", "git-describe-long")
FUNCS = {s: "render_" + s.replace("-", "_") for s in STYLES}


def version(style, d):
    g = "g" + d["short"]
    dirty = ".dirty" if d["dirty"] else ""
    dev = "" if d["master"] else ".dev0"
    ddev = ".dev0" if d["dirty"] else ""
    sep = "." if d["plus"] else "+"
    tag, dist = d["tag"], d["dist"]
    moved = d["away"] or d["dirty"]
    if style == "pep440":                   # TAG[+DISTANCE.gHEX[.dirty]]
        if tag is None:
            return "0+untagged." + dist + "." + g + dirty
        return tag + sep + dist + "." + g + dirty if moved else tag
    if style == "pep440-branch":            # TAG[[.dev0]+DISTANCE.gHEX[.dirty]]
        if tag is None:
            return "0" + dev + "+untagged." + dist + "." + g + dirty
        return tag + dev + sep + dist + "." + g + dirty if moved else tag
    if style == "pep440-pre":               # TAG[.postN.devDISTANCE]
        if tag is None:
            return "0.post0.dev" + dist
        if not d["away"]:
            return tag
        return d["rel"] + ".post" + ("0" if d["post"] is None else d["bump"]) + ".dev" + dist
    if style == "pep440-post":              # TAG[.postDISTANCE[.dev0]+gHEX]
        if tag is None:
            return "0.post" + dist + ddev + "+" + g
        return tag + ".post" + dist + ddev + sep + g if moved else tag
    if style == "pep440-post-branch":       # TAG[.postDISTANCE[.dev0]+gHEX[.dirty]]
        if tag is None:
            return "0.post" + dist + dev + "+" + g + dirty
        return tag + ".post" + dist + dev + sep + g + dirty if moved else tag
    if style == "pep440-old":               # TAG[.postDISTANCE[.dev0]]
        if tag is None:
            return "0.post" + dist + ddev
        return tag + ".post" + dist + ddev if moved else tag
    end = "-dirty" if d["dirty"] else ""
    if style == "git-describe":             # TAG[-DISTANCE-gHEX][-dirty]
        if tag is None:
            return d["short"] + end
        return tag + "-" + dist + "-" + g + end if d["away"] else tag + end
    if style == "git-describe-long":        # TAG-DISTANCE-gHEX[-dirty]
        return d["short"] + end if tag is None else tag + "-" + dist + "-" + g + end
    raise KeyError(style)


def facts(p):
    """d of concrete pieces; None where the property says nothing."""
    t = p["closest-tag"]
    if t == "":
        return None
    d = dict(tag=t, dist="%d" % p["distance"], away=p["distance"] > 0, short=p["short"], dirty=p["dirty"],
             master=p["branch"] == "master", plus=bool(t) and "+" in t, rel=t, post=None, bump="")
    if t is not None and ".post" in t:
        xs = t.split(".post")
        if len(xs) == 2 and (xs[1] == "" or all(c in "0123456789" for c in xs[1])):
            d["rel"], d["post"] = xs[0], int(xs[1] or "0")
            d["bump"] = "%d" % (d["post"] + 1)
        else:
            d["rel"] = None                  # not the form the pre style is documented for
    return d
