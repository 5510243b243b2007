"""Edits of _version.py that keep the behaviour ("ok …": C22 to C25 have to stay quiet) and a few that break it
("BUG Cxx …": that check has to report).   usage: vrefactors.py [name ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/kalmankit/_version.py"
src = open("/repo/" + F).read()
R = {}
chain = src[src.index('    if style == "pep440":\n        rendered'):src.index('    else:\n        raise ValueError("unknown style')]
TAIL = '    else:\n        raise ValueError("unknown style \'%s\'" % style)\n'
POST = '    vc = str.split(ver, ".post")\n    return vc[0], int(vc[1] or 0) if len(vc) == 2 else None'
R["ok dispatch"] = [(chain + TAIL, '''    renderers = {
        "pep440": render_pep440, "pep440-branch": render_pep440_branch, "pep440-pre": render_pep440_pre,
        "pep440-post": render_pep440_post, "pep440-post-branch": render_pep440_post_branch,
        "pep440-old": render_pep440_old, "git-describe": render_git_describe,
        "git-describe-long": render_git_describe_long,
    }
    if style not in renderers:
        raise ValueError(f"unknown style '{style}'")
    rendered = renderers[style](pieces)
''')]
R["ok dispatch try"] = [(chain + TAIL, '''    try:
        renderer = globals()["render_" + style.replace("-", "_")]
    except KeyError:
        raise ValueError("unknown style '%s'" % style)
    rendered = renderer(pieces)
''')]
R["ok fstr"] = [('            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])\n            if pieces["dirty"]:\n                rendered += ".dirty"\n    else:\n        # exception #1\n        rendered = "0+untagged.%d.g%s" % (pieces["distance"], pieces["short"])', '            rendered = f"{rendered}{pieces[\'distance\']}.g{pieces[\'short\']}"\n            if pieces["dirty"]:\n                rendered += ".dirty"\n    else:\n        # exception #1\n        rendered = "0+untagged.{}.g{}".format(pieces["distance"], pieces["short"])')]
R["ok join"] = [('    if pieces["closest-tag"]:\n        rendered = pieces["closest-tag"]\n        rendered += "-%d-g%s" % (pieces["distance"], pieces["short"])', '    if pieces["closest-tag"]:\n        rendered = "-".join([pieces["closest-tag"], str(pieces["distance"]), "g" + pieces["short"]])')]
R["ok partition"] = [(POST, '    head, sep, tail = ver.partition(".post")\n    if not sep:\n        return ver, None\n    return head, int(tail) if tail else 0')]
R["ok find"] = [(POST, '    i = ver.find(".post")\n    if i < 0:\n        return ver, None\n    return ver[:i], int(ver[i + 5:] or "0")')]
R["ok helper"] = [('        rendered = "0.post%d" % pieces["distance"]\n        if pieces["dirty"]:\n            rendered += ".dev0"\n        rendered += "+g%s" % pieces["short"]\n', '        rendered = _untagged_post(pieces)\n'), ('def render_pep440_post(', 'def _untagged_post(pieces):\n    dev = ".dev0" if pieces["dirty"] else ""\n    return "0.post%d%s+g%s" % (pieces["distance"], dev, pieces["short"])\n\n\ndef render_pep440_post(')]
R["ok inline plus"] = [('    if "+" in pieces.get("closest-tag", ""):\n        return "."\n    return "+"', '    tag = pieces.get("closest-tag") or ""\n    return "+" if tag.find("+") == -1 else "."')]
R["ok count"] = [('    if "+" in pieces.get("closest-tag", ""):', '    if pieces.get("closest-tag", "").count("+") > 0:')]
R["ok regexpost"] = [(POST, '    import re as _r\n    m = _r.match(r"^(.*?)(?:\\.post(\\d*))?$", ver)\n    if m is None:\n        return ver, None\n    return m.group(1), None if m.group(2) is None else int(m.group(2) or 0)')]
R["ok default"] = [('    if not style or style == "default":\n        style = "pep440"  # the default\n', '    style = "pep440" if style in (None, "", "default") else style\n')]
R["BUG C22 splitdot"] = [(POST, '    vc = str.split(ver, ".post")\n    return vc[0], int(vc[1][:3] or 0) if len(vc) == 2 else None')]
R["BUG C22 dist cap"] = [('            rendered += ".post%d" % pieces["distance"]\n            if pieces["dirty"]:\n                rendered += ".dev0"\n            rendered += plus', '            rendered += ".post%d" % min(pieces["distance"], 4711)\n            if pieces["dirty"]:\n                rendered += ".dev0"\n            rendered += plus')]
R["BUG C22 plus first"] = [('    if "+" in pieces.get("closest-tag", ""):', '    if "+" in pieces.get("closest-tag", "")[1:]:')]
R["BUG C22 short7"] = [('            rendered += "-%d-g%s" % (pieces["distance"], pieces["short"])\n    else', '            rendered += "-%d-g%s" % (pieces["distance"], pieces["short"][:7])\n    else')]
R["BUG C22 err"] = [('            "full-revisionid": pieces.get("long"),\n            "dirty": None,', '            "full-revisionid": pieces["long"],\n            "dirty": None,')]
R["BUG C22 branch"] = [('            rendered += ".post%d" % pieces["distance"]\n            if pieces["branch"] != "master":', '            rendered += ".post%d" % pieces["distance"]\n            if not (pieces["branch"] or "").startswith("master"):')]

# ---- C23: the parsing of what git says
DIRTY = '''    dirty = git_describe.endswith("-dirty")
    pieces["dirty"] = dirty
    if dirty:
        git_describe = git_describe[: git_describe.rindex("-dirty")]
'''
RE = '        mo = re.search(r"^(.+)-(\\d+)-g([0-9a-f]+)$", git_describe)\n'
DATE = '''    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
    if date is None:
        raise NotThisMethod("'git show' failed")
    date = date.strip()
    # Use only the last line.  Previous lines may contain GPG signature
    # information.
    date = date.splitlines()[-1]
    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
'''
COUNT = '''        out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
        if out is None:
            raise NotThisMethod("'git rev-list' failed")
        pieces["distance"] = len(out.split())  # total number of commits
'''
PREFIX = '''        if not full_tag.startswith(tag_prefix):
            if verbose:
                fmt = "tag '%s' doesn't start with prefix '%s'"
                print(fmt % (full_tag, tag_prefix))
            pieces["error"] = "tag '%s' doesn't start with prefix '%s'" % (
                full_tag,
                tag_prefix,
            )
            return pieces
'''
BRANCH = '''        # Remove the first line if we're running detached
        if "(" in branches[0]:
            branches.pop(0)

        # Strip off the leading "* " from the list of branches.
        branches = [branch[2:] for branch in branches]
        if "master" in branches:
            branch_name = "master"
        elif not branches:
            branch_name = None
        else:
            # Pick the first branch that is returned. Good or bad.
            branch_name = branches[0]
'''
for t in (DIRTY, RE, DATE, COUNT, PREFIX, BRANCH):
    assert src.count(t) == 1, t
R["ok c23 removesuffix"] = [(DIRTY, '    pieces["dirty"] = git_describe.endswith("-dirty")\n    git_describe = git_describe.removesuffix("-dirty")\n')]
R["ok c23 slice dirty"] = [(DIRTY, '    suffix = "-dirty"\n    pieces["dirty"] = git_describe[-len(suffix):] == suffix\n    if pieces["dirty"]:\n        git_describe = git_describe[:-len(suffix)]\n')]
R["ok c23 rpartition dirty"] = [(DIRTY, '    head, sep, last = git_describe.rpartition("-")\n    pieces["dirty"] = bool(sep) and last == "dirty"\n    if pieces["dirty"]:\n        git_describe = head\n')]
R["ok c23 fullmatch"] = [(RE, '        mo = re.fullmatch(r"(.+)-(\\d+)-g([0-9a-f]+)", git_describe)\n')]
R["ok c23 match"] = [(RE, '        mo = re.match(r"(.+)-([0-9]+)-g([0-9a-f]+)$", git_describe)\n')]
R["ok c23 compile"] = [(RE, '        mo = DESCRIBE.search(git_describe)\n'),
                       ("class NotThisMethod", 'DESCRIBE = re.compile(r"^(.+)-(\\d+)-g([0-9a-f]+)$")\n\n\nclass NotThisMethod')]
R["ok c23 named groups"] = [(RE, '        mo = re.search(r"^(?P<tag>.+)-(?P<num>\\d+)-g(?P<hex>[0-9a-f]+)$", git_describe)\n'),
                            ("        full_tag = mo.group(1)\n", '        full_tag = mo.group("tag")\n'),
                            ('int(mo.group(2))', 'int(mo.group("num"))'), ('pieces["short"] = mo.group(3)', 'pieces["short"] = mo["hex"]')]
R["ok c23 groups"] = [("        full_tag = mo.group(1)\n", "        full_tag, num, short = mo.groups()\n"),
                      ('int(mo.group(2))', 'int(num)'), ('pieces["short"] = mo.group(3)', 'pieces["short"] = short')]
R["ok c23 one regex with dirty"] = [(DIRTY, '    dirty = re.search(r"-dirty$", git_describe) is not None\n    pieces["dirty"] = dirty\n    if dirty:\n        git_describe = git_describe[:-6]\n')]
R["ok c23 removeprefix"] = [('full_tag[len(tag_prefix) :]', 'full_tag.removeprefix(tag_prefix)')]
R["ok c23 slice prefix"] = [("        if not full_tag.startswith(tag_prefix):\n", "        if full_tag[:len(tag_prefix)] != tag_prefix:\n")]
R["ok c23 fstring error"] = [(PREFIX, '''        if not full_tag.startswith(tag_prefix):
            message = f"tag '{full_tag}' doesn't start with prefix '{tag_prefix}'"
            if verbose:
                print(message)
            pieces["error"] = message
            return pieces
''')]
R["ok c23 date helper"] = [(DATE, '''    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
    if rc != 0 or not date:
        raise NotThisMethod("no date")
    pieces["date"] = _iso(date)
'''), ("@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n", '''def _iso(text):
    """The last line of `text`, as ISO 8601."""
    last = text.strip().splitlines()[-1].strip()
    return last.replace(" ", "T", 1).replace(" ", "", 1)


@register_vcs_handler("git", "pieces_from_vcs")
''')]
R["ok c23 date split"] = [('    date = date.splitlines()[-1]\n    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)\n',
                           '    date = date.split("\\n")[-1]\n    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)\n')]
R["ok c23 date join"] = [('    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)\n',
                          '    day, clock, zone = date.split()\n    pieces["date"] = f"{day}T{clock}{zone}"\n')]
R["ok c23 date iso strict name"] = [('    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)\n',
                                     '    pieces["date"] = "T".join(date.strip().split(" ", 1)).replace(" ", "", 1)\n')]
R["ok c23 count lines"] = [('len(out.split())', 'len(out.splitlines())')]
R["ok c23 plain rev-list"] = [('["rev-list", "HEAD", "--left-right"]', '["rev-list", "HEAD"]')]
R["ok c23 rev-list count"] = [(COUNT, '        out, rc = runner(GITS, ["rev-list", "--count", "HEAD"], cwd=root)\n        if rc != 0:\n            raise NotThisMethod("no count")\n        pieces["distance"] = int(out)\n')]
R["ok c23 branch helper"] = [(BRANCH, '        branch_name = _choose(branches)\n'), ("        branches = branches.split(\"\\n\")\n\n", "        branches = branches.split(\"\\n\")\n"),
                             ("@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n", '''def _choose(branches):
    """The branch a detached checkout counts for: master if there, else the first."""
    if "(" in branches[0]:
        branches = branches[1:]
    names = [b[2:] for b in branches]
    if "master" in names:
        return "master"
    return names[0] if names else None


@register_vcs_handler("git", "pieces_from_vcs")
''')]
R["ok c23 branch loop"] = [(BRANCH, '''        names = []
        for i, line in enumerate(branches):
            if i == 0 and "(" in line:
                continue
            names.append(line[2:])
        if not names:
            branch_name = None
        else:
            branch_name = "master" if "master" in names else names[0]
''')]
R["ok c23 env dict"] = [('    env = os.environ.copy()\n    env.pop("GIT_DIR", None)\n', '    env = {k: v for k, v in os.environ.items() if k != "GIT_DIR"}\n')]
R["ok c23 env del"] = [('    env = os.environ.copy()\n    env.pop("GIT_DIR", None)\n', '    env = dict(os.environ)\n    if "GIT_DIR" in env:\n        del env["GIT_DIR"]\n')]
R["ok c23 local git"] = [("    runner = functools.partial(runner, env=env)\n", '''    call = runner

    def runner(commands, args, **kwargs):
        return call(commands, args, env=env, **kwargs)

''')]
R["ok c23 dict literal"] = [('''    pieces: Dict[str, Any] = {}
    pieces["long"] = full_out
    pieces["short"] = full_out[:7]  # maybe improved later
    pieces["error"] = None
''', '''    pieces: Dict[str, Any] = {
        "long": full_out,
        "short": full_out[:7],  # maybe improved later
        "error": None,
    }
''')]
R["ok c23 reorder"] = [('''    full_out, rc = runner(GITS, ["rev-parse", "HEAD"], cwd=root)
    if full_out is None:
        raise NotThisMethod("'git rev-parse' failed")
    full_out = full_out.strip()

    pieces: Dict[str, Any] = {}
    pieces["long"] = full_out
    pieces["short"] = full_out[:7]  # maybe improved later
    pieces["error"] = None

''', ''), ('''    pieces["branch"] = branch_name

''', '''    full_out, rc = runner(GITS, ["rev-parse", "HEAD"], cwd=root)
    if full_out is None:
        raise NotThisMethod("'git rev-parse' failed")
    full_out = full_out.strip()

    pieces: Dict[str, Any] = {}
    pieces["long"] = full_out
    pieces["short"] = full_out[:7]  # maybe improved later
    pieces["error"] = None
    pieces["branch"] = branch_name

''')]
R["ok c23 rsplit"] = [('    if "-" in git_describe:\n', '    parts = git_describe.rsplit("-", 2)\n    if "-" in git_describe:\n'),
                      (RE, '        mo = len(parts) == 3 and parts[0] and re.match(r"\\d+$", parts[1]) and re.match(r"g[0-9a-f]+$", parts[2])\n'),
                      ("        full_tag = mo.group(1)\n", "        full_tag = parts[0]\n"), ('int(mo.group(2))', 'int(parts[1])'),
                      ('pieces["short"] = mo.group(3)', 'pieces["short"] = parts[2][1:]')]
R["ok c23 extract describe"] = [('        mo = re.search(r"^(.+)-(\\d+)-g([0-9a-f]+)$", git_describe)\n        if not mo:\n', '        mo = _parse_describe(git_describe)\n        if mo is None:\n'),
                                ("        full_tag = mo.group(1)\n", "        full_tag, distance, short = mo\n"), ('int(mo.group(2))', 'distance'),
                                ('pieces["short"] = mo.group(3)', 'pieces["short"] = short'),
                                ("@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n", '''def _parse_describe(text):
    """(tag, number, hex) of TAG-NUM-gHEX, or None."""
    mo = re.search(r"^(.+)-(\\d+)-g([0-9a-f]+)$", text)
    if not mo:
        return None
    tag, number, short = mo.groups()
    return tag, int(number), short


@register_vcs_handler("git", "pieces_from_vcs")
''')]
R["ok c23 check helper"] = [('''    _, rc = runner(
        GITS, ["rev-parse", "--git-dir"], cwd=root, hide_stderr=not verbose
    )
    if rc != 0:
        if verbose:
            print("Directory %s not under git control" % root)
        raise NotThisMethod("'git rev-parse --git-dir' returned error")
''', '''    def under_control():
        return runner(GITS, ["rev-parse", "--git-dir"], cwd=root, hide_stderr=not verbose)[1] == 0

    if not under_control():
        if verbose:
            print("Directory %s not under git control" % root)
        raise NotThisMethod("'git rev-parse --git-dir' returned error")
''')]
R["ok c23 kwargs"] = [('            f"{tag_prefix}[[:digit:]]*",\n', '            tag_prefix + "[[:digit:]]*",\n')]
R["ok c23 sys gits"] = [('    GITS = ["git"]\n    if sys.platform == "win32":\n        GITS = ["git.cmd", "git.exe"]\n\n    # GIT_DIR', '    GITS = ["git.cmd", "git.exe"] if sys.platform == "win32" else ["git"]\n\n    # GIT_DIR')]
R["BUG C23 greedy"] = [(RE, '        mo = re.search(r"^(.+?)-(\\d+)-g([0-9a-f]+)", git_describe)\n')]
R["BUG C23 hex upper"] = [(RE, '        mo = re.search(r"^(.+)-(\\d+)-g([0-9]+)$", git_describe)\n')]
R["BUG C23 lines"] = [('len(out.split())', 'len(out.split()) - 1')]
R["BUG C23 lower"] = [('full_tag[len(tag_prefix) :]', 'full_tag.lstrip(tag_prefix)')]
R["BUG C23 head branch"] = [('    if branch_name == "HEAD":', '    if branch_name.endswith("HEAD"):')]
R["BUG C23 strip star"] = [("[branch[2:] for branch in branches]", "[branch.strip('* ') .split('/')[-1] for branch in branches]")]

# ---- C24: the sources
PARENT = src[src.index("    rootdirs = []\n"):src.index("    if verbose:\n        print(\n            \"Tried directories")]
R["ok c24 while"] = [(PARENT, '''    rootdirs = []

    while len(rootdirs) < 3:
        head, dirname = os.path.split(root)
        if dirname.startswith(parentdir_prefix):
            return {
                "version": dirname[len(parentdir_prefix) :],
                "full-revisionid": None,
                "dirty": False,
                "error": None,
                "date": None,
            }
        rootdirs.append(root)
        root = head
''')]
R["ok c24 removeprefix"] = [("dirname[len(parentdir_prefix) :]", "dirname.removeprefix(parentdir_prefix)")]
R["ok c24 candidates"] = [(PARENT, '''    rootdirs = [root]
    for _ in range(2):
        rootdirs.append(os.path.dirname(rootdirs[-1]))
    for candidate in rootdirs:
        dirname = os.path.basename(candidate)
        if not dirname.startswith(parentdir_prefix):
            continue
        return {
            "version": dirname[len(parentdir_prefix) :],
            "full-revisionid": None,
            "dirty": False,
            "error": None,
            "date": None,
        }
''')]
R["ok c24 partition"] = [(PARENT, '''    rootdirs = []

    for _ in range(3):
        dirname = os.path.basename(root)
        before, found, version = dirname.partition(parentdir_prefix)
        if found and not before:
            return dict(version=version, dirty=False, error=None, date=None, **{"full-revisionid": None})
        rootdirs.append(root)
        root = os.path.dirname(root)  # up a level

''')]
R["ok c24 pathlib"] = [(PARENT, '''    import pathlib

    path = pathlib.Path(root)
    rootdirs = [path, *path.parents][:3]
    for p in rootdirs:
        if p.name.startswith(parentdir_prefix):
            return {
                "version": p.name[len(parentdir_prefix) :],
                "full-revisionid": None,
                "dirty": False,
                "error": None,
                "date": None,
            }

''')]
UNKNOWN = '''    return {
        "version": "0+unknown",
        "full-revisionid": None,
        "dirty": None,
        "error": "unable to compute version",
        "date": None,
    }
'''
UNROOT = '''        return {
            "version": "0+unknown",
            "full-revisionid": None,
            "dirty": None,
            "error": "unable to find root of source tree",
            "date": None,
        }
'''
R["ok c24 unknown helper"] = [(UNKNOWN, '    return _unknown("unable to compute version")\n'), (UNROOT, '        return _unknown("unable to find root of source tree")\n'),
                              ("def get_versions()", '''def _unknown(error):
    """The answer when no source applies."""
    return {
        "version": "0+unknown",
        "full-revisionid": None,
        "dirty": None,
        "error": error,
        "date": None,
    }


def get_versions()''')]
R["ok c24 nested"] = [('''    try:
        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)
        return render(pieces, cfg.style)
    except NotThisMethod:
        pass
''', '''    try:
        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)
    except NotThisMethod:
        pass
    else:
        return render(pieces, cfg.style)
''')]
R["ok c24 sources loop"] = [(src[src.index("    try:\n        pieces = git_pieces_from_vcs(cfg"):src.index(UNKNOWN)], '''    def from_vcs():
        return render(git_pieces_from_vcs(cfg.tag_prefix, root, verbose), cfg.style)

    def from_parentdir():
        if not cfg.parentdir_prefix:
            raise NotThisMethod("no prefix")
        return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)

    for source in (from_vcs, from_parentdir):
        try:
            return source()
        except NotThisMethod:
            continue

''')]
R["ok c24 root loop"] = [('''        for _ in cfg.versionfile_source.split("/"):
            root = os.path.dirname(root)
''', '''        for _ in range(cfg.versionfile_source.count("/") + 1):
            root = os.path.dirname(root)
''')]
R["ok c24 root join"] = [('''        for _ in cfg.versionfile_source.split("/"):
            root = os.path.dirname(root)
''', '''        levels = len(cfg.versionfile_source.split("/"))
        root = os.sep.join(root.split(os.sep)[:-levels]) or os.sep
''')]
R["ok c24 keywords first"] = [('    refnames = keywords["refnames"].strip()\n    if refnames.startswith("$Format"):\n        if verbose:\n            print("keywords are unexpanded, not using")\n        raise NotThisMethod("unexpanded keywords, not a git-archive tarball")\n', ''),
                              ('    date = keywords.get("date")\n    if date is not None:\n        # Use', '    refnames = keywords["refnames"].strip()\n    if refnames.startswith("$Format"):\n        if verbose:\n            print("keywords are unexpanded, not using")\n        raise NotThisMethod("unexpanded keywords, not a git-archive tarball")\n    date = keywords.get("date")\n    if date is not None:\n        # Use')]
# ---- C25: expanded keywords
DIG = '            if not re.match(r"\\d", r):\n'
REFS = '    refs = {r.strip() for r in refnames.strip("()").split(",")}\n'
TAGS = '    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n'
FOR = '    for ref in sorted(tags):\n'
DATE = '        date = date.splitlines()[-1]\n'
ISO = '        date = date.strip().replace(" ", "T", 1).replace(" ", "", 1)\n'
R["ok c25 tags loop"] = [(TAGS, '    tags = set()\n    for r in refs:\n        if r.startswith(TAG):\n            tags.add(r[len(TAG) :])\n')]
R["ok c25 isdigit"] = [(DIG, '            if not r[:1].isdigit():\n')]
R["ok c25 filter then loop"] = [(FOR, '    for ref in sorted(t for t in tags if t.startswith(tag_prefix)):\n')]
R["ok c25 refs list"] = [(REFS, '    refs = [r.strip() for r in refnames.strip("()").split(",")]\n'),
                         ("','.join(refs - tags)" if False else '",".join(refs - tags)', '",".join(set(refs) - tags)')]
R["ok c25 refs comma space"] = [(REFS, '    refs = set(refnames.strip("()").split(", "))\n')]
R["ok c25 refs slice"] = [(REFS, '    names = refnames[1:-1] if refnames else ""\n    refs = {r.strip() for r in names.split(",")}\n')]
R["ok c25 removeprefix"] = [('            r = ref[len(tag_prefix) :]\n', '            r = ref.removeprefix(tag_prefix)\n')]
R["ok c25 helper"] = [(DIG, '            if not _is_number(r):\n'),
                      ('@register_vcs_handler("git", "pieces_from_vcs")', 'def _is_number(text):\n    return re.match(r"\\d", text) is not None\n\n\n@register_vcs_handler("git", "pieces_from_vcs")')]
R["ok c25 continue"] = [('        if ref.startswith(tag_prefix):\n            r = ref', '        if not ref.startswith(tag_prefix):\n            continue\n        if True:\n            r = ref')]
R["ok c25 candidates min"] = [(FOR, '    found = [t for t in tags if t.startswith(tag_prefix) and re.match(r"\\d", t[len(tag_prefix):])]\n    for ref in [min(found)] if found else []:\n')]
R["ok c25 candidates sorted"] = [(FOR, '    found = {t for t in tags if t.startswith(tag_prefix) and re.match(r"\\d", t[len(tag_prefix):])}\n    for ref in sorted(found)[:1]:\n')]
R["ok c25 digits any"] = [('        tags = {r for r in refs if re.search(r"\\d", r)}\n', '        tags = {r for r in refs if any(c.isdigit() for c in r)}\n')]
R["ok c25 all refs"] = [('        tags = {r for r in refs if re.search(r"\\d", r)}\n', '        tags = set(refs)\n')]
R["ok c25 date helper"] = [(DATE + "\n", '        date = date.strip().split("\\n")[-1]\n\n')]
R["BUG C25 date join"] = [(ISO, '        day, clock, zone = date.strip().split(" ")\n        date = day + "T" + clock + zone\n')]
R["ok c25 full var"] = [('    refnames = keywords["refnames"].strip()\n', '    refnames = keywords["refnames"].strip()\n    full = keywords["full"].strip()\n'),
                        ('                "full-revisionid": keywords["full"].strip(),\n', '                "full-revisionid": full,\n')]
R["ok c25 no-strip full"] = [('                "full-revisionid": keywords["full"].strip(),\n', '                "full-revisionid": keywords["full"],\n')]
R["ok c25 versions sorted"] = [(FOR, '    versions = {t[len(tag_prefix):] for t in tags if t.startswith(tag_prefix)}\n    for ref in sorted(tag_prefix + t for t in versions):\n')]
R["ok c25 result var"] = [('            return {\n                "version": r,\n', '            result = {\n                "version": r,\n'),
                          ('                "error": None,\n                "date": date,\n            }\n    # no suitable', '                "error": None,\n                "date": date,\n            }\n            return result\n    # no suitable')]
R["BUG C25 two digits"] = [(DIG, '            if not re.match(r"\\d+\\.", r):\n')]
R["BUG C25 max"] = [(FOR, '    for ref in sorted(tags, reverse=True):\n')]
R["BUG C25 strip"] = [(REFS, '    refs = {r for r in refnames.strip("()").split(",")}\n')]
R["BUG C25 date"] = [(DATE, '        date = date.splitlines()[0]\n')]
R["BUG C25 by length"] = [(FOR, '    for ref in sorted(tags, key=len):\n')]
R["BUG C25 any digit"] = [(DIG, '            if not re.search(r"\\d", r):\n')]
R["BUG C25 break"] = [('                continue\n            if verbose:\n                print("picking', '                break\n            if verbose:\n                print("picking')]
R["BUG C25 prefix in"] = [('        if ref.startswith(tag_prefix):\n            r = ref', '        if tag_prefix in ref:\n            r = ref')]
R["BUG C25 lstrip"] = [('            r = ref[len(tag_prefix) :]\n', '            r = ref.lstrip(tag_prefix)\n')]
R["BUG C25 tag anywhere"] = [(TAGS, '    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG[:-1])}\n')]
R["BUG C25 mixed"] = [('    if not tags:\n', '    if len(tags) < 2:\n')]

# ---- C26: run_command
POPEN = """            process = subprocess.Popen(
                [command] + args,
                cwd=cwd,
                env=env,
                stdout=subprocess.PIPE,
                stderr=(subprocess.PIPE if hide_stderr else None),
                **popen_kwargs,
            )
            break
"""
ERRS = """        except OSError as e:
            if e.errno == errno.ENOENT:
                continue
            if verbose:
                print("unable to run %s" % dispcmd)
                print(e)
            return None, None
"""
OUT = "    stdout = process.communicate()[0].strip().decode()\n"
CODE = "    if process.returncode != 0:\n"
R["ok c26 splat"] = [("                [command] + args,\n", "                [command, *args],\n")]
R["ok c26 dispcmd list"] = [("            dispcmd = str([command] + args)\n", "            argv = [command] + args\n            dispcmd = str(argv)\n"), ("                [command] + args,\n", "                argv,\n")]
R["ok c26 file not found"] = [(ERRS, ERRS.replace("        except OSError as e:\n            if e.errno == errno.ENOENT:\n                continue\n", "        except FileNotFoundError:\n            continue\n        except OSError as e:\n"))]
R["ok c26 decode strip"] = [(OUT, '    stdout = process.communicate()[0].decode().strip()\n')]
R["ok c26 tuple"] = [(OUT, '    out, _ = process.communicate()\n    stdout = out.strip().decode("utf-8")\n')]
R["ok c26 if code"] = [(CODE, "    if process.returncode:\n")]
R["ok c26 devnull"] = [("stderr=(subprocess.PIPE if hide_stderr else None)", "stderr=(subprocess.DEVNULL if hide_stderr else None)")]
R["ok c26 run"] = [(POPEN, POPEN.replace("subprocess.Popen(", "subprocess.run(")), (OUT, "    stdout = process.stdout.strip().decode()\n")]
R["ok c26 flag"] = [(POPEN, POPEN), ("    else:\n        if verbose:\n            print(\"unable to find command, tried %s\" % (commands,))\n", "    if process is None:\n        if verbose:\n            print(\"unable to find command, tried %s\" % (commands,))\n")]
R["ok c26 enumerate"] = [("    for command in commands:\n", "    for _, command in enumerate(commands):\n")]
R["ok c26 helper"] = [(POPEN, POPEN.replace("subprocess.Popen(\n                [command] + args,\n                cwd=cwd,\n                env=env,\n                stdout=subprocess.PIPE,\n                stderr=(subprocess.PIPE if hide_stderr else None),\n                **popen_kwargs,\n            )", "_start([command] + args, cwd, env, hide_stderr, popen_kwargs)")),
                      ("def run_command(\n", "def _start(argv, cwd, env, hide, kwargs):\n    err = subprocess.PIPE if hide else None\n    return subprocess.Popen(argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=err, **kwargs)\n\n\ndef run_command(\n")]
R["BUG C26 other errors go on"] = [("            if e.errno == errno.ENOENT:\n", "            if e.errno in (errno.ENOENT, errno.EACCES):\n")]
R["BUG C26 raise"] = [("        except OSError as e:\n", "        except FileNotFoundError as e:\n")]
R["BUG C26 no break"] = [("            )\n            break\n", "            )\n")]
R["BUG C26 negative"] = [(CODE, "    if process.returncode > 0:\n")]
R["BUG C26 stderr"] = [("stderr=(subprocess.PIPE if hide_stderr else None)", "stderr=(subprocess.STDOUT if hide_stderr else None)")]
R["BUG C26 env"] = [("                env=env,\n", "                env=env or None,\n"), ("    process = None\n", "    process = None\n    env = dict(os.environ, **(env or {}))\n")]
R["BUG C26 shell"] = [("                [command] + args,\n", '                " ".join([command] + args),\n                shell=True,\n')]
R["BUG C26 rstrip"] = [(OUT, '    stdout = process.communicate()[0].rstrip().decode()\n')]
R["BUG C26 stdout on failure"] = [("        return None, process.returncode\n", "        return stdout or None, process.returncode\n")]
R["BUG C26 wait"] = [(OUT, "    process.wait()\n" + OUT)]
R["BUG C26 append"] = [("            dispcmd = str([command] + args)\n", "            args.insert(0, command)\n            dispcmd = str(args)\n"), ("                [command] + args,\n", "                args,\n")]

if __name__ == "__main__":
    sel = [x for x in sys.argv[1:] if not x.startswith("--props=")]
    props = ([x[8:].split(",") for x in sys.argv if x.startswith("--props=")] + [["C22", "C23", "C24", "C25", "C26"]])[0]
    bad = 0
    for name, edits in R.items():
        if sel and not any(s in name for s in sel):
            continue
        d = tempfile.mkdtemp(prefix="vb-", dir="/tmp")
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        t = src
        for o, w in edits:
            if t.count(o) != 1 and not (o in src and name.startswith("ok") and t.count(o)):
                print("MISMATCH", name, repr(o)[:80])
            t = t.replace(o, w)
        open(r + "/" + F, "w").write(t)
        for p in ([name.split()[1]] if name.startswith("BUG") else props):
            t0 = time.time()
            q = subprocess.run(["python3-vt", V + "/check.py", p, "--repo", r, "--out", d], capture_output=True, text=True)
            line = q.stdout.strip().splitlines()[-1][:170] if q.stdout.strip() else q.stderr[-200:]
            fine = (q.returncode == 1) == name.startswith("BUG") and q.returncode in (0, 1)
            bad += not fine
            print(f"{'' if fine else '*** '}{name:28} {p} {q.returncode} {time.time() - t0:5.1f}s {line}", flush=True)
            if q.returncode and name.startswith("ok") and os.path.exists(d + f"/replays/{p}.json"):
                print(open(d + f"/replays/{p}.json").read()[:900])
        shutil.rmtree(d)
    sys.exit(bad != 0)
