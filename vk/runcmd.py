"""C26: contract of run_command over a contract of starting a process.

The candidates are a list of any length: the loop over them visits one
arbitrary candidate after it went on at all earlier ones, or has ended.
Starting a process either finds no such program, fails otherwise, or gives a
process with an arbitrary output and an arbitrary exit code.
"""
import subprocess

import z3

from . import strs as S
from .gitver import Base, NO
from .strs import SInt, SStr, Unsupported

PIPE, DEVNULL, STDOUT = subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT
BYTES = frozenset(" \t\n\r")


class Args(list):
    """The arguments: one element stands for any number of them."""
    symbolic = True

    def _no(self, *a):
        raise Unsupported("inspection of the arguments")

    def __len__(self):
        raise TypeError("number of the arguments")

    __getitem__ = __contains__ = __bool__ = __eq__ = index = count = _no
    append = extend = insert = pop = remove = clear = sort = reverse = __setitem__ = __delitem__ = __iadd__ = _no
    __hash__ = None


class Token:
    """What the caller gave, only ever passed on."""
    symbolic = True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("use of an argument")

    def __bool__(self):
        raise Unsupported("truth of an argument")


class Bytes:
    """What a process printed."""
    symbolic = True

    def __init__(self, text, edges=(0, 1)):
        self.text, self.edges = text, edges     # edges: where white space may surround the text

    def strip(self, *a):
        if a and a[0] is not None:
            raise Unsupported("strip of bytes")
        return Bytes(self.text, ())

    def lstrip(self, *a):
        return Bytes(self.strip(*a).text, tuple(e for e in self.edges if e))

    def rstrip(self, *a):
        return Bytes(self.strip(*a).text, tuple(e for e in self.edges if not e))

    def decode(self, encoding="utf-8", errors="strict"):
        if str(encoding).lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported("encoding")
        n = S.CUR[0].fresh = S.CUR[0].fresh + 1
        a, b = (SStr((S.Atom(z3.String(f"white!{n}!{i}"), BYTES, frozenset(), False),)) if i in self.edges else "" for i in (0, 1))
        return a + self.text + b

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("bytes." + k)


class Process:
    def __init__(self, st, kw):
        self.st, self.kw, self.over = st, kw, False
        self.pid = 1

    def out(self):
        out = Bytes(self.st.text_) if self.kw.get("stdout") is PIPE else None
        return out, Bytes(self.st.err) if self.kw.get("stderr") is PIPE else None

    def communicate(self, input=None, timeout=None):
        if input is not None or timeout is not None:
            raise Unsupported("communicate")
        self.over = True
        return self.out()

    def wait(self, timeout=None):
        if self.kw.get("stdout") is PIPE or self.kw.get("stderr") is PIPE or timeout is not None:
            raise Unsupported("wait")        # may block
        self.over = True
        return self.returncode

    poll = wait

    @property
    def returncode(self):
        return self.st.code if self.over else None

    @property
    def args(self):
        return self.st.calls[-1][0]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.over = True
        return False

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("process." + k)


class Done:
    def __init__(self, args, returncode, stdout, stderr):
        self.args, self.returncode, self.stdout, self.stderr = args, returncode, stdout, stderr

    def check_returncode(self):
        if self.returncode != 0:
            raise subprocess.CalledProcessError(1, "", None, None)


class Sub:
    """The module subprocess."""
    PIPE, DEVNULL, STDOUT = PIPE, DEVNULL, STDOUT
    SubprocessError, CalledProcessError = subprocess.SubprocessError, subprocess.CalledProcessError
    TimeoutExpired = subprocess.TimeoutExpired
    CompletedProcess = Done

    def __init__(self, st):
        self.st = st

    def Popen(self, args, **kw):
        st = self.st
        known = {"cwd", "env", "stdout", "stderr", "shell", "stdin", "bufsize", "close_fds"}
        if set(kw) - known or kw.get("stdin") is not None or kw.get("bufsize", -1) not in (-1, 0):
            raise Unsupported("options of Popen")
        st.calls.append((args, kw))
        if S.decide(z3.Bool(f"missing!{len(st.calls)}")):
            st.missed += 1
            raise FileNotFoundError(2, "No such file or directory")
        if st.kind == "denied":
            raise PermissionError(13, "Permission denied")
        if st.kind == "no directory":
            raise NotADirectoryError(20, "Not a directory")
        if st.kind == "other error":
            e = OSError("cannot start")
            e.errno = st.errno
            raise e
        return Process(st, kw)

    def run(self, args, capture_output=False, check=False, **kw):
        if capture_output:
            if kw.get("stdout") is not None or kw.get("stderr") is not None:
                raise ValueError("stdout and stderr arguments may not be used with capture_output.")
            kw.update(stdout=PIPE, stderr=PIPE)
        p = self.Popen(args, **kw)
        out, err = p.communicate()
        if check:
            raise Unsupported("check")
        return Done(args, p.returncode, out, err)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("subprocess." + k)


class Commands(S.SSorted):
    """The list of candidates."""

    def __getitem__(self, k):
        raise Unsupported("one of the candidates")


class Cmd(Base):
    """One call of run_command."""

    def __init__(self, kind, output, verbose, hide):
        Base.__init__(self, f"{kind}{', output ' + output if output else ''}" + (", verbose" if verbose else "") +
                      (", stderr hidden" if hide else ""))
        self.kind, self.verbose, self.hide = kind, verbose, hide
        self.command = self.text("command", no=frozenset(), full=True)
        a, b, m = self.text("head"), self.text("tail"), self.text("middle", no=frozenset(), full=False)
        self.text_ = {"": "", "empty": "", "one word": a, "several": a + m + b}[output]
        self.err = self.text("message")
        self.code = self.number("code", -255)
        self.errno = self.number("errno", 0)
        self.base.append(self.errno.z != 2)
        self.args, self.cwd, self.env = Args(), Token(), Token()
        list.append(self.args, Token())      # (the real list)
        self.calls, self.missed, self.events, self.lapses, self.settled = [], 0, [], [], 0
        self.pieces.update(kind=kind, output=output, verbose=verbose, hide=hide)

    # the list of candidates, see strs.SSet
    def reps(self):
        return [(0, self.command, None)]

    def facts(self, rep):
        return []

    def finished(self, sor):
        self.events.append("end")

    def absent(self, reps):
        self.events.append("end")

    def visited(self, rep, x, sor):
        self.events.append("visit")

    def passed(self, rep, how):
        ok = how == "passed by" and len(self.calls) == 1 and self.missed == 1
        self.lapses.append((ok, "a candidate that exists is passed over", self, S.CUR[0]))
        self.started(self.lapses)

    def started(self, out):
        """How the processes were started."""
        for args, kw in self.calls:
            def say(ok, what):
                out.append((bool(ok), what, self, S.CUR[0]))
            say(isinstance(args, (list, tuple)) and len(args) == 2 and args[0] is self.command and args[1] is list.__getitem__(self.args, 0),
                "the process is not started with the given arguments")
            say(kw.get("cwd") is self.cwd, "the process is not started in the given directory")
            say(kw.get("env") is self.env, "the process is not started in the given environment")
            say(kw.get("shell", False) is False, "a shell is started")
            say(kw.get("stderr") is not STDOUT, "error output is mixed into the output")
            say(not self.hide or kw.get("stderr") in (PIPE, DEVNULL), "error output is not hidden")

    def flush(self, u):
        while self.lapses:
            u.vc("goes on or starts", *self.lapses.pop())




def units(ns):
    out = []
    for kind, outputs in (("runs", ("empty", "one word", "several")), ("denied", ("",)), ("no directory", ("",)),
                          ("other error", ("",))):
        for output in outputs:
            for verbose in (False, True):
                for hide in (False, True):
                    st = Cmd(kind, output, verbose, hide)

                    def call(st=st):
                        st.calls.clear()
                        st.events.clear()
                        st.missed = 0
                        sub = Sub(st)
                        real = {k: v for k, v in ns.items() if v is subprocess or isinstance(v, type(subprocess.run)) and
                                getattr(v, "__module__", "") == "subprocess" or v is subprocess.Popen}
                        try:
                            for k, v in real.items():
                                ns[k] = sub if v is subprocess else getattr(sub, v.__name__)
                            r = ns["run_command"](Commands(S.SSet(st)), st.args, cwd=st.cwd, verbose=st.verbose,
                                                  hide_stderr=st.hide, env=st.env)
                        finally:
                            ns.update(real)
                        return r, list(st.events)

                    def check(u, c, k, v, st=st):
                        if k == "raise":
                            u.vc("noraise", False, f"raises {type(v).__name__}: {v}", st, c)
                            return
                        u.vc("noraise", True, "", st, c)
                        got, events = v
                        if len(events) != 1:
                            u.r.update(status="unsupported", reason="the candidates are not taken one by one")
                            return
                        how = []
                        st.started(how)
                        for x in how:
                            u.vc("started as given", *x)
                        if not isinstance(got, tuple) or len(got) != 2:
                            u.vc("result", False, f"returns {got!r}", st, c)
                            return
                        if events[0] == "end" or st.missed or st.kind != "runs":
                            if events[0] == "end":
                                u.vc("one by one", not st.calls, "a process is started without a candidate", st, c)
                            else:
                                u.vc("result", not st.missed, "the candidates after a missing one are not tried", st, c)
                            u.vc("result", got == (None, None), f"returns {got!r}", st, c)
                            return
                        u.vc("one by one", len(st.calls) == 1, "started more than once", st, c)
                        good = st.code.z == 0
                        u.vc("code", isinstance(got[1], (int, SInt)) and SInt.lift(got[1]) == st.code.z, f"code {got[1]!r}", st, c)
                        if got[0] is None:
                            u.vc("result", z3.Not(good), "no output although the code is 0", st, c)
                        else:
                            u.vc("result", good, "an output although the code is not 0", st, c)
                            u.vc("result", S.is_str(got[0]) and S.zs(got[0]) == S.zs(st.text_), f"output {got[0]!r}", st, c)
                    out.append(("run_command", st, call, check, st.name, {}))
    return out
