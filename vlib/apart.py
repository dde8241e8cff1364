"""Executions of their own process, interrupted at chosen points."""

import ast
import functools
import gc
import os
import pickle
import signal
import sys

from vlib import engine
from vlib import sut
from vlib.engine import HarnessError

PACKAGE = os.path.join(os.path.abspath(os.path.dirname(sut.LnkParse3.__file__)), "")
LIMIT_S = 60


def apart(fn, *args):
    """fn(*args) in a forked process, which leaves nothing behind in this one; ("died", why) if it does not end well."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(LIMIT_S)
            gc.disable()
            engine.IN_SUT[0] = None
            # What is interrupted while it is collected is not told.
            sys.unraisablehook = lambda _: None
            try:
                out = ("ok", fn(*args))
            except engine.Violation as v:
                out = ("violation", v.message)
            except BaseException as e:
                out = ("exception", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if not data:
        return "died", "it did not end within %d s" % LIMIT_S if os.WIFSIGNALED(status) else "status %d" % status
    return pickle.loads(data)


@functools.lru_cache(None)
def final(filename):
    """The lines that clean up: who is interrupted there a second time cannot clean up."""
    with open(filename, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    out = set()
    for node in ast.walk(tree):
        for s in getattr(node, "finalbody", []):
            out.update(range(s.lineno, s.end_lineno + 1))
    return out


class Lines:
    """Counts the lines of the package that are executed, and raises at one of them."""

    def __init__(self, at=None, exception=None, paths=False):
        self.at = at
        self.exception = exception
        self.count = 0
        self.raised = False
        self.stacks = [] if paths else None

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(PACKAGE) else None

    def _line(self, frame, event, arg):
        if event == "line":
            if self.stacks is not None:
                path, f = [], frame
                while f is not None:
                    if f.f_code.co_filename.startswith(PACKAGE):
                        path.append((f.f_code, f.f_lineno))
                    f = f.f_back
                self.stacks.append(hash(tuple(path)))
            n = self.count
            self.count += 1
            if n == self.at and frame.f_lineno not in final(frame.f_code.co_filename):
                self.raised = True
                # Once is enough.
                sys.settrace(None)
                raise self.exception
        return self._line

    def __enter__(self):
        if sys.gettrace() is not None:
            raise HarnessError("something else traces")
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def points(prepare, fn):
    """The number of lines that fn(prepare()) executes, and which of them are the first or last on their path of calls."""

    def run():
        arg = prepare()
        with Lines(paths=True) as lines:
            fn(arg)
        first, last = {}, {}
        for n, s in enumerate(lines.stacks):
            first.setdefault(s, n)
            last[s] = n
        return lines.count, sorted(set(first.values()) | set(last.values()))

    kind, out = apart(run)
    if kind != "ok":
        raise engine.Violation("without any interruption: %s %s" % (kind, out))
    return out
