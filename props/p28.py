"""P28: what was interrupted, or could not be written or read, leaves no trace in what is reported afterwards."""

import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sut
from vlib.apart import Lines
from vlib.apart import apart
from vlib.apart import points
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference


def crooked():
    """A file that causes a warning in every section."""
    return M.File(
        header=M.Header(ctime=2**64 - 1, reserved=(1, 2, 3)),
        items=[M.item_file(2, "a", date=0xFFFF, time=0xFFFF), M.item_plain(0x10), M.item_category(99), (b"", None), M.item_root(), M.item_file(1, "b")],
        strings={"description": "d", "command_line_arguments": "-a"},
        extra=[M.block_tracker(length=1, version=2), M.block_unknown(0xA00000FF, b"hidden"), M.block_known_folder()],
    )


FILES = {n: bases.BUILT[n] for n in ("plain", "ansi", "users", "store", "wnet", "tracker", "darwin", "env", "utf8")}
FILES["cpl"] = lambda: S.full_file(blocks=["shim"], info="wlocal", items=["cplw", "cpla", "category", "volguid"])
FILES["crooked"] = crooked
FILES["cut"] = None  # see data()
QUICK = ["plain", "ansi", "users", "store", "crooked", "cut"]
_DATA = {}
_USUAL = {}
_POINTS = {}


def data(name):
    if name not in _DATA:
        if name == "cut":
            whole = FILES["users"]().build().data
            _DATA[name] = whole[: len(whole) - 20]
        else:
            _DATA[name] = FILES[name]().build().data
    return _DATA[name]


AGAIN = 6  # so often it is disturbed again, now that everything has been reported once
OTHER = "crooked"
OTHER_CP = "cp1251"


class Sink(io.TextIOBase):
    """Output that takes a number of pieces and then no more."""

    def __init__(self, pieces, exception):
        self.pieces = pieces
        self.exception = exception
        self.failed = False
        self.got = []

    def writable(self):
        return True

    def write(self, text):
        if len(self.got) == self.pieces:
            self.failed = True
            raise self.exception
        self.got.append(text)
        return len(text)


@contextlib.contextmanager
def standard_output(stream):
    before, sys.stdout = sys.stdout, stream
    try:
        yield
    finally:
        left, sys.stdout = sys.stdout, before
        if left is not stream:
            raise Violation("the standard output stays redirected")


def printing(method, *args):
    def run(lnk):
        out = io.StringIO()
        with standard_output(out):
            getattr(lnk, method)(*args)
        return out.getvalue()

    return run


def iterate(lnk):
    return [t.as_item() for t in lnk.targets or []], [(x.name(), x.size()) for x in lnk.extras]


def ask(lnk):
    h, s = lnk.header, lnk.string_data
    out = [h.link_cls_id(), h.link_flags(), h.file_flags(), h.creation_time(), h.hot_key(), s.as_dict(), s.description(),
           lnk.has_arguments(), lnk.extras.as_dict()]  # fmt: skip
    if lnk.info:
        out += [lnk.info.location(), lnk.info.local_base_path(), lnk.info.common_path_suffix()]
    return out


def command(name):
    """The command, told to read this file."""
    scratch = tempfile.mkdtemp(prefix="verif-p28-")
    argv = sys.argv
    try:
        path = os.path.join(scratch, "file.lnk")
        with open(path, "wb") as f:
            f.write(data(name))
        sys.argv = ["lnkparse", "-j", path]
        return printing("main")(sut.MODULE)
    finally:
        sys.argv = argv
        shutil.rmtree(scratch, ignore_errors=True)


PRINTED = {"JSON": ("print_json", True), "text": ("print_lnk_file", True), "target": ("print_shortcut_target", True)}
REPORTS = {
    "report": lambda lnk: lnk.get_json(True),
    "reduced": lambda lnk: lnk.get_json(),
    **{k: printing(*v) for k, v in PRINTED.items()},
    "iteration": iterate,
    "questions": ask,
}
CHECKED = ["report", "reduced", "target", "iteration", "questions"]


def with_warnings(fn, *args):
    """What it says, and what it tells."""
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        out = fn(*args)
    return out, sorted({str(w.message) for w in told})


def fresh(name, cp=None, names=CHECKED):
    """What a fresh parse says."""
    lnk, told = with_warnings(lambda: sut.LnkFile(indata=data(name), cp=cp))
    return {"parsing": told, **{n: with_warnings(REPORTS[n], lnk) for n in names}}


def usual():
    """What every file says in a process in which nothing was interrupted."""
    for name in FILES:
        for cp in (None, OTHER_CP):
            kind, out = apart(fresh, name, cp, list(REPORTS))
            if kind != "ok":
                raise Violation("%s: without any interruption: %s" % (name, out), data=data(name))
            if name not in ("cut", "crooked"):
                f = FILES[name]()
                if cp is None and f.cp == "cp1252":
                    d = first_difference(f.build().expect, out["report"][0])
                    if d:
                        raise Violation("%s: without any interruption, report%s" % (name, d), data=data(name))
            _USUAL[name, cp] = out


PARSING = ["bytes", "handle", "command"]


def operation(name, what, lnk):
    if what == "bytes":
        return sut.LnkFile(indata=data(name))
    if what == "handle":
        handle = io.BytesIO(data(name))
        try:
            return sut.LnkFile(fhandle=handle)
        finally:
            if handle.closed:
                raise Violation("the handle was closed")
    if what == "command":
        return command(name)
    return REPORTS[what](lnk)


def ready(name, what):
    return None if what in PARSING else sut.LnkFile(indata=data(name))


def count():
    """What is usual, and how many lines every operation executes."""
    usual()
    for name in FILES:
        for what in [*PARSING, *REPORTS]:
            _POINTS[name, what] = points(lambda n=name, w=what: ready(n, w), lambda lnk, n=name, w=what: operation(n, w, lnk))


def afterwards(name, lnk, also, names=CHECKED):
    """Everything is as if nothing had happened."""
    names = names + [n for n in REPORTS if n == also and n not in names]
    if lnk is not None:
        for n in names:
            d = first_difference(list(_USUAL[name, None][n]), list(with_warnings(REPORTS[n], lnk)))
            if d:
                raise Violation("the same file's %s%s" % (n, d))
    for other, cp in ((name, None), (OTHER, OTHER_CP)):
        got = fresh(other, cp, names if cp is None else [n for n in names if n in CHECKED])
        for n in got:
            d = first_difference(list(_USUAL[other, cp][n]), list(got[n]))
            if d:
                raise Violation("%s: %s%s" % ("another file" if cp else "the same file, parsed again", n, d))


def happen(name, what, before, disturb):
    """In a process of its own: an operation is disturbed, then everything is looked at."""
    lnk = ready(name, what)
    if before:
        for n in CHECKED:
            REPORTS[n](lnk or sut.LnkFile(indata=data(name)))
    stdout, filters, limit = sys.stdout, list(warnings.filters), sys.getrecursionlimit()
    reached = disturb(lnk)
    unchanged(stdout, filters, limit)
    afterwards(name, lnk, what)
    for _ in range(AGAIN):
        disturb(lnk)
    unchanged(stdout, filters, limit)
    afterwards(name, lnk, what, ["report", "target"])
    return reached


def unchanged(stdout, filters, limit):
    if sys.stdout is not stdout:
        raise Violation("the standard output stays redirected")
    if list(warnings.filters) != filters:
        raise Violation("the warning filters stay changed")
    if sys.getrecursionlimit() != limit:
        raise Violation("the recursion limit stays changed")


def judge(c, how, name, what, disturb):
    before = c.pick("reported before", [False, True])
    c.data = data(name)
    engine.STATS.calls += 1
    engine.STATS.compared += 1
    engine.STATS.inputs.add((name, what))
    kind, out = apart(happen, name, what, before, disturb)
    if kind != "ok":
        raise Violation("after the %s of %s was %s: %s" % (what, name, how, out), data=c.data)
    engine.STATS.outcomes.add((name, what, out))


def interruptions(c):
    """parsing and reports that are interrupted at every line, and what is reported afterwards"""
    quick = c.tier == "quick"
    name = c.all("file", QUICK if quick else list(FILES))
    what = c.all("operation", [w for w in [*PARSING, *REPORTS] if not quick or w not in ("handle", "reduced")])
    total, chosen = _POINTS[name, what]
    point = c.all("line", chosen if quick else list(range(total)))
    exception = c.pick("exception", [KeyboardInterrupt, MemoryError])

    def disturb(lnk):
        lines = Lines(point, exception("interrupted"))
        try:
            with lines:
                operation(name, what, lnk)
        except exception:
            pass
        return lines.raised

    judge(c, "interrupted at its line %d (%s)" % (point, exception.__name__), name, what, disturb)


ERRORS = {
    "broken pipe": lambda: BrokenPipeError(32, "broken pipe"),
    "full disk": lambda: OSError(28, "no space left on device"),
    "cannot encode": lambda: UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range"),
    "closed": lambda: ValueError("I/O operation on closed file"),
    "interrupted": lambda: KeyboardInterrupt(),
}


def outputs(c):
    """outputs that cannot be written from any piece on"""
    name = c.all("file", list(FILES))
    what = c.all("operation", ["JSON", "text", "target"])
    pieces = c.all("pieces written", list(range(5)))
    why = c.all("error", list(ERRORS))

    def disturb(lnk):
        error = ERRORS[why]()
        sink = Sink(pieces, error)
        try:
            with standard_output(sink):
                method, *args = PRINTED[what]
                getattr(lnk, method)(*args)
        except type(error):
            pass
        if not _USUAL[name, None][what][0].startswith("".join(sink.got)):
            raise Violation("what was written is no beginning of the output")
        return sink.failed

    judge(c, "stopped after %d pieces of output (%s)" % (pieces, why), name, what, disturb)


class Refused(Warning):
    """What stands for a warning that is made an error."""


def complaints(c):
    """warnings of which any one is made an error"""
    name = c.all("file", [n for n in FILES if n in ("crooked", "cut", "utf8", "store")])
    what = c.all("operation", [*PARSING, *REPORTS])
    at = c.all("warning", list(range(24)))

    def disturb(lnk):
        seen = []

        def show(message, category, filename, lineno, file=None, line=None):
            seen.append(message)
            if len(seen) == at + 1:
                raise Refused(str(message))

        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = show
            try:
                operation(name, what, lnk)
            except Refused:
                pass
        return len(seen) > at

    judge(c, "ended by its warning %d" % at, name, what, disturb)


class Handle(io.BytesIO):
    """A handle that cannot be read at first."""

    def __init__(self, content, error, times):
        super().__init__(content)
        self.error = error
        self.times = times

    def read(self, *args):
        if self.times:
            self.times -= 1
            raise self.error
        return super().read(*args)


def inputs(c):
    """handles that cannot be read at first, and then can"""
    name = c.all("file", list(FILES))
    times = c.all("times", [1, 2, 3])
    why = c.all("error", list(ERRORS))

    def disturb(lnk):
        error = ERRORS[why]()
        handle = Handle(data(name), error, times)
        failed = 0
        for _ in range(times):
            try:
                sut.LnkFile(fhandle=handle)
            except type(error) as e:
                failed += e is error
        if failed != times:
            raise Violation("the error of the handle does not come out")
        if handle.closed:
            raise Violation("the handle was closed")
        got = sut.LnkFile(fhandle=handle).get_json(True)
        d = first_difference(_USUAL[name, None]["report"][0], got)
        if d:
            raise Violation("the handle that can be read again: report%s" % d)
        return True

    judge(c, "refused its input (%s)" % why, name, "handle", disturb)


SCENARIOS = [
    Scenario("interruptions", interruptions, 0, 1, timeout=120, prepare=count),
    Scenario("outputs", outputs, 0, 1, timeout=120, prepare=usual),
    Scenario("complaints", complaints, 0, 1, timeout=120, prepare=usual),
    Scenario("inputs", inputs, 0, 1, timeout=120, prepare=usual),
]
