"""P21: every way in gives the same: bytes, file handles and the command line."""

import contextlib
import encodings.aliases
import io
import json
import os
import subprocess
import sys
import tempfile
from itertools import chain
from itertools import combinations

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sut
from vlib import views
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference


def compare(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("%s: report%s" % (what, d), data=data)


class Pipe:
    """A source that can only be read."""

    def __init__(self, data):
        self.source = io.BytesIO(data)

    def read(self, *args):
        return self.source.read(*args)


def scratch(data):
    handle, path = tempfile.mkstemp(prefix="lnk-verif-")
    with os.fdopen(handle, "wb") as f:
        f.write(data)
    return path


def channels(c):
    """bytes, an open file, a buffer, a pipe; from the start or from a position inside"""
    name = c.all("file", list(bases.ALL))
    data = bases.ALL[name]
    c.data = data
    engine.STATS.inputs.add(name)
    cp = c.all("cp", [None, "cp1252", "cp437", "utf-8"])
    tails = c.all("allow_terminal_blocks", [True, False])
    expected = sut.report(data, cp=cp, allow_terminal_blocks=tails)
    way = c.all("way", ["bytes", "positional", "buffer", "pipe", "file", "both"])
    before = c.all("before", [b"", b"x" * 100, data]) if way in ("buffer", "pipe", "file", "positional") else b""
    path = None
    try:
        if way == "file":
            path = scratch(before + data)
            source = open(path, "rb")
        elif way == "pipe":
            source = Pipe(before + data)
        else:
            source = io.BytesIO(before + data)
        source.read(len(before))
        with sut.guard("LnkFile from " + way, data):
            kw = {"cp": cp, "allow_terminal_blocks": tails}
            if way == "bytes":
                lnk = sut.LnkFile(indata=data, **kw)
            elif way == "positional":
                lnk = sut.LnkFile(source, None, cp, tails)
            elif way == "both":
                lnk = sut.LnkFile(fhandle=source, indata=data, **kw)
            else:
                lnk = sut.LnkFile(fhandle=source, **kw)
        if getattr(source, "closed", False):
            raise Violation("the handle of the caller is closed", data=data)
        if way == "file":
            source.close()
        compare("read from %s" % way, expected, sut.as_json(lnk, True, data), data)
        compare("read from %s" % way, M.reduced(expected), sut.as_json(lnk, False, data), data)
    finally:
        if path:
            os.unlink(path)


def nothing(c):
    """no bytes at all are refused in the same way from everywhere"""
    way = c.all("way", ["bytes", "buffer", "file", "pipe", "end of buffer"])
    path = scratch(b"")
    try:
        with open(path, "rb") as source:
            if way == "buffer":
                source = io.BytesIO(b"")
            elif way == "pipe":
                source = Pipe(b"")
            elif way == "end of buffer":
                source = io.BytesIO(bases.ALL["built:plain"])
                source.read()
            engine.STATS.calls += 1
            try:
                if way == "bytes":
                    sut.LnkFile(indata=b"")
                else:
                    sut.LnkFile(fhandle=source)
            except sut.LnkParserError:
                engine.STATS.compared += 1
                return
            except Exception as e:
                raise Violation("an empty input raises %r, not LnkParserError" % e) from None
        raise Violation("an empty input is accepted")
    finally:
        os.unlink(path)


# ---------------------------------------------------------------- command line

OPTIONS = {"t": ["-t", "--target"], "j": ["-j", "--json"], "a": ["-a", "--all"]}
FLAGS = list(chain.from_iterable(combinations("tja", n) for n in range(4)))
FILES = {
    "latin": lambda: S.full_file(False, items=["file", "net"], blocks=["environment", "tracker"], info="local"),
    "wide": lambda: S.full_file(blocks=["shim", "metadata", "unknown"], info="wnetwork", items=["wdir", "wfile"], tail=b"x"),
    "network": lambda: S.full_file(False, blocks=["darwin"], info="network", items=["cpla"]),
    "bare": lambda: M.File(strings={"command_line_arguments": "only arguments"}),
    "relative": lambda: M.File(strings={"relative_path": "a b.exe"}),
    "none": lambda: M.File(),
}


def cyrillic(cp):
    f = M.File(unicode=False, cp=cp, strings={"relative_path": "\u0444\u0430 \u0439\u043b", "command_line_arguments": "\u044f"})
    f.items = [M.item_file(2, "\u0444", cp=cp)]
    return f


def expected_target(b):
    data = b.expect["data"]
    out = []
    if "relative_path" in data:
        path = data["relative_path"]
        out.append('"%s"' % path if " " in path else path)
    if "command_line_arguments" in data:
        out.append(data["command_line_arguments"])
    return " ".join(out)


def judge(flags, out, b, data):
    """What the command printed, against the model."""
    if "t" in flags:
        want = expected_target(b)
        if "j" in flags:
            compare("target as JSON", {"shortcut_target": want}, json.loads(out), data)
        else:
            compare("target", [want], [out[:-1] if out.endswith("\n") else out], data)
        return
    report = b.expect if "a" in flags else M.reduced(b.expect)
    if "j" in flags:
        compare("JSON", M.json_form(report), json.loads(out), data)
    else:
        got, wrong = views.read_text(out)
        if wrong:
            raise Violation("text: " + wrong, data=data)
        compare("text", views.text_form(report), got, data)


def arguments(flags, form, cp, path, order):
    if form == "joined" and len(flags) > 1:
        args = ["-" + "".join(flags)]
    else:
        args = [OPTIONS[f][1 if form == "long" else 0] for f in flags]
    if cp:
        args += {"long": ["--codepage", cp], "short": ["-c", cp], "joined": ["-c" + cp]}[form]
    return [path] + args if order == "first" else args + [path]


def run_main(args, data):
    """main() in this process."""
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["lnkparse"] + args
    try:
        with sut.guard("lnkparse " + " ".join(args[:-1]), data):
            with contextlib.redirect_stdout(out):
                try:
                    sut.MODULE.main()
                except SystemExit as e:
                    if e.code not in (None, 0):
                        raise Violation("lnkparse %s exits with %r" % (args, e.code), data=data) from None
    finally:
        sys.argv = old
    return out.getvalue()


def command(c):
    """every combination of options, in every form"""
    name = c.all("file", list(FILES) + ["cyrillic"])
    flags = c.all("flags", FLAGS)
    form = c.all("form", ["short", "long", "joined"])
    order = c.all("order", ["last", "first"])
    if name == "cyrillic":
        cp = c.all("cp", ["cp1251", "cp866", "koi8-r", "utf-8"])
        f = cyrillic(cp)
    else:
        cp = c.all("cp", [None, "cp1252"])
        f = FILES[name]()
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add((name, flags, form, order, cp))
    path = scratch(b.data)
    try:
        out = run_main(arguments(flags, form, cp, path, order), b.data)
    finally:
        os.unlink(path)
    judge(flags, out, b, b.data)


def default_page(c):
    """without -c the command reads ANSI text as Windows-1252"""
    raw = bytes([c.all("byte", [n for n in range(0x80, 256) if n not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)])])
    f = M.File(unicode=False, strings={"relative_path": "x" + raw.decode("cp1252")})
    b = f.build()
    c.data = b.data
    path = scratch(b.data)
    try:
        out = run_main(["-j", "-a", path], b.data)
    finally:
        os.unlink(path)
    judge(("j", "a"), out, b, b.data)


def _text_pages():
    """Every name Python knows a code page by, of those that encode text bytewise."""
    seen = {}
    for name, page in sorted(encodings.aliases.aliases.items()):
        try:
            if b"abc\\".decode(name) == "abc\\" == b"abc\\".decode(page):
                seen.setdefault(page, []).append(name)
        except (LookupError, UnicodeError, TypeError):
            pass
    return seen


TEXT_PAGES = _text_pages()
SPELLED = {"as it is": str, "capitals": str.upper, "dashes": lambda s: s.replace("_", "-")}


def pages(c):
    """the command reads text in every code page there is, by each of its names"""
    page = c.all("page", list(TEXT_PAGES))
    name = c.all("name", [page] + TEXT_PAGES[page])
    name = (SPELLED[c.all("spelling", ["as it is", "capitals", "dashes"])])(name)
    form = c.all("form", ["short", "long", "joined"])
    # Bytes that are text in this code page, two by two.
    texts = []
    for n in range(0x80, 0x100):
        for raw in (bytes([n]), bytes([n, 0xA1]), bytes([n, 0x41])):
            try:
                text = raw.decode(page)
            except UnicodeError:
                continue
            if text.encode(page, "replace") == raw and "\0" not in text:
                texts.append(text)
                break
    text = "".join(texts)[:120]
    try:
        text.encode(page)
    except UnicodeError:
        return
    f = M.File(unicode=False, cp=page, strings={"relative_path": "x" + text}, items=[M.item_file(2, "i" + text, cp=page)])
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add((page, name, form))
    path = scratch(b.data)
    try:
        out = run_main(arguments(("j", "a"), form, name, path, "last"), b.data)
    finally:
        os.unlink(path)
    judge(("j", "a"), out, b, b.data)


def process(c):
    """the command in a process of its own"""
    name = c.all("file", ["latin", "wide", "none"] if c.tier == "quick" else list(FILES))
    flags = c.all("flags", FLAGS)
    b = FILES[name]().build()
    c.data = b.data
    path = scratch(b.data)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    code = "import sys; sys.argv[0] = 'lnkparse'; from LnkParse3.lnk_file import main; sys.exit(main())"
    engine.STATS.calls += 1
    try:
        done = subprocess.run(
            [sys.executable, "-c", code] + arguments(flags, "short", None, path, "last"),
            env=env, cwd="/", capture_output=True, timeout=60,
        )  # fmt: skip
    finally:
        os.unlink(path)
    if done.returncode:
        raise Violation("lnkparse %s exits with %d: %s" % (flags, done.returncode, done.stderr[-300:]), data=b.data)
    judge(flags, done.stdout.decode(), b, b.data)


def refused(c):
    """the command fails, visibly, when there is no such file or nothing in it"""
    what = c.all("what", ["missing", "empty"])
    path = scratch(b"")
    if what == "missing":
        os.unlink(path)
    engine.STATS.calls += 1
    old = sys.argv
    out = io.StringIO()
    sys.argv = ["lnkparse"] + ["-" + f for f in c.all("flags", FLAGS)] + [path]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            sut.MODULE.main()
    except SystemExit as e:
        failed = e.code not in (None, 0)
    except Exception:
        failed = True
    else:
        failed = False
    finally:
        sys.argv = old
        if what == "empty":
            os.unlink(path)
    engine.STATS.compared += 1
    if not failed or out.getvalue():
        raise Violation("a %s file is not refused" % what)


def large(c):
    """files of every order of magnitude, through every kind of handle, are read to their end"""
    n = (1 << c.all("power", range(9, 26 if c.tier == "quick" else 29))) + c.all("more", [-1, 0, 1] if c.tier == "thorough" else [0, 1])
    way = c.all("way", ["bytes", "buffer", "file", "unbuffered", "pipe", "command"])
    tail = (b"0123456789abcde" * (n // 15 + 1))[:n]
    f = S.full_file(tail=tail)
    b = f.build()
    c.data = "%d bytes appended, read by %s" % (n, way)
    engine.STATS.inputs.add((n, way))
    path = scratch(b.data) if way in ("file", "unbuffered", "command") else None
    try:
        if way == "command":
            compare("the command", M.json_form(b.expect), json.loads(run_main(["-j", "-a", path], c.data)), c.data)
            return
        source = {
            "bytes": lambda: None,
            "buffer": lambda: io.BytesIO(b.data),
            "file": lambda: open(path, "rb"),
            "unbuffered": lambda: open(path, "rb", buffering=0),
            "pipe": lambda: Pipe(b.data),
        }[way]()
        with sut.guard("LnkFile from " + way, c.data):
            lnk = sut.LnkFile(indata=b.data) if source is None else sut.LnkFile(fhandle=source)
        if way in ("file", "unbuffered"):
            source.close()
        compare("read from %s" % way, b.expect, sut.as_json(lnk, True, c.data), c.data)
    finally:
        if path:
            os.unlink(path)


def names(c):
    """the command reads the file it is told to, whatever its name and wherever it is"""
    name = c.all("name", ["a.lnk", "with space.lnk", "\u0444\u0430\u0439\u043b.lnk", "no extension", "a'b\"c.lnk", "%d{}.lnk", "a=b.lnk"])
    where = c.all("where", ["absolute", "relative", "dotted", "link"])
    flags = c.all("flags", FLAGS)
    kind = c.all("file", ["latin", "bare"])
    b = FILES[kind]().build()
    c.data = b.data
    engine.STATS.inputs.add((name, where, flags, kind))
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="lnk-verif-") as d:
        path = os.path.join(d, name)
        with open(path, "wb") as f:
            f.write(b.data)
        try:
            if where != "absolute":
                os.chdir(d)
            if where == "link":
                os.symlink(name, "link")
            told = {"absolute": path, "relative": name, "dotted": "./" + name, "link": "link"}[where]
            out = run_main(arguments(flags, "short", None, told, "last"), b.data)
        finally:
            os.chdir(here)
        if sorted(os.listdir(d)) != sorted([name] + (["link"] if where == "link" else [])):
            raise Violation("the command leaves files behind: %r" % os.listdir(d), data=b.data)
        with open(path, "rb") as f:
            if f.read() != b.data:
                raise Violation("the command changes the file it reads", data=b.data)
    judge(flags, out, b, b.data)


ASSUMPTIONS = ["temporary files in the system's scratch directory, removed after each run"]
def in_company(c, f, cp):
    data = f.build().data
    c.data = data
    engine.STATS.inputs.add(hash(data))
    expected = sut.report(data, cp=cp, allow_terminal_blocks=f.allow_terminal_blocks)
    with sut.guard("LnkFile", data):
        handle = io.BytesIO(b"before" + data)
        handle.seek(6)
        lnk = sut.LnkFile(fhandle=handle, **({"cp": cp} if cp else {}), allow_terminal_blocks=f.allow_terminal_blocks)
    compare("a handle", expected, sut.as_json(lnk, True, data), data)
    if handle.closed:
        raise Violation("the handle is closed", data=data)


SCENARIOS = [
    Scenario("channels", channels, 0, 0),
    Scenario("nothing", nothing, 0, 0),
    Scenario("command", command, 0, 0),
    Scenario("default_page", default_page, 0, 0),
    Scenario("pages", pages, 0, 0),
    Scenario("refused", refused, 0, 0),
    Scenario("process", process, 0, 0, timeout=90),
    Scenario("large", large, 0, 0, timeout=60),
    Scenario("names", names, 0, 0),
    company(check=in_company),
]
