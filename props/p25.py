"""P25: the shortcut target is a command line that means what the file says."""

import json

from vlib import mutate
from vlib import decode
from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.vocabulary import vocabulary

ALPHABET = ["a", " ", "\\", '"', "\t", "\xe9"]


def split(line):
    """The arguments that a C program on Windows makes of a command line."""
    out = []
    i, n = 0, len(line)
    while True:
        while i < n and line[i] in " \t":
            i += 1
        if i >= n:
            return out
        arg = ""
        quoted = False
        while i < n:
            slashes = 0
            while i < n and line[i] == "\\":
                slashes += 1
                i += 1
            if i < n and line[i] == '"':
                arg += "\\" * (slashes // 2)
                if slashes % 2:
                    arg += '"'
                elif quoted and line[i + 1 : i + 2] == '"':
                    arg += '"'
                    i += 1
                else:
                    quoted = not quoted
                i += 1
                continue
            arg += "\\" * slashes
            if i >= n or (not quoted and line[i] in " \t"):
                break
            arg += line[i]
            i += 1
        out.append(arg)


def command(data, **kw):
    lnk = sut.parse(data, **kw)
    with sut.guard("lnk_command", data):
        text = lnk.lnk_command
    shown = sut.printed(lnk, "print_shortcut_target", data=data)
    shown_json = sut.printed(lnk, "print_shortcut_target", True, data=data)
    engine.STATS.compared += 2
    if shown != text + "\n":
        raise Violation("print_shortcut_target() shows %r for %r" % (shown, text), data=data)
    if json.loads(shown_json) != {"shortcut_target": text}:
        raise Violation("print_shortcut_target(True) shows %r for %r" % (shown_json, text), data=data)
    return text


def judge(c, path, arguments, unicode=True, more=None, **kw):
    strings = dict(more or {})
    if path is not None:
        strings["relative_path"] = path
    if arguments is not None:
        strings["command_line_arguments"] = arguments
    f = M.File(strings=strings, unicode=unicode, **kw)
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    accept(b.data, path, arguments, command(b.data))


def accept(data, path, arguments, got):
    """Is this the target that stands for the path and the arguments?"""
    engine.STATS.compared += 1
    if path is None:
        if got != (arguments or ""):
            raise Violation("the target is %r, expected %r" % (got, arguments or ""), data=data)
        return
    if arguments is not None:
        # The arguments follow as they are.
        if not got.endswith(" " + arguments):
            raise Violation("the target %r does not end in the arguments %r" % (got, arguments), data=data)
        got = got[: len(got) - 1 - len(arguments)]
    # The path is one argument, whatever is in it.
    if split(got) != [path]:
        raise Violation("%r does not stand for the path %r" % (got, path), data=data)
    if path and not set(path) & set(' \t"') and got != path:
        raise Violation("%r is quoted without need: %r" % (path, got), data=data)


def paths(c):
    """every path up to a length over the characters that matter"""
    n = c.all("length", range(1, 6 if c.tier == "quick" else 8))
    path = "".join(c.all("char%d" % i, ALPHABET[: 6 if n < 6 else 4]) for i in range(n))
    judge(c, path, c.all("arguments", [None, "x"] if n > 3 else [None, "", "x", '-a "b c" \\', " y ", '"']))


def arguments(c):
    """arguments are taken as they are"""
    n = c.all("length", range(0, 5 if c.tier == "quick" else 7))
    text = "".join(c.all("char%d" % i, ALPHABET[:5]) for i in range(n))
    judge(c, c.all("path", [None, "a.exe", "a b.exe", "..\\a\\"]), text)


LONG = ["x" * 300, " " * 300 + "end", "a b " * 1000, "\u65e5\u672c " * 90, "%windir%\\x", "\\\\srv\\share\\a b", ".\\a.exe", "-"]


def shapes(c):
    """the target comes from the path and the arguments alone, whatever else is in the file"""
    unicode = c.all("unicode", [True, False])
    path = c.all("path", [None, "..\\rel.exe", "..\\rel path.exe", "a\\ b\\"])
    args = c.all("arguments", [None, "plain", '-a "b c"'] + (LONG if unicode else LONG[:3] + LONG[4:]))
    more = {k: S.STRING_VALUES[k] for k in c.all("more", [
        [], ["description"], ["working_directory"], ["icon_location"], ["description", "working_directory", "icon_location"]])}  # fmt: skip
    items = [S.ITEMS["root"](), S.ITEMS["file"]()] if c.all("items", [False, True]) else None
    info = c.all("info", [None, "local", "network"])
    judge(c, path, args, unicode, more, items=items, info=S.INFOS[info]() if info else None,
          extra=[S.BLOCKS[k]() for k in c.all("blocks", [[], ["environment", "unknown"]])])  # fmt: skip


def truncated(c):
    """of a file cut anywhere the target still is made from what is reported"""
    unicode = c.all("unicode", [True, False])
    names = c.all("strings", [["relative_path"], ["command_line_arguments"], ["relative_path", "command_line_arguments"],
                              [n for n, _ in M.STRINGS]])  # fmt: skip
    f = M.File(unicode=unicode, strings={n: S.STRING_VALUES[n] for n in names}, items=[S.ITEMS["root"]()])
    b = f.build()
    data = b.data[: c.all("length", range(76, len(b.data) + 1))]
    c.data = data
    got = command(data)
    shown = sut.report(data)["data"]
    want = []
    engine.STATS.compared += 1
    if "relative_path" in shown:
        want.append(shown["relative_path"])
    if "command_line_arguments" in shown:
        want.append(shown["command_line_arguments"])
    plain = got.replace('"', "")
    if plain != " ".join(want).replace('"', ""):
        raise Violation("the target is %r, the strings are %r" % (got, want), data=data)


def characters(c):
    """every character, alone and between others: quoted when needed and only then"""
    unit = c.all("character", [n for n in range(1, 0x3100 if c.tier == "quick" else 0x10000) if not 0xD800 <= n < 0xE000])
    place = c.all("place", ["%s", "a%s", "%sb", "a%sb"])
    judge(c, place % chr(unit), None)


def changed_bytes(c):
    """any byte of header and strings changed: the target is made from what is reported"""
    name = c.all("file", ["built:plain", "built:ansi", "built:users", "built:header", "real:sample3"])
    data = bases.ALL[name]
    start, end = mutate.places(name)["data"]
    at = c.all("offset", list(range(20, 24)) + list(range(start, end)))
    value = c.all("value", mutate.EDGES + [0x22, 0x5C, 0x09] if c.tier == "quick" else range(256))
    data = data[:at] + bytes([value]) + data[at + 1 :]
    c.data = data
    engine.STATS.inputs.add(hash(data))
    got = command(data)
    shown = decode.report(data).report
    flags, shown = shown["header"]["r_link_flags"], shown["data"]
    engine.STATS.compared += 1
    path = shown.get("relative_path") if flags & 8 else None
    text = shown.get("command_line_arguments") if flags & 0x20 else None
    if path is None:
        if got != (text or ""):
            raise Violation("the target is %r, expected %r" % (got, text or ""), data=data)
        return
    if text is not None:
        if not got.endswith(" " + text):
            raise Violation("the target %r does not end in the arguments %r" % (got, text), data=data)
        got = got[: len(got) - 1 - len(text)]
    if split(got) != [path]:
        raise Violation("%r does not stand for the path %r" % (got, path), data=data)
    if path and not set(path) & set(' \t"') and got != path:
        raise Violation("%r is quoted without need: %r" % (path, got), data=data)


def long(c):
    """paths of every length up to the limit, with every ending, and long arguments"""
    n = c.all("length", range(1, 261))
    piece = c.all("piece", ["d", "d\\", "d d\\", " ", "\\", '"', "\xe9 ", "\\\\s\\"])
    end = c.all("end", ["", "\\", " ", '"', "\\\\", "x"])
    path = (piece * n)[: n - len(end)] + end
    if len(path) != n:
        return
    arguments = c.all("arguments", [None, "x"])
    judge(c, path, arguments, unicode=c.all("unicode", [True, False]))


def long_arguments(c):
    """arguments around each power of two"""
    n = (1 << c.all("power", range(5, 16))) + c.all("more", [-2, -1, 0, 1])
    piece = c.all("piece", ["a", "a ", " ", '"', "\\", "-x y "])
    path = c.all("path", [None, "a.exe", "a b.exe"])
    judge(c, path, (piece * n)[:n], unicode=c.all("unicode", [True, False]))


def runs(c):
    """runs of backslashes, quotes and blanks of many lengths next to each other"""
    most = 12 if c.tier == "quick" else 40
    slashes = c.all("slashes", list(range(most)) + [31, 32, 63, 64, 100])
    marks = c.all("marks", ["", '"', '""', " ", "\t", '" "', 'x" y'])
    more = c.all("more", list(range(most)))
    judge(c, c.all("start", ["", "a", "a b"]) + "\\" * slashes + marks + "\\" * more + c.all("end", ["", "z", '"']), None)


def in_company(c, f, cp):
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    accept(b.data, f.strings.get("relative_path"), f.strings.get("command_line_arguments"), command(b.data, cp=cp))


SCENARIOS = [
    Scenario("paths", paths, 0, 0),
    Scenario("arguments", arguments, 0, 0),
    Scenario("shapes", shapes, 0, 0),
    Scenario("truncated", truncated, 0, 0),
    Scenario("characters", characters, 0, 0),
    Scenario("changed_bytes", changed_bytes, 0, 0),
    Scenario("long", long, 0, 0),
    Scenario("long_arguments", long_arguments, 0, 0),
    Scenario("runs", runs, 0, 0),
    vocabulary("strings", check=in_company),
    company(check=in_company),
]
