"""P06: StringData."""

import itertools

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import STATS
from vlib.sut import report
from vlib.sut import same
from vlib.vocabulary import vocabulary

DATA = sections("data", "extra", "size")
NAMES = [n for n, _ in M.STRINGS]
SUBSETS = [c for n in range(6) for c in itertools.combinations(NAMES, n)]
LENGTHS = [3, 0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 259, 260]
LONG = [261, 262, 300, 519, 520, 521, 1000, 4096, 0x7FFF]


def text(name, n, wide):
    """n characters, different for every string and every position"""
    base = NAMES.index(name) * 7
    return "".join(chr(0x21 + (base + i) % 0x5C) if not wide or i % 3 else chr(0x100 + (base + i) % 0x500) for i in range(n))


def lengths(c):
    """which strings are there, and how long each one is"""
    strings = c.all("strings", SUBSETS)
    unicode = c.all("unicode", [True, False])
    kw = {}
    for name in strings:
        options = LENGTHS + ([] if name in M.LIMITED else LONG)
        kw[name] = text(name, c.pick(name, options), unicode)
    check_file(c, M.File(strings=kw, unicode=unicode, extra=[S.BLOCKS["special"]()]), DATA)


def alphabets(c):
    """texts over the whole alphabet, in every position of the section"""
    unicode = c.all("unicode", [True, False])
    before = c.all("info", [None, "local"])
    texts = S.WIDE_TEXT if unicode else S.ANSI_TEXT
    kw = {n: c.pick(n, [S.STRING_VALUES[n]] + [t for t in texts if len(t) < 260]) for n in NAMES}
    check_file(
        c,
        M.File(strings=kw, unicode=unicode, info=before and S.INFOS[before](), extra=[S.BLOCKS["special"]()]),
        DATA,
    )


def nul(c):
    """a string ends at its first NUL character, the section goes on behind its declared length"""
    unicode = c.all("unicode", [True, False])
    which = c.all("which", NAMES)
    at = c.all("at", range(0, 12))
    second = c.all("second", [None] + list(range(0, 12)))
    content = list("abcdefghijkl" if not unicode else "ab\u0100cd\u0200efgh\u0300l")
    content[at] = "\0"
    if second is not None:
        content[second] = "\0"
    content = "".join(content)
    f = M.File(
        strings={n: S.STRING_VALUES[n] if n != which else content for n in NAMES},
        unicode=unicode,
        extra=[S.BLOCKS["special"]()],
    )
    b = f.build()
    b.expect["data"][which] = content.split("\0")[0]
    got = report(b.data)
    same(DATA(b.expect), DATA(got), "report", b.data)


def limit(c):
    """name, relative path and working directory take at most 260 characters"""
    unicode = c.all("unicode", [True, False])
    which = c.all("which", sorted(M.LIMITED))
    declared = c.all("declared", list(range(250, 300)) + [520, 1000, 1693, 0x7FFF, 0xFFFF])
    f = M.File(
        strings={n: S.STRING_VALUES[n] if n != which else "\1" for n in NAMES},
        unicode=unicode,
        extra=[S.BLOCKS["special"]()],
    )
    content = text(which, min(declared, 260), unicode)
    marker = M.u16(1) + (b"\1\0" if unicode else b"\1")
    b = f.build()
    start, end = b.marks["string." + which]
    assert b.data[start:end] == marker
    data = b.data[:start] + M.u16(declared) + (M.wide(content) if unicode else content.encode()) + b.data[end:]
    b.expect["data"][which] = content
    b.expect["size"] += len(data) - len(b.data)
    c.data = data
    STATS.inputs.add(hash(data))
    same(DATA(b.expect), DATA(report(data)), "report", data)


def raw(c):
    """any bytes as string data"""
    flags = c.all("strings", [0x04, 0x08, 0x20, 0x40, 0x0C, 0x28, 0x60, 0x7C])
    flags |= c.all("unicode", [0x80, 0])
    alphabet = [bytes([v]) for v in (0, 1, 2, 3, 0x61, 0xE9)]
    body = mutate.words(c, alphabet, 5 if c.tier == "quick" else 7, "byte")
    mutate.judge(mutate.assemble(flags, body), c=c)


def counts(c):
    """a count says less or more than the string takes"""
    unicode = c.all("unicode", [True, False])
    names = [n for n, _ in M.STRINGS]
    which = c.all("string", names)
    said = c.all("said", list(range(0, 300)) + [0x7FFF, 0x8000, 0xFFFE, 0xFFFF])
    text = c.all("text", ["abc", "x" * 261, "y" * 255 + "\xe9" * 30])
    body = b""
    for name in names:
        value = text if name == which else "s-" + name
        encoded = value.encode("utf-16-le" if unicode else "cp1252")
        body += M.u16(said if name == which else len(value)) + encoded
    flags = 0x7C | (0x80 if unicode else 0)
    data = mutate.assemble(flags, body + M.block_special_folder()[0] + M.u32(0))
    mutate.judge(data, ["data", "extra", "size"], c=c)


SCENARIOS = [
    Scenario("lengths", lengths, 2, 3),
    Scenario("alphabets", alphabets, 2, 3),
    Scenario("nul", nul, 0, 0),
    Scenario("limit", limit, 0, 0),
    Scenario("raw", raw, 0, 0),
    Scenario("counts", counts, 0, 0),
    mutate.values("data", ["data", "extra", "size"], "every place of the strings holds every value of a byte and every power of two", only=lambda n: n in ("built:plain", "built:ansi")),
    mutate.changes("data", ["data", "extra", "size"], "any byte of the strings of a real or built file changed", long=150),
    mutate.edits("data", ["data", "extra", "size"], "bytes of the strings copied, removed, repeated", only=lambda n: n in ("built:plain", "built:ansi", "real:sample3")),
    grow.grown(["data", "extra", "size"], ["data"], "long strings"),
    grow.grown(["data", "extra", "size"], ["data"], "long texts of blanks, dots, one letter", "long_alike", style=True),
    vocabulary("strings"),
    company("data"),
]
