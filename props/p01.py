"""P01: every section is found where the flags and the sizes before it put it."""

import itertools

from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.context import company
from vlib.engine import Scenario
from vlib.sut import outcome
from vlib.sut import report
from vlib.sut import same
from vlib.sut import parse
from vlib.sut import as_json
from vlib import engine

IDLISTS = {
    "absent": None,
    "empty": [],
    "one": ["volume"],
    "odd": ["root", "netbare"],
    "many": ["root", "volume", "dir", "wfile", "unknown"],
}
INFOS = ["absent", "local", "network", "both", "wlocal", "wnetwork", "empty"]
SUBSETS = [c for n in range(6) for c in itertools.combinations([name for name, _ in M.STRINGS], n)]
EXTRAS = [[], ["special"], ["unknown", "known"]]
ENDS = [(0, b""), (None, b""), (1, b""), (2, b""), (3, b""), (0, b"appended!"), (3, b"\0")]


def check(c, f):
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    lnk = parse(b.data, allow_terminal_blocks=f.allow_terminal_blocks)
    got = as_json(lnk, True)
    outcome(got)
    same(b.expect, got, "report", b.data)
    same(b.expect["size"], lnk.size, "LnkFile.size", b.data)


def layout(c):
    """every combination of present and absent sections"""
    idlist = c.all("idlist", list(IDLISTS))
    info = c.all("info", INFOS)
    strings = c.all("strings", SUBSETS)
    unicode = c.all("unicode", [True, False])
    extra = c.all("extra", EXTRAS if c.tier == "thorough" else EXTRAS[:1] + EXTRAS[2:])
    end = c.all("end", ENDS if c.tier == "thorough" else ENDS[:2] + ENDS[4:6])
    force = c.all("force_no_link_info", [0, 0x100] if info != "absent" else [0])
    names = IDLISTS[idlist]
    check(
        c,
        M.File(
            items=None if names is None else [S.ITEMS[n]() for n in names],
            info=None if info == "absent" else S.INFOS[info](),
            strings={n: S.STRING_VALUES[n] for n in strings},
            unicode=unicode,
            extra=[S.BLOCKS[n]() for n in extra],
            terminal=end[0],
            tail=end[1],
            flags=force,
        ),
    )


def sizes(c):
    """sizes of the sections that precede another one: every length of a variable part"""
    part = c.all("part", ["item", "idtail", "infotail", "string", "blockpad", "tail"])
    n = c.all("length", list(range(0, 600 if c.tier == "thorough" else 300)))
    unicode = c.all("unicode", [True, False])
    filler = c.all("filler", [b"\xff", b"\x00"])
    f = S.full_file(unicode)
    if part == "item":
        f.items[1] = M.item_plain(0x61, filler * n)
    elif part == "idtail":
        f.items_tail = filler * n
    elif part == "infotail":
        f.info.tail = filler * n
    elif part == "string":
        f.strings["command_line_arguments"] = "y" * n
    elif part == "blockpad":
        f.extra.insert(1, M.block_unknown(0xA00000FF, filler * n))
    else:
        f.tail = filler * n
    check(c, f)


def flags(c):
    """link flags that announce no section must not move any"""
    f = S.full_file(c.all("unicode", [True, False]))
    bits = list(range(9, 32))
    a = c.all("bit", [None] + bits)
    b = c.all("bit2", [None] + bits)
    for x in (a, b):
        if x is not None:
            f.flags |= 1 << x
    if c.all("force", [0, 0x100]):
        f.flags |= 0x100
    check(c, f)


def raw(c):
    """any words behind the header, read under any flags that announce sections"""
    flags = c.all("flags", [0, 1, 2, 3, 4, 5, 7, 0x60, 0x83, 0x84, 0xA7, 0x102, 0x103, 0x106, 0x7F, 0xFF])
    alphabet = [b"\0\0", b"\1\0", b"\2\0", b"\4\0", b"\x06\0", b"A\0", b"\x0c\xa0", b"\xff\xff"]
    body = mutate.words(c, alphabet, 4 if c.tier == "quick" else 6)
    mutate.judge(mutate.assemble(flags, body), c=c)


FRAMES = ["built:plain", "built:ansi", "built:wnet", "built:users", "built:store", "built:force"]


def large(c):
    """sections around each power of two up to beyond 64 KiB: what follows is where it belongs"""
    part = c.all("part", ["item", "idtail", "infotail", "string", "blockpad", "tail"])
    top = {"item": 15, "idtail": 15, "string": 15}.get(part, 17 if c.tier == "quick" else 20)
    n = (1 << c.all("power", range(9, top + 1))) + c.all("more", [-9, -1, 0, 1, 8])
    if part == "string" and n > 65535:
        return
    unicode = c.all("unicode", [True, False])
    f = S.full_file(unicode)
    filler = b"\xff" * n
    if part == "item":
        f.items[1] = M.item_plain(0x61, filler)
    elif part == "idtail":
        f.items_tail = filler
    elif part == "infotail":
        f.info.tail = filler
    elif part == "string":
        f.strings["command_line_arguments"] = "y" * n
    elif part == "blockpad":
        f.extra.insert(1, M.block_unknown(0xA00000FF, filler))
    else:
        f.tail = filler
    check(c, f)


SCENARIOS = [
    Scenario("layout", layout, 0, 0),
    Scenario("sizes", sizes, 0, 0),
    Scenario("flags", flags, 0, 0),
    Scenario("raw", raw, 0, 0),
    mutate.changes(None, None, "any byte of a file changed: every section is where the bytes now put it", only=lambda n: n in FRAMES),
    mutate.two_changes(None, None, "any two near bytes of a file changed", only=lambda n: n in FRAMES),
    Scenario("large", large, 0, 0),
    mutate.edits(None, None, "bytes of a file copied, removed, repeated", only=lambda n: n in FRAMES),
    company("size", "header", "target", "link_info", "data", "extra"),
]
