"""P04: contents of item IDs."""

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import tables as T
from vlib.common import in_shell_item
from vlib.common import in_target
from vlib.context import company
from vlib.engine import Scenario
from vlib.vocabulary import vocabulary

GUIDS = ["20D04FE0-3AEA-1069-A2D8-08002B30309D", S.G1, S.G2, M.NIL, "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"]
NAMES = ["file.txt"] + S.ANSI_TEXT
WNAMES = ["file.txt"] + S.WIDE_TEXT
DATES = [0x3A6F, 0, 0x0021, M.dos_date(2107, 12, 31), M.dos_date(2000, 2, 29), M.dos_date(2001, 2, 29), 0x3A60, 0xFFFF]
TIMES = [0x6C3B, 0, 1, M.dos_time(23, 59, 58), M.dos_time(12, 0, 0), 0x001E, 0x0780, 0xC000, 0xFFFF]
PADS = [b"", b"\0", b"\x26\0\x03\0\x04\0\xef\xbe" + b"\x11" * 30, b"A", b"\0\0\0\0", b"ab\0c"]


def place(c, item):
    where = c.all("where", ["target", "block"])
    after = c.all("after", [[], [S.ITEMS["root"]()]])
    if where == "target":
        in_target(c, item, after=after)
    else:
        in_shell_item(c, item, after=after)


def file_entry(c):
    """file entries: flags, size, date, attributes and the name in either encoding"""
    nibble = c.all("nibble", list(T.ENTRY_FLAGS))
    names = WNAMES if nibble & 4 else NAMES
    place(
        c,
        M.item_file(
            nibble,
            c.pick("name", names),
            c.pick("size", [0x1234] + S.WALK32),
            c.pick("date", DATES),
            c.pick("time", TIMES),
            c.pick("attrs", [0x20] + S.EDGE16 + [1 << n for n in range(16)]),
            kind=0x30,
            high=c.pick("clsid_flag", [0, 0x80]),
            pad=c.pick("pad", PADS),
            unknown=c.pick("unknown", [0, 0xFF]),
        ),
    )


def volume(c):
    """volume items: a name or a GUID, told by the low bit of the indicator"""
    nibble = c.all("nibble", range(16))
    pad = c.pick("pad", PADS)
    if nibble & 1:
        item = M.item_volume_named(
            nibble,
            c.pick("name", ["C:\\", "", "a", "Z:\\", "x" * 19, "x" * 20, "caf\xe9\\"]),
            filler=c.pick("filler", [b"\0", b"\xff", b"Z"]),
            pad=pad,
        )
    else:
        item = M.item_volume_guid(nibble, c.pick("guid", GUIDS), c.pick("unknown", S.EDGE8), pad=pad)
    place(c, item)


def network(c):
    """network locations: which strings follow is told by the content flags"""
    nibble = c.all("nibble", list(T.ENTRY_FLAGS))
    content = c.all("content", [0xC0, 0x80, 0x40, 0, 0x41, 0xBF, 0x3F, 0xFF, 0x02, 0x7F, 0x81])
    place(
        c,
        M.item_network(
            nibble,
            content,
            c.pick("location", ["\\\\srv\\share"] + S.ANSI_TEXT),
            c.pick("description", ["Microsoft Network"] + S.ANSI_TEXT),
            c.pick("comments", ["a comment"] + S.ANSI_TEXT),
            unknown=c.pick("unknown", S.EDGE8),
            pad=c.pick("pad", PADS),
        ),
    )


def root(c):
    """root folders: every sort index, in both forms of the indicator"""
    place(
        c,
        M.item_root(
            c.all("indicator", [0x1F, 0x1E]),
            c.all("sort", range(256)),
            c.pick("guid", GUIDS),
            c.pick("pad", PADS),
        ),
    )


def panel(c):
    """control panel items, categories"""
    kind = c.all("kind", ["panel", "category"])
    if kind == "panel":
        item = M.item_control_panel(
            c.all("indicator", [0x71, 0x70]),
            c.pick("sort", S.EDGE8),
            c.pick("guid", GUIDS),
            c.pick("between", [b"\1\2\3\4\5\6\7\x08\x09\x0a", b"\0" * 10, b"\xff" * 10]),
            c.pick("pad", PADS),
        )
    else:
        item = M.item_category(
            c.all("category", list(range(0, 20)) + S.WALK32),
            c.pick("unknown", S.EDGE8),
            c.pick("signature", [0x39DE2184, 0, 0xFFFFFFFF]),
            c.pick("pad", PADS),
        )
    place(c, item)


def cpl(c):
    """control panel files: three strings found by their offsets, in either encoding"""
    unicode = c.all("unicode", [True, False])
    texts = S.WIDE_TEXT if unicode else S.ANSI_TEXT
    has_comments = c.all("has_comments", [True, False])
    # A path that starts with a NUL is how the Unicode form is told; it cannot be empty here.
    paths = ["C:\\x\\main.cpl"] + [t for t in texts if t]
    place(
        c,
        M.item_cpl(
            unicode,
            c.pick("path", paths),
            c.pick("name", ["Mouse"] + texts),
            c.pick("comments", ["Settings"] + texts),
            c.pick("signature", [0xFFFFFF9C, 0, 0xFFFFFFFF, 0xFFFFF444, 1, 0x80000000, 0x01020304]),
            c.pick("unknown", S.EDGE8),
            gap=c.pick("gap", [0, 1, 2, 5]),
            has_comments=has_comments,
            between=c.pick("between", [b"\0" * 12, b"\0\0\0\0\0" + b"\xff" * 7]),
            pad=c.pick("pad", [b"", b"\0\0", b"\x11" * 30]),
        ),
    )


def users(c):
    """users files folders: the nested entry and the two GUIDs behind it"""
    nibble = c.all("nibble", list(T.ENTRY_FLAGS))
    names = WNAMES if nibble & 4 else NAMES
    place(
        c,
        M.item_users_files(
            c.pick("signature", ["CFSF", "ABCD", "\0\0\0\0"]),
            nibble,
            c.pick("name", names),
            c.pick("size", [0, 1, 0x80000000, 0xFFFFFFFF]),
            c.pick("date", DATES),
            c.pick("time", TIMES),
            c.pick("attrs", [0x10, 0, 1, 0x8000, 0xFFFF]),
            c.pick("class_id", GUIDS),
            c.pick("folder_id", [S.G2] + GUIDS),
            unknown=c.pick("unknown", S.EDGE8),
            inner_pad=c.pick("inner_pad", PADS),
            after_entry=c.pick("after_entry", PADS),
            pad=c.pick("pad", PADS),
        ),
    )


def plain(c):
    """kinds of which only the class is reported, with every body length"""
    indicator = c.all("indicator", [0x52, 0x61, 0x72, 0x73, 0x02, 0x10, 0x50, 0x60, 0x75, 0x7F, 0x80, 0x90, 0xFF])
    body = c.all("body", [b"\xab" * n for n in range(0, 60)])
    place(c, M.item_plain(indicator, body))


def placed(c, body):
    """An item of these bytes between two others, in a list or a block, against the reference decoder."""
    region = M.idlist_bytes([S.ITEMS["root"](), (body, None), S.ITEMS["volguid"]()], True, b"")
    if c.all("place", ["target", "block"]) == "target":
        mutate.judge(mutate.listed(region), ["target"], c=c)
    else:
        mutate.judge(mutate.blocked(M.u32(8 + len(region)) + M.u32(0xA000000C) + region + M.u32(0)), ["extra"], c=c)


def cpl_offsets(c):
    """control panel files: any two offsets into the texts"""
    unicode = c.all("unicode", [True, False])
    text = "C:\\a\0\0Mouse\0\xe9t\0\0Z"
    text = M.wide(text) if unicode else text.encode("cp1252")
    count = len(text) // 2 if unicode else len(text)
    offsets = M.u16(c.all("name_at", range(count + 3))) + M.u16(c.all("comments_at", list(range(count + 3)) + [0x8000, 0xFFFF]))
    head = b"\0\0" + M.u32(0xFFFFFF9C)
    placed(c, head + (b"\0" * 12 if unicode else b"") + offsets + text)


def cpl_far(c):
    """control panel files: texts that are far behind each other, at any offset"""
    unicode = c.all("unicode", [True, False])
    far = c.all("offset", sorted(set(range(12, 1100)) | {(1 << k) + d for k in range(10, 15) for d in (-1, 0, 1)} | set(range(0, 0x7F00, 0x80))))
    if far < 12:
        return
    which = c.all("which", ["comments", "name"])
    path = "C:\\a" if which == "comments" else "C" * (far - 1)
    text = path + "\0"
    name_at = len(text)
    text += "Mouse\0"
    if which == "comments":
        text = text.ljust(far, "#")
    comments_at = len(text)
    text += "Set\0\0"
    head = b"\0\0" + M.u32(0xFFFFFF9C) + (b"\0" * 12 if unicode else b"")
    placed(c, head + M.u16(name_at) + M.u16(comments_at) + (M.wide(text) if unicode else text.encode("cp1252")))


def cuts(c):
    """items of every kind whose text fills them to any length, with and without an end"""
    kind = c.all("kind", [0x21, 0x2F, 0x31, 0x32, 0x35, 0x36, 0x43, 0x42])
    length = c.all("length", range(0, 60))
    letter = c.all("letter", [b"n", b"n\0", b"\xe9"])
    nul = c.all("nul", [None] + list(range(0, 60, 1 if c.tier == "thorough" else 3)))
    text = bytearray((letter * length)[:length])
    if nul is not None:
        if nul >= length:
            return
        text[nul] = 0
        if nul + 1 < length and kind & 4:
            text[nul + 1] = 0
    head = bytes([kind])
    if kind & 0x70 == 0x30:
        head += b"\0" + M.u32(5) + M.u16(0x3A6F) + M.u16(0x6C3B) + M.u16(0x20)
    elif kind & 0x70 == 0x40:
        head += b"\0" + bytes([c.all("content", [0xC0, 0x80, 0x40, 0])])
    placed(c, head + bytes(text))


def users_sizes(c):
    """users files folders: the sizes they declare of their parts"""
    nibble = c.all("nibble", [1, 5])
    body = bytearray(M.item_users_files(nibble=nibble, name="docs", inner_pad=c.all("inner", [b"", b"\xaa" * 8]))[0])
    declared = int.from_bytes(body[2:4], "little")
    inner = int.from_bytes(body[8:10], "little")
    body[2:4] = M.u16(c.all("declared", list(range(0, declared + 40)) + [0x8000, 0xFFFF, declared]))
    body[8:10] = M.u16(c.all("entry", list(range(0, inner + 8)) + [0x8000, 0xFFFF]))
    placed(c, bytes(body))


SCENARIOS = [
    Scenario("file_entry", file_entry, 2, 3),
    Scenario("volume", volume, 2, 3),
    Scenario("network", network, 2, 3),
    Scenario("root", root, 1, 2),
    Scenario("panel", panel, 2, 3),
    Scenario("cpl", cpl, 2, 3),
    Scenario("users", users, 2, 3),
    Scenario("plain", plain, 0, 0),
    mutate.values("target", ["target"], "every place of the items holds every value of a byte and every power of two", only=lambda n: n.startswith("built") and n not in ("built:utf8", "built:force")),
    mutate.changes("target", ["target"], "any byte of the items of a real or built file changed", long=200),
    mutate.changes("extra", ["extra"], "any byte of an item in an extra block changed", name="changed_block", only=lambda n: n == "built:users"),
    mutate.two_changes("target", ["target"], "any two near bytes of the items changed", only=lambda n: n.startswith("built")),
    Scenario("cpl_offsets", cpl_offsets, 0, 0),
    Scenario("cpl_far", cpl_far, 0, 0),
    Scenario("cuts", cuts, 0, 0),
    Scenario("users_sizes", users_sizes, 0, 0),
    grow.grown(["target"], ["target"], "long texts in items, and lists of very many items"),
    vocabulary("items"),
    company("target", "extra"),
]
