"""P08: contents of the extra data blocks."""

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.common import in_extra
from vlib.context import company
from vlib.engine import Scenario
from vlib.vocabulary import vocabulary

GUIDS = ["11111111-2222-3333-4444-555555555555", S.G1, S.G2, M.NIL, "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"]
FILLERS = [b"\0", b"\xff", b"A"]
AFTER = [[], [M.block_unknown(0xA00000FF, b"after")]]


def place(c, block):
    in_extra(c, block, after=c.all("after", AFTER))


def fits(texts, n, wide=False):
    return [t for t in texts if len(M.wide(t)) // 2 < n]


def paths(c):
    """environment and icon blocks: an ANSI and a Unicode path, of any length up to the field"""
    icon = c.all("icon", [False, True])
    ansi = ["%windir%\\a.exe"] + fits(S.ANSI_TEXT, 260) + ["q" * n for n in (254, 255, 256, 257, 258, 259)]
    text_w = ["%windir%\\b.exe"] + fits(S.WIDE_TEXT, 260) + ["\u0100" * n for n in (254, 255, 256, 257, 258, 259)]
    place(
        c,
        M.block_environment(
            c.pick("ansi", ansi), c.pick("unicode", text_w), filler=c.pick("filler", FILLERS), icon=icon
        ),
    )


def full_fields(c):
    """a text that fills its field completely has no NUL: it ends with the field"""
    kind = c.all("kind", ["environment", "icon", "darwin", "tracker", "console"])
    fill = c.all("fill", ["ansi", "unicode", "both"])
    raw, key, shown = S.BLOCKS[kind]()
    raw, shown = bytearray(raw), dict(shown)
    if kind == "tracker":
        raw[16:32] = b"0123456789abcdef"
        shown["machine_identifier"] = "0123456789abcdef"
    elif kind == "console":
        raw[44:108] = M.wide("f" * 31 + "\u0100")
        shown["face_name"] = "f" * 31 + "\u0100"
    else:
        names = ("darwin_data_ansi", "darwin_data_unicode") if kind == "darwin" else ("target_ansi", "target_unicode")
        if fill in ("ansi", "both"):
            raw[8:268] = b"x" * 260
            shown[names[0]] = "x" * 260
        if fill in ("unicode", "both") and kind != "darwin":
            raw[268:788] = M.wide("y" * 260)
            shown[names[1]] = "y" * 260
    place(c, (bytes(raw), key, shown))


def console(c):
    """console properties: every field over its edge values"""
    values = {}
    for n, (name, _, size, _) in enumerate(M.CONSOLE_FIELDS):
        values[name] = c.pick(name, [0x0102 + 0x0101 * n if size == 2 else 0x01020304 + 0x01010101 * n]
                              + (S.EDGE16 if size == 2 else S.EDGE32))  # fmt: skip
    place(
        c,
        M.block_console(
            values,
            c.pick("face", ["Lucida Console", "", "a", "\u0100x", "\uff2d\uff33 \u660e\u671d", "m" * 31]),
            c.pick("filler", FILLERS),
            c.pick("unused", [b"\x99" * 8, b"\0" * 8]),
            c.pick("colors", [bytes(range(60)), b"\0" * 60, b"\xff" * 60]),
        ),
    )


def tracker(c):
    """distributed tracker: machine name and four GUIDs"""
    ids = [c.pick("guid%d" % n, [g] + GUIDS) for n, g in enumerate([
        "11111111-2222-3333-4444-555555555551", "21111111-2222-3333-4444-555555555552",
        "31111111-2222-3333-4444-555555555553", "41111111-2222-3333-4444-555555555554"])]  # fmt: skip
    place(
        c,
        M.block_tracker(
            c.pick("machine", ["machine-1", "", "m", "0123456789abcde", "caf\xe9"]),
            ids,
            c.pick("length", [0x58] + S.EDGE32),
            c.pick("version", [0] + S.EDGE32),
            filler=c.pick("filler", FILLERS),
        ),
    )


def numbers(c):
    """code page, special folder and known folder: every bit of every number"""
    kind = c.all("kind", ["codepage", "special", "known"])
    if kind == "codepage":
        place(c, M.block_codepage(c.all("code_page", S.WALK32 + [437, 932, 1252, 65001])))
    elif kind == "special":
        place(c, M.block_special_folder(c.all("folder", S.WALK32), c.all("offset", S.WALK32)))
    else:
        place(c, M.block_known_folder(c.all("guid", GUIDS), c.all("offset", S.WALK32)))


def shim(c):
    """shim layer names"""
    place(
        c,
        M.block_shim(
            c.all("name", ["WinXPSp2"] + S.WIDE_TEXT + ["l" * n for n in range(0, 300)]),
            c.all("pad", [b"", b"\0\0", b"\xff\xff", b"junk", b"\1"]),
        ),
    )


def darwin(c):
    """Darwin descriptors: all four forms"""
    place(
        c,
        M.block_darwin(
            c.pick("product", ["91120000-0030-0000-0000-0000000FF1CE"] + GUIDS),
            c.all("feature", ["EXCELFiles", "", "a", "Feature_With.dots", "F" * 38, "x y\u0100"]),
            c.all("component", ["0638C49D-BB8B-4CD1-B191-052E8F325736", None] + GUIDS),
            ansi=c.pick("ansi", [None, "", "other", "caf\xe9"]) if "\u0100" not in c.labels[-2] else "plain",
            filler=c.pick("filler", FILLERS),
        ),
    )


def block_sizes(c):
    """each block in every size up to beyond its own, and with a size that lies"""
    name = c.all("block", list(S.BLOCKS))
    raw = S.BLOCKS[name]()[0]
    said = c.all("said", list(range(4, len(raw) + 24)))
    lying = c.all("lying", [False, True])
    body = raw[4:] if lying else raw[4:].ljust(said, b"P")[: said - 4]
    data = mutate.blocked(M.u32(said) + body + M.block_codepage()[0] + M.u32(0))
    mutate.judge(data, ["extra", "size"], c=c)


def twins(c):
    """blocks whose fields all hold the same text, or the same number, of every length"""
    kind = c.all("kind", ["environment", "icon", "darwin", "console", "tracker", "special", "known", "ids"])
    if kind in ("environment", "icon"):
        text = c.all("unit", ["p", "\xe9"]) * c.all("length", range(260))
        place(c, M.block_environment(text, text, icon=kind == "icon"))
    elif kind == "darwin":
        g = c.all("guid", GUIDS)
        place(c, M.block_darwin(g, c.all("feature", ["", "F" * 38, M.pack_guid(g)[:20].replace("<", "x")]), g))
    elif kind == "console":
        n = c.all("number", [0, 1, 5, 0x7F, 0x80, 0xFF, 0x7FFF])
        face = c.all("face", ["", "a", "f" * 31])
        place(c, M.block_console({f[0]: n for f in M.CONSOLE_FIELDS}, face, M.u8(n & 255), M.u16(n) * 4, M.u32(n) * 15))
    elif kind == "tracker":
        n = c.all("number", [0x58, 0, 1])
        place(c, M.block_tracker("0123456789abcdef"[: c.all("length", range(16))], [c.all("guid", GUIDS)] * 4, n, n))
    elif kind == "ids":
        a, b = c.all("guid", GUIDS), c.all("other", GUIDS)
        place(c, M.block_tracker("m", [(a, b)[c.all("which%d" % i, [0, 1])] for i in range(4)]))
    elif kind == "special":
        n = c.all("number", S.WALK32)
        place(c, M.block_special_folder(n, n))
    else:
        g = c.all("guid", GUIDS)
        n = int.from_bytes(M.guid_bytes(g)[c.all("at", [0, 4, 8, 12]) :][:4], "little")
        place(c, M.block_known_folder(g, n))


SCENARIOS = [
    Scenario("twins", twins, 0, 0),
    Scenario("paths", paths, 2, 3),
    Scenario("full_fields", full_fields, 0, 0),
    Scenario("console", console, 2, 3),
    Scenario("tracker", tracker, 2, 3),
    Scenario("numbers", numbers, 0, 0),
    Scenario("shim", shim, 0, 0),
    Scenario("darwin", darwin, 2, 3),
    Scenario("block_sizes", block_sizes, 0, 0),
    mutate.values("extra", ["extra"], "every place of the blocks holds every value of a byte and every power of two", only=lambda n: n.startswith("built") and n not in ("built:utf8", "built:force"), most=300),
    mutate.changes("extra", ["extra"], "any byte of the extra data of a real or built file changed", long=200),
    mutate.edits("extra", ["extra", "size"], "bytes of the blocks copied, removed, repeated", only=lambda n: n.startswith("built")),
    grow.grown(["extra", "size"], ["extra"], "long blocks and very many blocks"),
    grow.grown(["extra", "size"], ["extra"], "long texts of blanks, dots, one letter", "long_alike", style=True),
    vocabulary("blocks"),
    company("extra"),
]
