"""P13: no input of at least a header's length makes parsing or reporting fail."""

import encodings.aliases

from vlib import bases
from vlib import engine
from vlib import grow
from vlib import model as M
from vlib import samples as S
from vlib import tables as T
from vlib.context import company
from vlib.engine import Scenario
from vlib.sut import as_json
from vlib.sut import guard
from vlib.sut import parse
from vlib.sut import printed


def text_page(name):
    try:
        "".encode(name)
        return b"ABCD".decode(name) is not None
    except (LookupError, UnicodeError):
        return False


NAMES = list(bases.ALL)
PAGES = sorted(n for n in set(encodings.aliases.aliases.values()) if n not in ("mbcs", "oem") and text_page(n))
MINIMUM = 0x4C


def exercise(c, data, every, cp=None):
    """Parse and report; `every` report, or the JSON report alone (which contains all the others)."""
    c.data = data
    engine.STATS.inputs.add(hash(data))
    lnk = parse(data, cp=cp)
    out = printed(lnk, "print_json", True, data=data)
    engine.STATS.outcomes.add(hash(out))
    with guard("lnk_command", data):
        lnk.lnk_command
    if every:
        as_json(lnk, False, data)
        printed(lnk, "print_json", False, data=data)
        printed(lnk, "print_shortcut_target", True, data=data)
        printed(lnk, "print_shortcut_target", data=data)
        printed(lnk, "print_lnk_file", True, data=data)
        printed(lnk, "print_lnk_file", False, data=data)
    engine.STATS.compared += 1


def truncations(c):
    """every file cut at every length, all reports"""
    name = c.all("file", NAMES)
    data = bases.ALL[name]
    n = c.all("length", range(MINIMUM, len(data) + 1))
    exercise(c, data[:n], c.tier == "thorough" or n % 8 == 0)


def corruptions(c):
    """every file with every byte replaced, by each of some values"""
    name = c.all("file", NAMES)
    data = bases.ALL[name]
    at = c.all("offset", range(len(data)))
    if c.tier == "quick":
        v = c.all("value", ["zero", "ones", "low", "high"])
        b = data[at]
        v = {"zero": 0, "ones": 0xFF, "low": b ^ 1, "high": b ^ 0x80}[v]
    else:
        v = c.all("value", [0, 1, 2, 3, 4, 5, 8, 0x10, 0x14, 0x1F, 0x20, 0x31, 0x40, 0x7F, 0x80, 0xC0, 0xFE, 0xFF]
                  + [data[at] ^ 1 << n for n in range(8)])  # fmt: skip
    exercise(c, data[:at] + bytes([v]) + data[at + 1 :], c.tier == "thorough" and at % 4 == 0)


HOSTILE2 = [0, 1, 2, 3, 4, 0x14, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
HOSTILE4 = [0, 1, 2, 3, 4, 7, 8, 0x14, 0x1C, 0x24, 0xFF, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]


def hostile(c):
    """every 16- and 32-bit field position of the model-built files holds a hostile value, and the file is cut"""
    name = c.all("file", list(bases.BUILT) if c.tier == "thorough" else bases.SMALL)
    data = bases.BUILT[name]().build().data
    width = c.all("width", [2, 4])
    at = c.all("offset", range(0, len(data) - width, 1 if c.tier == "thorough" else 2))
    v = c.all("value", HOSTILE2 if width == 2 else HOSTILE4)
    raw = M.u16(v) if width == 2 else M.u32(v)
    data = data[:at] + raw + data[at + width :]
    exercise(c, data, False)


def structural(f):
    """offsets and widths of the sizes, offsets, counts and selectors of a file"""
    b = f.build()
    out = [(0, 4), (20, 4)]
    for name, start, end in b.parts:
        if name.endswith((".size", ".count", ".signature")) or name == "terminal":
            out.append((start, end - start))
        if name == "linkinfo.body":
            out += [(start + 4 * n, 4) for n in range(min(16, (end - start) // 4))]
        if name.endswith(".data") and name.startswith("item"):
            out += [(start, 1), (start + 2, 2), (start + 4, 4)]
        if name.startswith("block") and name.endswith(".body"):
            out += [(start + 4 * n, 4) for n in range(min(12, (end - start) // 4))]
    return b.data, out


def pairs(c):
    """two structural fields hold hostile values at once"""
    name = c.all("file", ["plain", "users", "store", "wnet", "tail"] if c.tier == "quick" else list(bases.BUILT))
    data, where = structural(bases.BUILT[name]())
    data = bytearray(data)
    for n, (at, width) in enumerate(where):
        if at == 0:
            values = [0, 0x4B, 0x4D, 0xFFFFFFFF]
        elif at == 20:
            values = [0, 0xFFFFFFFF, 0x7F, 0xFF]
        elif width == 1:
            values = [0, 1, 0x1F, 0x2E, 0x31, 0x35, 0x42, 0x71, 0x74]
        else:
            values = [0, 1, 3, 0x14, 0xFFFF, 0x80000000, 0xFFFFFFFF]
        v = c.pick("field%d@%d" % (n, at), [None] + values)
        if v is not None:
            data[at : at + width] = M.u32(v)[:width]
    exercise(c, bytes(data), False)


def tiny(c):
    """every short tail behind a header, over an alphabet of bytes that matter, for sets of link flags"""
    flags = c.all("flags", [0x01, 0x02, 0x03, 0x80, 0x84, 0x20, 0x81, 0xA3, 0x102, 0] if c.tier == "quick" else range(512))
    n = c.all("length", range(0, 6 if c.tier == "quick" else 5))
    alphabet = [0, 1, 4, 0xFF] if n > 4 else [0, 1, 2, 4, 8, 0x1F, 0x74, 0xFF]
    tail = bytes(c.all("byte%d" % i, alphabet) for i in range(n))
    exercise(c, M.Header(flags=flags).bytes() + tail, False)


def short_items(c):
    """an item of every kind and every length, alone in its list"""
    indicator = c.all("indicator", range(256))
    n = c.all("length", range(0, 48 if c.tier == "quick" else 120))
    fill = c.all("fill", [b"\0", b"\xff", b"\1", b"A"])
    block = c.all("where", ["target", "block"])
    d = (bytes([indicator]) + fill * 130)[:n]
    if block == "target":
        f = M.File(items=[(d, {})])
    else:
        f = M.File(extra=[M.block_shell_item([(d, {})])])
    exercise(c, f.build().data, c.tier == "thorough" and n % 8 == 1)


def short_blocks(c):
    """a block of every kind and every length"""
    signature = c.all("signature", [0xA0000000 + n for n in range(14)])
    n = c.all("length", range(0, 0x318, 1 if c.tier == "thorough" else 3))
    fill = c.all("fill", [b"\0", b"\xff", b"\1\0\0\0", b"A", b"\x1d\0\0\0"])
    lie = c.all("declared", [0, 1, 100, -4])
    body = (fill * n)[:n]
    data = M.File(strings={"relative_path": "rel"}, terminal=None).build().data
    data += M.u32(8 + n + lie) + M.u32(signature) + body + M.u32(0)
    exercise(c, data, False)


def dates(c):
    """dates that are no dates"""
    kind = c.all("kind", ["filetime", "dos"])
    if kind == "filetime":
        v = c.all("value", sorted({(1 << n) - d & (1 << 64) - 1 for n in range(65) for d in (0, 1, 2)}))
        f = M.File(header=M.Header(ctime=v, atime=v, wtime=v))
        exercise(c, f.build().data, True)
    else:
        date = c.all("date", S.EDGE16 + [1 << n for n in range(16)])
        dos = c.all("time", S.EDGE16 + [1 << n for n in range(16)])
        f = M.File(items=[M.item_file(2, date=date, time=dos)])
        exercise(c, f.build().data, c.tier == "thorough")


def texts(c):
    """texts made of characters that are awkward to print, in the text report too"""
    unicode = c.all("unicode", [True, False])
    unit = c.all("unit", list(range(0, 0x180)) + [0x2028, 0x2029, 0xD800, 0xDC00, 0xFEFF, 0xFFFE, 0xFFFF, 0x0600, 0x1680]
                 if unicode else range(256))  # fmt: skip
    where = c.all("where", ["alone", "first", "last", "twice"])
    ch = M.u16(unit) if unicode else bytes([unit])
    a = M.wide("ab") if unicode else b"ab"
    raw = {"alone": ch, "first": ch + a, "last": a + ch, "twice": ch + a + ch + ch}[where]
    head = M.Header(flags=0x20 | (0x80 if unicode else 0)).bytes()
    data = head + M.u16(len(raw) // (2 if unicode else 1)) + raw + M.u32(0)
    exercise(c, data, True)


def codepages(c):
    """every byte of text, in several code pages"""
    name = c.all("file", ["ansi", "users", "env"])
    data = bases.BUILT[name]().build().data
    cp = c.all("cp", ["cp932", "utf-8", "ascii", "cp437", "utf-16", "cp949"])
    at = c.all("offset", range(MINIMUM, len(data)))
    v = c.all("value", [0x81, 0xFF, 0xC3])
    data = data[:at] + bytes([v]) + data[at + 1 :]
    exercise(c, data, False, cp)


def all_pages(c):
    """bytes of text, alone and in short sequences that mean something to some page, in every code page there is"""
    cp = c.all("cp", PAGES)
    kind = c.all("kind", ["bytes", "sequences"])
    if kind == "bytes":
        n = c.all("first", range(0, 256, 4 if c.tier == "quick" else 1))
        raw = c.all("text", [bytes([n]), bytes([n, 0x41, n]), bytes([n, n])])
    else:
        alphabet = [0x1B, 0x24, 0x42, 0x7E, 0x2B, 0x81, 0xFF] if c.tier == "quick" else [0x1B, 0x24, 0x41, 0x42, 0x28, 0x7E, 0x2B, 0x2D, 0x5C, 0x80, 0x81, 0xFF]
        raw = bytes(c.all("byte%d" % i, alphabet) for i in range(3 if c.tier == "quick" else 4))
    data = M.Header(flags=0x20).bytes() + M.u16(len(raw)) + raw + M.u32(0)
    exercise(c, data, kind == "bytes" and len(raw) == 3 and n % 16 == 0, cp)


def odd_texts(c):
    """every sequence of odd units in any text, every report"""
    n = c.all("length", range(1, 4 if c.tier == "quick" else 5))
    raw = b"".join(M.u16(c.all("unit%d" % i, [0x61, 0xD83D, 0xDE00, 0xFFFF, 0xFFFE, 0x85, 0x0A, 0x1B, 0x2028, 0x22])) for i in range(n))
    kind = c.all("kind", ["relative_path", "arguments", "item", "block", "info"])
    odd = c.all("odd", [b"", b"\x3d"])
    if kind in ("relative_path", "arguments"):
        data = M.Header(flags=0x88 if kind == "relative_path" else 0xA0).bytes() + M.u16(n + len(odd)) + raw + odd
    else:
        mark = "Q" * n
        f = {
            "item": lambda: M.File(items=[M.item_file(6, mark)]),
            "block": lambda: M.File(extra=[M.block_shim(mark)]),
            "info": lambda: M.File(info=M.Info(header_size=0x24, base_path_w="b", suffix_w="s", label_w=mark)),
        }[kind]()
        data = f.build().data
        at = data.rfind(M.wide(mark))
        assert at > 0
        data = data[:at] + raw + odd + data[at + len(raw) + len(odd) :]
    exercise(c, data, True)


def all_reports(c, f, b):
    exercise(c, b.data, len(b.data) < (6000 if c.tier == "quick" else 40000))


def in_company(c, f, cp):
    exercise(c, f.build().data, True, cp)


SCENARIOS = [
    Scenario("truncations", truncations, 0, 0),
    Scenario("corruptions", corruptions, 0, 0),
    Scenario("hostile", hostile, 0, 0),
    Scenario("pairs", pairs, 2, 2),
    Scenario("tiny", tiny, 0, 0),
    Scenario("short_items", short_items, 0, 0),
    Scenario("short_blocks", short_blocks, 0, 0),
    Scenario("dates", dates, 0, 0),
    Scenario("texts", texts, 0, 0),
    Scenario("codepages", codepages, 0, 0),
    Scenario("odd_texts", odd_texts, 0, 0),
    grow.grown(None, ["target", "link_info", "data", "extra", "store"], "every part long, or of very many structures", quick=1 << 15, check=all_reports),
    Scenario("all_pages", all_pages, 0, 0),
    company(check=in_company, quick=1, thorough=2),
]
