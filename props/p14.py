"""P14: damage inside one structure changes what is reported about that structure only."""

import re

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference
from vlib.sut import outcome
from vlib.sut import report

# Byte ranges of the header and what they may change. HeaderSize and LinkFlags are framing.
HEADER_PARTS = [
    (4, 20, {"guid"}),
    (24, 28, {"r_file_flags", "file_flags"}),
    (28, 36, {"creation_time"}),
    (36, 44, {"accessed_time"}),
    (44, 52, {"modified_time"}),
    (52, 56, {"file_size"}),
    (56, 60, {"icon_index"}),
    (60, 64, {"windowstyle"}),
    (64, 66, {"hotkey", "r_hotkey"}),
    (66, 68, {"reserved0"}),
    (68, 72, {"reserved1"}),
    (72, 76, {"reserved2"}),
]


def without(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


def compare(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("damage in %s changes the report elsewhere: %s" % (what, d), data=data)


def compare_items(what, n, old, new, data):
    """All items but the n-th are there, in order; the n-th may have been dropped."""
    engine.STATS.compared += 1
    if len(new) == len(old):
        d = first_difference(old[:n] + [None] + old[n + 1 :], new[:n] + [None] + new[n + 1 :])
    else:
        d = first_difference(old[:n] + old[n + 1 :], new)
    if d:
        raise Violation("damage in %s changes the other items: %s" % (what, d), data=data)


def check(name, at, part, f, base, data):
    """`base` is the report of the undamaged file, `data` the damaged one."""
    got = report(data)
    outcome(got)
    if part == "header":
        for start, end, keys in HEADER_PARTS:
            if start <= at < end:
                compare("header[%d]" % at, without(base, "header"), without(got, "header"), data)
                compare("header[%d]" % at, without(base["header"], *keys), without(got["header"], *keys), data)
        return
    m = re.match(r"item(\d+)\.(size|data)", part)
    if m:
        compare(part, without(base, "target"), without(got, "target"), data)
        if m.group(2) == "data":
            n = int(m.group(1))
            compare_items(part, n, base["target"]["items"], got["target"]["items"], data)
        else:
            # The framing of the items behind it is lost, but not of those before it.
            n = int(m.group(1))
            compare(part, base["target"]["items"][:n], got["target"]["items"][:n], data)
        return
    if part == "idlist.end":
        compare(part, without(base, "target"), without(got, "target"), data)
        n = len(base["target"]["items"])
        compare(part, base["target"]["items"], got["target"]["items"][:n], data)
        return
    if part == "linkinfo.body":
        compare(part, without(base, "link_info"), without(got, "link_info"), data)
        return
    m = re.match(r"string\.(\w+)\.(text|count)", part)
    if m:
        which = m.group(1)
        if m.group(2) == "text":
            compare(part, without(base, "data"), without(got, "data"), data)
            compare(part, without(base["data"], which), without(got["data"], which), data)
            return
        # A wrong count moves what follows; what precedes stays.
        compare(part, without(base, "data", "extra", "size"), without(got, "data", "extra", "size"), data)
        names = [n for n, _ in M.STRINGS]
        before = names[: names.index(which)]
        compare(part, {k: v for k, v in base["data"].items() if k in before},
                {k: v for k, v in got["data"].items() if k in before}, data)  # fmt: skip
        return
    if part in ("idlist.size", "linkinfo.size"):
        keep = ["header"] + (["target"] if part == "linkinfo.size" else [])
        compare(part, {k: base[k] for k in keep if k in base}, {k: got[k] for k in keep if k in got}, data)
        return
    m = re.match(r"block(\d+)\.(size|signature|body)", part)
    if m:
        n = int(m.group(1))
        compare(part, without(base, "extra", "size"), without(got, "extra", "size"), data)
        keys = [k for _, k, _ in f.extra]
        if m.group(2) == "body":
            compare_extra(part, n, keys, f, base["extra"], got["extra"], data)
            compare(part, base["size"], got["size"], data)
        elif m.group(2) == "size":
            known = [k for k in keys[:n] if k != "UNKNOWN_BLOCK"]
            # A block of the same kind that seems to follow may replace an earlier one.
            seen = {k: got["extra"].get(k) for k in known if k in keys[:n] and keys.count(k) == 1}
            compare(part, {k: base["extra"][k] for k in seen}, seen, data)
        else:
            signature = int.from_bytes(data[slice(*signature_at(f, n))], "little")
            new_key = M.NAMES.get(signature, "UNKNOWN_BLOCK")
            others = [k for i, k in enumerate(keys) if i != n and k not in ("UNKNOWN_BLOCK", new_key)]
            compare(part, {k: base["extra"][k] for k in others}, {k: got["extra"].get(k) for k in others}, data)
            compare(part, base["size"], got["size"], data)
        return
    if part in ("terminal", "tail"):
        compare(part, without(base, "extra", "size"), without(got, "extra", "size"), data)
        keys = {k for _, k, _ in f.extra if k != "UNKNOWN_BLOCK"}
        if part == "tail":
            compare(part, without(base["extra"], "TERMINAL_BLOCK"), without(got["extra"], "TERMINAL_BLOCK"), data)
            compare(part, base["size"], got["size"], data)
        elif data[-4:] and int.from_bytes(data[slice(*part_at(f, "terminal"))], "little") < 4:
            compare(part, base["extra"], got["extra"], data)


def part_at(f, name):
    for n, start, end in f.build().parts:
        if n == name:
            return start, end


def signature_at(f, n):
    return part_at(f, "block%d.signature" % n)


def compare_extra(part, n, keys, f, old, new, data):
    key = keys[n]
    if key != "UNKNOWN_BLOCK":
        compare(part, without(old, key), without(new, key), data)
        if new.get(key) is not None:
            compare(part, old[key]["size"], new[key]["size"], data)
        return
    compare(part, without(old, key), without(new, key), data)
    i = sum(1 for k in keys[:n] if k == key)
    engine.STATS.compared += 1
    d = first_difference(old[key][:i] + [None] + old[key][i + 1 :], new[key][:i] + [None] + new[key][i + 1 :])
    if d:
        raise Violation("damage in %s changes other unknown blocks: %s" % (part, d), data=data)


_CACHE = {}


def prepared(name):
    if name not in _CACHE:
        f = FILES[name]()
        b = f.build()
        base = report(b.data)
        d = first_difference(b.expect, base)
        if d:
            raise Violation("the undamaged file %s is misreported: %s" % (name, d), data=b.data)
        _CACHE[name] = (f, b, base)
    return _CACHE[name]


FILES = dict(bases.BUILT)
FILES["items"] = lambda: M.File(
    items=[S.ITEMS[k]() for k in ("root", "net", "users", "cplw", "cpla", "volume", "category", "wfile", "unknown")],
    strings={"relative_path": "rel"},
    extra=[M.block_special_folder()],
)
FILES["mixed"] = lambda: M.File(
    strings={"relative_path": "rel", "icon_location": "icon"},
    unicode=False,
    extra=[S.BLOCKS[k]() for k in ("metadata", "unknown", "shellitem", "shim", "unknown", "special", "codepage")],
)


def telling(order):
    """A file with ANSI texts that are not ASCII in every structure."""
    blocks = [
        M.block_codepage(850), M.block_environment("%\xe9%", "%\xe9%"), M.block_tracker("m\xe9"), M.block_special_folder(),
        M.block_shell_item([M.item_file(2, "b\xe9")]), M.block_darwin(ansi="\xe9!!!"), M.block_console(), M.block_known_folder(),
    ]  # fmt: skip
    return M.File(
        items=[M.item_root(), M.item_file(2, "f\xe9"), M.item_network(comments="c\xe9"), M.item_cpl(False, name="n\xe9")],
        info=M.Info(flags=2, net_name="\\\\s\xe9\\t", suffix="s\xe9"),
        strings={"relative_path": "rel\xe9", "icon_location": "icon\xe9"},
        unicode=False,
        extra=blocks[::order],
    )


FILES["telling"] = lambda: telling(1)
FILES["told"] = lambda: telling(-1)
CODE_PAGES = [437, 850, 852, 855, 866, 874, 932, 936, 949, 950, 1200, 1201, *range(1250, 1259), 10000, 20127, 20866, 28591, 28605, 54936, 65000, 65001]
# Numbers that mean something somewhere.
MEANINGS = CODE_PAGES + [*range(1, 9), 0x407, 0x409, 0x411, 0x419, 0x10, 0x14, 0x1C, 0x24, 0x25, 0x26, 0x2A, 0x4C, 0x58, 0x60, 0xCC, 0x314]
MEANINGS += [0xA0000000 + n for n in range(1, 13)] + [0x39DE2184, 0x46534643, 0x53505331, 0x00021401, 0xFFFFFFFF, 0x80000000]


def meanings(c):
    """numbers that mean something elsewhere, at every place"""
    name = c.all("file", ["telling", "told"])
    f, b, base = prepared(name)
    part, start, end = c.all("part", [p for p in b.parts if p[2] - p[1] > 1])
    width = c.all("width", [2, 4])
    near = [at for at in range(start, min(end, start + 80), 2) if at + width <= end]
    if not near:
        return
    at = c.all("offset", near)
    if part == "header" and (at < 4 or at == 20 or at == 22):
        return
    value = c.all("value", [v for v in MEANINGS if v < 1 << 8 * width and (v > 0xFFFF or width == 2)])
    if part == "header" and not any(s <= at and at + width <= e for s, e, _ in HEADER_PARTS):
        return
    data = b.data[:at] + value.to_bytes(width, "little") + b.data[at + width :]
    if data == b.data:
        return
    c.data = data
    check(name, at, part, f, base, data)


def code_pages(c):
    """every value of the code page block next to ANSI texts that are not ASCII"""
    name = c.all("file", ["telling", "told"])
    f, b, base = prepared(name)
    n = [k for _, k, _ in f.extra].index("CONSOLE_CODEPAGE_BLOCK")
    part = "block%d.body" % n
    start, end = part_at(f, part)
    value = c.all("value", range(1 << 16))
    data = b.data[:start] + M.u32(value) + b.data[end:]
    c.data = data
    check(name, start, part, f, base, data)


def bytes_of(c):
    """every byte of every model-built file is replaced"""
    name = c.all("file", list(FILES))
    f, b, base = prepared(name)
    at = c.all("offset", range(len(b.data)))
    old = b.data[at]
    values = [0, 0xFF, old ^ 1, old ^ 0x80, 0x1F] if c.tier == "quick" else range(256)
    v = c.all("value", values)
    if v == old:
        return
    data = b.data[:at] + bytes([v]) + b.data[at + 1 :]
    c.data = data
    part = next(n for n, s, e in b.parts if s <= at < e)
    check(name, at, part, f, base, data)


def blanked(c):
    """a whole structure's contents are overwritten"""
    name = c.all("file", list(FILES))
    f, b, base = prepared(name)
    parts = [p for p in b.parts if p[0].endswith((".data", ".body", ".text")) or p[0] == "tail"]
    if not parts:
        return
    n = c.all("part", range(len(parts)))
    part, start, end = parts[n]
    fill = c.all("fill", [b"\0", b"\xff", b"A", b"\x01\0\0\0", b"\x74\0\x10\0", b"\x31", b"\x2e", b"\x7f\xff"])
    raw = (fill * (end - start))[: end - start]
    keep = c.all("keep", [0, 1, 2, 4, 8, 12, 16, 24])
    data = b.data[: start + keep] + raw[keep:] + b.data[max(end, start + keep) :]
    if keep >= end - start:
        return
    c.data = data
    check(name, start, part, f, base, data)


def two_bytes(c):
    """two bytes of the same structure are replaced"""
    name = c.all("file", ["items", "mixed"] if c.tier == "quick" else list(FILES))
    f, b, base = prepared(name)
    parts = [p for p in b.parts if p[0].endswith((".data", ".body"))]
    if not parts:
        return
    part, start, end = parts[c.all("part", range(len(parts)))]
    near = range(start, min(end, start + (24 if c.tier == "quick" else 64)))
    at, v = c.all("offset", near), c.all("value", [0, 0xFF, 0x7F])
    at2, v2 = c.all("offset2", near), c.all("value2", [0, 0xFF, 0x1F])
    if at2 <= at:
        return
    data = bytearray(b.data)
    data[at], data[at2] = v, v2
    c.data = bytes(data)
    check(name, at, part, f, base, bytes(data))


# What a list may hold; some of it cannot be decoded, and some of that is dropped.
PIECES = {
    "root": lambda: M.item_root()[0],
    "file": lambda: M.item_file(2, "file")[0],
    "net": lambda: M.item_network()[0],
    "uri": lambda: M.item_plain(0x61)[0],
    "short file": lambda: b"\x31\0\0",
    "short root": lambda: b"\x1f",
    "nothing known": lambda: b"\xee\1\2",
    "short net": lambda: b"\xc3\1\x80",
    "short volume": lambda: b"\x2f",
}


def in_target(pieces):
    f = M.File(items=[(p, {}) for p in pieces], strings={"relative_path": "rel"}, extra=[M.block_special_folder()])
    return f.build().data, lambda got: got["target"]["items"]


def in_block(pieces):
    f = M.File(strings={"relative_path": "rel"}, extra=[M.block_shell_item([(p, {}) for p in pieces]), M.block_special_folder()])
    return f.build().data, lambda got: got["extra"].get("SHELL_ITEM_IDENTIFIER_BLOCK", {}).get("id_list", [])


_ALONE = {}


def alone(make, piece):
    """What is reported of an item that is the only one."""
    if (make, piece) not in _ALONE:
        data, shown = make([PIECES[piece]()])
        _ALONE[make, piece] = shown(report(data))
    return _ALONE[make, piece]


def lists(c):
    """sound and damaged items in any order: each is reported, or dropped, as it is alone"""
    make = c.all("where", [in_target, in_block])
    n = c.all("count", range(1, 5 if c.tier == "quick" else 6))
    names = [c.all("item%d" % i, list(PIECES)) for i in range(n)]
    data, shown = make([PIECES[k]() for k in names])
    c.data = data
    engine.STATS.inputs.add(hash(data))
    got = report(data)
    expected = [x for k in names for x in alone(make, k)]
    engine.STATS.compared += 2
    d = first_difference(expected, shown(got))
    if d:
        raise Violation("items %s are not what they are alone: %s" % (names, d), data=data)
    if got["data"] != {"relative_path": "rel"} or "SPECIAL_FOLDER_LOCATION_BLOCK" not in got["extra"]:
        raise Violation("items %s change what is behind them" % names, data=data)


def damaged(raw, n):
    """A block that says it is only n bytes long, and is."""
    return M.u32(n) + raw[4:n]


BLOCK_PIECES = {k: (lambda k=k: S.BLOCKS[k]()[0]) for k in ("special", "codepage", "tracker", "shim", "console", "metadata", "environment", "shellitem")}
BLOCK_PIECES["unknown"] = lambda: M.block_unknown(0xA00000FF, b"u")[0]
SHORT = {"short special": ("special", 9), "short tracker": ("tracker", 40), "short console": ("console", 100), "short codepage": ("codepage", 8),
         "short environment": ("environment", 20), "short metadata": ("metadata", 20)}  # fmt: skip
for _k, (_of, _n) in SHORT.items():
    BLOCK_PIECES[_k] = lambda of=_of, n=_n: damaged(S.BLOCKS[of]()[0], n)


def block_alone(piece):
    if piece not in _ALONE:
        data = M.Header().bytes() + BLOCK_PIECES[piece]() + M.u32(0)
        _ALONE[piece] = report(data)["extra"]
    return _ALONE[piece]


def block_lists(c):
    """sound and damaged blocks in any order: each is reported, or dropped, as it is alone"""
    n = c.all("count", range(1, 4 if c.tier == "quick" else 5))
    names = [c.all("block%d" % i, list(BLOCK_PIECES)) for i in range(n)]
    # Of blocks of one kind only one can be reported.
    kinds = [SHORT[k][0] if k in SHORT else k for k in names if k != "unknown"]
    if len(set(kinds)) < len(kinds):
        return
    data = M.Header().bytes() + b"".join(BLOCK_PIECES[k]() for k in names) + M.u32(0)
    c.data = data
    engine.STATS.inputs.add(hash(data))
    expected = {}
    for k in names:
        for name, x in block_alone(k).items():
            expected[name] = expected.get(name, []) + x if isinstance(x, list) else x
    engine.STATS.compared += 1
    d = first_difference(expected, report(data)["extra"])
    if d:
        raise Violation("blocks %s are not what they are alone: %s" % (names, d), data=data)


def in_company(c, f, cp):
    """A byte at the start, in the middle or at the end of any part, or all of it, damaged."""
    if cp is not None or not f.allow_terminal_blocks:
        return
    b = f.build()
    base = report(b.data)
    parts = [p for p in b.parts if p[2] > p[1]]
    part, start, end = parts[c.all("part", range(len(parts)))]
    if part == "header":
        at = c.all("offset", [4, 24, 28, 40, 51, 52, 57, 61, 64, 65, 66, 68, 75])
        last = at + 1
    else:
        at, last = c.all("where", [(start, start + 1), ((start + end) // 2, (start + end) // 2 + 1), (end - 1, end), (start, end)])
        if last - at > 1 and not part.endswith((".data", ".body", ".text", "tail")):
            return
    flip = c.all("flip", [1, 0xFF])
    data = b.data[:at] + bytes(x ^ flip for x in b.data[at:last]) + b.data[last:]
    c.data = data
    check("company", at, part, f, base, data)


SCENARIOS = [
    Scenario("lists", lists, 0, 0),
    Scenario("block_lists", block_lists, 0, 0),
    Scenario("bytes", bytes_of, 0, 0),
    Scenario("blanked", blanked, 0, 0),
    Scenario("two_bytes", two_bytes, 0, 0),
    Scenario("meanings", meanings, 0, 0),
    Scenario("code_pages", code_pages, 0, 0),
    company(check=in_company, quick=1, thorough=2),
]
