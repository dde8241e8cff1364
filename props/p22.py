"""P22: what does not conform is told, and its value is still reported; what conforms is not complained about."""

import warnings

from props import p10
from vlib import bases
from vlib import decode
from vlib import engine
from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference


def told(data, **kw):
    """(report, warnings) of parsing and reporting."""
    engine.STATS.inputs.add(hash(data))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        got = sut.report(data, **kw)
    return got, {str(w.message) for w in seen}


def conforms(c, f, **kw):
    b = f.build()
    c.data = b.data
    got, messages = told(b.data, **kw)
    engine.STATS.compared += 2
    d = first_difference(b.expect, got)
    if d:
        raise Violation("report" + d, data=b.data)
    if messages:
        raise Violation("a conforming file is complained about: %s" % sorted(messages)[0], data=b.data)


QUIET_ITEMS = [k for k in S.ITEMS if k != "unknown"]


def conforming(c):
    """files that conform, of every composition, are parsed without a warning"""
    kind = c.all("kind", ["sections", "items", "blocks", "header"])
    if kind == "sections":
        f = S.full_file(
            c.all("unicode", [True, False]),
            items=c.all("items", [False, [], ["root", "volume", "dir", "file"], ["users", "cplw"]]),
            info=c.all("info", [None] + list(S.INFOS)),
            blocks=c.all("blocks", [[], ["unknown"], ["tracker", "metadata", "shellitem"], ["darwin", "console"]]),
            terminal=c.all("terminal", [0, 1, 2, 3]),
            flags=c.all("flags", [0, 0x100, 0x200]),
            tail=c.all("tail", [b"", b"appended"]),
        )
        names = [n for n, _ in M.STRINGS]
        f.strings = {k: f.strings[k] for k in c.all("strings", [[], names[:1], names[2:], names])}
    elif kind == "items":
        f = M.File(items=[S.ITEMS[c.all("item%d" % i, QUIET_ITEMS)]() for i in range(3)])
    elif kind == "blocks":
        names = [c.all("block%d" % i, list(S.BLOCKS)) for i in range(3)]
        if any(n != "unknown" and names.count(n) > 1 for n in names):
            return
        f = M.File(extra=[S.BLOCKS[n]() for n in names])
    else:
        kw = {
            "show": c.all("show", [1, 3, 7]),
            "attributes": c.all("attributes", [0, 0x20, 0xFFFFFFFF]),
            "ctime": c.all("ctime", [0, 1, 0x01C914FE12345678]),
            "key_low": c.all("key_low", [0, 0x41, 0x70]),
            "key_high": c.all("key_high", [0, 1, 2, 4]),
            "icon_index": c.all("icon_index", [0, 0xFFFFFFFF]),
        }
        f = M.File(header=M.Header(**kw))
    conforms(c, f)


def _header(**kw):
    def change(f):
        for k, v in kw.items():
            setattr(f.header, k, v)

    return change


def _reserved(n, v):
    def change(f):
        r = list(f.header.reserved)
        r[n] = v
        f.header.reserved = tuple(r)

    return change


def _item(make):
    return lambda f: f.items.append(make())


def _block(key, make):
    def change(f):
        f.extra = [x for x in f.extra if x[1] != make()[1]] + [make()]

    return change


def _dated(date, time):
    def make():
        d, e = M.item_file(2, "dated.txt", date=date, time=time)
        return d, dict(e, modification_time=None)

    return make


def _replaced(make, mark, raw, text):
    """An item or block with other bytes in the place of a text."""

    def build():
        out = make(mark)
        data = out[0]
        at = data.find(mark.encode() if mark.encode() in data else M.wide(mark))
        assert at >= 0
        expected = dict(out[-1])
        for k, v in expected.items():
            if v == mark:
                expected[k] = text
        return (data[:at] + raw + data[at + len(raw) :], *out[1:-1], expected)

    return build


# What MS-SHLLINK rules out, or what cannot be decoded; each by itself must be told.
DEVIATIONS = {
    "clsid": _header(clsid=S.G1),
    "clsid_last": _header(clsid="00021401-0000-0000-C000-000000000047"),
    "reserved1": _reserved(0, 1),
    "reserved1_high": _reserved(0, 0x8000),
    "reserved2": _reserved(1, 1),
    "reserved2_high": _reserved(1, 0x80000000),
    "reserved3": _reserved(2, 1),
    "reserved3_high": _reserved(2, 0x80000000),
    "creation_time": _header(ctime=0x7FFFFFFFFFFFFFFF),
    "access_time": _header(atime=0x7FFFFFFFFFFFFFFE),
    "write_time": _header(wtime=0x7FFFFFFFFFFFFFFD),
    "tracker_length": _block("tracker", lambda: M.block_tracker(length=0x57)),
    "tracker_version": _block("tracker", lambda: M.block_tracker(version=1)),
    "tracker_both": _block("tracker", lambda: M.block_tracker(length=0, version=0xFFFFFFFF)),
    "dos_month": _item(_dated(M.dos_date(2008, 13, 1), 0)),
    "dos_day": _item(_dated(M.dos_date(2008, 2, 30), 0)),
    "dos_hour": _item(_dated(M.dos_date(2008, 2, 3), 0xFFFF)),
    "item_type": _item(lambda: M.item_plain(0x10)),
    "sort_index": _item(lambda: M.item_root(sort=0x77)),
    "category": _item(lambda: M.item_category(99)),
    "ansi_text": _item(_replaced(lambda t: M.item_file(2, t), "mmmm", b"a\x81\x81b", "a\ufffd\ufffdb")),
    "unicode_text": _item(_replaced(lambda t: M.item_file(6, t), "mm", b"a\0\x00\xd8", "a\ufffd")),
    "unicode_block": _block("shim", _replaced(lambda t: M.block_shim(t), "mm", b"\x01\xdcb\0", "\ufffdb")),
}
GROUP = {k: k.split("_")[0] if k.startswith(("clsid", "reserved")) else k for k in DEVIATIONS}
for _k in DEVIATIONS:
    if _k.startswith("tracker"):
        GROUP[_k] = "tracker"
_ALONE = {}


def base_file():
    return M.File(
        items=[S.ITEMS["root"](), S.ITEMS["file"]()],
        strings={"relative_path": "rel"},
        extra=[S.BLOCKS["special"]()],
    )


def alone(name):
    """The warnings of one deviation."""
    if name not in _ALONE:
        f = base_file()
        DEVIATIONS[name](f)
        b = f.build()
        got, messages = told(b.data)
        d = first_difference(b.expect, got)
        if d:
            raise Violation("%s: report%s" % (name, d), data=b.data)
        if not messages:
            raise Violation("%s is not told" % name, data=b.data)
        _ALONE[name] = messages
    return _ALONE[name]


def deviating(c):
    """every combination of up to so many deviations: all are told, all values are reported"""
    chosen = []
    f = base_file()
    for name in DEVIATIONS:
        if c.pick(name, [False, True]):
            if GROUP[name] in [GROUP[k] for k in chosen]:
                return
            chosen.append(name)
            DEVIATIONS[name](f)
    b = f.build()
    c.data = b.data
    got, messages = told(b.data)
    engine.STATS.compared += 2
    d = first_difference(b.expect, got)
    if d:
        raise Violation("%s: report%s" % (chosen, d), data=b.data)
    expected = set().union(*(alone(k) for k in chosen))
    if len(messages) < len(chosen):
        raise Violation("%s: only %d warnings" % (chosen, len(messages)), data=b.data)
    if not expected <= messages:
        raise Violation("%s: not told any more: %s" % (chosen, sorted(expected - messages)[0]), data=b.data)
    if not chosen and messages:
        raise Violation("a conforming file is complained about: %s" % sorted(messages)[0], data=b.data)


def values(c):
    """every value of every byte of the fields with a required value"""
    field = c.all("field", ["size", "clsid", "reserved1", "reserved2", "reserved3", "length", "version"])
    at, width = {"size": (0, 4), "clsid": (4, 16), "reserved1": (66, 2), "reserved2": (68, 4), "reserved3": (72, 4),
                 "length": (84, 4), "version": (88, 4)}[field]  # fmt: skip
    f = M.File(extra=[M.block_tracker()] if field in ("length", "version") else [])
    if field == "size":
        f.terminal = None  # nothing that could move
    data = f.build().data
    i = at + c.all("byte", range(width))
    v = c.all("value", range(256))
    changed = data[:i] + bytes([v]) + data[i + 1 :]
    c.data = changed
    got, messages = told(changed)
    engine.STATS.compared += 2
    if bool(messages) != (changed != data):
        raise Violation("%s %s: %d warnings" % (field, changed[at : at + width].hex(), len(messages)), data=changed)
    raw = changed[at : at + width]
    number = int.from_bytes(raw, "little")
    shown = {
        "size": lambda: (got["header"]["header_size"], number),
        "clsid": lambda: (got["header"]["guid"], M.guid_text(raw)),
        "reserved1": lambda: (got["header"]["reserved0"], number),
        "reserved2": lambda: (got["header"]["reserved1"], number),
        "reserved3": lambda: (got["header"]["reserved2"], number),
        "length": lambda: (got["extra"]["DISTRIBUTED_LINK_TRACKER_BLOCK"]["length"], number),
        "version": lambda: (got["extra"]["DISTRIBUTED_LINK_TRACKER_BLOCK"]["version"], number),
    }[field]()
    if shown[0] != shown[1]:
        raise Violation("%s is %r, reported %r" % (field, shown[1], shown[0]), data=changed)


def dropped(c):
    """an item or a block that cannot be decoded is never dropped without a word"""
    name = c.all("file", [k for k in bases.BUILT] + ["many"])
    b = (bases.BUILT[name] if name != "many" else MANY)().build()
    at = c.all("offset", range(75, len(b.data)))
    part = next(n for n, s, e in b.parts if s <= at < e)
    if part.startswith("idlist") or not part.endswith((".data", ".body")) or part.startswith("link"):
        return
    v = c.all("value", [0, 1, 0x1F, 0x74, 0x7F, 0xFF] if c.tier == "quick" else range(256))
    data = b.data[:at] + bytes([v]) + b.data[at + 1 :]
    c.data = data
    got, messages = told(data)
    engine.STATS.compared += 1
    lost = len(b.expect.get("target", {}).get("items", [])) > len(got.get("target", {}).get("items", []))
    lost = lost or len(b.expect["extra"]) > len(got["extra"])
    if lost and not messages:
        raise Violation("%s is dropped without a warning" % part, data=data)


def cut_off(c):
    """an item or a block that is cut in two is reported, or it is told"""
    name = c.all("file", [k for k in bases.BUILT] + ["many"])
    b = (bases.BUILT[name] if name != "many" else MANY)().build()
    cuts = [
        (n, at)
        for n, start, end in b.parts
        if n.endswith((".data", ".body")) and not n.startswith(("link", "idlist"))
        for at in range(max(76, start + 1), end)
    ]
    if not cuts:
        return
    part, at = c.all("cut", cuts if c.tier == "thorough" else [x for i, x in enumerate(cuts) if i % 3 == 0 or i < 300])
    data = b.data[:at]
    c.data = data
    got, messages = told(data)
    engine.STATS.compared += 1
    n = int(part.split(".")[0].lstrip("itemblock")) + 1
    if part.startswith("item"):
        whole, shown = b.expect["target"]["items"][:n], got.get("target", {}).get("items", [])
    else:
        whole, shown = blocks_before(b.expect["extra"], n), entries(got["extra"])
    if len(shown) < len(whole) and not messages:
        raise Violation("%s is cut in two and dropped without a warning" % part, data=data)


def entries(extra):
    """All reported blocks; hidden ones are reported as a list, or as one."""
    return [x for v in extra.values() for x in (v if isinstance(v, list) else [v])]


def blocks_before(extra, n):
    return entries(extra)[:n]


def MANY():
    return S.full_file(blocks=list(S.BLOCKS), items=list(S.ITEMS), info=None)


def judged(c, data, names=None):
    """What must be told is told; of what conforms, nothing is told."""
    c.data = data
    expected = decode.report(data)
    got, messages = told(data)
    engine.STATS.compared += 2
    d = decode.compare(expected, got, names)
    if d:
        raise Violation(d, data=data)
    if expected.told and not messages:
        raise Violation("not told: %s" % expected.told[0], data=data)
    if messages and not expected.told and not expected.odd:
        raise Violation("a conforming file is complained about: %s" % sorted(messages)[0], data=data)


def changed_bytes(c):
    """any byte of a built file changed: told exactly if it makes something not conform"""
    name = c.all("file", ["built:" + k for k in bases.SMALL + ["header"]])
    data = bases.ALL[name]
    at = c.all("offset", range(len(data)))
    value = c.all("value", mutate.EDGES if c.tier == "quick" else range(256))
    judged(c, data[:at] + bytes([value]) + data[at + 1 :])


def every_value(c):
    """every unknown value of a type, index or category is told, wherever the item is"""
    kind = c.all("kind", ["type", "sort", "sort_users", "category", "date", "filetime"])
    if kind == "type":
        item = M.item_plain(c.all("value", range(256)), c.all("body", [b"", b"\x01" * 60]))
    elif kind.startswith("sort"):
        item = M.item_root(0x1E if kind == "sort" else 0x1F, sort=c.all("value", range(256)))
    elif kind == "category":
        item = M.item_category(c.all("value", list(range(0, 300)) + S.EDGE32 + S.WALK32))
    elif kind == "date":
        item = M.item_file(2, date=c.all("date", S.EDGE16 + [1 << n for n in range(16)]), time=c.all("time", S.EDGE16 + [1 << n for n in range(16)]))
    else:
        item = M.item_root()
    place = c.all("place", ["target", "block"])
    others = [S.ITEMS["volume"]()]
    items = {"first": [item] + others, "last": others + [item]}[c.all("order", ["first", "last"])]
    f = M.File(items=items) if place == "target" else M.File(extra=[M.block_shell_item(items)])
    if kind == "filetime":
        which = c.all("which", ["ctime", "atime", "wtime"])
        setattr(f.header, which, c.all("value", [1 << n for n in range(64)] + [(1 << n) - 1 for n in range(65)]))
    judged(c, f.build().data)


def texts(c):
    """undecodable text is told in every field, decodable text is not"""
    raw = c.all("raw", [b"a\x81", b"\x81", b"\xc3\xa9", b"\xe9a", b"a\xd8", b"\x00\xdc", b"ab", b"\xff\xff", b"\x8d\x00"])
    name = c.all("file", ["built:" + k for k in bases.SMALL])
    data = bases.ALL[name]
    at = c.all("offset", range(0x4C, len(data) - 1))
    judged(c, data[:at] + raw + data[at + len(raw) :])


def long_texts(c):
    """texts around each power of two, in code pages with characters of several bytes, are no reason for a warning"""
    wide_text = c.all("kind", [False, True])
    n = (1 << c.all("power", range(6, 14 if c.tier == "quick" else 16))) + c.all("more", [-1, 0, 1])
    field = c.all("field", [x for x in p10.LONG_FIELDS if x in (p10.WIDE_FIELDS if wide_text else p10.ANSI_FIELDS)])
    shift = c.all("shift", range(2))
    cp = None if wide_text else c.all("page", ["utf-8", "cp932", "cp1252"])
    char = {None: "\U0001f600", "utf-8": "\u65e5\xe9", "cp932": "\u65e5", "cp1252": "\xe9"}[cp]
    text = "s" * shift + char * (n // len(char))
    if wide_text:
        b = p10.with_text(field, text, True).build()
        data, expected = b.data, b.expect
    else:
        mark = "Q" * len(text.encode(cp))
        b = p10.with_text(field, mark, False).build()
        data, expected = b.data.replace(mark.encode(), text.encode(cp)), p10.swap(b.expect, mark, text)
    if len(data) > 1 << 16 and "target" in expected:
        return
    c.data = data
    got, messages = told(data, cp=cp)
    engine.STATS.compared += 2
    d = first_difference(expected, got)
    if d:
        raise Violation("report" + d, data=data)
    if messages:
        raise Violation("a conforming file is complained about: %s" % sorted(messages)[0][-200:], data=data)


def crowded(c):
    """files with very many items, blocks, storages or values are no reason for a warning"""
    n = (1 << c.all("power", range(4, 12 if c.tier == "quick" else 13))) + c.all("more", [-1, 0, 1])
    kind = c.all("kind", ["items", "blocks", "storages", "values", "inner"])
    if kind == "items":
        f = M.File(items=[M.item_plain(0x61, b"")] * n)
    elif kind == "blocks":
        f = M.File(extra=[M.block_unknown(0xA00000FF, b"x")] * n)
    elif kind == "storages":
        f = M.File(extra=[M.block_metadata([M.property_storage(S.G1, [])] * n)])
    elif kind == "values":
        f = M.File(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(k, 2, 7) for k in range(n)])])])
    else:
        f = M.File(extra=[M.block_shell_item([M.item_plain(0x61, b"")] * n)])
    conforms(c, f)


def grown_conforms(c, f, b):
    judged(c, b.data)


def in_company(c, f, cp):
    data = f.build().data
    if f.allow_terminal_blocks:
        judged(c, data)


SCENARIOS = [
    Scenario("conforming", conforming, 0, 0),
    Scenario("deviating", deviating, 3, 4),
    Scenario("values", values, 0, 0),
    Scenario("dropped", dropped, 0, 0),
    Scenario("cut_off", cut_off, 0, 0),
    Scenario("changed_bytes", changed_bytes, 0, 0),
    Scenario("every_value", every_value, 0, 0),
    Scenario("texts", texts, 0, 0),
    Scenario("long_texts", long_texts, 0, 0),
    Scenario("crowded", crowded, 0, 0),
    grow.grown(None, ["target", "link_info", "data", "extra", "store"], "every part long, or of very many structures", check=grown_conforms),
    company(check=in_company),
]
