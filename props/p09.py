"""P09: property store."""

import itertools

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import tables as T
from vlib.common import in_extra
from vlib.context import company
from vlib.engine import Scenario
from vlib.vocabulary import vocabulary

AFTER = [[], [M.block_special_folder()]]
W, I2 = T.VT["VT_LPWSTR"], T.VT["VT_I2"]


def place(c, block):
    in_extra(c, block, after=c.all("after", AFTER))


def value_options(named):
    """(type, value) pairs, simplest first"""
    yield W, "text"
    yield I2, 0x1234
    yield T.VT["VT_UI4"], b"\1\2\3\4"
    yield T.VT["VT_CLSID"], bytes(range(16))
    yield T.VT["VT_EMPTY"], b""


VALUES = list(value_options(False))
FORMATS = [S.G1, M.STRING_NAMED, S.G2, "D5CDD505-2E9C-101B-9397-08002B2CF9AF"]


def make(format_id, n, kind):
    vt, v = kind
    if format_id == M.STRING_NAMED:
        return M.property_str("name%d" % n, vt, v)
    return M.property_int(n + 2, vt, v)


def stores(c):
    """every shape of a store: storages, values in each, types of the values"""
    top = 2 if c.tier == "quick" else 3
    storages = []
    n = 0
    for i in range(c.all("storages", range(0, top + 1))):
        format_id = c.all("format%d" % i, FORMATS[: 4 if c.tier == "thorough" or i == 0 else 2])
        values = []
        for _ in range(c.all("values%d" % i, range(0, 3 if i < 2 else 2))):
            values.append(make(format_id, n, c.all("kind%d" % n, VALUES if i == 0 else VALUES[:3])))
            n += 1
        terminal = c.pick("terminal%d" % i, [True, False])
        tail = c.pick("tail%d" % i, [b"", b"\x11\0\0\0\7\0\0\0\0\x1f\0\0\0\1\0\0\0"]) if terminal else b""
        storages.append(M.property_storage(format_id, values, tail=tail, terminal=terminal))
    place(c, M.block_metadata(storages, c.pick("tail", [b"", b"\xff" * 5])))


def types(c):
    """every documented type is named; the decoded ones show their value"""
    name = c.all("type", list(T.VT))
    vt = T.VT[name]
    named = c.all("named", [False, True])
    position = c.all("position", ["alone", "first", "last"])
    if vt == W:
        options = S.WIDE_TEXT
    elif vt == I2:
        options = range(0, 0x10000, 1 if c.tier == "thorough" else 7 if position == "alone" else 251)
    else:
        options = [b"", b"\0\0", b"\1\2\3\4", bytes(range(8)), b"\xff" * 16]
    value = c.all("value", options)
    make_one = M.property_str if named else M.property_int
    label = "a name" if named else 0x80000001
    values = [make_one(label, vt, value)]
    other = make_one("other" if named else 3, W, "neighbour")
    if position == "first":
        values.append(other)
    elif position == "last":
        values.insert(0, other)
    place(c, M.block_metadata([M.property_storage(M.STRING_NAMED if named else S.G1, values)]))


def labels(c):
    """identifiers, names, versions and format identifiers"""
    named = c.all("named", [False, True])
    version = c.pick("version", [0x53505331, 0, 1, 0x80000000, 0xFFFFFFFF])
    if named:
        label = c.pick("name", ["name"] + S.WIDE_TEXT)
        values = [M.property_str(label, c.pick("type", [W, T.VT["VT_UI8"]]) and W, "v"), M.property_str("b", I2, 0x8000)]
        storage = M.property_storage(M.STRING_NAMED, values, version)
    else:
        label = c.pick("id", [2] + S.WALK32)
        format_id = c.pick("format", [S.G1, M.NIL, "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", S.G2])
        values = [M.property_int(label, W, "v"), M.property_int(1, I2, 0x7FFF)]
        storage = M.property_storage(format_id, values, version)
    place(c, M.block_metadata([storage]))


def texts(c):
    """every length of a Unicode value, padded to a multiple of four bytes"""
    n = c.all("length", range(0, 200))
    named = c.all("named", [False, True])
    text = "\u0100" * n if c.all("wide", [False, True]) else "t" * n
    first = M.property_str("n" * (n % 7), W, text) if named else M.property_int(9, W, text)
    second = M.property_str("m", W, "next") if named else M.property_int(10, W, "next")
    place(c, M.block_metadata([M.property_storage(M.STRING_NAMED if named else S.G2, [first, second])]))


def padding(c):
    """a value whose padding field is not zero is not decoded"""
    padding = c.all("padding", [1, 0x100, 0xFFFF])
    kind = c.all("kind", VALUES[:2])
    raw, shown = M.property_int(7, *kind, padding=padding)
    shown["value"] = None
    place(c, M.block_metadata([M.property_storage(S.G1, [(raw, shown), M.property_int(8, W, "next")])]))


WORDS = [M.u32(v) for v in (0, 4, 9, 13, 16, 0x1C, 0x1F, 2, 0x53505331, 0xFFFFFFFF)] + [b"\0", M.guid_bytes(M.STRING_NAMED)]


def raw(c):
    """any words as property stores"""
    start = c.all("start", [b"", M.u32(0x2D) + M.u32(0x53505331) + M.guid_bytes(S.G1)])
    body = start + mutate.words(c, WORDS, 4 if c.tier == "quick" else 6)
    block = M.u32(8 + len(body)) + M.u32(0xA0000009) + body
    mutate.judge(mutate.blocked(block + M.block_special_folder()[0] + M.u32(0)), ["extra", "size"], c=c)


ODD_SIZES = [0, 1, 4, 8, 9, 0x0C, 0x0D, 0x10, 0x11, 0x15, 0x18, 0x1C, 0x20, 0x7FFFFFFF, 0xFFFFFFFF]


def lying(c):
    """the sizes, types and lengths of stores and values are any edge values, several at a time"""
    named = c.all("named", [False, True])
    value_type = c.all("type", [0x1F, 0x02, 0x40, 0x1F0000])

    def value(n):
        payload = {0x1F: M.u32(c.pick("length%d" % n, [3, 0, 1, 2, 4, 0xFFFFFFFF])) + M.wide("ab") + b"\0\0"}.get(
            value_type, b"\xfe\xff\x01\x00"
        )
        typed = M.u32(c.pick("type%d" % n, [value_type, 0, 0x02, 0x1F, 0x30002, 0xFFFF])) + payload
        if named:
            name = M.wide("nm") + b"\0\0"
            rest = M.u32(c.pick("name%d" % n, [len(name)] + ODD_SIZES)) + b"\0" + name + typed
        else:
            rest = M.u32(c.pick("id%d" % n, [2, 0, 0xFFFFFFFF])) + b"\0" + typed
        return M.u32(c.pick("value%d" % n, [4 + len(rest)] + ODD_SIZES)) + rest

    body = value(0) + value(1) + c.pick("end", [M.u32(0), b"", b"\0", M.u32(4)])
    store = M.u32(c.pick("version", [0x53505331, 0])) + M.guid_bytes(M.STRING_NAMED if named else S.G1) + body
    first = M.u32(c.pick("storage", [4 + len(store)] + ODD_SIZES + [4 + len(store) - 1, 4 + len(store) + 9])) + store
    second = M.property_storage(S.G1, [M.property_int(4, 0x02, 7)])[0]
    raw = first + second + c.pick("last", [M.u32(0), b"", b"\0\0", M.u32(3)])
    block = M.u32(c.pick("block", [8 + len(raw), 8, 8 + len(first), 8 + len(raw) - 5])) + M.u32(0xA0000009) + raw
    mutate.judge(mutate.blocked(block + M.block_special_folder()[0] + M.u32(0)), ["extra", "size"], c=c)


def large(c):
    """stores of many storages and many values, and long texts"""
    what = c.all("what", ["storages", "values", "named", "text", "name", "other"])
    top = 12 if c.tier == "quick" else 14
    n = (1 << c.all("power", range(4, top if what in ("storages", "values", "named") else 18))) + c.all("more", [-1, 0, 1])
    if what == "storages":
        stores = [M.property_storage(S.G1, [M.property_int(i, I2, i & 0xFFFF)]) for i in range(n)]
    elif what == "values":
        stores = [M.property_storage(S.G1, [M.property_int(i, I2, i & 0xFFFF) for i in range(n)])]
    elif what == "named":
        stores = [M.property_storage(M.STRING_NAMED, [M.property_str("n%d" % i, W, "v%d" % i) for i in range(n)])]
    elif what == "text":
        stores = [M.property_storage(S.G1, [M.property_int(2, W, "\u0161" * n), M.property_int(3, I2, 7)])]
    elif what == "name":
        stores = [M.property_storage(M.STRING_NAMED, [M.property_str("\u0161" * n, W, "v"), M.property_str("m", I2, 7)])]
    else:
        stores = [M.property_storage(S.G1, [M.property_int(2, T.VT["VT_BLOB"], b"\x11" * n), M.property_int(3, I2, 7)])]
    stores.append(M.property_storage(S.G2, [M.property_int(5, W, "last")]))
    place(c, M.block_metadata(stores))


def repeated(c):
    """sequences of equal and nearly equal values, and of equal and nearly equal storages"""
    named = c.all("named", [False, True])
    most = 5 if c.tier == "quick" else 6
    if c.all("what", ["values", "storages"]) == "values":
        if named:
            words = [M.property_str(*v) for v in [("a", I2, 7), ("b", I2, 7), ("a", I2, 8), ("a", W, "7"), ("b", W, "7")]]
        else:
            words = [M.property_int(*v) for v in [(2, I2, 7), (3, I2, 7), (2, I2, 8), (2, W, "7"), (3, W, "7")]]
        values = [c.all("value%d" % i, words) for i in range(c.all("values", range(2, most + 1)))]
        stores = [M.property_storage(M.STRING_NAMED if named else S.G1, values)]
    else:
        a, b = M.property_int(2, I2, 7), M.property_int(3, I2, 7)
        x, y = M.property_str("a", I2, 7), M.property_str("b", I2, 7)
        words = [(S.G1, [a]), (S.G2, [a]), (S.G1, [b])]
        words += [(M.STRING_NAMED, [x]), (M.STRING_NAMED, [y])] if named else [(S.G1, [a, b]), (S.G1, [])]
        stores = [M.property_storage(*c.all("storage%d" % i, words)) for i in range(c.all("storages", range(2, most + 1)))]
    stores.append(M.property_storage(S.G2, [M.property_int(5, W, "last")]))
    place(c, M.block_metadata(stores))


SCENARIOS = [
    Scenario("stores", stores, 1, 2),
    Scenario("types", types, 0, 0),
    Scenario("labels", labels, 2, 2),
    Scenario("texts", texts, 0, 0),
    Scenario("padding", padding, 0, 0),
    Scenario("raw", raw, 0, 0),
    mutate.values("extra", ["extra"], "every place of a property store holds every value of a byte and every power of two", only=lambda n: n in ("built:store", "real:sample3")),
    mutate.changes("extra", ["extra"], "any byte of the property stores of real and built files changed", only=lambda n: b"1SPS" in mutate.bases.ALL[n], long=500),
    Scenario("lying", lying, 2, 3),
    Scenario("repeated", repeated, 0, 0),
    Scenario("large", large, 0, 0, timeout=60),
    mutate.edits("extra", ["extra"], "bytes of the property stores copied, removed, repeated", only=lambda n: b"1SPS" in mutate.bases.ALL[n]),
    grow.grown(["extra", "size"], ["store"], "property stores with long texts, names and ends, or very many values, names or storages"),
    grow.grown(["extra", "size"], ["store"], "long texts of blanks, dots, one letter", "long_alike", style=True),
    vocabulary("properties"),
    company("extra"),
]
