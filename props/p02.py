"""P02: header fields."""

from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import tables as T
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario

HEADER = sections("header", "size", "data")
GUIDS = [M.LNK_CLSID, S.G1, M.NIL, "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", "00021401-0000-0000-C000-000000000047"]
TIMES = [0, 1, 10, 0x01C914FE12345678, 0x01D0000000000000, 0x019DB1DED53E8000, 116444736000000000, 1 << 32,
         0x00FFFFFFFFFFFFFF, 0x2000000000000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF]  # fmt: skip


def base(c, **kw):
    # The fields must read the same whether or not anything follows the header.
    follow = c.all("follow", [True, False])
    strings = {"relative_path": "rel"} if follow else {}
    return M.File(header=M.Header(**kw), strings=strings, terminal=0 if follow else None)


def fields(c):
    """deviations of the header fields from a typical header, several at a time"""
    kw = {}
    kw["clsid"] = c.pick("clsid", GUIDS)
    kw["attributes"] = c.pick("attributes", [0x20] + S.WALK32)
    kw["ctime"] = c.pick("ctime", [0x01C914FE12345670] + TIMES)
    kw["atime"] = c.pick("atime", [0x01C914FE22345670] + TIMES)
    kw["wtime"] = c.pick("wtime", [0x01C914FE32345670] + TIMES)
    kw["file_size"] = c.pick("file_size", [0x12345] + S.WALK32)
    kw["icon_index"] = c.pick("icon_index", [7] + S.WALK32)
    kw["show"] = c.pick("show", list(range(0, 12)) + S.WALK32)
    kw["key_low"] = c.pick("key_low", [0x41, 0, 0x2F, 0x30, 0x39, 0x3A, 0x5A, 0x5B, 0x70, 0x87, 0x88, 0x90, 0x91, 0xFF])
    kw["key_high"] = c.pick("key_high", [2, 0, 1, 3, 4, 5, 6, 7, 8, 0x80, 0xFF])
    kw["reserved"] = (
        c.pick("reserved1", [0] + S.EDGE16[1:]),
        c.pick("reserved2", [0] + S.EDGE32[1:]),
        c.pick("reserved3", [0] + S.EDGE32[1:]),
    )
    check_file(c, base(c, **kw), HEADER)


def hotkeys(c):
    """every value of the HotKey field"""
    check_file(c, base(c, key_low=c.all("low", range(256)), key_high=c.all("high", range(256))), HEADER)


def link_flags(c):
    """every pair of link flags (sections are present accordingly), and their complements"""
    a = c.all("bit", range(32))
    b = c.all("bit2", range(32))
    value = 1 << a | 1 << b
    if c.all("complement", [False, True]):
        value ^= 0xFFFFFFFF
    f = M.File(
        items=[S.ITEMS["volume"]()] if value & 1 else None,
        info=S.INFOS["local"]() if value & 2 else None,
        strings={n: S.STRING_VALUES[n] for n, flag in M.STRINGS if value & T.LF[flag]},
        unicode=bool(value & 0x80),
        flags=value,
    )
    check_file(c, f, HEADER)


def file_flags(c):
    """every pair of file attributes, and their complements"""
    value = 1 << c.all("bit", range(32)) | 1 << c.all("bit2", range(32))
    if c.all("complement", [False, True]):
        value ^= 0xFFFFFFFF
    check_file(c, base(c, attributes=value), HEADER)


def byte_values(c):
    """every value of every byte of the numeric fields"""
    field = c.all("field", ["attributes", "file_size", "icon_index", "show", "ctime", "atime", "wtime"])
    width = 8 if field.endswith("time") else 4
    i = c.all("byte", range(width))
    v = c.all("value", range(256))
    rest = c.all("rest", [0, (1 << 8 * width) - 1]) if not field.endswith("time") else 0x01C914FE12345670
    value = rest & ~(0xFF << 8 * i) | v << 8 * i
    check_file(c, base(c, **{field: value}), HEADER)


def header_sizes(c):
    """a declared size above or below 0x4C does not change what the fields say"""
    size = c.all("size", list(range(0, 0x4C)) + list(range(0x4D, 0x90)))
    variant = c.all("variant", [{}, {"icon_index": 0x80000001, "key_low": 0x43, "key_high": 4, "show": 3}])
    f = M.File(header=M.Header(size=size, **variant))
    if size > 0x4C:
        f.terminal = None

    def project(report):
        return report["header"]

    check_file(c, f, project)


SCENARIOS = [
    Scenario("fields", fields, 2, 3),
    Scenario("hotkeys", hotkeys, 0, 0),
    Scenario("link_flags", link_flags, 0, 0),
    Scenario("file_flags", file_flags, 0, 0),
    Scenario("byte_values", byte_values, 0, 0),
    Scenario("header_sizes", header_sizes, 0, 0),
    mutate.values("header", ["header"], "every place of the header holds every value of a byte and every power of two", only=lambda n: n in ("built:plain", "real:sample3")),
    mutate.changes("header", ["header"], "any byte of the header of a real or built file changed"),
    mutate.edits("header", ["header"], "bytes of the header copied, removed, repeated", only=lambda n: n in ("built:plain", "real:sample3")),
    company("header"),
]
