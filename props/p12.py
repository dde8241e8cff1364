"""P12: GUIDs."""

from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.common import check_file
from vlib.context import company
from vlib.engine import Scenario

PLACES = {
    "clsid": lambda g: M.File(header=M.Header(clsid=g)),
    "root": lambda g: M.File(items=[M.item_root(guid=g)]),
    "volume": lambda g: M.File(items=[M.item_volume_guid(guid=g)]),
    "panel": lambda g: M.File(items=[M.item_control_panel(guid=g)]),
    "delegate_class": lambda g: M.File(items=[M.item_users_files(class_id=g)]),
    "delegate_folder": lambda g: M.File(items=[M.item_users_files(folder_id=g)]),
    "known_folder": lambda g: M.File(extra=[M.block_known_folder(g)]),
    "format": lambda g: M.File(extra=[M.block_metadata([M.property_storage(g, [])])]),
    "shellitem": lambda g: M.File(extra=[M.block_shell_item([M.item_root(guid=g)])]),
}
for _n in range(4):
    def _tracker(g, n=_n):
        ids = [S.G1, S.G2, S.G1, S.G2]
        ids[n] = g
        return M.File(extra=[M.block_tracker(ids=ids)])

    PLACES["droid%d" % _n] = _tracker

PACKED = {
    "product": lambda g: M.block_darwin(product=g),
    "component": lambda g: M.block_darwin(component=g),
    "product_bare": lambda g: M.block_darwin(product=g, feature="", component=None),
    "component_bare": lambda g: M.block_darwin(component=g, feature=""),
}
BASES = [bytes(range(1, 17)), b"\0" * 16, b"\xff" * 16, bytes.fromhex("0123456789abcdeffedcba9876543210")]


def guids(c):
    """every value of every byte of every GUID"""
    place = c.all("place", list(PLACES))
    base = c.all("base", BASES if c.tier == "thorough" else BASES[:1])
    i = c.all("byte", range(16))
    v = c.all("value", range(256))
    raw = base[:i] + bytes([v]) + base[i + 1 :]
    check_file(c, PLACES[place](M.guid_text(raw)))


def edges(c):
    """leading zeros of every group"""
    place = c.all("place", list(PLACES))
    raw = bytes(c.all("byte%d" % g, [0, 0x0A, 0xA0]) for g in range(5))
    a, b, d, e, f = raw
    check_file(c, PLACES[place](M.guid_text(bytes([1, 2, 3, a, 4, b, 5, d, e, 6, f, 7, 8, 9, 10, 11]))))


def packed(c):
    """packed GUIDs of Darwin descriptors: every value of every byte"""
    place = c.all("place", list(PACKED))
    base = c.all("base", BASES)
    i = c.all("byte", range(16))
    v = c.all("value", range(256))
    raw = base[:i] + bytes([v]) + base[i + 1 :]
    check_file(c, M.File(extra=[PACKED[place](M.guid_text(raw))]))


def digits(c):
    """packed GUIDs: every digit in every place, as long as the quad stays below 2**32"""
    quad = c.all("quad", range(4))
    place = c.all("digit_place", range(5))
    digit = c.all("digit", range(85))
    fill = c.all("fill", [0, 1, 42, 82])
    word = 0
    for k in range(5):
        word += (digit if k == place else fill if k < 4 else min(fill, 81)) * 85**k
    word = min(word, 0xFFFFFFFF)
    words = [0x01020304, 0x50607080, 0, 0xFFFFFFFF]
    words[quad] = word
    guid = M.guid_text(b"".join(M.u32(w) for w in words))
    check_file(c, M.File(extra=[PACKED[c.all("place", ["product", "component"])](guid)]))


def sparse(c):
    """identifiers of few bytes that are not zero, and of few that are"""
    place = c.all("place", list(PLACES))
    back = c.all("background", [0, 0xFF])
    i = c.all("byte", range(16))
    j = c.all("second", range(16) if c.tier == "quick" else range(0, 16))
    v = c.all("value", [0, 1, 0x80, 0xFF] if c.tier == "quick" else [0, 1, 2, 0x10, 0x7F, 0x80, 0xFE, 0xFF])
    raw = bytearray([back] * 16)
    raw[i] = v
    raw[j] ^= c.all("change", [0, 1, 0xFF])
    check_file(c, PLACES[place](M.guid_text(bytes(raw))))


def zeros(c):
    """every set of bytes that are zero"""
    place = c.all("place", ["clsid", "known_folder"] if c.tier == "quick" else list(PLACES))
    mask = c.all("mask", range(1 << 16))
    raw = bytes(0x11 * (n + 1) & 255 if mask >> n & 1 else 0 for n in range(16))
    check_file(c, PLACES[place](M.guid_text(raw)))


def repeats(c):
    """every pattern of equal words among the eight of an identifier, and of equal bytes in packed ones"""
    if c.all("unit", [2, 1]) == 2:
        places = list(PLACES) + list(PACKED)
        place = c.all("place", places if c.tier == "thorough" else ["clsid", "droid1", "format", "product", "component"])
        words = [0x2301, 0xAB89, 0x3210] if c.tier == "quick" else [0x2301, 0xAB89, 0x0123, 0]
        raw = b"".join(M.u16(c.all("word%d" % n, words)) for n in range(8))
    else:
        place = c.all("place", ["product"] if c.tier == "quick" else list(PACKED))
        mask = c.all("mask", range(1 << 16))
        raw = bytes(0x21 if mask >> n & 1 else 0xA7 for n in range(16))
    g = M.guid_text(raw)
    check_file(c, M.File(extra=[PACKED[place](g)]) if place in PACKED else PLACES[place](g))


SCENARIOS = [
    Scenario("guids", guids, 0, 0),
    Scenario("edges", edges, 0, 0),
    Scenario("packed", packed, 0, 0),
    Scenario("digits", digits, 0, 0),
    mutate.changes("extra", ["extra"], "any byte of the blocks with identifiers changed", only=lambda n: n in ("built:darwin", "built:tracker", "built:ansi", "real:darwin_block")),
    Scenario("sparse", sparse, 0, 0),
    Scenario("zeros", zeros, 0, 0),
    Scenario("repeats", repeats, 0, 0),
    company("header", "target", "extra"),
]
