"""P10: text decoding."""

from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import STATS
from vlib.engine import Scenario
from vlib.sut import outcome
from vlib.sut import report
from vlib.sut import same
from vlib.vocabulary import vocabulary
from vlib.vocabulary import with_text

DATA = sections("data", "size")
PAGES = ["cp1252", "cp437", "cp1251", "ascii", "latin-1", "utf-8", "cp932", "gbk", "cp949", "big5", "euc-jp"]


def ansi(raw, page):
    """Reference: up to the first NUL; in the code page, else as UTF-8, else with replacements."""
    raw = raw.split(b"\0")[0]
    for how in ((page, "strict"), ("utf-8", "strict"), (page, "replace")):
        try:
            return raw.decode(*how)
        except UnicodeDecodeError:
            pass


def wide(raw):
    """Reference: 16-bit units up to the first zero unit."""
    units = []
    for i in range(0, len(raw), 2):
        if raw[i : i + 2] == b"\0\0":
            break
        units.append(raw[i : i + 2])
    return b"".join(units).decode("utf-16-le", "replace")


def string_file(c, raw, unicode, expected, cp=None):
    f = M.File(unicode=unicode, extra=[M.block_special_folder()])
    f.flags = 0x20 | 0x40
    b = f.build()
    head = b.data[:0x4C]
    rest = b.data[0x4C:]
    count = len(raw) // 2 if unicode else len(raw)
    second = M.u16(1) + (b"i\0" if unicode else b"i")
    data = head + M.u16(count) + raw + second + rest
    c.data = data
    STATS.inputs.add(hash(data))
    got = report(data, cp=cp)
    outcome(got["data"])
    same({"command_line_arguments": expected, "icon_location": "i"}, got["data"], "report.data", data)
    same(b.expect["extra"], got["extra"], "report.extra", data)


def ansi_bytes(c):
    """every byte string of length 1 and 2, in every code page"""
    page = c.all("page", PAGES if c.tier == "thorough" else ["cp1252", "cp932", "utf-8", "cp437"])
    a = c.all("byte0", range(256))
    b = c.all("byte1", [None] + list(range(256)))
    raw = bytes([a]) if b is None else bytes([a, b])
    string_file(c, raw, False, ansi(raw, page), page)


UTF8 = ["\x7f", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\u65e5"]
PIECES = [b"a", b"\\", b"\x81", b"\x8d", b"\xe9", b"\xff", b"\0", b"\xc3\xa9"] + [ch.encode() for ch in UTF8[1:]]


def ansi_pieces(c):
    """sequences of valid and invalid pieces: code page, UTF-8 fallback, replacement"""
    page = c.all("page", PAGES)
    n = c.all("length", range(0, 4) if c.tier == "quick" else range(0, 5))
    raw = b"".join(c.all("piece%d" % i, PIECES if n < 4 else PIECES[:12]) for i in range(n))
    string_file(c, raw, False, ansi(raw, page), page)


def default_page(c):
    """without a code page, ANSI text is Windows-1252"""
    a, b = c.all("byte0", range(1, 256)), c.all("byte1", [0x41, 0x81, 0xA9, 0xFF])
    cp = c.all("cp", [None, ""])
    raw = bytes([a, b])
    string_file(c, raw, False, ansi(raw, "cp1252"), cp)


def units(c):
    """every 16-bit unit, between and next to others"""
    unit = c.all("unit", range(0x10000))
    where = c.all("where", ["alone", "between"] if c.tier == "quick" else ["alone", "between", "first", "last"])
    raw = M.u16(unit)
    if where in ("between", "last"):
        raw = M.wide("x\u0100") + raw
    if where in ("between", "first"):
        raw = raw + M.wide("\u0100y")
    string_file(c, raw, True, wide(raw))


UNITS = [0x61, 0x100, 0, 0x8000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFEFF, 0xFFFE, 0xFFFF, 0x85, 0x2028, 0x00FF, 0x0A]


def unit_sequences(c):
    """sequences of units: surrogates paired and unpaired, zero bytes across unit borders"""
    n = c.all("length", range(0, 4) if c.tier == "quick" else range(0, 5))
    raw = b"".join(M.u16(c.all("unit%d" % i, UNITS)) for i in range(n))
    string_file(c, raw, True, wide(raw))


def fields(c):
    """the same rules in every field that holds text"""
    kind = c.all("kind", ["ansi", "unicode"])
    if kind == "ansi":
        raw = c.all("raw", [b"a\x81b", b"\x8d\x8f\x90", b"\xc3\xa9\x81", b"\xe6\x97\xa5\x8f", b"\xff\xfe\xe9", b"x\xc3\x81", b"plain"])
        text = ansi(raw, "cp1252")
        page = None
    else:
        raw = b"".join(M.u16(u) for u in c.all("units", [
            (0x61, 0x100), (0xD800,), (0xDC00, 0x61), (0xD83D, 0xDE00), (0x100, 0x100), (0xFEFF, 0x41), (0x61, 0xDBFF)]))
        text = wide(raw)
        page = None
    field = c.all("field", ANSI_FIELDS if kind == "ansi" else WIDE_FIELDS)
    # A marker of the same length, put through the model, tells where the text goes.
    mark = "Q" * (len(raw) if kind == "ansi" else len(raw) // 2)
    f = with_text(field, mark, kind == "unicode")
    b = f.build()
    marker = mark.encode() if kind == "ansi" else M.wide(mark)
    at = b.data.find(marker)
    assert at > 0 and b.data.find(marker, at + 1) < 0, field
    data = b.data[:at] + raw + b.data[at + len(marker) :]
    c.data = data
    expected = swap(b.expect, mark, text)
    got = report(data, cp=page)
    for r in (expected, got):
        r.pop("header")
    outcome(got)
    same(expected, got, "report", data)


def swap(x, old, new):
    if isinstance(x, dict):
        return {k: swap(v, old, new) for k, v in x.items()}
    if isinstance(x, list):
        return [swap(v, old, new) for v in x]
    return new if x == old else x


ANSI_FIELDS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location",
               "base_path", "suffix", "label", "net_name", "device_name", "file", "volume", "location",
               "net_description", "net_comments", "cpl_path", "cpl_name", "cpl_comments", "users",
               "environment", "icon", "darwin", "machine", "shellitem"]  # fmt: skip
WIDE_FIELDS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location",
               "base_path_w", "suffix_w", "label_w", "net_name_w", "device_name_w", "wfile", "wcpl_path", "wcpl_name",
               "wcpl_comments", "wusers", "environment_w", "icon_w", "face", "shim", "property", "property_name",
               "wshellitem"]  # fmt: skip


def ends(c):
    """text that is cut off by the end of its item, block, link info or file, at any byte"""
    kind = c.all("kind", ["item", "block", "info", "file"])
    char = c.all("char", ["\u0101", "\u6500", "\xe9"])
    if kind == "item":
        make = {
            "file": lambda t: M.item_file(2, t), "wfile": lambda t: M.item_file(6, t),
            "volume": lambda t: M.item_volume_named(name=t), "net": lambda t: M.item_network(3, 0xC0, location=t),
            "cpla": lambda t: M.item_cpl(False, name=t), "cplw": lambda t: M.item_cpl(True, name=t, comments=t),
            "users": lambda t: M.item_users_files(nibble=1, name=t), "wusers": lambda t: M.item_users_files(nibble=5, name=t),
        }  # fmt: skip
        name = c.all("item", list(make))
        wide_text = name in ("wfile", "cplw", "wusers")
        if char != "\xe9" and not wide_text:
            return
        full = make[name](char * 9)[0]
        size = c.all("size", range(1, len(full) + 1))
        region = M.u16(2 + size) + full[:size] + M.idlist_bytes([S.ITEMS["root"]()], True, b"")
        mutate.judge(mutate.listed(region), ["target"], c=c)
    elif kind == "block":
        make = {
            "shim": lambda t: M.block_shim(t), "environment": lambda t: M.block_environment(text_w=t),
            "shellitem": lambda t: M.block_shell_item([M.item_file(6, t)]),
            "property": lambda t: M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 0x1F, t)])]),
        }  # fmt: skip
        full = make[c.all("block", list(make))](char * 9)[0]
        size = c.all("size", list(range(8, min(len(full), 120) + 1)) + list(range(268, min(len(full), 300))))
        body = M.u32(size) + full[4:size] + S.BLOCKS["special"]()[0] + M.u32(0)
        mutate.judge(mutate.blocked(body), ["extra"], c=c)
    elif kind == "info":
        wide_text = c.all("wide", [False, True])
        if char != "\xe9" and not wide_text:
            return
        last = c.all("last", ["base_path", "suffix", "label"])
        kw = {last + ("_w" if wide_text else ""): char * 9}
        full = M.File(info=M.Info(flags=1, header_size=0x24 if wide_text else 0x1C, **kw)).build()
        start, end = full.marks["linkinfo"]
        size = c.all("size", range(4, end - start + 1))
        raw = M.u32(size) + full.data[start + 4 : start + size] + M.u16(3) + M.wide("rel") + M.u32(0)
        mutate.judge(mutate.assemble(0x8A, raw), ["link_info", "data"], c=c)
    else:
        unicode = c.all("unicode", [True, False])
        if char != "\xe9" and not unicode:
            return
        text = (char * 9).encode("utf-16-le" if unicode else "cp1252")
        raw = M.u16(9) + text
        which = c.all("string", [4, 8, 0x10, 0x20, 0x40])
        size = c.all("size", range(0, len(raw) + 1))
        mutate.judge(mutate.assemble(which | (0x80 if unicode else 0), raw[:size]), c=c)


LONG_FIELDS = ["command_line_arguments", "icon_location", "base_path", "suffix", "net_name", "device_name", "file", "location",
               "net_comments", "cpl_name", "label", "volume_label", "base_path_w", "suffix_w", "label_w", "net_name_w", "wfile", "wcpl_name",
               "shim", "property", "property_name", "wusers", "users"]  # fmt: skip


def long(c):
    """long texts of characters of several bytes, around each power of two: none is split or lost"""
    wide_text = c.all("kind", [False, True])
    n = (1 << c.all("power", range(6, 13 if c.tier == "quick" else 15))) + c.all("more", [-1, 0, 1])
    field = c.all("field", [x for x in LONG_FIELDS if x in (WIDE_FIELDS if wide_text else ANSI_FIELDS)])
    shift = c.all("shift", range(4))
    if wide_text:
        text = "s" * (shift % 2) + "\U0001f600" * (n // 2)
        f = with_text(field, text, True)
        cp = None
    else:
        cp = c.all("page", ["utf-8", "cp932", None])
        # In a page that cannot decode it, the text is UTF-8.
        char = {"utf-8": "\u65e5\xe9", "cp932": "\u65e5", None: "\xe9\u0441"}[cp]
        text = "s" * shift + char * (n // len(char))
        how = cp or "utf-8"
        mark = "Q" * len(text.encode(how))
        f = with_text(field, mark, False)
    b = f.build()
    data, expected = b.data, b.expect
    if not wide_text:
        data = data.replace(mark.encode(), text.encode(how))
        expected = swap(expected, mark, ansi(text.encode(how), cp or "cp1252"))
    if len(data) > 1 << 16 and f.items:
        return
    c.data = data
    STATS.inputs.add(hash(data))
    got = report(data, cp=cp)
    same(expected, got, "report", data)


def worn(c):
    """what cannot be decoded, at the start, in the middle and at the end of texts of any length"""
    unicode = c.all("kind", [False, True])
    field = c.all("field", [x for x in LONG_FIELDS if x in (WIDE_FIELDS if unicode else ANSI_FIELDS)])
    short = range(2, 132, 1 if c.tier == "thorough" else 3)
    n = c.all("length", list(short) + [(1 << k) + d for k in range(6, 13 if c.tier == "quick" else 15) for d in (-1, 0, 1, 2)])
    where = c.all("where", ["start", "middle", "end", "all over"])
    if unicode:
        bad = c.all("bad", [b"\0\xd8", b"\0\xdc", b"\0\xdc\0\xd8"])
        good, mark, size = b"\x42\x01", M.wide("Q"), 2
    else:
        bad = c.all("bad", [b"\x81", b"\xff\x8d", b"\xc3\xa9"])
        good, mark, size = b"\xe9" if c.all("near", [False, True]) else b"n", b"Q", 1
    units = [good] * n
    places = {"start": [0], "middle": [n // 2], "end": [-1], "all over": range(0, n, 5)}[where]
    for at in places:
        units[at] = bad
    raw = b"".join(units)
    count = len(raw) // size
    f = with_text(field, "Q" * count, unicode)
    b = f.build()
    at = b.data.rfind(mark * count)
    data = b.data[:at] + raw + b.data[at + len(raw) :]
    c.data = data
    STATS.inputs.add(hash(data))
    got = report(data)
    same(swap(b.expect, "Q" * count, wide(raw) if unicode else ansi(raw, "cp1252")), got, "report", data)


# Texts whose decoding takes each of the ways there are; all of the same length.
WAYS = [b"caf\xe9", b"xx\xc3\x81", b"a\x81\xffb", b"abcd", b"\xc3\x81\0z"]


def marked(n):
    return "Q%c%cQ" % (65 + n // 26, 65 + n % 26)


def crowd(unicode, kind):
    """A file with a marker in every ANSI field of some structures."""
    count = iter(range(1000))
    t = lambda: marked(next(count))  # noqa: E731
    if kind == "strings":
        f = M.File(unicode=False, strings={n: t() for n, _ in M.STRINGS})
    elif kind == "local":
        f = M.File(unicode=False, info=M.Info(flags=1, base_path=t(), suffix=t(), label=t()), strings={"relative_path": t()})
    elif kind == "network":
        f = M.File(unicode=False, info=M.Info(flags=2, net_flags=3, net_name=t(), device_name=t(), suffix=t()), strings={"relative_path": t()})
    elif kind == "items":
        f = M.File(items=[M.item_file(2, t()), M.item_network(3, 0xC0, t(), t(), t()), M.item_cpl(False, t(), t(), t()),
                          M.item_users_files(nibble=1, name=t()), M.item_volume_named(name=t())])  # fmt: skip
    elif kind == "blocks":
        f = M.File(extra=[M.block_environment(ansi=t()), M.block_environment(ansi=t(), icon=True), M.block_tracker(machine=t()),
                          M.block_darwin(ansi=t()), M.block_shell_item([M.item_file(2, t()), M.item_network(3, 0xC0, t(), t(), t())])])  # fmt: skip
    else:
        f = M.File(unicode=False, items=[M.item_file(2, t()), M.item_network(3, 0xC0, t(), t(), t())], info=M.Info(flags=1, base_path=t(), suffix=t(), label=t()),
                   strings={n: t() for n, _ in M.STRINGS}, extra=[M.block_environment(ansi=t()), M.block_tracker(machine=t())])  # fmt: skip
    return f, next(count)


_CROWDS = {}


def neighbours(c):
    """texts that are decoded in different ways, in every order: none has an influence on the others"""
    kind = c.all("kind", ["strings", "local", "network", "items", "blocks", "all"])
    if kind not in _CROWDS:
        f, n = crowd(False, kind)
        _CROWDS[kind] = (f.build(), n)
    b, n = _CROWDS[kind]
    page = c.all("page", ["cp1252", "cp932"])
    if n <= 5:
        ways = [c.all("text%d" % i, WAYS) for i in range(n)]
    else:
        ways = [WAYS[3]] * n
        i = c.all("first", range(n))
        j = c.all("second", range(i, n))
        k = c.all("third", range(j, n) if c.tier == "thorough" else [j])
        ways[i], ways[j] = c.all("text_first", WAYS), c.all("text_second", WAYS)
        if k != j:
            ways[k] = c.all("text_third", WAYS)
    data, expected = b.data, b.expect
    texts = {}
    for i, raw in enumerate(ways):
        assert data.count(marked(i).encode()) == 1
        data = data.replace(marked(i).encode(), raw)
        texts[marked(i)] = ansi(raw, page)
    if any(b"\0" in x for x in ways) and kind in ("items", "blocks", "all"):
        return  # ends a string in a list of strings
    expected = swap_all(expected, texts)
    c.data = data
    STATS.inputs.add(hash(data))
    got = report(data, cp=page)
    same(expected, got, "report", data)


def swap_all(x, texts):
    if isinstance(x, dict):
        return {k: swap_all(v, texts) for k, v in x.items()}
    if isinstance(x, list):
        return [swap_all(v, texts) for v in x]
    return texts.get(x, x) if isinstance(x, str) else x


SCENARIOS = [
    Scenario("worn", worn, 0, 0),
    Scenario("ansi_bytes", ansi_bytes, 0, 0),
    Scenario("ansi_pieces", ansi_pieces, 0, 0),
    Scenario("default_page", default_page, 0, 0),
    Scenario("units", units, 0, 0),
    Scenario("unit_sequences", unit_sequences, 0, 0),
    Scenario("fields", fields, 0, 0),
    Scenario("ends", ends, 0, 0),
    Scenario("long", long, 0, 0),
    Scenario("neighbours", neighbours, 0, 0),
    vocabulary("strings", "info", "items", "blocks", "properties"),
    company("target", "link_info", "data", "extra"),
]
