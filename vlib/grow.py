"""Files in which one text is long or one structure is repeated often, up to what its size field can say.

`LONG` and `MANY`: name -> (section, most, function from a number to an abstract File).
"""

from vlib import decode
from vlib import engine
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.engine import Scenario

TEXT = "abcdefghijklmnopqrstuvwxyz \\.0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"
WIDE = TEXT + "\u0100\u65e5\U0001f600\xe9"


STYLE = "plain"  # of the texts being made


def styled(s):
    """The same number of code units, many of them alike."""
    half = 1 << max(0, len(s) - 1).bit_length() - 1  # the last power of two before the end
    blank = {"blanks at the end": " ", "tabs at the end": "\t", "dots at the end": "."}.get(STYLE)
    if blank:
        return s[:half] + blank * (len(s) - half)
    if STYLE == "blanks at the start":
        return " " * half + s[half:]
    if STYLE == "blanks":
        return "".join(" " if i % 2 else "b" for i in range(len(s)))
    if STYLE == "one letter":
        return "a" * len(s)
    if STYLE == "digits":
        return "".join(str(i % 10) for i in range(len(s)))
    if STYLE == "backslashes":
        return "C:" + "\\" * (len(s) - 2) if len(s) > 2 else s
    if STYLE == "not ASCII":
        return "\xe9" * len(s)
    return s


STYLES = ["blanks at the end", "tabs at the end", "dots at the end", "blanks at the start", "blanks", "one letter", "digits", "backslashes", "not ASCII"]


def text(n, wide=False):
    """n code units that nowhere repeat early, or in the chosen style."""
    if STYLE != "plain":
        return styled("z" * n)
    alphabet = WIDE if wide else TEXT
    out = []
    size = 0
    i = 0
    while size < n:
        ch = alphabet[(i + i // len(alphabet)) % len(alphabet)]
        size += len(M.wide(ch)) // 2 if wide else 1
        out.append(ch)
        i += 1
    if size > n:
        out[-1] = "z"
    return "".join(out)


def _item(item):
    return M.File(items=[M.item_root(), item, M.item_plain(0x61)], strings={"relative_path": "rel"})


def _info(**kw):
    return M.File(info=M.Info(**kw), strings={"relative_path": "rel"}, extra=[M.block_special_folder()])


def _string(name, unicode):
    return lambda n: M.File(strings={name: text(n, unicode), "working_directory": "wd", "icon_location": "x"} if name not in ("icon_location", "working_directory")
                            else {name: text(n, unicode)}, unicode=unicode, extra=[M.block_special_folder()])  # fmt: skip


def _extra(*blocks):
    return M.File(strings={"relative_path": "rel"}, extra=[*blocks, M.block_special_folder()])


def _store(*values, named=False):
    return M.block_metadata([M.property_storage(M.STRING_NAMED if named else S.G1, list(values)), M.property_storage(S.G2, [])])


LONG = {
    "file name": ("target", 65400, lambda n: _item(M.item_file(2, text(n)))),
    "wide file name": ("target", 32700, lambda n: _item(M.item_file(6, text(n, True)))),
    "location": ("target", 65400, lambda n: _item(M.item_network(location=text(n)))),
    "net description": ("target", 65400, lambda n: _item(M.item_network(description=text(n)))),
    "net comments": ("target", 65400, lambda n: _item(M.item_network(comments=text(n)))),
    "cpl path": ("target", 32600, lambda n: _item(M.item_cpl(True, path=text(n, True)))),
    "cpl name": ("target", 32600, lambda n: _item(M.item_cpl(True, name=text(n, True)))),
    "cpl comments": ("target", 32600, lambda n: _item(M.item_cpl(True, comments=text(n, True)))),
    "ansi cpl path": ("target", 65300, lambda n: _item(M.item_cpl(False, path=text(max(1, n))))),
    "ansi cpl name": ("target", 65300, lambda n: _item(M.item_cpl(False, name=text(n)))),
    "ansi cpl comments": ("target", 65300, lambda n: _item(M.item_cpl(False, comments=text(n)))),
    "user file": ("target", 65300, lambda n: _item(M.item_users_files(name=text(n)))),
    "wide user file": ("target", 32600, lambda n: _item(M.item_users_files(nibble=6, name=text(n, True)))),
    "unknown item": ("target", 65400, lambda n: _item(M.item_plain(0x10, text(n).encode("cp1252")))),
    "item padding": ("target", 65300, lambda n: _item(M.item_root(pad=b"p" * n))),
    "base path": ("link_info", 1 << 18, lambda n: _info(flags=1, base_path=text(n))),
    "suffix": ("link_info", 1 << 18, lambda n: _info(flags=1, suffix=text(n))),
    "label": ("link_info", 1 << 18, lambda n: _info(flags=1, label=text(n))),
    "net name": ("link_info", 1 << 18, lambda n: _info(flags=2, net_name=text(n))),
    "net suffix": ("link_info", 1 << 18, lambda n: _info(flags=2, suffix=text(n))),
    "device": ("link_info", 1 << 18, lambda n: _info(flags=2, net_flags=3, device_name=text(n))),
    "wide base path": ("link_info", 1 << 17, lambda n: _info(flags=1, header_size=0x24, base_path_w=text(n, True))),
    "wide suffix": ("link_info", 1 << 17, lambda n: _info(flags=1, header_size=0x24, suffix_w=text(n, True))),
    "wide label": ("link_info", 1 << 17, lambda n: _info(flags=1, label_w=text(n, True))),
    "wide net name": ("link_info", 1 << 17, lambda n: _info(flags=2, net_flags=3, net_name_w=text(n, True), device_name_w="D:")),
    "wide device": ("link_info", 1 << 17, lambda n: _info(flags=2, net_flags=3, net_name_w="n", device_name_w=text(n, True))),
    "gaps": ("link_info", 1 << 16, lambda n: _info(flags=3, suffix="s", gap=n)),
    "info tail": ("link_info", 1 << 18, lambda n: _info(flags=1, suffix="s", tail=b"t" * n)),
    "shim": ("extra", 1 << 17, lambda n: _extra(M.block_shim(text(n, True)))),
    "shim padding": ("extra", 1 << 17, lambda n: _extra(M.block_shim("s", b"p" * n))),
    "unknown block": ("extra", 1 << 18, lambda n: _extra(M.block_unknown(0xA00000FF, text(n).encode("cp1252")))),
    "appended": ("extra", 1 << 18, lambda n: M.File(strings={"relative_path": "rel"}, tail=text(n).encode("cp1252"))),
    "block item": ("extra", 65300, lambda n: _extra(M.block_shell_item([M.item_file(2, text(n)), M.item_root()]))),
    "list tail": ("extra", 1 << 18, lambda n: _extra(M.block_shell_item([M.item_root()], tail=b"t" * n))),
    "property text": ("store", 1 << 17, lambda n: _extra(_store(M.property_int(2, 0x1F, text(n, True)), M.property_int(3, 2, 5)))),
    "property name": ("store", 1 << 17, lambda n: _extra(_store(M.property_str(text(n, True), 2, 5), named=True))),
    "named text": ("store", 1 << 17, lambda n: _extra(_store(M.property_str("n", 0x1F, text(n, True)), named=True))),
    "property bytes": ("store", 1 << 18, lambda n: _extra(_store(M.property_int(2, 0x41, text(n).encode("cp1252")), M.property_int(3, 2, 5)))),
    "store tail": ("store", 1 << 18, lambda n: _extra(M.block_metadata([M.property_storage(S.G1, [M.property_int(3, 2, 5)], tail=b"t" * n)]))),
}  # fmt: skip
for _name, _ in M.STRINGS:
    for _unicode in (True, False):
        LONG["%s %s" % (_name, "wide" if _unicode else "ansi")] = ("data", 65535, _string(_name, _unicode))


def _items(n, of):
    return M.File(items=[of(i) for i in range(n)], strings={"relative_path": "rel"})


def _blocks(n, of):
    return _extra(*[of(i) for i in range(n)])


def _guid(i):
    return "%08X-1234-5678-9ABC-DEF0%08X" % (i, i)


MANY = {
    "roots": ("target", 3200, lambda n: _items(n, lambda i: M.item_root())),
    "different roots": ("target", 3200, lambda n: _items(n, lambda i: M.item_root(guid=_guid(i)))),
    "files": ("target", 2300, lambda n: _items(n, lambda i: M.item_file(2, "n%d" % i, i))),
    "networks": ("target", 2000, lambda n: _items(n, lambda i: M.item_network(3, 0xC0, "l%d" % i, "d%d" % i, "c%d" % i))),
    "unknown items": ("target", 13000, lambda n: _items(n, lambda i: M.item_plain(0x10, b""))),

    "uris": ("target", 21000, lambda n: _items(n, lambda i: M.item_plain(0x61, b""))),
    "mixed": ("target", 1100, lambda n: _items(n, lambda i: list(S.ITEMS.values())[i % 11]())),
    "unknown blocks": ("extra", 16384, lambda n: _blocks(n, lambda i: M.block_unknown(0xA00000FF, b""))),
    "different blocks": ("extra", 16384, lambda n: _blocks(n, lambda i: M.block_unknown(0xB0000000 + i, M.u32(i)))),
    "block items": ("extra", 16384, lambda n: _extra(M.block_shell_item([M.item_file(2, "n%d" % i, i) for i in range(n)]))),
    "values": ("store", 16384, lambda n: _extra(_store(*[M.property_int(i + 2, 2, i & 0x7FFF) for i in range(n)]))),
    "texts": ("store", 16384, lambda n: _extra(_store(*[M.property_int(i + 2, 0x1F, "t%d" % i) for i in range(n)]))),
    "names": ("store", 16384, lambda n: _extra(_store(*[M.property_str("n%d" % i, 2, 5) for i in range(n)], named=True))),
    "storages": ("store", 16384, lambda n: _extra(M.block_metadata([M.property_storage(_guid(i), []) for i in range(n)]))),
    "full storages": ("store", 8192, lambda n: _extra(M.block_metadata([M.property_storage(_guid(i), [M.property_int(2, 2, i & 0x7FFF)]) for i in range(n)]))),
}  # fmt: skip


def _padded(block, n):
    raw, key, shown = block
    return M.u32(len(raw) + n) + raw[4:] + b"\x5a" * n, key, dict(shown, size=len(raw) + n)


# Bytes that are not text, so there may be very many of them.
HUGE = {
    "gaps": ("link_info", 1 << 23, lambda n: _info(flags=3, suffix="s", gap=n)),
    "info tail": ("link_info", 1 << 25, lambda n: _info(flags=1, suffix="s", tail=b"t" * n)),
    "shim padding": ("extra", 1 << 25, lambda n: _extra(M.block_shim("s", b"p" * n))),
    "unknown block": ("extra", 1 << 25, lambda n: _extra(M.block_unknown(0xA00000FF, b"u" * n))),
    "console padding": ("extra", 1 << 25, lambda n: _extra(_padded(M.block_console(), n))),
    "tracker padding": ("extra", 1 << 25, lambda n: _extra(_padded(M.block_tracker(), n))),
    "appended": ("extra", 1 << 25, lambda n: M.File(strings={"relative_path": "rel"}, tail=b"a" * n)),
    "list tail": ("extra", 1 << 25, lambda n: _extra(M.block_shell_item([M.item_root()], tail=b"t" * n))),
    "property bytes": ("store", 1 << 25, lambda n: _extra(_store(M.property_int(2, 0x41, b"b" * n), M.property_int(3, 2, 5)))),
    "store tail": ("store", 1 << 25, lambda n: _extra(M.block_metadata([M.property_storage(S.G1, [M.property_int(3, 2, 5)], tail=b"t" * n)]))),
}  # fmt: skip


def huge(most, quick):
    return [n + d for n in [1 << k for k in range(18, 26)] for d in ((0, 1) if quick else range(-9, 10)) if n + d <= most]


def lengths(most, quick):
    """All short ones, those around every power of two and of ten, and the most there can be."""
    marks = [1 << k for k in range(4, 19)] + [10**k for k in range(2, 6)] + [260, 520, 300, 3000]
    if quick:
        out = {n + d for n in marks for d in (-1, 0, 1)} | set(range(140))
    else:
        out = {n + d for n in marks for d in range(-9, 10)} | set(range(600)) | set(range(0, most, 997))
    return sorted(n for n in out | {most} if 0 <= n <= most)


def some_lengths(most, quick):
    """Just behind the powers of two, and the most there can be."""
    out = {n + d for n in [1 << k for k in range(4, 19)] + [260, 520, 1000, 10000] for d in ((1,) if quick else (-1, 0, 1, 2, 17))}
    return sorted(n for n in out | {most} if 0 <= n <= most)


def counts(most, quick):
    marks = [1 << k for k in range(1, 15)] + [10, 100, 1000, 10000]
    out = {n + d for n in marks for d in ((0, 1) if quick else range(-3, 4))} | set(range(40 if quick else 300))
    return sorted(n for n in out | {most} if 0 <= n <= most)


def grown(names, sections, about="a long text, or many of one structure", name="grown", quick=1 << 18, check=None, allow=True, very=True, style=False):
    """A scenario: every family of these sections, judged by the model and by the reference decoder."""

    def fn(c):
        families = {k: (v, lengths) for k, v in LONG.items() if v[0] in sections}
        if not style:
            families.update({"huge " + k: (v, huge) for k, v in HUGE.items() if v[0] in sections and very})
            families.update({k: (v, counts) for k, v in MANY.items() if v[0] in sections})
        (section, most, make), sizes = families[c.all("family", list(families))]
        global STYLE
        kind = c.all("style", STYLES if c.tier == "thorough" else STYLES[:3] + STYLES[5:6] + STYLES[8:]) if style else "plain"
        if style:
            sizes = some_lengths
        n = c.all("size", sizes(min(most, quick) if c.tier == "quick" and sizes != huge else most, c.tier == "quick"))
        STYLE = kind
        try:
            f = make(n)
        finally:
            STYLE = "plain"
        f.allow_terminal_blocks = allow
        b = f.build()
        c.data = b.data
        engine.STATS.inputs.add(hash(b.data))
        if check is not None:
            check(c, f, b)
            return
        expected, _ = mutate.judge(b.data, names, allow=allow, c=c)
        if section == "data" and n > 260:
            return  # the rest of a text that is too long is read as the next text, which no model lays out
        d = decode.compare(expected, b.expect, names)
        if d:
            raise engine.HarnessError("model and decoder disagree: %s" % d)

    fn.__doc__ = about
    return Scenario(name, fn, 0, 0, timeout=120)
