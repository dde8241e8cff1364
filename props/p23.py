"""P23: the code page applies to all the ANSI text of a file, and to nothing else."""

import codecs
import encodings.aliases

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import sut
from vlib import vocabulary
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference

# Text that only the right code page gets right.
PAGES = {
    "cp1250": "\u0159\u017e", "cp1251": "\u0444\u044f", "cp1252": "\xe9\xdf", "cp1253": "\u03b1\u03c9",
    "cp1254": "\u011f\u0131", "cp1255": "\u05d0\u05ea", "cp1256": "\u0627\u064a", "cp1257": "\u0101\u017e",
    "cp437": "\xe9\u2592", "cp850": "\xe9\xdf", "cp866": "\u0444\u2592", "cp874": "\u0e01\u0e5b",
    "cp932": "\u65e5\u672c", "gbk": "\u65e5\u672c", "cp949": "\uac00\ud7a3", "big5": "\u65e5\u672c",
    "koi8-r": "\u0444\u044f", "latin-1": "\xe9\xff", "utf-8": "\xe9\u65e5",
}  # fmt: skip
ASCII = "plain"
WIDE = "\u65e5\u0444\xe9"


def make(cp, ansi, wide):
    """Every field that holds text, each with a text of its own kind and mark.

    The names of the keys tell whether the field is ANSI or Unicode.
    """
    n = [0]

    def a():
        n[0] += 1
        return "%s%d" % (ansi, n[0])

    def w():
        n[0] += 1
        return "%s%d" % (wide, n[0])

    items = {
        "file": lambda: M.item_file(2, a(), cp=cp),
        "wfile": lambda: M.item_file(6, w(), cp=cp),
        "dir": lambda: M.item_file(1, a(), cp=cp),
        "volume": lambda: M.item_volume_named(name=a(), cp=cp),
        "net": lambda: M.item_network(location=a(), description=a(), comments=a(), cp=cp),
        "cpla": lambda: M.item_cpl(False, path=a(), name=a(), comments=a(), cp=cp),
        "cplw": lambda: M.item_cpl(True, path=w(), name=w(), comments=w(), cp=cp),
        "users": lambda: M.item_users_files(nibble=1, name=a(), cp=cp),
        "wusers": lambda: M.item_users_files(nibble=5, name=w(), cp=cp),
    }
    infos = {
        "local": lambda: M.Info(flags=1, base_path=a(), suffix=a(), label=a(), cp=cp),
        "network": lambda: M.Info(flags=2, net_flags=3, net_name=a(), device_name=a(), suffix=a(), cp=cp),
        "wlocal": lambda: M.Info(
            flags=1, header_size=0x24, base_path=a(), suffix=a(), base_path_w=w(), suffix_w=w(), label_w=w(), cp=cp
        ),
        "wnetwork": lambda: M.Info(
            flags=2, net_flags=3, header_size=0x24, net_name=a(), device_name=a(), suffix=a(), net_name_w=w(),
            device_name_w=w(), suffix_w=w(), cp=cp,
        ),
    }  # fmt: skip
    blocks = {
        "environment": lambda: M.block_environment(a(), w(), cp=cp),
        "icon": lambda: M.block_environment(a(), w(), cp=cp, icon=True),
        "darwin": lambda: M.block_darwin(ansi=a(), cp=cp),
        "tracker": lambda: M.block_tracker(machine=a(), cp=cp),
        "console": lambda: M.block_console(face=w()),
        "shim": lambda: M.block_shim(w()),
        "metadata": lambda: M.block_metadata([
            M.property_storage(S.G1, [M.property_int(4, 0x1F, w())]),
            M.property_storage(M.STRING_NAMED, [M.property_str(w(), 0x1F, w())]),
        ]),
        "shellitem": lambda: M.block_shell_item([items[k]() for k in items]),
    }  # fmt: skip
    strings = {name: (lambda unicode: w() if unicode else a()) for name, _ in M.STRINGS}
    return items, infos, blocks, strings


def judge(c, f, cp):
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    got = sut.report(b.data, cp=cp)
    sut.outcome(got)
    engine.STATS.compared += 1
    d = first_difference(b.expect, got)
    if d:
        raise Violation("code page %s: report%s" % (cp, d), data=b.data)


def everywhere(c):
    """every field that holds text, in every code page"""
    cp = c.all("page", list(PAGES))
    kind = c.all("kind", ["items", "info", "strings", "blocks", "shellitem", "all"])
    items, infos, blocks, strings = make(cp, PAGES[cp], WIDE)
    f = M.File(cp=cp)
    if kind == "items":
        f.items = [items[c.all("item", list(items))](), items[c.all("item2", list(items))]()]
    elif kind == "info":
        f.info = infos[c.all("info", list(infos))]()
    elif kind == "strings":
        f.unicode = c.all("unicode", [True, False])
        names = [n for n, _ in M.STRINGS]
        f.strings = {n: strings[n](f.unicode) for n in c.all("strings", [names] + [[n] for n in names])}
    elif kind == "blocks":
        names = [c.all("block", list(blocks)), c.all("block2", list(blocks))]
        if names[0] == names[1]:
            return
        f.extra = [blocks[n]() for n in names]
    elif kind == "shellitem":
        f.extra = [M.block_shell_item([items[c.all("item", list(items))](), items[c.all("item2", list(items))]()])]
    else:
        f.unicode = c.all("unicode", [True, False])
        f.items = [m() for m in items.values()]
        f.info = infos[c.all("info", list(infos))]()
        f.strings = {n: m(f.unicode) for n, m in strings.items()}
        f.extra = [m() for m in blocks.values()]
    judge(c, f, cp)


def ascii_only(c):
    """ASCII and Unicode text reads the same in every code page"""
    cp = c.all("page", [None, "", "ascii"] + list(PAGES))
    items, infos, blocks, strings = make("ascii", ASCII, WIDE)
    f = M.File(cp="ascii")
    f.unicode = c.all("unicode", [True, False])
    f.items = [m() for m in items.values()]
    f.info = infos[c.all("info", list(infos))]()
    f.strings = {n: m(f.unicode) for n, m in strings.items()}
    f.extra = [m() for m in blocks.values()]
    judge(c, f, cp)




def mixed(c):
    """any of the fields of a structure hold text that is not ASCII, the others ASCII, or nothing"""
    cp = c.all("page", ["cp1251", "cp932", "koi8-r", "utf-8"] if c.tier == "quick" else list(PAGES))

    def t(name):
        kind = c.all(name, ["ascii", "special", "both", "empty"])
        return {"ascii": name, "special": PAGES[cp], "both": "x" + PAGES[cp] + name, "empty": ""}[kind]

    wide = c.all("wide", [WIDE, "ascii", ""])  # what is in the Unicode fields of the same structure
    kind = c.all("kind", ["local", "network", "wnetwork", "netitem", "cpl", "environment", "strings", "files"])
    f = M.File(cp=cp)
    if kind == "local":
        kw = {"label_w": wide} if c.all("label kind", ["ansi", "wide"]) == "wide" else {"label": t("label")}
        if c.all("header", [0x1C, 0x24]) == 0x24:
            kw.update(header_size=0x24, base_path_w=wide, suffix_w=wide)
        f.info = M.Info(flags=1, base_path=t("base"), suffix=t("suffix"), cp=cp, **kw)
    elif kind == "network":
        f.info = M.Info(flags=2, net_flags=3, net_name=t("name"), device_name=t("device"), suffix=t("suffix"), cp=cp)
    elif kind == "wnetwork":
        f.info = M.Info(flags=2, net_flags=3, header_size=0x24, net_name=t("name"), device_name=t("device"), suffix=t("suffix"),
                        net_name_w=wide, device_name_w=wide, suffix_w=wide, cp=cp)  # fmt: skip
    elif kind == "netitem":
        f.items = [M.item_network(location=t("location"), description=t("about"), comments=t("comments"), cp=cp)]
    elif kind == "cpl":
        f.items = [M.item_cpl(False, path=t("path") or "p", name=t("name"), comments=t("comments"), cp=cp)]
    elif kind == "environment":
        f.extra = [M.block_environment(t("ansi"), wide, cp=cp), M.block_environment(t("icon"), wide, cp=cp, icon=True), M.block_darwin(ansi=t("darwin"), cp=cp), M.block_tracker(machine=t("machine"), cp=cp)]
    elif kind == "strings":
        f.unicode = False
        f.strings = {n: t(n) for n, _ in M.STRINGS[: 4 if c.tier == "quick" else 5]}
    else:
        f.items = [M.item_file(2, t("first") or "a", cp=cp), M.item_file(6, wide or "w"), M.item_users_files(nibble=1, name=t("users") or "u", cp=cp), M.item_file(1, t("last") or "z", cp=cp)]
    judge(c, f, cp)


def real(c):
    """real files: the code page changes text only, and only what is not ASCII"""
    name = c.all("file", list(bases.ALL))
    cp = c.all("page", list(PAGES))
    data = bases.ALL[name]
    c.data = data
    base = sut.report(data, cp="ascii")
    got = sut.report(data, cp=cp)

    def walk(a, b, path):
        engine.STATS.compared += 1
        if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
            for k in a:
                walk(a[k], b[k], "%s.%s" % (path, k))
        elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for n, (x, y) in enumerate(zip(a, b)):
                walk(x, y, "%s[%d]" % (path, n))
        elif a != b and not (isinstance(a, str) and isinstance(b, str) and not (a.isascii() and b.isascii())):
            raise Violation("code page %s: report%s is %r, in ASCII %r" % (cp, path, b, a), data=data)

    walk(base, got, "")


def aliases(c):
    """any name Python has for a code page is accepted"""
    cp, names = c.all("page", [("cp1251", ["windows-1251", "CP1251", "1251"]), ("cp932", ["ms-kanji", "932"]),
                               ("utf-8", ["UTF8", "utf_8"]), ("latin-1", ["iso-8859-1", "l1"])])  # fmt: skip

    alias = c.all("alias", names)
    items, infos, blocks, strings = make(cp, PAGES[cp], WIDE)
    f = M.File(cp=cp, unicode=False)
    f.items = [m() for m in items.values()]
    f.info = infos["local"]()
    f.strings = {n: m(False) for n, m in strings.items()}
    f.extra = [m() for m in blocks.values()]
    judge(c, f, alias)


def changed_bytes(c):
    """any byte that is not ASCII, anywhere, in every code page"""
    cp = c.all("page", list(PAGES)[:: 4 if c.tier == "quick" else 1])
    name = c.all("file", ["built:" + k for k in bases.SMALL])
    data = bases.ALL[name]
    at = c.all("offset", range(0x4C, len(data)))
    value = c.all("value", [0x81, 0x9F, 0xE9, 0xFF] if c.tier == "quick" else range(0x80, 0x100))
    mutate.judge(data[:at] + bytes([value]) + data[at + 1 :], None, cp, c=c)


def _characters():
    """Page -> texts: every byte of a page; every first and every second byte of the pages that need two."""
    chars = {}
    for cp in list(PAGES) + ["cp037", "cp500", "mac-roman", "shift_jis", "euc-jp", "johab"]:
        found = {}
        for n in list(range(1, 256)) + [(a << 8) | b for b in range(0x30, 256) for a in range(0x80, 256)]:
            raw = bytes([n]) if n < 256 else n.to_bytes(2, "big")
            try:
                text = raw.decode(cp)
            except UnicodeDecodeError:
                continue
            if len(text) == 1 and text != "\0" and text.encode(cp, "replace") == raw:
                found[raw] = text
        chars[cp] = found
    return chars


CHARACTERS = _characters()


def few(cp):
    """Enough characters that every byte is there, at every place it can have."""
    seen, few = set(), []
    for raw, text in CHARACTERS[cp].items():
        new = {(len(raw), at, byte) for at, byte in enumerate(raw)} - seen
        if new:
            seen |= new
            few.append(text)
    return few


FEW = {cp: few(cp) for cp in CHARACTERS}
FORMS = ["%s", "a%s", "%sb", "a%sb", "%s%s"]


def characters(c):
    """every byte of every code page, first or second of a character, in every ANSI text field"""
    cp = c.all("page", list(CHARACTERS))
    field = c.all("field", [f for fields in vocabulary.ANSI.values() for f in fields])
    if c.tier == "quick":
        text = c.all("character", FEW[cp])
        text = c.all("form", [FORMS[0], FORMS[3]]).replace("%s", text)
    else:
        text = c.all("form", FORMS).replace("%s", c.all("character", list(CHARACTERS[cp].values())))
    judge(c, vocabulary.with_text(field, text, False, cp), cp)


def _names():
    """Every name that Python has for a code page of text."""
    names = set(encodings.aliases.aliases) | set(encodings.aliases.aliases.values())
    names |= {n.replace("_", "-") for n in names} | set(CHARACTERS) | {n.upper() for n in CHARACTERS}
    pages = {}
    for name in sorted(names):
        try:
            raw = "a".encode(name)
            pages.setdefault(codecs.lookup(name).name, []).append(name) if isinstance(raw, bytes) else None
        except Exception:  # not text, or not here
            continue
    return pages


NAMES = _names()
LEADS = [0x81, 0x82, 0x87, 0x8F, 0xA1, 0xA2, 0xAD, 0xC3, 0xE9, 0xF0, 0xFA, 0xFC, 0xFE]
RAW = [bytes([n]) for n in range(1, 256)] + [bytes([a, b]) for a in LEADS for b in range(0x30, 0x100, 3)]


def every_name(c):
    """any bytes, in any code page that Python has, by any of its names"""
    page = c.all("page", list(NAMES))
    names = NAMES[page]
    cp = c.all("name", names)
    raw = c.all("text", RAW if c.tier == "thorough" or cp in (page, names[0]) else RAW[:255] + RAW[255::5])
    f = M.File(unicode=False)
    f.strings = {"command_line_arguments": "=1=", "icon_location": "=2="}
    if c.tier == "thorough":
        f.extra = [M.block_environment("=3=", "w"), M.block_tracker(machine="=4=")]
    data = f.build().data
    where = c.all("where", [b"=1="] if c.tier == "quick" else [b"=1=", b"=2=", b"=3=", b"=4="])
    text = (raw + b"zz")[:3] if c.all("end", ["start", "end"]) == "start" else (b"yy" + raw)[-3:]
    mutate.judge(data.replace(where, text), None, cp, c=c)


def in_company(c, f, cp):
    """With only ASCII in it, a file says the same in every code page."""
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    for page in (cp, "koi8-r"):
        got = sut.report(b.data, cp=page, allow_terminal_blocks=f.allow_terminal_blocks)
        sut.same(b.expect, got, "report", b.data)


SCENARIOS = [
    Scenario("everywhere", everywhere, 0, 0),
    Scenario("ascii_only", ascii_only, 0, 0),
    Scenario("aliases", aliases, 0, 0),
    Scenario("mixed", mixed, 0, 0),
    Scenario("real", real, 0, 0),
    Scenario("characters", characters, 0, 0),
    Scenario("every_name", every_name, 0, 0),
    Scenario("changed_bytes", changed_bytes, 0, 0),
    company(check=in_company),
]
