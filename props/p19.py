"""P19: every representation says the same: full and reduced, object, JSON and text."""

from vlib import bases
from vlib import engine
from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import sut
from vlib import views
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference
from vlib.vocabulary import vocabulary


def compare(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("%s: report%s" % (what, d), data=data)


def check(data, full, text=True, **kw):
    """All representations against the full report the model (or get_json, for real files) gives."""
    engine.STATS.inputs.add(hash(data))
    lnk = sut.parse(data, **kw)
    short = M.reduced(full)
    compare("get_json(True)", full, sut.as_json(lnk, True, data), data)
    compare("get_json(False)", short, sut.as_json(lnk, False, data), data)
    compare("get_json()", short, lnk.get_json(), data)
    for flag, report in ((True, full), (False, short)):
        printed = sut.printed(lnk, "print_json", flag, data=data)
        got, ordered = views.keys_sorted(printed)
        compare("print_json(%s)" % flag, M.json_form(report), got, data)
        if not ordered:
            raise Violation("print_json(%s): the keys are not in order" % flag, data=data)
        if not text:
            continue
        printed = sut.printed(lnk, "print_lnk_file", flag, data=data)
        got, wrong = views.read_text(printed)
        if wrong:
            raise Violation("print_lnk_file(%s): %s" % (flag, wrong), data=data)
        compare("print_lnk_file(%s)" % flag, views.text_form(report), got, data)
        engine.STATS.outcomes.add(hash(printed))


def structures(c):
    """every kind of item, link info and block, in both text kinds"""
    unicode = c.all("unicode", [True, False])
    kind = c.all("kind", ["items", "info", "blocks"])
    if kind == "items":
        f = S.full_file(unicode, items=[c.all("item", list(S.ITEMS)), c.all("item2", list(S.ITEMS))], info=None, blocks=[])
    elif kind == "info":
        f = S.full_file(unicode, items=False, info=c.all("info", list(S.INFOS)), blocks=[])
    else:
        names = [c.all("block", list(S.BLOCKS)), c.all("block2", list(S.BLOCKS))]
        if names[0] == names[1] and names[0] != "unknown":
            return
        f = S.full_file(unicode, items=False, info=None, blocks=names, tail=c.all("tail", [b"", b"appended"]))
    b = f.build()
    c.data = b.data
    check(b.data, b.expect)


def sections(c):
    """any subset of the sections"""
    f = S.full_file(
        True,
        items=c.all("items", [False, [], ["root", "volume", "file"], ["users", "cplw"]]),
        info=c.all("info", [None] + list(S.INFOS)),
        blocks=c.all("blocks", [[], ["unknown"], ["tracker", "metadata", "shellitem"]]),
        flags=c.all("flags", [0, 0x100]),
    )
    f.strings = {k: f.strings[k] for k in c.all("strings", [
        [], ["relative_path"], ["description", "icon_location"], [n for n, _ in M.STRINGS]])}  # fmt: skip
    b = f.build()
    c.data = b.data
    check(b.data, b.expect)


def header(c):
    """header values that are shown in a form of their own"""
    kw = {
        "ctime": c.pick("ctime", [0x01C914FE12345670, 0, 0x01C914FE12345678, 0x01D0000000000000, 116444736000000000, 1,
                                  10000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000]),
        "wtime": c.pick("wtime", [0x01C914FE32345670, 0, 1 << 32, 0x00FFFFFFFFFFFFFF]),
        "attributes": c.pick("attributes", [0x20, 0, 1, 0x80000000, 0xFFFFFFFF, 0x11, 0x20000]),
        "icon_index": c.pick("icon_index", [7, 0, 0xFFFFFFFF, 0x80000000]),
        "file_size": c.pick("file_size", [0x12345, 0, 0xFFFFFFFF]),
        "show": c.pick("show", [1, 0, 3, 7]),
        "key_low": c.pick("key_low", [0x41, 0, 0x39, 0x70, 0xFF]),
        "key_high": c.pick("key_high", [2, 0, 1, 4, 7]),
    }  # fmt: skip
    flags = c.pick("flags", [0, 0x1000, 0x80000000, 0xFFFFF800, 0x200])
    f = M.File(header=M.Header(**kw), strings={"relative_path": "rel"}, flags=flags)
    if not c.pick("unicode", [True, False]):
        f.unicode = False
    if c.pick("bare", [False, True]):
        f.strings, f.unicode = {}, False
    b = f.build()
    c.data = b.data
    check(b.data, b.expect)


# Texts that YAML or JSON might take for something else.
TEXTS = ["plain", "", " ", " lead", "trail ", "a: b", "- a", "# no", "a #b", "'", '"', "\\", "%TEMP%", "@x", "`x`", "*a",
         "&a", "!t", "|", ">", "{a}", "[a]", "~", "null", "true", "No", "on", "1", "1.5", "0x10", "1e3", "2008-09-12",
         "2008-09-12 20:27:17", "12:30:45", "=", "<<", "---", "...", "?", "? a", "a\tb", "\t", "a\nb", "a\n\nb", "\n",
         "a\r\nb", "\r", "\x01", "\x1b[0m", "\x7f", "caf\xe9", "\x85", "\xa0", "\u2028", "\u2029x", "\ufeff", "\ufffd",
         "\uffff", "\u65e5\u672c", "\U0001f600", "\u202egpj.exe", "x" * 140, "word " * 60, "a  b   c", "_EMPTY_",
         "<EMPTY>", "Windows Shortcut Information:", "   indented", "HEADER", "x\x1cy", "x\x0by", "x\x0cy", "x\x1dy",
         "x\x1ey z", "---\nx", "a:\n - b", "\u0000".strip("\0") or "z"]  # fmt: skip
PLACES = {
    "description": lambda t: M.File(strings={"description": t, "icon_location": "i"}),
    "arguments": lambda t: M.File(strings={"command_line_arguments": t}),
    "item": lambda t: M.File(items=[M.item_file(6, t), M.item_root()]),
    "base": lambda t: M.File(info=M.Info(flags=1, header_size=0x24, base_path_w=t, suffix_w="s", label_w="l")),
    "environment": lambda t: M.File(extra=[M.block_environment(text_w=t)]),
    "shim": lambda t: M.File(extra=[M.block_shim(t)]),
    "property": lambda t: M.File(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 0x1F, t)])])]),
    "property_name": lambda t: M.File(
        extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str(t or "n", 0x1F, "v")])])]
    ),
    "shellitem": lambda t: M.File(extra=[M.block_shell_item([M.item_file(6, t)])]),
}


def texts(c):
    """texts that the output formats might change, in every section"""
    text = c.all("text", TEXTS if c.tier == "quick" else TEXTS + [chr(n) for n in range(1, 0x300)])
    # A pair of texts too: one must not swallow the other.
    place = c.all("place", list(PLACES))
    after = c.all("form", ["%s", "x%s", "%sx", "%s%s"])
    text = after.replace("%s", text)
    f = PLACES[place](text)
    b = f.build()
    c.data = b.data
    if first_difference(b.expect, sut.report(b.data)):
        return  # decoding is another property's business
    # PyYAML itself does not read back the U+0085 it writes.
    check(b.data, b.expect, text="\x85" not in text)


def real(c):
    """real files: all the representations of what get_json reports"""
    name = c.all("file", list(bases.ALL))
    data = bases.ALL[name]
    c.data = data
    full = sut.report(data)
    if not views.flag_of(full):
        raise Violation("flag names and raw flags disagree", data=data)
    check(data, full)


def cut(c):
    """truncated files: all the representations of what get_json reports"""
    name = c.all("file", list(bases.BUILT) + ["real"])
    if name == "real":
        name = c.all("real", list(bases.REAL))
        data = bases.REAL[name]
        step = 64 if c.tier == "quick" else 8
    else:
        data = bases.ALL["built:" + name]
        step = 8 if c.tier == "quick" else 1
    data = data[: c.all("length", range(76, len(data) + 1, step))]
    c.data = data
    check(data, sut.report(data))


def dates(c):
    """dates in every part of a second, at the ends of minutes, hours, days and years, in every place"""
    day = c.all("day", [1, 5000, 146096, 148000, 153000, 153395, 200000])
    second = c.all("second", [0, 1, 58, 59, 60, 3599, 43200, 86399])
    ticks = c.all("ticks", [0, 1, 4, 5, 9, 10, 14, 15, 4999990, 4999995, 5000000, 5000005, 9990000, 9994990, 9995000, 9996000, 9999980, 9999990,
                            9999994, 9999995, 9999999, 1234567, 100000, 1000000])  # fmt: skip
    place = c.all("place", ["ctime", "atime", "wtime"])
    value = (day * 86400 + second) * 10000000 + ticks
    b = M.File(header=M.Header(**{place: value}), items=[M.item_file(2, "a")]).build()
    c.data = b.data
    check(b.data, b.expect, text=ticks % 10 == 0 or day == 5000)


ASSUMPTIONS = ["PyYAML reads back what it writes, except for U+0085 (excluded from the text form)"]


def changed_bytes(c):
    """files with a changed byte: all the representations of what get_json reports"""
    name = c.all("file", ["plain", "users"] if c.tier == "quick" else list(bases.SMALL))
    data = bases.ALL["built:" + name]
    at = c.all("offset", range(0, len(data), 2 if c.tier == "quick" else 1))
    value = c.all("value", [0, 1, 0x80, 0xFF] if c.tier == "quick" else mutate.EDGES)
    data = data[:at] + bytes([value]) + data[at + 1 :]
    c.data = data
    full = sut.report(data)
    check(data, full, text=not any("\x85" in t for t in views.strings_of(full)))


def wrapped(c):
    """texts of words with blanks between them, around the width of a line, in several places"""
    place = c.all("place", ["description", "item", "shim", "property", "shellitem"])
    blanks = c.all("blanks", [1, 2, 3])
    word = c.all("word", [1, 2, 7, 40, 100, 131, 132, 133, 200])
    total = c.all("total", [n for n in range(96, 150, 2 if c.tier == "quick" else 1)] + [200, 259, 260])
    end = c.all("end", ["", " ", "  "] if c.tier == "thorough" else [""])
    text = (("w" * (word - 1) + "d" + " " * blanks) * total)[: total - len(end)] + end
    b = PLACES[place](text).build()
    c.data = b.data
    check(b.data, b.expect)


def characters(c):
    """every character, in texts of some that follow each other"""
    step = 32 if c.tier == "quick" else 8
    first = c.all("first", range(1, 0x20000, step) if c.tier == "thorough" else list(range(1, 0x3000, step)) + list(range(0x3001, 0xD800, 997))
                  + list(range(0xE000, 0x10000, 8 * step)) + list(range(0x10000, 0x110000, 5003)))  # fmt: skip
    text = "".join(chr(n) for n in range(first, first + step) if not 0xD800 <= n < 0xE000 and n < 0x110000 and n != 0x85)
    b = PLACES[c.all("place", ["arguments", "shim"])](text[:250]).build()
    c.data = b.data
    check(b.data, b.expect)


def pairs(c):
    """every pair of ASCII characters, alone and within texts, in lists and as values of keys"""
    a = c.all("character", [chr(n) for n in range(1, 0x80)])
    form = c.all("form", ["%s", "%sx", "x%s", "x%sy z", "%s%s", "x %s: y"] if c.tier == "thorough" else ["%s", "x%sy z", "%s%s"])
    place = c.all("place", ["value", "name", "item"] if c.tier == "thorough" else ["value", "name"])
    second = [chr(n) for n in range(1, 0x80) if c.tier == "thorough" or n > 31 and not chr(n).isalnum() or chr(n) in "a0\t\n"]
    texts = [form.replace("%s", a + b) for b in second]
    if place == "value":
        blocks = [M.property_storage(S.G1, [M.property_int(2, 0x1F, t) for t in texts])]
    else:
        blocks = [M.property_storage(M.STRING_NAMED, [M.property_str(t, 0x1F, "v") for t in texts])]
    f = M.File(extra=[M.block_metadata(blocks)]) if place != "item" else M.File(items=[M.item_file(6, t) for t in texts])
    b = f.build()
    c.data = b.data
    check(b.data, b.expect)


WORDS = ["!!python/x", "!!str", "!!binary |", "!tag", "!<x>", "&id001", "*id001", "&", "*", "- ", "? ", ": ", " #", "---", "...", "%YAML 1.1", "%TAG",
         "<<", "~", "null", "None", "{}", "[]", "{", "}", "[", "]", ",", "|", ">", "|-", ">+", "\\n", "\\u0041", "\\x41", "\\", "\\\\", "'", '"', "''",
         '\\"', "_", "__", "r_", "_EMPTY_", "True", "0x1F", "1_000", "1e5", ".5", "+1", "-", "1:30", "2001-01-01", "2001-01-01T00:00:00Z",
         "00:00:00+00:00", "&amp;", "%s", "%d", "%", "{0}", "$HOME", "\t", "\n", "\n\n", "\n   ", " \n", "\r\n", "<empty>", "N/A", "class", "size",
         "HEADER", "Guid:", "Windows Shortcut Information:", "\x1b[31m", "\u00e9", "\u0100", "\U0001f600", "\ufeff", "\u200b", "\u2028", "\x7f"]  # fmt: skip


def words(c):
    """what means something in YAML, JSON or Python, in every surrounding; several such texts together"""
    place = c.all("place", list(PLACES) if c.tier == "thorough" else ["arguments", "item", "property", "property_name"])
    word = c.all("word", WORDS)
    form = c.all("form", ["%s", "a %s b", "a%sb", " %s", "%s ", "%s %s", "a: %s", "- %s", "'%s'", '"%s"', "a %s", "%s b", "%s" + " lorem ipsum" * 14, "lorem ipsum " * 14 + "%s"])
    b = PLACES[place](form.replace("%s", word)[:250]).build()
    c.data = b.data
    check(b.data, b.expect)


def two_words(c):
    """every pair of such words in one text and in two texts"""
    a, b = c.all("first", WORDS), c.all("second", WORDS)
    how = c.all("how", ["one text", "two texts"])
    if how == "two texts":
        f = M.File(strings={"description": a, "command_line_arguments": b})
    else:
        f = M.File(strings={"description": a + b, "command_line_arguments": a + " x " + b})
    b = f.build()
    c.data = b.data
    check(b.data, b.expect)


def grown_shown(c, f, b):
    full = sut.report(b.data)
    check(b.data, full, text=len(b.data) < (3000 if c.tier == "quick" else 20000))


def in_company(c, f, cp):
    b = f.build()
    c.data = b.data
    # PyYAML itself does not read back the U+0085 it writes.
    check(b.data, b.expect, "\\x85" not in repr(b.expect), cp=cp, allow_terminal_blocks=f.allow_terminal_blocks)


def in_company_json(c, f, cp):
    b = f.build()
    c.data = b.data
    check(b.data, b.expect, False, cp=cp, allow_terminal_blocks=f.allow_terminal_blocks)


SCENARIOS = [
    Scenario("structures", structures, 0, 0),
    Scenario("sections", sections, 0, 0),
    Scenario("header", header, 2, 3),
    Scenario("texts", texts, 0, 0),
    Scenario("real", real, 0, 0),
    Scenario("cut", cut, 0, 0),
    Scenario("changed_bytes", changed_bytes, 0, 0),
    Scenario("dates", dates, 0, 0),
    Scenario("wrapped", wrapped, 0, 0),
    Scenario("characters", characters, 0, 0),
    grow.grown(None, ["target", "link_info", "data", "extra", "store"], "every part long, or of very many structures", quick=2048, check=grown_shown, very=False),
    Scenario("pairs", pairs, 0, 0),
    Scenario("words", words, 0, 0),
    Scenario("two_words", two_words, 0, 0),
    vocabulary("strings", "info", "items", "blocks", "properties", check=in_company_json, name="vocabulary_json"),
    vocabulary("strings", "info", "items", "blocks", "properties", check=in_company),
    company(check=in_company, quick=1, thorough=2),
    company(check=in_company_json, name="company_json"),
]
