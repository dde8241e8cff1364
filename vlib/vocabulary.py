"""Texts that a well-meant conversion would change, in every field that holds text.

Paths in all their forms, variables and formats, escapes, quotes, blanks and controls, letters that
normalisation or case conversion changes, and words that are mistaken for "nothing".
"""

from vlib import model as M
from vlib import samples as S
from vlib.common import check_file
from vlib.engine import Scenario

WORDS = [
    # Paths.
    "C:", "C:\\", "c:/dir/file", "\\\\?\\C:\\x", "\\\\?\\UNC\\s\\h", "\\\\.\\pipe\\x", "\\??\\C:\\x", "\\\\srv\\share", "//srv/share",
    ".\\a", "..\\..\\a", ".", "..", "\\", "/", "a\\", "a\\\\b", "a/b", "a/../b", "a\\.\\b", "file:///C:/x", "http://h/p?q=1&r=%20#f",
    "C:\\PROGRA~1", "a.lnk", "a.LNK", "x.exe", "desktop.ini", "name.", "NUL", "con", "COM1", "::{20D04FE0-3AEA-1069-A2D8-08002B30309D}",
    "{20d04fe0-3aea-1069-a2d8-08002b30309d}", "shell:startup", "a:stream",
    # Variables and formats.
    "%windir%", "%%", "%", "%s", "%d%n", "%(name)s", "{}", "{0}", "{x!r}", "{{", "${HOME}", "$HOME", "$$", "~", "~root", "!x!", "$(id)", "`id`",
    # Escapes and quotes.
    "\\n", "\\x41", "\\u0041", "\\0", "&amp;", "&#65;", "<b>", "%20", "%41", "+", "=3D", '"q"', "'q'", '""', 'a"b', "^", "&", "|", ";", ",",
    ",-101", "@shell32.dll,-101", "a,0", "#", "*", "?", "a=b", "-a", "--", "/?", "\\\"",
    # Blanks and controls.
    " ", "  ", " a", "a ", "a b", "a  b", "\t", "a\tb", "\n", "\r", "\r\n", "a\nb", "\x01", "\x08", "\x0b", "\x0c", "\x1a", "\x1b[0m", "\x1f", "\x7f",
    "\xa0", "\u3000", "\u2003", "\u200b", "\u200e", "\u202e", "\ufeff", "\xad", "\x85", "\u2028", "\u2060",
    # Letters.
    "e\u0301", "\xe9", "\u212b", "\u1e9b\u0323", "\ufb01", "\uff21", "\u0130", "\u0131", "\xdf", "\u1e9e", "\u01c5", "\u03c2", "\u2126", "\xb5",
    "\u20ac", "\U0001f600", "\U0001f468\u200d\U0001f469", "\u0627\u0644", "\u05d0", "\u0e33", "\ud7a3", "\u1112\u1161\u11ab", "\ufffd", "\uffff",
    "\ufffe", "\ue000", "\U0010ffff", "\u2215", "\u2019", "\u201c", "\u2026", "\u2013", "\xbd", "\xb2", "\xc3\xa9", "AbC", "ABC", "abc", "I", "i",
    # Words.
    "null", "None", "NULL", "nil", "true", "False", "0", "00", "-1", "1e5", "0x10", "inf", "nan", "N/A", "unknown", "Unknown", "(null)", "<EMPTY>",
    "_EMPTY_", "empty", "UNSET", "class", "size", "Local", "Network", "123", "1.0", "2008-09-12", "b'x'", "[]", "()",
]  # fmt: skip
FORMS = ["%s", "a%s", "%sb", "a%sb", "%s%s"]

STRINGS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]
ANSI = {
    "strings": STRINGS,
    "info": ["base_path", "suffix", "label", "net_name", "device_name"],
    "items": ["file", "volume", "location", "net_description", "net_comments", "cpl_path", "cpl_name", "cpl_comments", "users"],
    "blocks": ["environment", "icon", "darwin", "machine", "shellitem"],
    "properties": [],
}
WIDE = {
    "strings": STRINGS,
    "info": ["base_path_w", "suffix_w", "label_w", "net_name_w", "device_name_w"],
    "items": ["wfile", "wcpl_path", "wcpl_name", "wcpl_comments", "wusers"],
    "blocks": ["environment_w", "icon_w", "face", "shim", "wshellitem", "feature"],
    "properties": ["property", "property_name"],
}
MOST = {"machine": 15, "face": 31, "volume": 20}


def with_text(field, text, unicode, cp="cp1252"):
    """A file whose only text that can be confused with `text` is in that field."""
    if field in STRINGS:
        return M.File(cp=cp, unicode=unicode, strings={**S.STRING_VALUES, field: text})
    tail = {"cp": cp, "strings": {"relative_path": "rel"}, "extra": []}
    if field in ("base_path", "suffix", "label"):
        return M.File(info=M.Info(cp=cp, flags=1, **{field: text}), **tail)
    if field in ("net_name", "device_name"):
        return M.File(info=M.Info(cp=cp, flags=2, net_flags=3, **{field: text}), **tail)
    if field in ("base_path_w", "suffix_w", "label_w"):
        return M.File(info=M.Info(cp=cp, flags=1, header_size=0x24, **{field: text}), **tail)
    if field in ("net_name_w", "device_name_w"):
        kw = {"net_name_w": "n", "device_name_w": "d", field: text}
        return M.File(info=M.Info(cp=cp, flags=2, net_flags=3, header_size=0x24, **kw), **tail)
    items = {
        "file": lambda: M.item_file(2, text, cp=cp),
        "wfile": lambda: M.item_file(6, text, cp=cp),
        "volume": lambda: M.item_volume_named(name=text, cp=cp),
        "location": lambda: M.item_network(location=text, cp=cp),
        "net_description": lambda: M.item_network(description=text, cp=cp),
        "net_comments": lambda: M.item_network(comments=text, cp=cp),
        "cpl_path": lambda: M.item_cpl(False, path=text, cp=cp),
        "cpl_name": lambda: M.item_cpl(False, name=text, cp=cp),
        "cpl_comments": lambda: M.item_cpl(False, comments=text, cp=cp),
        "wcpl_path": lambda: M.item_cpl(True, path=text, cp=cp),
        "wcpl_name": lambda: M.item_cpl(True, name=text, cp=cp),
        "wcpl_comments": lambda: M.item_cpl(True, comments=text, cp=cp),
        "users": lambda: M.item_users_files(nibble=1, name=text, cp=cp),
        "wusers": lambda: M.item_users_files(nibble=5, name=text, cp=cp),
    }
    if field in items:
        return M.File(items=[items[field](), S.ITEMS["root"]()], **tail)
    blocks = {
        "environment": lambda: M.block_environment(ansi=text, cp=cp),
        "icon": lambda: M.block_environment(ansi=text, icon=True, cp=cp),
        "darwin": lambda: M.block_darwin(ansi=text, cp=cp),
        "feature": lambda: M.block_darwin(feature=text, ansi="a", cp=cp),
        "machine": lambda: M.block_tracker(machine=text, cp=cp),
        "shellitem": lambda: M.block_shell_item([M.item_file(2, text, cp=cp)]),
        "environment_w": lambda: M.block_environment(text_w=text, cp=cp),
        "icon_w": lambda: M.block_environment(text_w=text, icon=True, cp=cp),
        "face": lambda: M.block_console(face=text),
        "shim": lambda: M.block_shim(text),
        "property": lambda: M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 0x1F, text)])]),
        "property_name": lambda: M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str(text, 0x1F, "v")])]),
        "wshellitem": lambda: M.block_shell_item([M.item_file(6, text, cp=cp)]),
    }
    return M.File(extra=[blocks[field]()], strings={"relative_path": "rel"})


def vocabulary(*kinds, name="vocabulary", check=None):
    """A scenario: every word of the vocabulary, in several forms, in every text field of these kinds.

    `check(c, file, cp)` judges the files; without it, their reports are compared with the model's.
    """
    ansi = [f for k in kinds for f in ANSI[k]]
    wide = [f for k in kinds for f in WIDE[k]]

    def fn(c):
        unicode = c.all("unicode", [False, True]) if ansi else True
        field = c.all("field", wide if unicode else ansi)
        form = c.all("form", FORMS)
        text = form.replace("%s", c.all("word", WORDS))
        if c.tier == "thorough":
            text += c.all("second", [""] + WORDS)
        if len(text) > MOST.get(field, 1000) or (field == "feature" and set(text) & set("<>")):
            return
        if not unicode:
            try:
                text.encode("cp1252")
            except UnicodeEncodeError:
                return
        f = with_text(field, text, unicode)
        if check is None:
            check_file(c, f)
        else:
            check(c, f, None)

    fn.__doc__ = "words that a conversion would change, in every text field"
    return Scenario(name, fn, 0, 0)
