"""Abstract values shared by the checks."""

from vlib import model as M

G1 = "01234567-89AB-CDEF-1032-547698BADCFE"
G2 = "FEDCBA98-7654-3210-EFCD-AB8967452301"

BITS8 = [1 << n for n in range(8)]
EDGE8 = [0, 1, 0x7F, 0x80, 0xFF]
EDGE16 = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
EDGE32 = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x01020304, 0x7FFFFFFF, 0x80000000,
          0x80000001, 0xFFFFFFFE, 0xFFFFFFFF]  # fmt: skip
WALK32 = EDGE32 + [1 << n for n in range(32)] + [0xFFFFFFFF ^ 1 << n for n in range(32)]

# Text that both a code page and UTF-16 can hold, simplest first.
ANSI_TEXT = ["", "a", "ab", "C:\\Program Files\\x y.exe", "\x7f\x01 \t", "caf\xe9 \xfc\xdf\xff", "%TEMP%\\a", "A" * 300]
# UTF-16 only: code units with a zero low byte, surrogate pairs, combining characters, ...
WIDE_TEXT = ANSI_TEXT + [
    "\u0100",
    "a\u0100",
    "\u0100a\u0100",
    "\u65e5\u672c\u8a9e",
    "\U0001f600",
    "x\U0001f600\u0200\U0010ffff",
    "\ufeffbom",
    "\uffff\ufffd",
    "\u202eexe.txt",
    "\u2028\u0085",
]

# Every kind of item ID, by name.
ITEMS = {
    "file": lambda **k: M.item_file(2, "file.txt", **k),
    "dir": lambda **k: M.item_file(1, "dir", attrs=0x10, **k),
    "wfile": lambda **k: M.item_file(6, "w\u0100\u65e5.txt", **k),
    "wdir": lambda **k: M.item_file(5, "wdir", attrs=0x11, **k),
    "volume": lambda **k: M.item_volume_named(**k),
    "volguid": lambda **k: M.item_volume_guid(),
    "net": lambda **k: M.item_network(**k),
    "netbare": lambda **k: M.item_network(content=0, nibble=2, **k),
    "root": lambda **k: M.item_root(),
    "panel": lambda **k: M.item_control_panel(),
    "category": lambda **k: M.item_category(),
    "cplw": lambda **k: M.item_cpl(True),
    "cpla": lambda **k: M.item_cpl(False, **k),
    "users": lambda **k: M.item_users_files(**k),
    "zip": lambda **k: M.item_plain(0x52),
    "uri": lambda **k: M.item_plain(0x61),
    "printers": lambda **k: M.item_plain(0x72),
    "places": lambda **k: M.item_plain(0x73),
    "unknown": lambda **k: M.item_plain(0x10),
    "bare": lambda **k: M.item_plain(0x61, b""),
}

INFOS = {
    "local": lambda **k: M.Info(flags=1, suffix="suffix", **k),
    "network": lambda **k: M.Info(flags=2, suffix="net\\suffix", **k),
    "both": lambda **k: M.Info(flags=3, suffix="x", **k),
    "wlocal": lambda **k: M.Info(
        flags=1, header_size=0x24, base_path_w="C:\\w\u0100", suffix_w="\u65e5", label_w="L\u0100", **k
    ),
    "wnetwork": lambda **k: M.Info(
        flags=2,
        header_size=0x24,
        suffix_w="s\u0100",
        net_flags=3,
        net_name_w="\\\\w\u0100\\share",
        device_name_w="W:\u0100",
        **k,
    ),
    "empty": lambda **k: M.Info(flags=0, suffix="ignored", **k),
}

BLOCKS = {
    "environment": lambda **k: M.block_environment(**k),
    "console": lambda **k: M.block_console(),
    "tracker": lambda **k: M.block_tracker(**k),
    "codepage": lambda **k: M.block_codepage(),
    "special": lambda **k: M.block_special_folder(),
    "darwin": lambda **k: M.block_darwin(**k),
    "icon": lambda **k: M.block_environment("%a%\\i.ico", "%w%\\i.ico", icon=True, **k),
    "shim": lambda **k: M.block_shim(),
    "metadata": lambda **k: M.block_metadata(
        [
            M.property_storage(G1, [M.property_int(4, 0x1F, "text"), M.property_int(5, 0x02, 0xFFFE)]),
            M.property_storage(M.STRING_NAMED, [M.property_str("name", 0x1F, "value")]),
        ]
    ),
    "known": lambda **k: M.block_known_folder(),
    "shellitem": lambda **k: M.block_shell_item([M.item_root(), M.item_file(**k)]),
    "unknown": lambda **k: M.block_unknown(0xA00000FF, b"hidden payload"),
}

STRING_VALUES = {
    "description": "desc text",
    "relative_path": "..\\rel path.exe",
    "working_directory": "C:\\work dir",
    "command_line_arguments": '-a "b c" d',
    "icon_location": "%windir%\\icon.dll",
}


def full_file(unicode=True, blocks=None, items=None, info="both", cp="cp1252", **kw):
    """A file with something in every section."""
    names = items if items is not None else ["root", "volume", "dir", "file"]
    return M.File(
        items=[ITEMS[n](cp=cp) for n in names] if names is not False else None,
        info=INFOS[info](cp=cp) if info else None,
        strings=dict(STRING_VALUES),
        unicode=unicode,
        cp=cp,
        extra=[BLOCKS[n](cp=cp) for n in (blocks if blocks is not None else ["environment", "tracker", "known"])],
        **kw,
    )
