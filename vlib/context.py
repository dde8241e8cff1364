"""Every structure in the company of every other: no part of a file has an influence on what another one says.

A file has some twenty parts that vary independently of each other.  From each of a few starting
points, the scenario lets any `bound` of them differ at once; the report is that of the model.
"""

from vlib import model as M
from vlib import samples as S
from vlib import tables as T
from vlib.common import check_file
from vlib.common import sections
from vlib.engine import Scenario

# What is present at the starting points; every other choice is a deviation.
STARTS = {
    "bare": {},
    "local": {"items": "usual", "info": "local", "strings": "all", "blocks": "usual"},
    "network": {"items": "net", "info": "network", "strings": "path", "blocks": "tracker", "unicode": False},
    "wide": {"items": "wfile", "info": "wlocal", "strings": "arguments", "blocks": "metadata", "reserved1": 0, "key": (0x41, 6)},
    "hidden": {"items": "users", "info": None, "strings": "icon", "blocks": "unknown", "end": (0, b"appended data"), "flags": 0x100},
}

ITEMS = {
    None: None,
    "none": [],
    "usual": ["root", "volume", "dir", "file"],
    "twice": ["file", "wfile", "file"],
    "panels": ["root", "panel", "category", "cplw"],
    **{k: [k] for k in S.ITEMS},
}

INFOS = {
    None: None,
    **S.INFOS,
    "label": lambda **k: M.Info(flags=1, label_w="L\u0100", **k),
    "unlabelled": lambda **k: M.Info(flags=1, label="", drive_type=0, serial=0, **k),
    "remote": lambda **k: M.Info(flags=1, drive_type=4, serial=0xFFFFFFFF, **k),
    "odd drive": lambda **k: M.Info(flags=1, drive_type=77, **k),
    "both wide": lambda **k: M.Info(flags=3, header_size=0x24, base_path_w="b\u0100", suffix_w="s\u0100", **k),
    "device": lambda **k: M.Info(flags=2, net_flags=3, provider=0x001A0000, **k),
    "no provider": lambda **k: M.Info(flags=2, net_flags=1, device_name="D:", **k),
    "unknown provider": lambda **k: M.Info(flags=2, provider=0x12345678, suffix="", **k),
    "spaced": lambda **k: M.Info(flags=1, suffix="t", gap=5, tail=b"tail", **k),
    "long": lambda **k: M.Info(flags=1, base_path="C:\\" + "long\\" * 60 + "name", **k),
}

STRINGS = {
    "no": {},
    "all": S.STRING_VALUES,
    "path": {"relative_path": "rel"},
    "description": {"description": "d"},
    "directory": {"working_directory": "C:\\w"},
    "arguments": {"command_line_arguments": "-x"},
    "icon": {"icon_location": "i.ico"},
    "command": {"relative_path": 'with blank and "quote"', "command_line_arguments": "a\tb"},
    "empty": {k: "" for k in S.STRING_VALUES},
    "long": {"relative_path": "r" * 260, "command_line_arguments": "a" * 700, "icon_location": "i" * 300},
    "same": {k: "same" for k in S.STRING_VALUES},
    "spaced": {k: " %s  " % k for k in S.STRING_VALUES},
}

BLOCKS = {
    "no": [],
    "usual": ["environment", "tracker", "known"],
    "hidden twice": ["unknown", "special", "unknown"],
    "all": list(S.BLOCKS),
    "backwards": list(S.BLOCKS)[::-1],
    **{k: [k] for k in S.BLOCKS},
}

FLAGS = [0] + [mask for name, mask in T.LF.items() if not name.startswith("Has") and name not in ("IsUnicode",)] + [1 << n for n in range(27, 32)]
FLAGS = FLAGS + [0xF8000000, 0x00000200 | 0x01000000]
DATES = [0x01C914FE12345670, 0, 1, 0xFFFFFFFFFFFFFFFF, 0x019DB1DED53E8000, 0x01D70A6E1B2C3D4F]

PARTS = {
    "size": [0x4C, 0, 0x50, 0xFFFFFFFF],
    "clsid": [M.LNK_CLSID, S.G1, M.NIL],
    "flags": FLAGS,
    "attributes": [0x20, 0, 0x10, 0x40000, 0xFFFFFFFF, 0x1, 0x2, 0x800],
    "ctime": DATES,
    "atime": DATES,
    "wtime": DATES,
    "file_size": [0x12345, 0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF],
    "icon_index": [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF],
    "show": [1, 0, 3, 7, 10, 0xFFFFFFFF],
    "key": [(0, 0), (0x41, 6), (0x41, 2), (0x70, 1), (0x91, 4), (0xFF, 0xFF), (0x42, 0)],
    "reserved0": [0, 1, 0xFFFF],
    "reserved1": [0, 1, 0xFFFFFFFF],
    "reserved2": [0, 1, 0xFFFFFFFF],
    "items": list(ITEMS),
    "items_end": ["terminal", "bare", "trailing"],
    "info": list(INFOS),
    "strings": list(STRINGS),
    "unicode": [True, False],
    "blocks": list(BLOCKS),
    "end": [(0, b""), (None, b""), (1, b""), (3, b""), (0, b"a"), (0, b"appended data"), (2, bytes(9))],
    "cp": [None, "cp1251", "utf-8", "cp932"],
    "container": [False, True],
}


def make(c, sizes=False):
    """An abstract file -> (file, code page)"""
    starts = STARTS
    start = starts[c.all("start", list(starts))]
    v = {}
    for part, options in PARTS.items():
        if part == "size" and not sizes:
            options = options[:1]  # with another one, what follows is looked for elsewhere
        usual = start.get(part, options[0])
        v[part] = c.pick(part, [usual] + [x for x in options if x != usual])
    items = ITEMS[v["items"]]
    info = INFOS[v["info"]]
    f = M.File(
        header=M.Header(
            size=v["size"], clsid=v["clsid"], attributes=v["attributes"], ctime=v["ctime"], atime=v["atime"], wtime=v["wtime"],
            file_size=v["file_size"], icon_index=v["icon_index"], show=v["show"], key_low=v["key"][0], key_high=v["key"][1],
            reserved=(v["reserved0"], v["reserved1"], v["reserved2"]),
        ),
        flags=v["flags"],
        items=None if items is None else [S.ITEMS[k]() for k in items],
        items_terminal=v["items_end"] != "bare",
        items_tail=b"trailing" if v["items_end"] == "trailing" else b"",
        info=None if info is None else info(),
        strings=dict(STRINGS[v["strings"]]),
        unicode=v["unicode"],
        extra=[S.BLOCKS[k]() for k in BLOCKS[v["blocks"]]],
        terminal=v["end"][0],
        tail=v["end"][1],
        allow_terminal_blocks=not v["container"],
    )  # fmt: skip
    return f, v["cp"]


def company(*names, quick=2, thorough=3, check=None, name="company"):
    """The scenario for the properties of these sections."""

    def fn(c):
        f, cp = make(c, names == ("header",))
        if check is not None:
            return check(c, f, cp)
        check_file(c, f, sections(*names), cp)

    fn.__doc__ = "every structure in the company of every other, any %d parts of the file at once" % quick
    return Scenario(name, fn, quick, thorough)
