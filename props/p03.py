"""P03: ID list framing and dispatch."""

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import tables as T
from vlib.common import check_file
from vlib.common import in_shell_item
from vlib.common import in_target
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario

WHERE = {"target": in_target, "shell_item_block": in_shell_item}
TARGET = sections("target", "data", "extra", "size")


def sequences(c):
    """every sequence of kinds of items, in both places where item ID lists occur"""
    kinds = list(S.ITEMS)
    n = c.all("length", [0, 1, 2, 3] if c.tier == "quick" else [0, 1, 2, 3, 4])
    if n == 4:
        kinds = ["file", "wdir", "volume", "net", "root", "category", "cplw", "users", "unknown", "bare"]
    items = [S.ITEMS[c.all("item%d" % i, kinds)]() for i in range(n)]
    where = c.all("where", ["target", "block"])
    if where == "target":
        f = M.File(items=items, strings={"relative_path": "rel"})
    else:
        f = M.File(extra=[M.block_shell_item(items), M.block_special_folder()])
    check_file(c, f, TARGET)


def dispatch(c):
    """every class type indicator selects the kind of item"""
    indicator = c.all("indicator", range(256))
    where = WHERE[c.all("where", list(WHERE))]
    context = c.all("context", ["alone", "first", "last", "middle"])
    name = T.item_class(indicator)
    low = indicator & 0x0F
    kind = indicator & 0xF0
    if name == "Volume Item":
        item = (
            M.item_volume_named(low, kind=kind) if low & 1 else M.item_volume_guid(low, kind=kind)
        )
    elif name in ("File entry", "Network location"):
        if low not in T.ENTRY_FLAGS:
            # The name of such a combination of flags is ambiguous; only the rest is compared.
            return ambiguous(c, name, low, kind, where, context)
        item = M.item_file(low, kind=kind) if name == "File entry" else M.item_network(low, kind=kind)
    elif name == "Root Folder":
        item = M.item_root(indicator)
    elif name == "Control panel":
        item = M.item_control_panel(indicator)
    elif name == "Control panel category":
        item = M.item_category()
    elif name == "Control panel CPL file":
        item = M.item_cpl()
    elif name == "Users files folder":
        item = M.item_users_files()
    else:
        item = M.item_plain(indicator)
    before = [S.ITEMS["root"]()] if context in ("last", "middle") else []
    after = [S.ITEMS["file"]()] if context in ("first", "middle") else []
    where(c, item, before=before, after=after)


def ambiguous(c, name, low, kind, where, context):
    d, e = M.item_file(low & 4 | 2, kind=kind) if name == "File entry" else M.item_network(2, kind=kind)
    d = M.u8(kind | low) + d[1:]
    e = {k: v for k, v in e.items() if k != "flags"}

    def project(report):
        report = dict(report)
        lists = [report["target"]["items"]] if "target" in report else []
        lists += [b["id_list"] for n, b in report.get("extra", {}).items() if n == M.NAMES[0xA000000C]]
        for items in lists:
            for item in items:
                item.pop("flags", None)
        return {k: report[k] for k in ("target", "data", "extra", "size") if k in report}

    before = [S.ITEMS["root"]()] if context in ("last", "middle") else []
    after = [S.ITEMS["zip"]()] if context in ("first", "middle") else []
    if where is in_target:
        f = M.File(items=[*before, (d, e), *after], strings={"relative_path": "rel"})
    else:
        f = M.File(extra=[M.block_shell_item([*before, (d, e), *after]), M.block_special_folder()])
    check_file(c, f, project)


def padding(c):
    """bytes behind the decoded part of an item stay inside that item, whatever its kind"""
    kind = c.all("kind", ["file", "wdir", "volume", "volguid", "net", "root", "panel", "category", "cplw", "cpla",
                          "users", "zip", "uri", "printers", "places", "unknown"])  # fmt: skip
    n = c.all("pad", list(range(0, 40)) + [255, 256, 1000])
    filler = c.all("filler", [b"\xff", b"\x00", b"\x1f"])
    where = WHERE[c.all("where", list(WHERE))]
    d, e = S.ITEMS[kind]()
    if e["class"] == "Unknown":
        e = dict(e, size=e["size"] + n)
    item = (d + filler * n, e)
    before = [S.ITEMS[c.all("before", ["root", "net"])]()]
    where(c, item, before=before, after=[S.ITEMS["file"]()])


def terminal(c):
    """the list ends at its terminal item or at its size, whichever comes first"""
    items = [S.ITEMS[c.all("item%d" % i, list(S.ITEMS))]() for i in range(2)]
    f = M.File(items=items, strings={"relative_path": "rel"})
    how = c.all("end", ["terminal", "size", "behind"])
    if how == "size":
        f.items_terminal = False
    elif how == "behind":
        # Complete items behind the TerminalID do not count.
        d, _ = S.ITEMS[c.all("hidden", list(S.ITEMS))]()
        f.items_tail = M.u16(2 + len(d)) + d
    check_file(c, f, TARGET)


def many(c):
    """long lists: every number of items"""
    n = c.all("number", list(range(0, 130)) if c.tier == "quick" else list(range(0, 1000)))
    kind = c.all("kind", ["dir", "bare"])
    items = [M.item_file(1, "d%d" % i) if kind == "dir" else S.ITEMS["bare"]() for i in range(n)]
    check_file(c, M.File(items=items, strings={"relative_path": "rel"}), TARGET)


def big(c):
    """items as big as the 16-bit size allows"""
    size = c.all("size", [0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFF - 40, 0xFFF0 - 40])
    kind = c.all("kind", ["zip", "unknown", "file"])
    d, e = S.ITEMS[kind]()
    d += b"\xaa" * (size - len(d) - 2)
    if e["class"] == "Unknown":
        e = dict(e, size=size)
    f = M.File(items=[(d, e), S.ITEMS["dir"]()], strings={"relative_path": "rel"})
    check_file(c, f, TARGET)


def raw(c):
    """any bytes as an item ID list"""
    alphabet = [bytes([v]) for v in (0, 1, 2, 3, 4, 5, 0x1F, 0x31)]
    region = mutate.words(c, alphabet, 5 if c.tier == "quick" else 7, "byte")
    if c.all("where", ["target", "block"]) == "target":
        mutate.judge(mutate.listed(region), c=c)
    else:
        block = M.u32(8 + len(region)) + M.u32(0xA000000C) + region
        mutate.judge(mutate.blocked(block + M.block_special_folder()[0] + M.u32(0)), c=c)


def lying(c):
    """the size of the list says less or more than its items take"""
    names = c.all("items", [["volume", "file"], ["root"], [], ["net", "unknown", "bare"], ["users", "cplw"]])
    region = M.idlist_bytes([S.ITEMS[n]() for n in names], c.all("terminal", [True, False]), b"")
    said = c.all("said", list(range(0, len(region) + 40)) + [0x7FFF, 0x8000, 0xFFFF])
    body = M.u16(said) + region + M.u16(3) + "rel".encode("utf-16-le") + M.block_special_folder()[0] + M.u32(0)
    flags = T.LF["HasTargetIDList"] | T.LF["HasRelativePath"] | T.LF["IsUnicode"]
    mutate.judge(mutate.assemble(flags, body), c=c)


def item_sizes(c):
    """the size of one item says less or more than it takes"""
    name = c.all("item", list(S.ITEMS))
    others = [S.ITEMS["root"](), S.ITEMS["volguid"]()]
    data = S.ITEMS[name]()[0]
    said = c.all("said", list(range(0, len(data) + 30)) + [0x7FFF, 0x8000, 0xFFFF])
    region = b"".join([
        M.idlist_bytes(others[:1], False, b""), M.u16(said) + data, M.idlist_bytes(others[1:], True, b"")
    ])  # fmt: skip
    if c.all("where", ["target", "block"]) == "target":
        mutate.judge(mutate.listed(region), c=c)
    else:
        block = M.u32(8 + len(region)) + M.u32(0xA000000C) + region
        mutate.judge(mutate.blocked(block + M.block_special_folder()[0] + M.u32(0)), c=c)


SCENARIOS = [
    Scenario("sequences", sequences, 0, 0),
    Scenario("dispatch", dispatch, 0, 0),
    Scenario("padding", padding, 0, 0),
    Scenario("terminal", terminal, 0, 0),
    Scenario("many", many, 0, 0),
    Scenario("big", big, 0, 0),
    Scenario("raw", raw, 0, 0),
    Scenario("lying", lying, 0, 0),
    Scenario("item_sizes", item_sizes, 0, 0),
    mutate.values("target", ["target"], "every place of an item ID list holds every value of a byte and every power of two", only=lambda n: n in ("built:plain", "built:ansi", "built:wnet", "built:users", "built:tail")),
    mutate.changes("target", ["target"], "any byte of an item ID list changed", only=lambda n: n.startswith("built")),
    mutate.edits("target", ["target"], "bytes of an item ID list copied, removed, repeated", only=lambda n: n.startswith("built")),
    grow.grown(["target"], ["target"], "long texts in items, and lists of very many items"),
    grow.grown(["target"], ["target"], "long texts of blanks, dots, one letter", "long_alike", style=True),
    company("target"),
]
