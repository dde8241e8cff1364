"""P15: of a truncated file, everything that is still complete is reported unchanged."""

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference
from vlib.sut import outcome
from vlib.sut import report

FILES = dict(bases.BUILT)
FILES["items"] = lambda: M.File(
    items=[S.ITEMS[k]() for k in ("root", "net", "users", "cplw", "cpla", "volume", "category", "wfile", "unknown")],
    strings={"relative_path": "rel"},
)
FILES["blocks"] = lambda: M.File(
    strings={"relative_path": "rel"},
    unicode=False,
    extra=[S.BLOCKS[k]() for k in ("tracker", "unknown", "metadata", "shellitem", "shim", "unknown", "special")],
    tail=b"appended",
)
_CACHE = {}


def prepared(name):
    if name not in _CACHE:
        f = FILES[name]()
        _CACHE[name] = (f, f.build())
    return _CACHE[name]


def must(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("%s is complete in the truncated file, but %s" % (what, d), data=data)


def check(f, b, n, data):
    """`data` keeps the first n bytes of the file; what follows them is lost."""
    got = report(data)
    outcome(got)
    full = b.expect
    must("the header", full["header"], got["header"], data)
    whole = {k for k, (s, e) in b.marks.items() if e <= n}
    if f.items is not None:
        for i, e in enumerate(full["target"]["items"]):
            if "item%d" % i in whole:
                items = got.get("target", {}).get("items", [])
                must("item %d" % i, e, items[i] if i < len(items) else None, data)
        if "target" in got and len(got["target"]["items"]) > len(full["target"]["items"]):
            raise Violation("more items than the whole file has", data=data)
    if f.info is not None and "linkinfo" in whole:
        must("the link info", full["link_info"], got["link_info"], data)
    for k, v in full["data"].items():
        if "string." + k in whole:
            must("the string %s" % k, v, got["data"].get(k), data)
        elif b.marks["string." + k][0] >= n and k in got["data"]:
            raise Violation("the string %s is reported, but it is cut off" % k, data=data)
    unknown = 0
    for i, (_, key, shown) in enumerate(f.extra):
        if key == "UNKNOWN_BLOCK":
            seen = got["extra"].get(key, [])
            seen = seen[unknown] if unknown < len(seen) else None
            unknown += 1
        else:
            seen = got["extra"].get(key)
        if "block%d" % i in whole:
            must("the block %s" % key, shown, seen, data)
        elif b.marks["block%d" % i][0] >= n and seen is not None and n > 0x4C:
            raise Violation("the block %s is reported, but it is cut off" % key, data=data)


def cut(c):
    """every file cut at every length"""
    name = c.all("file", list(FILES))
    f, b = prepared(name)
    n = c.all("length", range(0x4C, len(b.data) + 1))
    data = b.data[:n]
    c.data = data
    check(f, b, n, data)


def cut_generated(c):
    """files with any subset of the sections, cut at every length"""
    kw = dict(
        items=c.all("items", [None, ["file"], ["root", "wdir", "net"], ["users", "bare"]]),
        info=c.all("info", [None, "local", "wnetwork", "both"]),
        blocks=c.all("blocks", [[], ["special"], ["unknown", "tracker"], ["shellitem", "codepage"]]),
    )
    if kw["items"] is None:
        kw["items"] = False
    f = S.full_file(c.all("unicode", [True, False]), **kw)
    f.strings = {k: f.strings[k] for k in c.all("strings", [
        [], ["relative_path"], ["description", "icon_location"], [n for n, _ in M.STRINGS]])}  # fmt: skip
    b = f.build()
    step = 1 if c.tier == "thorough" else 7
    n = c.all("length", range(0x4C + len(b.data) % step, len(b.data) + 1, step))
    data = b.data[:n]
    c.data = data
    check(f, b, n, data)


def real_samples(c):
    """real files: the report of a prefix never contradicts the report of the whole (header and items)"""
    name = c.all("file", list(bases.REAL))
    data = bases.REAL[name]
    n = c.all("length", range(0x4C, len(data) + 1))
    whole = report(data)
    got = report(data[:n])
    must("the header", whole["header"], got["header"], data[:n])
    if "target" in whole and n >= 0x4C + 2 + whole["target"]["size"]:
        must("the target", whole["target"], got.get("target"), data[:n])


def cut_all(c):
    """every file cut at every length, against all that the bytes left say"""
    name = c.all("file", list(bases.ALL))
    data = bases.ALL[name]
    n = c.all("length", range(0x4C, len(data) + 1))
    mutate.judge(data[:n], c=c)


def cut_changed(c):
    """files with a changed byte, cut close behind it and at some distance"""
    name = c.all("file", ["built:" + k for k in bases.SMALL])
    data = bases.ALL[name]
    at = c.all("offset", range(0x4C, len(data)))
    value = c.all("value", mutate.FEW if c.tier == "quick" else mutate.EDGES)
    more = c.all("more", [1, 2, 3, 4, 5, 8, 16, 40, 100])
    n = at + more
    if n >= len(data):
        return
    mutate.judge(data[:at] + bytes([value]) + data[at + 1 : n], c=c)


def in_company(c, f, cp):
    """Cut at, just before and just behind the ends of all parts, and in their middles."""
    if cp is not None or not f.allow_terminal_blocks:
        return
    b = f.build()
    ends = {x for start, end in b.marks.values() for x in (end - 1, end, end + 1, (start + end) // 2)}
    n = c.all("length", sorted(x for x in ends | {0x4C} if 0x4C <= x <= len(b.data)))
    c.data = b.data[:n]
    check(f, b, n, b.data[:n])


SCENARIOS = [
    Scenario("cut", cut, 0, 0),
    Scenario("cut_generated", cut_generated, 0, 0),
    Scenario("real_samples", real_samples, 0, 0),
    Scenario("cut_all", cut_all, 0, 0),
    Scenario("cut_changed", cut_changed, 0, 0),
    company(check=in_company, quick=1, thorough=2),
]
