"""P17: reading a parsed file is pure: no report depends on the reports made before it."""

import copy

from vlib import model as M
from vlib import bases
from vlib import engine
from vlib import samples as S
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference

PREDICATES = ["has_relative_path", "has_arguments", "is_unicode", "has_name", "has_working_dir", "has_icon_location",
              "has_target_id_list", "has_link_info", "force_no_link_info"]  # fmt: skip


def accessors(lnk):
    """What the sections say when they are asked directly."""
    h, s = lnk.header, lnk.string_data
    out = [lnk.size, h.size(), h.link_cls_id(), h.link_flags(), h.file_flags(), h.creation_time(), h.access_time(),
           h.write_time(), h.file_size(), h.icon_index(), h.window_style(), h.hot_key(), h.raw_hot_key(),
           h.r_link_flags(), h.r_file_flags(), s.as_dict(), s.size(), s.description(), s.relative_path(),
           s.working_directory(), s.command_line_arguments(), s.icon_location(), lnk.extras.size()]  # fmt: skip
    if lnk.targets:
        out += [lnk.targets.size(), lnk.targets.id_list_size()]
    return copy.deepcopy(out)


def iterate(lnk):
    """Iterate over the items and the blocks."""
    out = [[t.as_item() for t in lnk.targets] if lnk.targets else None]
    out.append([(x.name(), x.size(), x.as_dict()) for x in lnk.extras])
    return copy.deepcopy(out)


def half(lnk):
    """Start iterating, do not finish."""
    if lnk.targets:
        next(iter(lnk.targets), None)
    next(iter(lnk.extras), None)
    return None


def vandalise(x):
    """Destroy a returned value, deeply."""
    if isinstance(x, dict):
        for v in list(x.values()):
            vandalise(v)
        x.clear()
        x["spoilt"] = 1
    elif isinstance(x, list):
        for v in x:
            vandalise(v)
        x[:] = ["spoilt"]


def spoil(lnk):
    vandalise(lnk.get_json(True))
    vandalise(lnk.get_json(False))


def spoil_parts(lnk):
    for value in (lnk.header.link_flags(), lnk.header.file_flags(), lnk.string_data.as_dict(), lnk.extras.as_dict()):
        vandalise(value)
    if lnk.targets:
        vandalise(lnk.targets.as_list())
    for x in lnk.extras:
        vandalise(x.as_dict())


OPS = {
    "json_all": lambda lnk: copy.deepcopy(lnk.get_json(True)),
    "json": lambda lnk: copy.deepcopy(lnk.get_json(False)),
    "print_json_all": lambda lnk: sut.printed(lnk, "print_json", True),
    "print_json": lambda lnk: sut.printed(lnk, "print_json"),
    "text_all": lambda lnk: sut.printed(lnk, "print_lnk_file", True),
    "text": lambda lnk: sut.printed(lnk, "print_lnk_file"),
    "target": lambda lnk: sut.printed(lnk, "print_shortcut_target") + lnk.lnk_command,
    "accessors": accessors,
    "iterate": iterate,
    "half": half,
    "spoil": spoil,
    "spoil_parts": spoil_parts,
    "predicates": lambda lnk: [getattr(lnk, p)() for p in PREDICATES]
    + [lnk.format_linkFlags(), lnk.format_fileFlags()],
}
# Files that together use every kind of structure; some of them real.
FILES = ["built:" + k for k in ("plain", "ansi", "wide", "wnet", "users", "store", "tracker", "tail", "darwin", "env")]
FILES += ["real:sample3", "real:network_info", "real:broken_link_info", "real:decoding_error", "real:unknown_block",
          "real:microsoft_example", "real:invalid_date"]  # fmt: skip
DATA = dict(bases.ALL)
DATA["all"] = S.full_file(
    blocks=list(S.BLOCKS), items=list(S.ITEMS), info="both", tail=b"appended", flags=0x1000
).build().data
FILES.append("all")
_FRESH = {}


def run(op, lnk, data):
    with sut.guard(op, data):
        return OPS[op](lnk)


def fresh(name, op):
    """The observation on an instance that nobody has read before."""
    if (name, op) not in _FRESH:
        _FRESH[name, op] = run(op, sut.parse(DATA[name]), DATA[name])
    return _FRESH[name, op]


def compare(name, op, got, history):
    engine.STATS.compared += 1
    expected = fresh(name, op)
    if got != expected:
        d = first_difference(expected, got) if isinstance(got, dict) else "%r, not %r" % (str(got)[:200], str(expected)[:200])
        raise Violation("after %s, %s differs: %s" % (" ".join(history) or "nothing", op, d), data=DATA[name])


def sequences(c):
    """every sequence of operations; each observation is what a fresh instance gives"""
    name = c.all("file", FILES)
    data = DATA[name]
    c.data = data
    engine.STATS.inputs.add(name)
    lnk = sut.parse(data)
    history = []
    for i in range(2 if c.tier == "quick" else 4):
        # After a deviating first operation, every second one; deeper ones below.
        op = c.all("op%d" % i, list(OPS))
        compare(name, op, run(op, lnk, data), history)
        history.append(op)
    for op in ("json_all", "json"):
        compare(name, op, run(op, lnk, data), history)
        history.append(op)
    if lnk.indata != data:
        raise Violation("the input is changed by " + " ".join(history), data=data)


def walks(c):
    """two iterations over the same items or blocks, in every interleaving, with a report in between"""
    name = c.all("file", ["all", "built:users", "built:wide", "built:wnet", "real:sample3", "real:unknown_block"])
    part = c.all("part", ["targets", "extras"])
    data = DATA[name]
    c.data = data
    lnk = sut.parse(data)

    def say(x):
        return copy.deepcopy(x.as_item() if part == "targets" else (x.name(), x.size(), x.as_dict()))

    with sut.guard("iterating", data):
        expected = [say(x) for x in getattr(sut.parse(data), part)]
        walk = [iter(getattr(lnk, part)), iter(getattr(lnk, part))]
        got = [[], []]
        ended = [False, False]
        n = len(expected)
        first = c.all("first", range(n + 1))
        second = c.all("second", range(n + 1))
        report = c.all("report", ["none", "json", "again"])
        for who, steps in ((0, first), (1, second), (0, n + 1), (1, n + 1)):
            for _ in range(steps):
                x = next(walk[who], None)
                if x is None:
                    ended[who] = True
                    break
                got[who].append(say(x))
            if report == "json":
                lnk.get_json()
            elif report == "again":
                list(getattr(lnk, part))
    engine.STATS.compared += 2
    for who in (0, 1):
        if got[who] != expected:
            raise Violation("iteration %d over the %s after %d and %d steps: %r" % (who, part, first, second, got[who]), data=data)
    compare(name, "json_all", run("json_all", lnk, data), ["two iterations"])


CHEAP = ["json_all", "json", "print_json", "target", "accessors", "iterate", "half", "spoil", "spoil_parts"]


def deep(c):
    """longer sequences of the cheaper operations"""
    name = c.all("file", ["all", "built:wnet", "real:network_info", "built:users", "built:store"])
    data = DATA[name]
    c.data = data
    lnk = sut.parse(data)
    history = []
    for i in range(4 if c.tier == "quick" else 5):
        op = c.all("op%d" % i, CHEAP)
        compare(name, op, run(op, lnk, data), history)
        history.append(op)


def repeated(c):
    """every file and every report, thrice; and parsed again"""
    name = c.all("file", list(DATA))
    op = c.all("op", list(OPS))
    data = DATA[name]
    c.data = data
    lnk = sut.parse(data)
    for n in range(3):
        compare(name, op, run(op, lnk, data), [op] * n)
        compare(name, op, run(op, sut.parse(data), data), ["parsing again"])


DATA["crowded"] = M.File(
    items=[S.ITEMS[("file", "wdir", "net", "users", "cplw")[n % 5]]() for n in range(120)],
    info=S.INFOS["both"](),
    strings=S.STRING_VALUES,
    extra=[M.block_unknown(0xA00000FF, b"%d" % n) for n in range(60)]
    + [M.block_shell_item([S.ITEMS["file"]() for n in range(60)]),
       M.block_metadata([M.property_storage(S.G1, [M.property_int(n, 0x1F, "v%d" % n) for n in range(60)])])],
).build().data  # fmt: skip


def worn(c):
    """the same operation very often, then every report once more"""
    name = c.all("file", FILES + ["crowded"])
    op = c.all("op", list(OPS))
    data = DATA[name]
    c.data = data
    lnk = sut.parse(data)
    count = (60 if op.startswith("text") or name in ("crowded", "all") else 300) * (1 if c.tier == "quick" else 8)
    for n in range(count):
        if op.startswith("text") and n % 10:
            run(op, lnk, data)
        else:
            compare(name, op, run(op, lnk, data), ["%d times" % n, op])
    for last in ("json_all", "json", "print_json", "target", "accessors", "iterate"):
        compare(name, last, run(last, lnk, data), ["%d times" % count, op])


def in_company(c, f, cp):
    """Each report twice, after all the others."""
    data = f.build().data
    c.data = data
    engine.STATS.inputs.add(hash(data))
    kw = {"cp": cp, "allow_terminal_blocks": f.allow_terminal_blocks}
    lnk = sut.parse(data, **kw)
    alone = {op: run(op, sut.parse(data, **kw), data) for op in OPS}
    for op in [*OPS, *reversed(OPS)]:
        got = run(op, lnk, data)
        engine.STATS.compared += 1
        if got != alone[op]:
            raise Violation("after the other reports, %s differs: %s" % (op, first_difference(alone[op], got)), data=data)



SCENARIOS = [
    Scenario("repeated", repeated, 0, 0),
    Scenario("sequences", sequences, 0, 0),
    Scenario("deep", deep, 0, 0),
    Scenario("walks", walks, 0, 0),
    Scenario("worn", worn, 0, 0),
    company(check=in_company, quick=1, thorough=2),
]
