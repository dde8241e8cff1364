"""P18: parsed files are independent: of each other, of code pages used before, and across threads."""

import copy
import sys
import threading

from vlib import bases
from vlib import decode
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sched
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference


def text_file(cp, text, unicode, **kw):
    f = S.full_file(unicode, items=["file", "root"], blocks=["environment", "unknown"], info="local", cp=cp, **kw)
    f.items[0] = M.item_file(2, text, cp=cp)
    f.strings["description"] = text
    return f


def guid_of(k, n):
    """The n-th identifier of family k: no two are the same."""
    return "%02X%02X1122-3344-5566-%02X88-99AABBCCDD%02X" % (16 * k + 1, n, n, 16 * k + 2)


def values(k):
    """A file with everything in it, in which every value is one that only family k has."""
    day, minute = M.dos_date(1990 + k, 1 + k, 10 + k), M.dos_time(3 + k, 20 + k, 2 * k)
    g = iter(range(1, 100))
    number = 0x01010101 * (17 * k + 3)
    items = [
        M.item_root(guid=guid_of(k, next(g))),
        M.item_volume_named(name="%c:\\" % (67 + k)),
        M.item_volume_guid(guid=guid_of(k, next(g))),
        M.item_file(2, "file%d" % k, number, day, minute, 0x20 + k),
        M.item_file(6, "wide%d\u0100" % k, number + 1, day + 1, minute + 32, 1 + k),
        M.item_network(location="\\\\srv%d\\s" % k, description="about %d" % k, comments="comment %d" % k),
        M.item_control_panel(guid=guid_of(k, next(g))),
        M.item_category(1 + k),
        M.item_cpl(True, "C:\\cpl%d" % k, "name%d" % k, "text%d" % k),
        M.item_cpl(False, "C:\\cpla%d" % k, "na%d" % k, "te%d" % k),
        M.item_users_files(
            name="users%d" % k, date=day + 2, time=minute + 64, class_id=guid_of(k, next(g)), folder_id=guid_of(k, next(g))
        ),
    ]
    console = {n: (0x11 * (k + 1) + 3 * i) * (0x101 if w == 2 else 0x1010101) for i, (n, _, w, _) in enumerate(M.CONSOLE_FIELDS)}
    console = {n: v & (0xFFFF if w == 2 else 0xFFFFFFFF) for (n, _, w, _), v in zip(M.CONSOLE_FIELDS, console.values())}
    blocks = [
        M.block_environment("%%e%d%%" % k, "%%w%d%%" % k),
        M.block_console(console, "Face %d" % k),
        M.block_tracker("host-%d" % k, [guid_of(k, next(g)) for _ in range(4)]),
        M.block_codepage(number + 2),
        M.block_special_folder(number + 3, number + 4),
        M.block_darwin(guid_of(k, next(g)), "Feature%d" % k, guid_of(k, next(g))),
        M.block_environment("%%i%d%%" % k, "%%j%d%%" % k, icon=True),
        M.block_shim("Layer%d" % k),
        M.block_metadata([
            M.property_storage(guid_of(k, next(g)), [M.property_int(4 + k, 0x1F, "text%d" % k), M.property_int(50 + k, 2, 777 * k)]),
            M.property_storage(M.STRING_NAMED, [M.property_str("name%d" % k, 0x1F, "value%d" % k)]),
        ]),
        M.block_known_folder(guid_of(k, next(g)), number + 5),
        M.block_shell_item([M.item_root(guid=guid_of(k, next(g))), M.item_file(2, "inner%d" % k, 5 + k, day + 3, minute + 96)]),
        M.block_unknown(0xA00000F0 + k, b"payload %d" % k),
    ]  # fmt: skip
    f = M.File(items=items, extra=blocks, unicode=k != 2)
    f.strings = {n: "%s %d" % (n, k) for n, _ in M.STRINGS}
    f.info = M.Info(flags=3, suffix="suffix%d" % k, base_path="C:\\base%d" % k, net_name="\\\\net%d\\s" % k, device_name="%c:" % (80 + k), label="label%d" % k, serial=number + 6, net_flags=3)  # fmt: skip
    f.header = M.Header(attributes=1 << k, file_size=number + 7, icon_index=k + 2, show=(1, 3, 7)[k],
                        ctime=0x01D00000_00000000 + (k << 48) + (k << 41), atime=0x01C10000_00000000 + (k << 49),
                        wtime=0x01B20000_00000000 + (k << 50) + 12345, key_low=0x41 + k, key_high=1 << k)  # fmt: skip
    return f


# Files that differ in everything: code page, sections, unknown blocks, terminal handling.
FILES = {
    "latin": lambda: text_file("cp1252", "caf\xe9", False),
    "cyrillic": lambda: text_file("cp1251", "\u0444\u0430\u0439\u043b", False),
    "japanese": lambda: text_file("cp932", "\u65e5\u672c", False),
    "wide": lambda: S.full_file(
        True, blocks=["shim", "metadata", "unknown"], info="wnetwork", items=["wdir", "wfile", "cplw"]
    ),
    "bare": lambda: M.File(strings={"relative_path": "rel"}, unicode=False),
    "hidden": lambda: S.full_file(blocks=["unknown", "unknown"], info=None, items=[], tail=b"appended"),
    "tails": lambda: S.full_file(blocks=["unknown"], info=None, items=["users"], tail=b"a", allow_terminal_blocks=False),
    "many": lambda: S.full_file(blocks=list(S.BLOCKS), items=list(S.ITEMS), info="both"),
    "network": lambda: S.full_file(False, blocks=["codepage", "known", "shellitem"], info="network", items=["net", "net"]),
    "tracker": lambda: S.full_file(blocks=["tracker", "console"], info="empty", items=False),
    "utf-8 text": bases.fallback,
    "values 0": lambda: values(0),
    "values 1": lambda: values(1),
    "values 2": lambda: values(2),
}
# The same bytes, read with other options.
AGAIN = {
    "fallback": ("utf-8 text", "cp1252", True),
    "undecodable": ("utf-8 text", "ascii", True),
    "latin as cyrillic": ("latin", "cp1251", True),
    "cyrillic as default": ("cyrillic", "cp1252", True),
    "japanese as utf-8": ("japanese", "utf-8", True),
    "tails with the rest": ("tails", "cp1252", True),
    "hidden without": ("hidden", "cp1252", False),
}
_BUILT = {}


class Reread:
    """A file of FILES whose report under other options the reference decoder gives."""

    def __init__(self, data, cp, allow):
        self.data = data
        self.cp = cp
        self.allow_terminal_blocks = allow
        self.expect = decode.report(data, cp, allow).report


def built(name):
    if name in AGAIN and name not in _BUILT:
        first, cp, allow = AGAIN[name]
        b = Reread(built(first)[1].data, cp, allow)
        _BUILT[name] = (b, b)
    if name not in _BUILT:
        f = FILES[name]()
        _BUILT[name] = (f, f.build())
    return _BUILT[name]


def options(f):
    kw = {"cp": f.cp} if f.cp != "cp1252" else {}
    if not f.allow_terminal_blocks:
        kw["allow_terminal_blocks"] = False
    return kw


def compare(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("%s: report%s" % (what, d), data=data)


def parse(name):
    f, b = built(name)
    return sut.parse(b.data, **options(f))


def observe(name, lnk, get_all=True):
    _, b = built(name)
    got = sut.as_json(lnk, get_all, b.data)
    return copy.deepcopy(got), (b.expect if get_all else M.reduced(b.expect))


def histories(c):
    """live instances parsed and reported in every order"""
    n = 3
    names = [c.all("file%d" % i, list(FILES) + list(AGAIN)) for i in range(n)]
    live = []
    done = []
    engine.STATS.inputs.add(tuple(names))
    for step in range(2 * n):
        # Parse the next file, or report the next one that is parsed: every interleaving.
        can = []
        if len(live) < n:
            can.append("parse")
        if len(done) < len(live):
            can.append("report")
        if c.all("step%d" % step, can) == "parse":
            live.append(parse(names[len(live)]))
        else:
            i = len(done)
            got, expected = observe(names[i], live[i])
            compare("with %s" % names, expected, got, built(names[i])[1].data)
            done.append(i)
    for i in reversed(range(n)):
        got, expected = observe(names[i], live[i], False)
        compare("with %s, again" % names, expected, got, built(names[i])[1].data)


def errors_between(c):
    """a hostile file parsed between others leaves no trace"""
    first = c.all("file", list(FILES))
    hostile = c.all("hostile", list(bases.ALL))
    cut = c.all("cut", [1.0, 0.9, 0.6, 0.4, 0.25])
    data = bases.ALL[hostile]
    data = data[: max(76, int(len(data) * cut))]
    early = parse(first)
    lnk = sut.parse(data, cp=c.all("cp", [None, "utf-8", "cp932"]))
    sut.as_json(lnk, True, data)
    for lnk in (early, parse(first)):
        got, expected = observe(first, lnk)
        compare("after %s" % hostile, expected, got, built(first)[1].data)


def expected_of(data, cp=None, allow=True):
    key = (data, cp, allow)
    if key not in _EXPECTED:
        _EXPECTED[key] = decode.report(data, cp or "cp1252", allow)
    return _EXPECTED[key]


_EXPECTED = {}


def neighbours(c):
    """a file, then one of the same length that differs in one byte, then the first again; none, or the first, is kept"""
    base = c.all("base", ["built:plain", "built:ansi", "built:store", "built:users", "built:tail", "real:sample3"])
    keep = c.all("keep", [False, True])
    data = bases.ALL[base]
    at = c.all("offset", range(len(data)))
    other = data[:at] + bytes([data[at] ^ c.all("change", [1, 0x20, 0x80] if c.tier == "quick" else range(1, 256))]) + data[at + 1 :]
    c.data = other
    engine.STATS.inputs.add(hash(other))
    kept = []
    for i, raw in enumerate((data, other, data)):
        # A fresh copy, so that the address of a buffer that is gone may be used again.
        raw = bytes(bytearray(raw))
        lnk = sut.parse(raw)
        got = sut.as_json(lnk, True, raw)
        d = decode.compare(expected_of(raw) if i != 1 else decode.report(raw), got)
        engine.STATS.compared += 1
        if d:
            raise Violation("file %d of %s: %s" % (i, base, d), data=raw)
        if keep:
            kept.append(lnk)
        del lnk, got, raw


def crowd(c):
    """hundreds of files are parsed; each is then reported, in order and backwards, while all are alive"""
    count = c.all("count", [64, 300, 1100] if c.tier == "quick" else [64, 300, 1100, 5000])
    backwards = c.all("backwards", [False, True])
    drop = c.all("drop", [False, True])
    data = bases.ALL["built:ansi"]
    spots = [52, 56] + [n for n in range(76, len(data)) if n % 7 == 0]
    raws = []
    for i in range(count):
        at = spots[i % len(spots)]
        raws.append(data[:at] + bytes([(data[at] + 1 + i // len(spots)) & 255]) + data[at + 1 :])
    cps = [None, "cp1251", "cp932"]
    engine.STATS.inputs.update(hash(x) for x in raws)
    if drop:
        live = [None] * count
    else:
        live = [sut.parse(x, cp=cps[i % 3]) for i, x in enumerate(raws)]
    order = range(count)
    for i in reversed(order) if backwards else order:
        lnk = live[i] or sut.parse(raws[i], cp=cps[i % 3])
        d = decode.compare(expected_of(raws[i], cps[i % 3]), sut.as_json(lnk, True, raws[i]))
        engine.STATS.compared += 1
        if d:
            raise Violation("file %d of %d: %s" % (i, count, d), data=raws[i])


class Split:
    """A standard output of its own for every thread."""

    def __init__(self):
        self.parts = {}

    def write(self, text):
        self.parts.setdefault(threading.get_ident(), []).append(text)
        return len(text)

    def flush(self):
        pass


def printing(name):
    f, b = built(name)

    def fn():
        lnk = sut.LnkFile(indata=b.data, **options(f))
        lnk.print_json(True)
        lnk.print_lnk_file(True)
        lnk.print_lnk_file()
        lnk.print_shortcut_target(True)
        return threading.get_ident()

    return fn


def printed(names, schedule, unit):
    """What each thread prints."""
    out, was = Split(), sys.stdout
    sys.stdout = out
    try:
        tasks = sched.run([printing(n) for n in names], schedule, unit)
    finally:
        sys.stdout = was
    for name, t in zip(names, tasks):
        if t.error is not None:
            raise Violation("threads %s, schedule %s: printing %s raised %r" % (names, schedule, name, t.error))
    return ["".join(out.parts.get(t.result, [])) for t in tasks]


PRINTED = [("bare", "latin"), ("cyrillic", "latin"), ("hidden", "wide")]
_ALONE = {}


def alone(name):
    """What is printed, and in how many steps, when nothing else runs; warmed up."""
    if name not in _ALONE:
        printed([name], [], sched.LINES)
        text = printed([name], [], sched.LINES)[0]
        out, was = Split(), sys.stdout
        sys.stdout = out
        try:
            n = sched.length(printing(name), sched.LINES)
        finally:
            sys.stdout = was
        _ALONE[name] = text, n
    return _ALONE[name]


def prepare_printed():
    for pair in PRINTED:
        for name in pair:
            alone(name)


def two_prints(c):
    """two threads print different files; the first is interrupted at any one source line, or at every other one"""
    a, b = c.all("files", PRINTED)
    k = c.all("line", range(1, alone(a)[1] + 1, 2 if c.tier == "quick" else 1))
    engine.STATS.calls += 2
    got = printed([a, b], [(0, k), (1, None)], sched.LINES)
    for name, text in zip((a, b), got):
        engine.STATS.compared += 1
        if text != alone(name)[0]:
            raise Violation("threads %s and %s, interrupted at line %d: %s prints\n%s\ninstead of\n%s" % (
                a, b, k, name, text[:1500], alone(name)[0][:1500]), data=built(name)[1].data)  # fmt: skip


def task(name, shared=None):
    f, b = built(name)

    def fn():
        lnk = sut.LnkFile(indata=b.data, **options(f)) if shared is None else shared
        return lnk.get_json(True), lnk.lnk_command

    return fn


_LENGTH = {}


def steps_of(name, unit, shared):
    """Steps the task takes alone, warmed up."""
    key = (name, unit, shared)
    if key not in _LENGTH:
        for _ in range(2):
            _LENGTH[key] = sched.length(task(name, parse(name) if shared else None), unit)
    return _LENGTH[key]


def prepare():
    """Measure the tasks once, so that every process explores the same schedules."""
    for a, b in PAIRS:
        for name in (a, b):
            steps_of(name, sched.LINES, False)
            steps_of(name, sched.CALLS, False)
    for name in INSTANCES:
        steps_of(name, sched.LINES, True)


def prepare_spots():
    for a, _ in PAIRS:
        steps_of(a, sched.SPOTS, False)


_COMMAND = {}


def command_of(name):
    if name not in _COMMAND:
        _COMMAND[name] = parse(name).lnk_command
    return _COMMAND[name]


def check_threads(names, schedule, unit, shared=None):
    engine.STATS.calls += len(names)
    engine.STATS.inputs.add((tuple(names), tuple(schedule), unit, shared is not None))
    for name, t in zip(names, sched.run([task(n, shared) for n in names], schedule, unit)):
        data = built(name)[1].data
        what = "threads %s, schedule %s (%s)" % (names, schedule, unit)
        if t.error is not None:
            raise Violation("%s: %s raised %r" % (what, name, t.error), data=data)
        compare(what, built(name)[1].expect, t.result[0], data)
        compare(what, {"command": command_of(name)}, {"command": t.result[1]}, data)


PAIRS = [("latin", "cyrillic"), ("japanese", "latin"), ("hidden", "many"), ("wide", "network"), ("network", "wide"),
         ("bare", "hidden"), ("tails", "hidden"), ("tracker", "wide"), ("hidden", "hidden"), ("latin", "latin as cyrillic"), ("tails", "tails with the rest"), ("fallback", "latin"), ("values 0", "values 1")]  # fmt: skip


INSTANCES = ["many", "values 2", "network", "wide"]


def one_preemption(c):
    """two threads; the first is interrupted at any one source line, the second runs to its end"""
    a, b = c.all("files", PAIRS)
    k = c.all("line", range(1, steps_of(a, sched.LINES, False) + 1))
    check_threads([a, b], [(0, k), (1, None)], sched.LINES)


def within_lines(c):
    """two threads; the first is interrupted inside a line, right behind any call"""
    a, b = c.all("files", PAIRS)
    k = c.all("spot", range(1, steps_of(a, sched.SPOTS, False) + 1))
    check_threads([a, b], [(0, k), (1, None)], sched.SPOTS)


def two_preemptions(c):
    """two threads; both are interrupted, at any one call"""
    a, b = c.all("files", [("latin", "cyrillic"), ("bare", "hidden"), ("tails", "hidden")] if c.tier == "quick" else PAIRS)
    stride = 5 if c.tier == "quick" else 1
    ka = c.all("call", range(1, steps_of(a, sched.CALLS, False) + 1, stride))
    kb = c.all("other_call", range(1, steps_of(b, sched.CALLS, False) + 1, stride))
    check_threads([a, b], [(0, ka), (1, kb), (0, None)], sched.CALLS)


def two_line_preemptions(c):
    """two threads; both are interrupted, at any one source line"""
    a, b = "bare", "hidden"
    ka = c.all("line", range(1, steps_of(a, sched.LINES, False) + 1))
    kb = c.all("other_line", range(1, steps_of(b, sched.LINES, False) + 1))
    check_threads([a, b], [(0, ka), (1, kb), (0, None)], sched.LINES)


def three_threads(c):
    """three threads, each interrupted once, at any call"""
    names = list(c.all("files", [("bare", "latin", "cyrillic")]))
    stride = 23 if c.tier == "quick" else 7
    ks = [c.all("call%d" % i, range(1, steps_of(n, sched.CALLS, False) + 1, stride)) for i, n in enumerate(names)]
    check_threads(names, [(0, ks[0]), (1, ks[1]), (2, ks[2]), (0, None)], sched.CALLS)


def one_instance(c):
    """two threads report the same parsed file; one is interrupted at any one source line"""
    name = c.all("file", INSTANCES)
    k = c.all("line", range(1, steps_of(name, sched.LINES, True) + 1))
    check_threads([name, name], [(0, k), (1, None)], sched.LINES, parse(name))


def in_company(c, f, cp):
    """Any file next to a few others: parsed before, reported after them, and the other way round."""
    other = c.all("other", ["latin", "cyrillic", "wide", "bare", "many", "network", "tails", "values 1"])
    first = c.all("first", ["this", "other"])
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash((b.data, other)))
    kw = {"cp": cp, "allow_terminal_blocks": f.allow_terminal_blocks}
    if first == "this":
        lnk = sut.parse(b.data, **kw)
        second = parse(other)
    else:
        second = parse(other)
        lnk = sut.parse(b.data, **kw)
    for _ in range(2):
        compare("next to %s" % other, b.expect, sut.as_json(lnk, True, b.data), b.data)
        got, expected = observe(other, second)
        compare("the other file", expected, got, b.data)


SCENARIOS = [
    Scenario("histories", histories, 0, 0),
    Scenario("errors_between", errors_between, 0, 0),
    Scenario("neighbours", neighbours, 0, 0),
    Scenario("crowd", crowd, 0, 0, timeout=120),
    Scenario("one_preemption", one_preemption, 0, 0, prepare=prepare),
    Scenario("one_instance", one_instance, 0, 0, prepare=prepare),
    Scenario("two_prints", two_prints, 0, 0, prepare=prepare_printed),
    Scenario("two_preemptions", two_preemptions, 0, 0, prepare=prepare),
    Scenario("two_line_preemptions", two_line_preemptions, None, 0, prepare=prepare),
    Scenario("three_threads", three_threads, 0, 0, prepare=prepare),
    company(check=in_company, quick=1, thorough=2),
    # The last one: from here on, the instructions of the code under test are watched.
    Scenario("within_lines", within_lines, 0, 0, prepare=prepare_spots),
]
