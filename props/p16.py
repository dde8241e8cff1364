"""P16: parsing and reporting end, after work that grows no faster than the file."""

import time

import yaml

from vlib import alloc
from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import steps
from vlib import sut
from vlib.engine import Scenario
from vlib.engine import Violation

# Far above what any file needs (about 10 lines a byte), far below what quadratic work would need.
BUDGET = {"json": (24000, 150), "all": (60000, 500), "print": (60000, 500)}
# The same for the bytes allocated (at most about 1300 a byte).
MEMORY, MEMORY_PER_BYTE = 3 << 20, 6000


def short_dump(data, stream=None, *args, **kw):
    if stream is None:
        return "x: y\n"
    stream.write("x: y\n")


def everything(data, which):
    lnk = sut.LnkFile(indata=data)
    if which in ("json", "all"):
        lnk.get_json(True)
        lnk.get_json(False)
        lnk.lnk_command
    if which == "print":
        # What YAML itself does with the report is none of the work of this code.
        dump = yaml.dump
        yaml.dump = short_dump
        try:
            sut.printed(lnk, "print_lnk_file", True)
        finally:
            yaml.dump = dump
        sut.printed(lnk, "print_json", True)
        sut.printed(lnk, "print_shortcut_target")
    if which == "all":
        sut.printed(lnk, "print_json", True)
        sut.printed(lnk, "print_lnk_file", True)
        sut.printed(lnk, "print_shortcut_target")


def measure(data, which="json"):
    """Lines executed for this file; a file that needs more than its share is a violation."""
    base, per_byte = BUDGET[which]
    budget = base + per_byte * len(data)
    engine.STATS.inputs.add(hash(data))
    engine.STATS.compared += 1
    allocated = [0]
    with sut.guard("parsing and reporting", data):
        try:
            if which != "json":
                return steps.count(lambda: everything(data, which), budget)

            def counted():
                allocated[0] = alloc.count(lambda: everything(data, which))

            lines = steps.count(counted, budget)
        except steps.TooMuchWork:
            raise Violation(
                "%d bytes need more than %d executed lines" % (len(data), budget), data=data
            ) from None
    if allocated[0] > MEMORY + MEMORY_PER_BYTE * len(data):
        raise Violation("%d bytes make the parser allocate %d bytes" % (len(data), allocated[0]), data=data)
    return lines


def sized(c):
    """hostile sizes, counts and offsets at every place of every kind of file"""
    name = c.all("file", list(bases.BUILT))
    base = bases.ALL["built:" + name]
    at = c.all("offset", range(0, len(base), 1 if c.tier == "thorough" else 2))
    value, width = c.all("value", [(0, 2), (1, 2), (2, 2), (3, 2), (0xFFFF, 2), (0, 4), (1, 4), (4, 4), (8, 4),
                                   (0x7FFFFFFF, 4), (0x80000000, 4), (0xFFFFFFFF, 4)])  # fmt: skip
    data = (base[:at] + value.to_bytes(width, "little") + base[at + width :])[: max(len(base), 76)]
    c.data = data
    engine.STATS.outcomes.add(measure(data))


def framing(c):
    """pairs of size fields, both hostile"""
    name = c.all("file", bases.SMALL)
    b = bases.BUILT[name]().build()
    fields = [p for p in b.parts if p[0].endswith((".size", ".count")) or p[0] == "terminal"]
    i = c.all("field", range(len(fields)))
    j = c.all("other", range(len(fields)))
    if j <= i:
        return
    data = bytearray(b.data)
    for k, n in ((i, "value"), (j, "other_value")):
        _, start, end = fields[k]
        width = end - start
        value = c.all(n, [0, 1, 2, 3, 4, 5, 8, 255, 256 ** width // 2, 256 ** width - 1])
        data[start:end] = value.to_bytes(width, "little")
    data = bytes(data)
    c.data = data
    engine.STATS.outcomes.add(measure(data))


def real(c):
    """real files"""
    name = c.all("file", list(bases.REAL))
    data = bases.REAL[name]
    c.data = data
    measure(data, c.all("reports", ["json", "all"]))


def _u(n):
    return n.to_bytes(4, "little")


# Files that consist of one structure again and again, as small as it gets.
GROW = {
    "items": lambda n: M.File(items=[M.item_root()] * min(n // 20, 3000)),
    "tiny items": lambda n: M.File(items=[M.item_plain(0x61, b"")] * min(n // 3, 20000)),
    "unknown items": lambda n: M.File(items=[M.item_plain(0x10, b"")] * min(n // 3, 20000)),
    "one big item": lambda n: M.File(items=[M.item_file(2, "x" * min(n, 60000))]),
    "string": lambda n: M.File(strings={"icon_location": "x" * min(n // 2, 65535)}),
    "ansi string": lambda n: M.File(strings={"icon_location": "x" * min(n, 65535)}, unicode=False),
    "unknown blocks": lambda n: M.File(extra=[M.block_unknown(0xA00000FF, b"")] * (n // 8)),
    "known blocks": lambda n: M.File(extra=[M.block_codepage()] * (n // 12)),
    "one big block": lambda n: M.File(extra=[M.block_unknown(0xA00000FF, b"x" * n)]),
    "metadata": lambda n: M.File(extra=[M.block_metadata([M.property_storage(S.G1, [])] * (n // 28))]),
    "properties": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(4, 0x02, 1)] * (n // 17))])]
    ),
    "named properties": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str("a", 0x1F, "b")] * (n // 26))])]
    ),
    "shell items": lambda n: M.File(extra=[M.block_shell_item([M.item_plain(0x61, b"")] * (n // 3))]),
    "metadata blocks": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(4, 0x02, 1)])])] * (n // 53)
    ),
    "shim": lambda n: M.File(extra=[M.block_shim("x" * (n // 2))]),
    "appended": lambda n: M.File(tail=b"x" * n),
    "base path": lambda n: M.File(info=M.Info(flags=1, base_path="x" * n)),
    "net name": lambda n: M.File(info=M.Info(flags=2, net_name="x" * n)),
    "no terminator": lambda n: M.File(
        info=M.Info(flags=3), extra=[M.block_unknown(0xA00000FF, b"x" * n)], terminal=None
    ),
}


def many(n, size, of, least=1):
    return [of(i) for i in range(max(least, n // size))]


# The same, of structures that all differ.
GROW.update({
    "different items": lambda n: M.File(items=many(min(n, 60000), 26, lambda i: M.item_file(2, "n%05d" % i, i))),
    "different roots": lambda n: M.File(items=many(min(n, 60000), 20, lambda i: M.item_root(guid="%08X-0000-0000-0000-000000000000" % i))),
    "different unknown items": lambda n: M.File(items=many(min(n, 60000), 7, lambda i: M.item_plain(0x10, M.u32(i)))),
    "different unknown blocks": lambda n: M.File(extra=many(n, 16, lambda i: M.block_unknown(0xA00000FF, M.u64(i)))),
    "different signatures": lambda n: M.File(extra=many(n, 8, lambda i: M.block_unknown(0xB0000000 + i, b""))),
    "different properties": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(S.G1, many(n, 17, lambda i: M.property_int(i + 2, 0x02, i & 0x7FFF)))])]
    ),
    "different names": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, many(n, 37, lambda i: M.property_str("n%05d" % i, 0x1F, "v")))])]
    ),
    "different texts": lambda n: M.File(
        extra=[M.block_metadata([M.property_storage(S.G1, many(n, 37, lambda i: M.property_int(4, 0x1F, "t%05d" % i)))])]
    ),
    "different storages": lambda n: M.File(
        extra=[M.block_metadata(many(n, 28, lambda i: M.property_storage("%08X-0000-0000-0000-000000000000" % i, [])))]
    ),
    "different shell items": lambda n: M.File(
        extra=[M.block_shell_item(many(n, 26, lambda i: M.item_file(2, "n%05d" % i, i)))]
    ),
    "different characters": lambda n: M.File(
        strings={"icon_location": "".join(chr(0x100 + i % 0xD000) for i in range(min(n // 2, 65535)))}
    ),
    "words": lambda n: M.File(
        strings={"command_line_arguments": " ".join("w%05d" % i for i in range(min(n // 14, 9000)))}
    ),
    "path": lambda n: M.File(info=M.Info(flags=1, base_path="".join("\\d%05d" % i for i in range(max(1, n // 7))))),
    "dates": lambda n: M.File(items=many(min(n, 60000), 26, lambda i: M.item_file(2, "n", i, M.dos_date(1980 + i % 100, 1 + i % 12, 1 + i % 28), i & 0x7FF))),
})  # fmt: skip


def laid_out(kind, n):
    """The bytes; kinds whose expectation the model does not hold (repeated known blocks) included."""
    return GROW[kind](n).build().data


def growing(c):
    """every structure repeated: four times the file is at most about four times the work"""
    kind = c.all("kind", list(GROW))
    n = c.all("bytes", [1 << k for k in range(6, 15 if c.tier == "quick" else 17)])
    which = c.all("reports", ["json", "print", "all"] if n <= 4096 else ["json", "print"])
    small, large = laid_out(kind, n), laid_out(kind, 4 * n)
    c.data = large
    a, b = measure(small, which), measure(large, which)
    engine.STATS.compared += 1
    grown = len(large) / len(small)
    if b > 1.5 * grown * a + 2000:
        raise Violation(
            "%d bytes need %d executed lines, %d bytes need %d" % (len(small), a, len(large), b), data=large
        )


def overlapping(c):
    """link info whose offsets all point to the same long text"""
    n = c.all("bytes", [256, 1024, 4096, 16384])
    flags = c.all("flags", [0, 1, 2, 3])
    header = c.all("header_size", [0x1C, 0x24])
    to = c.all("target", ["start", "text", "end", "out"])
    where = {"start": 0, "text": 36, "end": n + 35, "out": 0x7FFFFFFF}[to]
    size = c.all("size", [36, 36 + n, 0xFFFFFFFF])
    fill = c.all("fill", [b"x", b"\x24", b"\x1c\0\0\0", b"\0\x01"])
    body = _u(size) + _u(header) + _u(flags) + 6 * _u(where) + (fill * n)[:n]
    f = M.File(strings={"relative_path": "r"}, terminal=None)
    f.flags = 2 | c.all("other", [0, 0x100])
    b = f.build()
    data = b.data[:76] + body + b.data[76:]
    c.data = data
    engine.STATS.outcomes.add(measure(data))


class Metered(bytes):
    """Bytes that count how many of them are copied, searched, decoded, ... (and so do their slices)."""

    copied = 0

    def __getitem__(self, key):
        out = bytes.__getitem__(self, key)
        if isinstance(key, slice):
            Metered.copied += len(out)
            return Metered(out)
        return out


COPIES = 100  # far above the number of times any byte is copied (about 20), far below a quadratic number


def _metered(name, cost):
    plain = getattr(bytes, name)

    def method(self, *args):
        Metered.copied += cost(self)
        return plain(self, *args)

    setattr(Metered, name, method)


for _name in ("split", "rsplit", "splitlines", "partition", "rpartition", "replace", "translate", "join", "decode", "hex",
              "strip", "lstrip", "rstrip", "ljust", "rjust", "zfill", "lower", "upper", "count", "__add__", "__hash__",
              "__eq__", "__ne__", "__iter__"):  # fmt: skip
    _metered(_name, len)


def _searching(name):
    plain = getattr(bytes, name)

    def method(self, what, *where):
        # What is looked at: up to the place where it is found.
        found = bytes.find(self, what, *where)
        Metered.copied += (found if found >= 0 else len(self)) - (where[0] if where and where[0] else 0)
        return plain(self, what, *where)

    setattr(Metered, name, method)


for _name in ("find", "index", "__contains__"):
    _searching(_name)


def copies(c):
    """work that no line shows: the bytes copied into slices"""
    kind = c.all("kind", list(GROW))
    n = c.all("bytes", [1 << k for k in (10, 14, 17)])
    data = laid_out(kind, n)
    c.data = data
    engine.STATS.inputs.add(hash(data))
    Metered.copied = 0
    with sut.guard("parsing and reporting", data):
        lnk = sut.LnkFile(indata=Metered(data))
        lnk.get_json(True)
        lnk.get_json(False)
    engine.STATS.compared += 1
    if Metered.copied > COPIES * (len(data) + 1000):
        raise Violation("parsing %d bytes copies %d bytes" % (len(data), Metered.copied), data=data)
    engine.STATS.outcomes.add(Metered.copied // len(data))


def allocations(c):
    """work that no line shows: the memory allocated, by every structure repeated"""
    kind = c.all("kind", list(GROW))
    n = c.all("bytes", [1 << k for k in range(8, 16 if c.tier == "quick" else 19)])
    which = c.all("reports", ["json", "print"])
    counts = []
    for data in (laid_out(kind, n), laid_out(kind, 4 * n)):
        c.data = data
        engine.STATS.inputs.add(hash(data))
        with sut.guard("parsing and reporting", data):
            counts.append((len(data), alloc.count(lambda: everything(data, which))))
    engine.STATS.compared += 1
    (a, small), (b, large) = counts
    if large > 1.5 * b / a * small + 300000:
        raise Violation("for %d bytes, %d bytes are allocated, for %d bytes %d" % (a, small, b, large), data=data)
    engine.STATS.outcomes.add(small // a)


def comparisons(c):
    """work that no line shows: the comparisons made by the built-in types, by every structure repeated"""
    kind = c.all("kind", list(GROW))
    n = c.all("bytes", [1 << k for k in range(8, 16 if c.tier == "quick" else 19)])
    which = c.all("reports", ["json", "print"])
    counts = []
    for data in (laid_out(kind, n), laid_out(kind, 4 * n)):
        c.data = data
        engine.STATS.inputs.add(hash(data))
        with sut.guard("parsing and reporting", data):
            counts.append((len(data), alloc.compared(lambda: everything(data, which))))
    engine.STATS.compared += 1
    (a, small), (b, large) = counts
    if large > 2 * b / a * small + 20 * b + 10000:
        raise Violation("for %d bytes, %d comparisons are made, for %d bytes %d" % (a, small, b, large), data=data)
    engine.STATS.outcomes.add(small // a)


def processor(data, which="json"):
    t = time.process_time()
    with sut.guard("parsing and reporting", data):
        everything(data, which)
    return time.process_time() - t


def seconds(c):
    """work that nothing counts: the time used, which noise must not be able to explain"""
    kind = c.all("kind", list(GROW))
    which = c.all("reports", ["json", "print"])
    small, large = laid_out(kind, 4096), laid_out(kind, 65536 if c.tier == "quick" else 1 << 20)
    c.data = large
    engine.STATS.inputs.add(hash(large))
    engine.STATS.compared += 1
    for _ in range(4):
        a, b = processor(small, which), processor(large, which)
        if b < 1 or b < 6 * a * len(large) / len(small):
            return
    raise Violation("%d bytes take %.3f s, %d bytes %.3f s" % (len(small), a, len(large), b), data=large)


PATTERNS = {
    "blanks": " ", "tabs": "\t", "lines": "\n", "backslashes": "\\", "quotes": '"', "percents": "%", "up": "..\\", "down": "../", "dots": ".",
    "words": "a ", "escaped": '\\"', "ends": "a.lnk ", "variables": "%a%", "arguments": "-a=b ", "drives": "C:\\", "colons": ":", "commas": ",-1",
    "capitals": "Aa", "digits": "0", "braces": "{}", "ampersands": "&amp;", "stars": "*", "surrogates": "\U0001f600", "accents": "e\u0301", "ones": "\xff",
}  # fmt: skip
FIELDS = {
    "arguments": (65535, lambda t: M.File(strings={"command_line_arguments": t})),
    "path and arguments": (65535, lambda t: M.File(strings={"relative_path": t[:260], "command_line_arguments": t})),
    "icon": (65535, lambda t: M.File(strings={"icon_location": t})),
    "base path": (1 << 17, lambda t: M.File(info=M.Info(flags=1, header_size=0x24, base_path_w=t))),
    "suffix": (1 << 17, lambda t: M.File(info=M.Info(flags=1, header_size=0x24, suffix_w=t))),
    "net name": (1 << 17, lambda t: M.File(info=M.Info(flags=2, net_flags=3, net_name_w=t, device_name_w="D:"))),
    "label": (1 << 17, lambda t: M.File(info=M.Info(flags=1, label_w=t))),
    "shim": (1 << 17, lambda t: M.File(extra=[M.block_shim(t)])),
    "file name": (32000, lambda t: M.File(items=[M.item_root(), M.item_file(6, t)])),
    "panel": (32000, lambda t: M.File(items=[M.item_cpl(True, path=t)])),
    "property": (1 << 17, lambda t: M.File(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 0x1F, t)])])])),
    "property name": (1 << 17, lambda t: M.File(extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str(t, 2, 5)])])])),
}  # fmt: skip


def searching(c):
    """texts that make careless searches start again and again: the time used"""
    most, of = FIELDS[c.all("field", list(FIELDS))]
    pattern = PATTERNS[c.all("pattern", list(PATTERNS))]
    last = c.all("last", ["x", ""])
    units = len(M.wide(pattern)) // 2

    def lay(n):
        return of(pattern * ((n - 1) // units) + last).build().data

    small, large = lay(2048), lay(most)
    c.data = large
    engine.STATS.inputs.add(hash(large))
    engine.STATS.compared += 1
    for _ in range(4):
        b = processor(large)
        if b < 0.3:
            return
        a = processor(small)
        if b < 6 * a * len(large) / len(small):
            return
    raise Violation("%d bytes take %.3f s, %d bytes %.3f s" % (len(small), a, len(large), b), data=large)


def nested(c):
    """property storages and values whose sizes lie about each other"""
    sizes = [0, 1, 2, 3, 4, 8, 9, 13, 24, 28, 0x7FFFFFFF, 0xFFFFFFFF]
    block, storage, value = c.all("block", [None] + sizes), c.all("storage", sizes), c.all("value", sizes)
    vt = c.all("vt", [0x02, 0x1F, 0x40, 0x101F])
    named = c.all("named", [False, True])
    from_id = M.guid_bytes(M.STRING_NAMED if named else S.G1)
    repeat = c.all("repeat", [1, 40])
    one = _u(value) + _u(4) + b"\0" + _u(vt) + _u(0xFFFFFFFF) + b"abcd\0\0"
    store = (_u(storage) + b"1SPS" + from_id + one * repeat) * repeat
    size = 8 + len(store) if block is None else block
    f = M.File(terminal=None)
    data = f.build().data + _u(size) + _u(0xA0000009) + store
    c.data = data
    engine.STATS.outcomes.add(measure(data))


alloc.load()
SCENARIOS = [
    Scenario("real", real, 0, 0),
    Scenario("growing", growing, 0, 0, timeout=300),
    Scenario("allocations", allocations, 0, 0, timeout=300),
    Scenario("copies", copies, 0, 0, timeout=300),
    Scenario("comparisons", comparisons, 0, 0, timeout=300),
    Scenario("seconds", seconds, 0, 0, timeout=600),
    Scenario("searching", searching, 0, 0, timeout=600),
    Scenario("framing", framing, 0, 0, timeout=60),
    Scenario("overlapping", overlapping, 0, 0, timeout=60),
    Scenario("nested", nested, 0, 0, timeout=60),
    Scenario("sized", sized, 0, 0, timeout=60),
]
