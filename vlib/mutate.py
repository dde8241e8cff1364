"""Bytes that no abstract file lays out, judged by the reference decoder.

`changes` explores one changed byte (and, in the thorough tier, a second one near it) in one part
of every base file; `raw` helpers judge a section made of arbitrary bytes.
"""

from vlib import bases
from vlib import decode
from vlib import engine
from vlib import model as M
from vlib import sut
from vlib import tables as T
from vlib.engine import Scenario
from vlib.engine import Violation

# Values that are sizes, type bytes, flags and ends of ranges somewhere in the format.
EDGES = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x08, 0x09, 0x0C, 0x10, 0x14, 0x1C, 0x1F, 0x20, 0x24, 0x2E, 0x30,
         0x31, 0x34, 0x36, 0x3E, 0x40, 0x5A, 0x61, 0x71, 0x74, 0x7F, 0x80, 0x81, 0xC3, 0xD8, 0xFE, 0xFF]  # fmt: skip
FEW = [0x00, 0x01, 0x04, 0x14, 0x30, 0x7F, 0x80, 0xFF]


def judge(data, names=None, cp=None, allow=True, c=None):
    """(These sections of) the report of any bytes against the reference decoder."""
    if c is not None:
        c.data = data
    kw = {}
    if cp is not None:
        kw["cp"] = cp
    if not allow:
        kw["allow_terminal_blocks"] = False
    got = sut.report(data, **kw)
    expected = decode.report(data, cp or "cp1252", allow)
    engine.STATS.compared += 1
    sut.outcome({k: got.get(k) for k in names} if names else got)
    d = decode.compare(expected, got, names)
    if d:
        raise Violation(d, data=data)
    return expected, got


_PLACES = {}


def places(name):
    """The part of a base file that belongs to each section."""
    if name not in _PLACES:
        _PLACES[name] = decode.report(bases.ALL[name]).places
    return _PLACES[name]


def spread(name, section):
    """The offsets of a section, or of everything."""
    if section is None:
        return range(0, len(bases.ALL[name]))
    if section == "tail":
        data = bases.ALL[name]
        start, _ = places(name)["extra"]
        return range(start, len(data))
    start, end = places(name).get(section, (0, 0))
    return range(start, min(end, len(bases.ALL[name])))


def usable(section, only=None, quick=True):
    """The bases with something in this section; equal sections once."""
    seen = set()
    out = []
    for name, data in bases.ALL.items():
        if only is not None and not only(name):
            continue
        where = spread(name, section)
        if not len(where):
            continue
        key = (data[where.start : where.stop], data[20:22])
        if key not in seen:
            seen.add(key)
            out.append(name)
    return out


def assemble(flags, body, size=0x4C):
    """A header with these link flags in front of arbitrary bytes."""
    return M.Header(flags=flags, size=size).bytes() + body


def listed(region, flags=0):
    """A file whose target ID list consists of these bytes; a string follows."""
    body = M.u16(len(region)) + region + M.u16(3) + "rel".encode("utf-16-le") + M.u32(0)
    return assemble(T.LF["HasTargetIDList"] | T.LF["HasRelativePath"] | T.LF["IsUnicode"] | flags, body)


def blocked(region):
    """A file whose extra data section consists of these bytes."""
    return assemble(T.LF["IsUnicode"], region)


def changes(section, names, about, name="changed_bytes", only=None, long=600, cps=(None,), keep=None):
    """A scenario: every byte of a section of every base file is changed.

    In the quick tier, long sections are changed at every byte near their start and end and
    at every third byte in between; the thorough tier changes all bytes to all values.
    """
    chosen = usable(section, only)

    def fn(c):
        base = c.all("base", chosen)
        data = bases.ALL[base]
        offsets = list(spread(base, section))
        if keep is not None:
            offsets = keep(base, offsets)
            if not offsets:
                return
        if c.tier == "quick" and len(offsets) > long:
            offsets = [n for i, n in enumerate(offsets) if i < long // 2 or i % 3 == 0]
        at = c.all("offset", offsets)
        old = data[at]
        values = range(256) if c.tier == "thorough" else EDGES + [(old + 1) & 255, (old - 1) & 255, old ^ 0x80, old ^ 1]
        value = c.all("value", values)
        changed = data[:at] + bytes([value]) + data[at + 1 :]
        judge(changed, names, c.all("page", cps), c=c)

    fn.__doc__ = about
    return Scenario(name, fn, 0, 0)


# Each power of two and its neighbours: the ends of whatever ranges there may be.
POWERS16 = sorted({((1 << k) + d) & 0xFFFF for k in range(17) for d in (-1, 0, 1)})
POWERS32 = sorted({((1 << k) + d) & 0xFFFFFFFF for k in range(33) for d in (-1, 0, 1)})


def values(section, names, about, name="values", only=None, most=240):
    """A scenario: at every place of a section stands every value of a byte, and every power of two and its neighbours.

    What is at a place takes them in turn as a byte, as a word of two bytes and as a word of four;
    in the thorough tier also every value of each byte of a word of which all other bytes are zero.
    """
    chosen = usable(section, only)

    def fn(c):
        base = c.all("base", chosen)
        data = bases.ALL[base]
        offsets = list(spread(base, section))
        if c.tier == "quick":
            offsets = offsets[:most] + offsets[most:][-8:]
        at = c.all("offset", offsets)
        width = c.all("width", [1, 2, 4])
        if width == 1:
            values = range(256)
        else:
            values = POWERS16 if width == 2 else POWERS32
            if c.tier == "thorough":
                values = sorted(set(values) | {n << 8 * k for n in range(256) for k in range(width)})
        changed = data[:at] + c.all("value", values).to_bytes(width, "little") + data[at + width :]
        judge(changed, names, c=c)

    fn.__doc__ = about
    return Scenario(name, fn, 0, 0)


def edits(section, names, about, name="edited_bytes", only=None, quick=40, behind=0):
    """A scenario: bytes of a section are copied over others of it, removed, repeated or zeroed.

    Copies make any two places of the section equal; the other edits move all that follows.  In
    the quick tier, the places are every byte of short sections and at most `quick` places, evenly
    spread, of longer ones.
    """
    chosen = usable(section, only)

    def fn(c):
        base = c.all("base", chosen)
        data = bases.ALL[base]
        where = spread(base, section)
        where = range(where.start, min(where.stop, where.start + (500 if c.tier == "quick" else 1000)) + behind)
        kind = c.all("edit", ["copy", "remove", "repeat", "zero", "ones"])
        step = max(1, len(where) // (quick if kind == "copy" else 4 * quick)) if c.tier == "quick" else 1
        at = c.all("offset", where[::step])
        width = c.all("bytes", [2, 4, 8, 16] if kind == "copy" else [1, 2, 3, 4, 8, 16, 32])
        if kind == "copy":
            to = c.all("to", where[::step])
            if to == at:
                return
            changed = data[:to] + data[at : at + width] + data[to + width :]
        elif kind == "remove":
            changed = data[:at] + data[at + width :]
        elif kind == "repeat":
            changed = data[: at + width] + data[at:]
        else:
            changed = data[:at] + (b"\0" if kind == "zero" else b"\xff") * width + data[at + width :]
        if len(changed) >= 76:
            judge(changed, names, c=c)

    fn.__doc__ = about
    return Scenario(name, fn, 0, 0)


def two_changes(section, names, about, name="changed_pairs", only=None, reach=16):
    """A scenario: every pair of bytes at most `reach` apart takes edge values (thorough tier)."""
    chosen = usable(section, only)

    def fn(c):
        base = c.all("base", chosen)
        data = bytearray(bases.ALL[base])
        offsets = list(spread(base, section))[:400]
        at = c.all("offset", offsets)
        other = c.all("other", range(at + 1, min(at + reach + 1, offsets[-1] + 1))) if at < offsets[-1] else None
        data[at] = c.all("value", FEW)
        if other is not None:
            data[other] = c.all("value2", FEW)
        judge(bytes(data), names, c=c)

    fn.__doc__ = about
    return Scenario(name, fn, None, 0)


def words(c, alphabet, most, name="word"):
    """Every sequence of at most `most` elements."""
    out = []
    n = c.all("count", range(most + 1))
    for i in range(n):
        out.append(c.all("%s%d" % (name, i), alphabet))
    return b"".join(out)
