"""P20: shortcuts stored back to back are separable by their reported size."""

import copy
import hashlib

from vlib import bases
from vlib import engine
from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference

GUID = M.guid_bytes("00021401-0000-0000-C000-000000000046")
TERMINALS = [0, 1, 2, 3]


def kinds():
    out = dict(bases.BUILT)
    out.pop("noterm")
    out.pop("header")
    out["empty"] = lambda: M.File()
    out["ansi_only"] = lambda: M.File(unicode=False, strings={"relative_path": "a"})
    out["idlist"] = lambda: M.File(items=[M.item_root()])
    out["info"] = lambda: M.File(info=S.INFOS["local"]())
    out["blocks"] = lambda: M.File(extra=[S.BLOCKS[k]() for k in ("tracker", "unknown", "shim", "unknown", "known")])
    for k in S.BLOCKS:
        out["block " + k] = lambda k=k: M.File(extra=[S.BLOCKS[k]()])
    return out


KINDS = kinds()
FEW = ["plain", "ansi", "wnet", "users", "store", "tracker", "env", "empty", "blocks", "force", "idlist"]
_CACHE = {}


def one(kind, terminal):
    """One stored shortcut: its bytes and its report."""
    if (kind, terminal) not in _CACHE:
        f = KINDS[kind]()
        f.tail = b""
        f.terminal = terminal
        f.allow_terminal_blocks = False
        b = f.build()
        _CACHE[kind, terminal] = (b.data, b.expect)
    return _CACHE[kind, terminal]


def compare(what, expected, got, data):
    engine.STATS.compared += 1
    d = first_difference(expected, got)
    if d:
        raise Violation("%s: report%s" % (what, d), data=data)


def walk(parts, gap, tail, data):
    """Parse one after the other, each at the place the size of the one before gives."""
    at = 0
    for n, (raw, expected) in enumerate(parts):
        at += len(gap)
        rest = data[at:]
        lnk = sut.parse(rest, allow_terminal_blocks=False)
        got = sut.as_json(lnk, True, rest)
        compare("shortcut %d of %d" % (n + 1, len(parts)), expected, got, data)
        if lnk.size != len(raw):
            raise Violation("shortcut %d has %d bytes, size is %r" % (n + 1, len(raw), lnk.size), data=data)
        # Without telling, what follows is appended data of this one.
        if n == 0 and at == 0:
            whole = copy.deepcopy(expected)
            after = rest[len(raw) :]
            if after:
                whole["extra"]["TERMINAL_BLOCK"] = {
                    "size": 4 + len(after),
                    "appended_data_sha256": hashlib.sha256(after).hexdigest(),
                }
                whole["size"] = len(rest)
            compare("the first shortcut, all the rest appended", whole, sut.report(rest), data)
        at += lnk.size
    if data[at:] != tail:
        raise Violation("the sizes do not add up", data=data)


def put(parts, gap, tail):
    return b"".join(gap + raw for raw, _ in parts) + tail


def containers(c):
    """every sequence of stored shortcuts"""
    n = c.all("count", [1, 2, 3])
    names = FEW if n == 3 else list(KINDS)
    terminals = TERMINALS if n < 3 else [0, 3]
    parts = [one(c.all("file%d" % i, names), c.all("terminal%d" % i, terminals if n == 1 or i == 0 else [0])) for i in range(n)]
    gap = c.all("gap", [b"", GUID])
    tail = c.all("tail", [b"", b"x", b"\0\0\0\0", b"\xab\xfb\xbf\xba", b"\x60\0\0\0\x03\0\0\xa0" + b"\0" * 88])
    data = put(parts, gap, tail)
    c.data = data
    engine.STATS.inputs.add(hash(data))
    walk(parts, gap, tail, data)


def shapes(c):
    """stored shortcuts with any subset of the sections, before every kind of other data"""
    f = S.full_file(
        c.all("unicode", [True, False]),
        items=c.all("items", [False, [], ["root"], ["users", "cplw", "wfile"]]),
        info=c.all("info", [None] + list(S.INFOS)),
        blocks=c.all("blocks", [[], ["special"], ["unknown"], ["shellitem", "unknown"], ["metadata", "shim"]]),
        allow_terminal_blocks=False,
        terminal=c.all("terminal", TERMINALS),
        flags=c.all("flags", [0, 0x100]),
    )
    names = [n for n, _ in M.STRINGS]
    f.strings = {k: f.strings[k] for k in c.all("strings", [[], names[:1], names[3:], names[1:4:2], names])}
    b = f.build()
    tail = c.all("tail", [b"", b"\1\0\0\0", GUID, b"L\0\0\0" + GUID + b"\0" * 60])
    data = b.data + tail
    c.data = data
    engine.STATS.inputs.add(hash(data))
    walk([(b.data, b.expect)], b"", tail, data)


def real(c):
    """two real files back to back: the first one ends where it ends alone"""
    first = bases.REAL[c.all("file", list(bases.REAL))]
    second = bases.REAL[c.all("second", list(bases.REAL))]
    alone = sut.parse(first, allow_terminal_blocks=False)
    c.data = first + second
    engine.STATS.inputs.add(hash(c.data))
    report = sut.as_json(alone, True, first)
    if alone.size != len(first) or first[-4:] != b"\0\0\0\0":
        return  # appended data, or something is cut off
    lnk = sut.parse(first + second, allow_terminal_blocks=False)
    compare("the first of two", report, sut.as_json(lnk, True, first + second), c.data)
    rest = (first + second)[lnk.size :]
    compare("the second of two", sut.report(second), sut.report(rest), c.data)


def small_blocks(c):
    """stored shortcuts whose blocks have any size, before another shortcut"""
    n = c.all("size", range(8, 400))
    signature = c.all("signature", [0xA00000FF, 0xA0000008, 0x00021401])
    block = (M.u32(n) + M.u32(signature) + bytes(range(1, 251)) * 2)[:n]
    before = c.all("before", [b"", S.BLOCKS["special"]()[0]])
    behind = c.all("behind", [b"", S.BLOCKS["codepage"]()[0]])
    strings = c.all("strings", [b"", M.u16(3) + b"rel"])
    first = mutate.assemble(8 if strings else 0, strings + before + block + behind + M.u32(0))
    tail = c.all("tail", [b"", one("plain", 0)[0]])
    _, got = mutate.judge(first + tail, allow=False, c=c)
    if got["size"] != len(first):
        raise Violation("%d bytes are stored, the size is %d" % (len(first), got["size"]), data=first + tail)


def changed_bytes(c):
    """any byte of a stored shortcut changed"""
    name = c.all("file", ["built:" + k for k in bases.SMALL])
    data = bases.ALL[name]
    at = c.all("offset", range(0x4C, len(data)))
    value = c.all("value", mutate.FEW if c.tier == "quick" else mutate.EDGES)
    changed = data[:at] + bytes([value]) + data[at + 1 :]
    mutate.judge(changed + one("empty", 0)[0], allow=False, c=c)


BEHIND = ["shortcut", b"", b"\0" * 4, b"\0" * 8, b"\1", b"\0", GUID, b"\xab\xfb\xbf\xba", M.block_codepage()[0]]
FAR = [b"\0" * 70000, b"\1" * 70000, b"L\0\0\0" + GUID + b"\xff" * 70000, (M.block_codepage()[0] * 6000)[: 1 << 16]]


def large(c):
    """stored shortcuts with big parts, before another one"""
    n = (1 << c.all("power", range(9, 18))) + c.all("more", [-1, 0, 1])
    part = c.all("part", ["string", "block", "known", "info", "items"])
    f = S.full_file(c.all("unicode", [True, False]), allow_terminal_blocks=False, terminal=c.all("terminal", TERMINALS))
    if part == "string" and n < 1 << 16:
        f.strings["icon_location"] = "y" * n
    elif part == "block":
        f.extra.append(M.block_unknown(0xA00000FF, b"\0" * n))
    elif part == "known":
        f.extra.append(M.block_shim("z" * (n // 2)))
    elif part == "info":
        f.info.tail = b"\1" * n
    elif part == "items" and n < 60000:
        f.items_tail = b"\0" * n
    else:
        return
    b = f.build()
    parts, tail = [(b.data, b.expect)], b""
    behind = c.all("behind", BEHIND)
    if behind == "shortcut":
        parts.append(one("plain", 0))
    else:
        tail = behind
    data = put(parts, b"", tail)
    c.data = data
    engine.STATS.inputs.add(hash(data))
    walk(parts, b"", tail, data)


def grown_stored(c, f, b):
    """the shortcut, before very much else"""
    f.terminal = c.all("terminal", TERMINALS if c.tier == "thorough" or len(b.data) < 400 else [3])
    b = f.build()
    tail = c.all("behind", FAR if c.tier == "thorough" or len(b.data) < 400 else FAR[:1])
    mutate.judge(b.data + tail, allow=False, c=c)


SCENARIOS = [
    Scenario("containers", containers, 0, 0),
    Scenario("shapes", shapes, 0, 0),
    Scenario("real", real, 0, 0),
    Scenario("small_blocks", small_blocks, 0, 0),
    Scenario("changed_bytes", changed_bytes, 0, 0),
    Scenario("large", large, 0, 0),
    grow.grown(None, ["target", "link_info", "data", "extra", "store"], "every part long, or of very many structures, before very much else", check=grown_stored, allow=False),
    company("size"),
]
