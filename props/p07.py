"""P07: framing of the extra data section."""

import itertools

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario

EXTRA = sections("extra", "data", "size")
KINDS = list(S.BLOCKS)


def sequences(c):
    """every sequence of different blocks up to a length, each way of ending the section"""
    top = 3 if c.tier == "quick" else 4
    n = c.all("length", range(top + 1))
    order = c.all("blocks", list(itertools.permutations(KINDS, n)))
    end = c.all("end", [(0, b""), (None, b"")] if n == 4 else ENDS)
    check_file(
        c,
        M.File(strings={"relative_path": "rel"}, extra=[S.BLOCKS[k]() for k in order], terminal=end[0], tail=end[1]),
        EXTRA,
    )


ENDS = [(0, b""), (None, b""), (1, b""), (2, b""), (3, b""), (0, b"appended data"), (2, b"\0\0\0\0"), (3, b"x")]


def signatures(c):
    """which signature selects which decoding, whatever precedes"""
    flips = sorted(
        {s ^ 1 << n for s in M.NAMES for n in range(32)} | {s ^ 0xFFFFFFFF for s in M.NAMES} | set(S.WALK32)
        | {0xA0000000 + n for n in range(0x120)}
        | {int.from_bytes(s.to_bytes(4, "big"), "little") for s in M.NAMES}
    )  # fmt: skip
    signature = c.all("signature", [s for s in flips if s not in M.NAMES])
    before = c.all("before", [[], ["environment"], ["unknown"]])
    body = c.all("body", [b"", b"\x01", b"payload of the block", b"\0" * 64])
    f = M.File(
        strings={"relative_path": "rel"},
        extra=[*(S.BLOCKS[k]() for k in before), M.block_unknown(signature, body), S.BLOCKS["special"]()],
    )
    check_file(c, f, EXTRA)


def padded(c):
    """a block that is bigger than its known fields: the rest is undefined and skipped"""
    kind = c.all("kind", [k for k in KINDS if k not in ("unknown",)])
    pad = c.all("pad", range(0, 64 if c.tier == "quick" else 300))
    filler = c.all("filler", [b"\xff", b"\0", b"\x08", b"\xa0"])
    raw, key, shown = S.BLOCKS[kind]()
    raw = M.u32(len(raw) + pad) + raw[4:] + filler * pad
    shown = dict(shown, size=len(raw))
    f = M.File(
        strings={"relative_path": "rel"},
        extra=[(raw, key, shown), S.BLOCKS["unknown"](), S.BLOCKS["special" if kind != "special" else "known"]()],
    )
    check_file(c, f, EXTRA)


def unknowns(c):
    """every number and order of unknown blocks: each one is reported"""
    n = c.all("number", range(0, 7))
    parts = []
    for i in range(n):
        which = c.all("kind%d" % i, [0, 1])
        parts.append(M.block_unknown(0xA0000100 + i, b"body %d" % i if which else b""))
    known = c.all("known_at", range(n + 1))
    parts.insert(known, S.BLOCKS["tracker"]())
    check_file(c, M.File(extra=parts, terminal=c.all("terminal", [0, None, 3])), EXTRA)


def appended(c):
    """whatever follows the terminal block, of whatever length, is accounted for"""
    value = c.all("terminal", [0, 1, 2, 3])
    n = c.all("length", range(0, 80))
    filler = c.all("filler", [b"\0", b"\xff", b"\x01\0\0\0", M.u32(0x10) + M.u32(0xA0000005) + M.u32(1) + M.u32(2)])
    allow = c.all("allow_terminal_blocks", [True, False])
    f = M.File(
        strings=c.all("strings", [{}, {"relative_path": "rel"}]),
        extra=[S.BLOCKS[k]() for k in c.all("blocks", [[], ["special"], ["unknown", "shim"]])],
        terminal=value,
        tail=(filler * (n + 1))[:n],
        allow_terminal_blocks=allow,
    )
    check_file(c, f, EXTRA)


WORDS = [M.u32(v) for v in (0, 3, 4, 5, 8, 9, 12, 16, 0xA0000004, 0xA0000005, 0xA00000FF, 0xFFFFFFFF)]


def raw(c):
    """any words as extra data"""
    body = mutate.words(c, WORDS, 4 if c.tier == "quick" else 6)
    body += c.all("odd", [b"", b"\x08", b"\0\0\0"])
    allow = c.all("allow_terminal_blocks", [True, False])
    mutate.judge(mutate.blocked(body), ["extra", "size"], allow=allow, c=c)


def large(c):
    """blocks of every order of magnitude, with others behind"""
    kind = c.all("kind", KINDS)
    n = (1 << c.all("power", range(8, 18 if c.tier == "quick" else 21))) + c.all("more", [-8, -1, 0, 1])
    raw, key, shown = S.BLOCKS[kind]()
    if kind == "unknown":
        block = M.block_unknown(0xA00000FF, b"\xff" * n)
    else:
        raw = M.u32(len(raw) + n) + raw[4:] + b"\xff" * n
        block = (raw, key, dict(shown, size=len(raw)))
    f = M.File(
        strings={"relative_path": "rel"},
        extra=[block, M.block_unknown(0xA00000FE, b"x"), S.BLOCKS["special" if kind != "special" else "known"]()],
        tail=c.all("tail", [b"", b"appended"]),
    )
    check_file(c, f, EXTRA)


def crowded(c):
    """hundreds of blocks, a known one among them"""
    n = c.all("number", [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000])
    at = c.all("known_at", [0, n // 2, n])
    body = c.all("body", [b"", b"payload"])
    parts = [M.block_unknown(0xA0000100 + i, body) for i in range(n)]
    parts.insert(at, S.BLOCKS[c.all("known", ["tracker", "special", "shellitem"])]())
    check_file(c, M.File(extra=parts, tail=c.all("tail", [b"", b"appended"])), EXTRA)


SCENARIOS = [
    Scenario("sequences", sequences, 0, 0),
    Scenario("signatures", signatures, 0, 0),
    Scenario("padded", padded, 0, 0),
    Scenario("unknowns", unknowns, 0, 0),
    Scenario("appended", appended, 0, 0),
    Scenario("raw", raw, 0, 0),
    mutate.values("extra", ["extra", "size"], "every place of the extra data holds every value of a byte and every power of two", only=lambda n: n in ("built:plain", "built:ansi", "built:wide", "built:tail", "built:noterm"), most=100),
    mutate.changes("extra", ["extra", "size"], "any byte of the extra data of a built file changed", only=lambda n: n.startswith("built"), long=300),
    Scenario("large", large, 0, 0),
    Scenario("crowded", crowded, 0, 0),
    grow.grown(["extra", "size"], ["extra"], "long blocks and very many blocks"),
    company("extra", "size"),
]
