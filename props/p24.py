"""P24: data that is hidden in a file is accounted for: each byte of it shows in a digest."""

import hashlib

from vlib import bases
from vlib import engine
from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import sut
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation

EXTRA = sections("extra", "size")
KNOWN = sorted(M.NAMES)
SIZES = list(range(0, 70)) + [127, 128, 255, 256, 511, 512, 1000, 4095, 4096, 65535, 65536, 70001]
TERMINAL_LIKE = [b"\0\0\0\0", b"\3\0\0\0" * 3, b"\x08\0\0\0\x05\0\0\xa0", b"L\0\0\0\x01\x14\x02\0", b"MZ\x90\0"]


def body(n, seed=0):
    return bytes((i * 7 + (i >> 8) + seed) & 0xFF for i in range(n))


def unknown_sizes(c):
    """unknown blocks of every size, alone and between others"""
    n = c.all("size", SIZES)
    seed = c.all("seed", [0, 129])
    place = c.all("place", ["alone", "first", "middle", "last"])
    block = M.block_unknown(c.all("signature", [0xA00000FF, 0, 0xFFFFFFFF]), body(n, seed))
    other = [S.BLOCKS["special"](), S.BLOCKS["unknown"]()]
    extra = {"alone": [block], "first": [block] + other, "middle": other[:1] + [block] + other[1:], "last": other + [block]}
    check_file(c, M.File(extra=extra[place], terminal=c.all("terminal", [0, None])), EXTRA)


def signatures(c):
    """a signature that differs from a known one in any byte is that of an unknown block"""
    near = c.all("near", KNOWN)
    at, v = c.all("byte", range(4)), c.all("value", range(256))
    signature = near & ~(0xFF << 8 * at) | v << 8 * at
    if signature in M.NAMES:
        return
    check_file(c, M.File(extra=[M.block_unknown(signature, body(40)), S.BLOCKS["codepage"]()]), EXTRA)


def appended(c):
    """data behind the terminal block, of every size and of misleading contents"""
    n = c.all("size", SIZES[1:])
    start = c.all("start", [b""] + TERMINAL_LIKE)
    data = (start + body(n))[: max(n, len(start))]
    f = M.File(
        terminal=c.all("terminal", [0, 1, 2, 3]),
        tail=data,
        extra=[S.BLOCKS[k]() for k in c.all("blocks", [[], ["special"], ["unknown", "unknown"]])],
        strings=c.all("strings", [{}, {"relative_path": "rel"}]),
    )
    check_file(c, f, EXTRA)


def many(c):
    """several unknown blocks: all are listed, in order, among the known ones"""
    pieces = [M.block_unknown(0xA00000FF, b"one"), M.block_unknown(0xA00000FE, b"two two"), M.block_unknown(0x1, b""),
              S.BLOCKS["special"](), S.BLOCKS["codepage"](), M.block_unknown(0xA00000FF, b"one")]  # fmt: skip
    n = c.all("count", range(0, 5))
    chosen = [c.all("block%d" % i, range(len(pieces))) for i in range(n)]
    if any(chosen.count(k) > 1 for k in (3, 4)):
        return
    tail = c.all("tail", [b"", b"appended"])
    check_file(c, M.File(extra=[pieces[k] for k in chosen], tail=tail), EXTRA)


def flips(c):
    """every bit of the hidden data changes the digest of the part it is in, and no other"""
    f = M.File(
        extra=[M.block_unknown(0xA00000FF, body(37)), S.BLOCKS["special"](), M.block_unknown(0xB0000001, body(21, 5))],
        tail=body(53, 9),
    )
    b = f.build()
    at = c.all("offset", range(0x4C, len(b.data)))
    part = next(n for n, s, e in b.parts if s <= at < e)
    if part not in ("block0.body", "block2.body", "tail"):
        return
    data = b.data[:at] + bytes([b.data[at] ^ 1 << c.all("bit", range(8))]) + b.data[at + 1 :]
    c.data = data
    engine.STATS.inputs.add(hash(data))
    got = sut.report(data)["extra"]
    start, end = next((s, e) for n, s, e in b.parts if n == part)
    old = b.expect["extra"]
    engine.STATS.compared += 3
    # What is digested: an unknown block from its signature on, appended data as it is.
    if part == "tail":
        expected = hashlib.sha256(data[start:end]).hexdigest()
        if got["TERMINAL_BLOCK"]["appended_data_sha256"] != expected:
            raise Violation("wrong digest of the appended data", data=data)
        if got["UNKNOWN_BLOCK"] != old["UNKNOWN_BLOCK"]:
            raise Violation("the digest of an unknown block changes", data=data)
        return
    n = 0 if part == "block0.body" else 1
    expected = hashlib.sha256(data[start - 4 : end]).hexdigest()
    if got["UNKNOWN_BLOCK"][n]["extra_data_sha256"] != expected:
        raise Violation("wrong digest of unknown block %d" % n, data=data)
    if got["UNKNOWN_BLOCK"][1 - n] != old["UNKNOWN_BLOCK"][1 - n] or got["TERMINAL_BLOCK"] != old["TERMINAL_BLOCK"]:
        raise Violation("the digest of another part changes", data=data)


def behind_real(c):
    """a payload behind, or an unknown block inside, a real file"""
    name = c.all("file", list(bases.REAL))
    data = bases.REAL[name]
    lnk = sut.parse(data, allow_terminal_blocks=False)
    before = sut.as_json(lnk, True, data)
    if lnk.size != len(data) or data[-4:] != b"\0\0\0\0":
        return
    n = c.all("size", SIZES[1:40] + [4096])
    payload = body(n, c.all("seed", [0, 77]))
    how = c.all("how", ["appended", "block"])
    if how == "appended":
        changed = data + payload
        entry = {"size": 4 + n, "appended_data_sha256": hashlib.sha256(payload).hexdigest()}
        expected = dict(before["extra"], TERMINAL_BLOCK=entry)
    else:
        raw, _, shown = M.block_unknown(0xA00000EE, payload)
        changed = data[:-4] + raw + data[-4:]
        expected = dict(before["extra"])
        expected["UNKNOWN_BLOCK"] = expected.get("UNKNOWN_BLOCK", []) + [shown]
    c.data = changed
    engine.STATS.inputs.add(hash(changed))
    sut.same(expected, sut.report(changed)["extra"], "report.extra", changed)


def large(c):
    """hidden data of every order of magnitude, around each power of two"""
    top = 21 if c.tier == "quick" else 24
    n = (1 << c.all("power", range(8, top + 1))) + c.all("more", [-1, 0, 1])
    kind = c.all("kind", ["appended", "block", "both"])
    data = body(4099, 3) * (n // 4099 + 1)
    data = data[:n]
    f = M.File(
        extra=[M.block_unknown(0xA00000FF, data)] if kind != "appended" else [S.BLOCKS["special"]()],
        tail=data if kind != "block" else b"",
    )
    b = f.build()
    c.data = "%s of %d bytes" % (kind, n)
    got = sut.report(b.data)
    engine.STATS.compared += 1
    d = sut.first_difference(EXTRA(b.expect), EXTRA(got))
    if d:
        raise Violation("%s of %d bytes: report%s" % (kind, n, d))


PIECES = {"zeros": b"\0", "ones": b"\xff", "text": b"0123456789abcdef", "count": bytes(range(256)), "blanks": b" "}


def chunks(c):
    """hidden data made of pieces of equal size, each of one kind of contents"""
    n = 1 << c.all("power", [9, 12, 13, 16, 20] if c.tier == "quick" else range(4, 23))
    kinds = [c.all("piece%d" % i, list(PIECES)) for i in range(3)]
    end = c.all("end", [b"", b"x", b"\0"])
    kind = c.all("kind", ["appended", "block"])
    data = b"".join(PIECES[k] * (n // len(PIECES[k])) for k in kinds) + end
    b = M.File(extra=[M.block_unknown(0xA00000FF, data)] if kind == "block" else [], tail=data if kind != "block" else b"").build()
    c.data = "%s: three times %d bytes, %s and %r" % (kind, n, kinds, end)
    engine.STATS.inputs.add((n, tuple(kinds), end, kind))
    got = sut.report(b.data)
    engine.STATS.compared += 1
    d = sut.first_difference(EXTRA(b.expect), EXTRA(got))
    if d:
        raise Violation("%s: report%s" % (c.data, d))


def raw(c):
    """any words as extra data: what is hidden in them"""
    alphabet = [M.u32(v) for v in (0, 3, 4, 8, 12, 0xA0000005, 0xA00000FF, 0xFFFFFFFF)]
    data = mutate.words(c, alphabet, 4 if c.tier == "quick" else 6) + c.all("odd", [b"", b"\x08\0", b"\0\0\0"])
    mutate.judge(mutate.blocked(data), ["extra", "size"], c=c)


SCENARIOS = [
    Scenario("flips", flips, 0, 0),
    Scenario("many", many, 0, 0),
    Scenario("unknown_sizes", unknown_sizes, 0, 0),
    Scenario("signatures", signatures, 0, 0),
    Scenario("appended", appended, 0, 0),
    Scenario("behind_real", behind_real, 0, 0),
    Scenario("large", large, 0, 0),
    Scenario("chunks", chunks, 0, 0),
    Scenario("raw", raw, 0, 0),
    mutate.values("tail", ["extra", "size"], "every place of the extra data holds every value of a byte and every power of two", only=lambda n: n in ("built:tail", "built:store"), most=120),
    mutate.changes("tail", ["extra", "size"], "any byte of the extra data of files with hidden data changed", only=lambda n: n in ("built:tail", "built:store", "real:unknown_block", "real:extra_data"), long=300),
    grow.grown(["extra", "size"], ["extra"], "long blocks and very many blocks"),
    company("extra", "size"),
]
