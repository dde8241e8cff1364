"""P05: LinkInfo."""

import itertools

from vlib import grow
from vlib import model as M
from vlib import mutate
from vlib import samples as S
from vlib import tables as T
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario
from vlib.vocabulary import vocabulary

INFO = sections("link_info", "data", "size")


def check(c, info, key=None, **kw):
    check_file(c, M.File(info=info, strings={"relative_path": "rel"}, **kw), INFO, key=key)


def shapes(c):
    """which parts are present, in either encoding, with every kind of string and filler"""
    flags = c.all("flags", [1, 2, 3, 0, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFFF])
    header = c.all("header_size", [0x1C, 0x24, 0x28, 0x40])
    kw = dict(flags=flags, header_size=header)
    wide = c.all("wide", [False, True]) if header >= 0x24 else False
    kw["suffix"] = c.pick("suffix", ["suffix"] + S.ANSI_TEXT)
    if wide:
        kw["suffix_w"] = c.pick("suffix_w", ["wsuffix"] + S.WIDE_TEXT)
    if flags & 1:
        kw["base_path"] = c.pick("base_path", ["C:\\dir\\file.txt"] + S.ANSI_TEXT)
        kw["drive_type"] = c.pick("drive_type", [3, 0, 1, 2, 4, 5, 6, 7, 8, 255, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
        kw["serial"] = c.pick("serial", [0x1234ABCD, 0, 1, 0x0F, 0x80000000, 0xFFFFFFFF])
        kw["label_gap"] = c.pick("label_gap", [0, 1, 2, 8])
        if c.all("label_kind", ["ansi", "unicode"]) == "unicode":
            kw["label_w"] = c.pick("label_w", ["wlabel"] + S.WIDE_TEXT)
        else:
            kw["label"] = c.pick("label", ["DISK"] + S.ANSI_TEXT)
        if wide:
            kw["base_path_w"] = c.pick("base_path_w", ["wbase"] + S.WIDE_TEXT)
    if flags & 2:
        kw["net_flags"] = c.all("net_flags", [2, 0, 1, 3])
        kw["net_name"] = c.pick("net_name", ["\\\\srv\\share"] + S.ANSI_TEXT)
        kw["device_name"] = c.pick("device_name", ["Z:"] + S.ANSI_TEXT)
        kw["provider"] = c.pick("provider", [0x00200000, 0x001A0000, 0, 0x00430000, 0x00280000, 0xFFFFFFFF])
        if c.all("net_kind", ["ansi", "unicode"]) == "unicode":
            kw["net_name_w"] = c.pick("net_name_w", ["wnet"] + S.WIDE_TEXT)
            kw["device_name_w"] = c.pick("device_name_w", ["wdev"] + S.WIDE_TEXT)
    kw["gap"] = c.pick("gap", [0, 1, 2, 7])
    kw["tail"] = c.pick("tail", [b"", b"\0", b"\xbb" * 9])
    check(c, M.Info(**kw))


def orders(c):
    """every order of the parts in the structure, with and without filler"""
    order = "".join(c.all("order", list(itertools.permutations("vbnsBS"))))
    flags = c.all("flags", [1, 2, 3])
    net = c.all("net_kind", [{}, {"net_name_w": "wnet\u0100", "device_name_w": "W:"}])
    label = c.all("label_kind", [{}, {"label_w": "wlabel"}])
    gap = c.all("gap", [0, 3] if c.tier == "quick" else [0, 1, 2, 3, 4, 5])
    check(
        c,
        M.Info(
            flags=flags,
            header_size=0x24,
            order=order,
            gap=gap,
            suffix="suffix",
            base_path_w="wbase\u0200",
            suffix_w="wsuffix",
            net_flags=3,
            tail=b"",
            **net,
            **label,
        ),
    )


def providers(c):
    """network provider types: each documented value, its neighbours, single bits"""
    values = sorted(
        set(T.PROVIDERS) | {v + d for v in T.PROVIDERS for d in (1, -1, 0x10000)} | set(S.WALK32)
        | {n << 16 for n in range(0x100)} | {n << 12 for n in range(0x500)} | {n for n in range(0x60)}
    )  # fmt: skip
    provider = c.all("provider", values)
    flags = c.all("net_flags", [2, 3, 0, 1])
    both = c.all("wide", [False, True])
    extra = {"net_name_w": "w", "device_name_w": "d"} if both else {}
    key = None
    if provider == 0x00020000 and flags & 2:
        key = "provider-0x00020000"
    info = M.Info(flags=2, net_flags=flags, provider=provider, **extra)
    if key is None:
        check(c, info)
        return
    # [MS-SHLLINK] has no such provider; the report may not name one.
    from vlib.sut import report

    b = M.File(info=info).build()
    got = report(b.data)["link_info"]["location_info"].get("network_provider_type")
    if got is not None:
        c.finding(
            key + "-named-" + str(got),
            "provider type 0x00020000 is no documented provider, yet it is named %s" % got,
            b.data,
        )


def ignored(c):
    """a structure that is to be ignored is skipped, whatever it holds"""
    force = c.all("force", [0x100, 0])
    flags = c.all("flags", [0, 1, 2, 3, 4, 0xFFFFFFFC] if force else [0, 4, 0x80000000, 0xFFFFFFFC])
    header = c.all("header_size", [0x1C, 0x24, 0x30])
    tail = c.all("tail", [b"\xff" * n for n in range(0, 70)])
    items = c.all("items", [None, ["volume"]])
    f = M.File(
        items=[S.ITEMS[i]() for i in items] if items else None,
        info=M.Info(flags=flags, header_size=header, tail=tail),
        strings=dict(S.STRING_VALUES),
        flags=force,
        extra=[S.BLOCKS["special"]()],
    )
    check_file(c, f, sections("link_info", "data", "extra", "target", "size"))


def lengths(c):
    """every length of every string moves the offsets behind it"""
    which = c.all("string", ["base_path", "suffix", "label", "label_w", "net_name", "device_name", "base_path_w",
                             "suffix_w", "net_name_w", "device_name_w"])  # fmt: skip
    n = c.all("length", range(0, 300))
    kw = {which: "\u0100" * n if which.endswith("_w") else "n" * n}
    if which == "net_name_w":
        kw["device_name_w"] = "dev"
    if which == "device_name_w":
        kw["net_name_w"] = "net"
    flags = 2 if "net" in which or "device" in which else 1
    check(c, M.Info(flags=c.all("flags", [flags, 3]), header_size=0x24, net_flags=3, **kw))


SIZES = [0x60, 0, 1, 3, 4, 8, 0x0B, 0x0C, 0x1B, 0x1C, 0x20, 0x24, 0x28, 0x40, 0x5F, 0x61, 0x70, 0x80, 0xFFFFFFFF]
PLACES = [0x1C, 0, 1, 4, 0x18, 0x20, 0x24, 0x2C, 0x38, 0x3D, 0x40, 0x50, 0x5E, 0x5F, 0x60, 0x61, 0x7FFFFFFF, 0xFFFFFFF0,
          0xFFFFFFFF]  # fmt: skip


def raw(c):
    """any values of the sizes, flags and offsets, several at a time"""
    wide = c.all("header", [0x1C, 0x24])
    flags = c.all("flags", [1, 2, 3])
    inner = wide
    head = [
        c.pick("size", SIZES),
        c.pick("header_size", [wide, 0, 0x1B, 0x1D, 0x20, 0x23, 0x25, 0x28, 0x80000000, 0xFFFFFFFF]),
        flags,
        c.pick("volume_id_offset", [inner] + PLACES[1:]),
        c.pick("base_offset", [0x40] + PLACES),
        c.pick("network_offset", [inner] + PLACES[1:]),
        c.pick("suffix_offset", [0x4A] + PLACES),
    ]
    if wide == 0x24:
        head += [c.pick("wide_base_offset", [0x4E] + PLACES), c.pick("wide_suffix_offset", [0x58] + PLACES)]
    part = [
        c.pick("part_size", [0x11, 0, 0xFFFFFFFF]),
        c.pick("part1", [3, 0, 1, 2, 6, 7, 0x80000003]),
        c.pick("part2", [0x14, 0, 0x13, 0x15, 0x1C, 0x24, 0x40, 0xFFFFFFFF]),
        c.pick("part3", [0x10, 0x14, 0, 0x18, 0x1F, 0x40, 0xFFFFFFFF]),
        c.pick("part4", [0x20000, 0x14, 0, 0x1A0000, 0x24, 0x3C]),
        0x24,
        0x2A,
    ]
    raw = b"".join(M.u32(v) for v in head + part)
    texts = b"C:\\x\xe9.y\0w\0i\0d\0e\0\0\0suf\0\0s\0\xe9\0\0\0end"
    raw = (raw + texts).ljust(0x60, b"Z")[: c.pick("bytes", [0x60, 0x5F, 0x50, 0x45, 0x40, 0x30, 0x24, 0x1C, 0x1B, 8, 3])]
    behind = M.u16(3) + "rel".encode("utf-16-le") + M.u32(0)
    flags = T.LF["HasLinkInfo"] | T.LF["HasRelativePath"] | T.LF["IsUnicode"]
    mutate.judge(mutate.assemble(flags, raw + behind), ["link_info", "data", "extra", "size"], c=c)


def far(c):
    """parts far from the start of the structure: offsets of any magnitude"""
    gap = (1 << c.all("power", range(7, 18))) + c.all("more", [-1, 0, 1])
    name = c.all("info", [k for k in S.INFOS])
    where = c.all("where", ["gap", "base_path", "label_gap", "tail"])
    f = S.INFOS[name]()
    if where == "gap":
        f.gap = gap
        f.order = c.all("order", ["vbnsBS", "SBsnbv"])
    elif where == "base_path":
        f.base_path = "C:\\" + "x" * gap
        f.suffix = "y" * gap
    elif where == "label_gap":
        f.label_gap = gap
    else:
        f.tail = b"\xbb" * gap
    check(c, f)


SCENARIOS = [
    Scenario("shapes", shapes, 1, 2),
    Scenario("orders", orders, 0, 0),
    Scenario("providers", providers, 0, 0),
    Scenario("ignored", ignored, 0, 0),
    Scenario("lengths", lengths, 0, 0),
    Scenario("raw", raw, 2, 3),
    mutate.values("link_info", ["link_info"], "every place of the link info holds every value of a byte and every power of two", only=lambda n: n.startswith("built") and n not in ("built:utf8", "built:force")),
    mutate.changes("link_info", ["link_info"], "any byte of the link info of a real or built file changed"),
    mutate.two_changes("link_info", ["link_info"], "any two near bytes of the link info changed"),
    Scenario("far", far, 0, 0),
    mutate.edits("link_info", ["link_info"], "bytes of the link info copied, removed, repeated", only=lambda n: n.startswith("built") or n in ("real:sample3", "real:sample")),
    grow.grown(["link_info", "data"], ["link_info"], "link info with long texts, gaps and ends"),
    grow.grown(["link_info", "data"], ["link_info"], "long texts of blanks, dots, one letter", "long_alike", style=True),
    vocabulary("info"),
    company("link_info"),
]
