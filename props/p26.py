"""P26: asked directly, a parsed file says what its report says."""

import struct

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sut
from vlib.context import company
from vlib.engine import Scenario
from vlib.engine import Violation
from vlib.sut import first_difference

FLAGS = {
    "has_target_id_list": "HasTargetIDList", "has_link_info": "HasLinkInfo", "has_name": "HasName",
    "has_relative_path": "HasRelativePath", "has_working_dir": "HasWorkingDir", "has_arguments": "HasArguments",
    "has_icon_location": "HasIconLocation", "is_unicode": "IsUnicode", "force_no_link_info": "ForceNoLinkInfo",
}  # fmt: skip
HEADER = {
    "guid": "guid", "link_cls_id": "guid", "r_link_flags": "r_link_flags", "r_file_flags": "r_file_flags",
    "creation_time": "creation_time", "access_time": "accessed_time", "write_time": "modified_time",
    "file_size": "file_size", "icon_index": "icon_index", "window_style": "windowstyle", "hot_key": "hotkey",
    "raw_hot_key": "r_hotkey", "link_flags": "link_flags", "file_flags": "file_flags", "size": "header_size",
    "reserved0": "reserved0", "reserved1": "reserved1", "reserved2": "reserved2",
}  # fmt: skip
STRINGS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]
INFO = {
    "size": "link_info_size", "header_size": "link_info_header_size", "flags": "link_info_flags",
    "volume_id_offset": "volume_id_offset", "local_base_path_offset": "local_base_path_offset",
    "common_network_relative_link_offset": "common_network_relative_link_offset",
    "common_path_suffix_offset": "common_path_suffix_offset", "location": "location",
    "local_base_path": "local_base_path", "common_path_suffix": "common_path_suffix",
    "local_base_path_offset_unicode": "local_base_path_offset_unicode",
    "common_path_suffix_offset_unicode": "common_path_suffix_offset_unicode",
    "local_base_path_unicode": "local_base_path_unicode", "common_path_suffix_unicode": "common_path_suffix_unicode",
}  # fmt: skip
KINDS = {
    "Local": ["volume_id_size", "r_drive_type", "volume_label_offset", "drive_serial_number", "drive_type", "volume_label",
              "volume_label_unicode_offset", "volume_label_unicode"],
    "Network": ["common_network_relative_link_size", "common_network_relative_link_flags", "net_name_offset",
                "device_name_offset", "r_network_provider_type", "network_provider_type", "net_name_offset_unicode",
                "device_name_offset_unicode", "net_name_unicode", "device_name_unicode", "net_name", "device_name"],
}  # fmt: skip


def ask(section, name, data):
    with sut.guard(name, data):
        return getattr(section, name)()


def blocks(extras, data, damaged):
    """The extra data, put together from the blocks."""
    out = {}
    with sut.guard("iteration over the blocks", data):
        for block in extras:
            try:
                name, size, content = block.name(), block.size(), block.as_dict()
            except (struct.error, ValueError):
                if not damaged:
                    raise
                continue
            if size != content["size"]:
                raise Violation("%s.size() is %r, reported is %r" % (name, size, content["size"]), data=data)
            if name == "UNKNOWN_BLOCK":
                out.setdefault(name, []).append(content)
            else:
                out[name] = content
    return out


def items(targets, data, damaged):
    out = []
    with sut.guard("iteration over the items", data):
        for item in targets:
            try:
                out.append(item.as_item())
            except (struct.error, KeyError):
                if not damaged:
                    raise
    return out


def compare(lnk, expected, data, damaged=False):
    """What the sections say when they are asked is what the (expected) report says."""
    header = expected["header"]
    said, told = {}, {}
    for name, key in HEADER.items():
        said["header." + name], told["header." + name] = ask(lnk.header, name, data), header[key]
    for name, flag in FLAGS.items():
        said[name], told[name] = ask(lnk, name, data), flag in header["link_flags"]
    said["size"], told["size"] = lnk.size, expected["size"]
    for name in STRINGS:
        said["string_data." + name], told["string_data." + name] = ask(lnk.string_data, name, data), expected["data"].get(name)
    said["string_data"], told["string_data"] = ask(lnk.string_data, "as_dict", data), expected["data"]
    said["extras"], told["extras"] = ask(lnk.extras, "as_dict", data), expected["extra"]
    said["each of the extras"], told["each of the extras"] = blocks(lnk.extras, data, damaged), expected["extra"]
    if "target" in expected:
        target = expected["target"]
        said["targets.size"], told["targets.size"] = ask(lnk.targets, "size", data), target["size"] + 2
        said["targets.id_list_size"], told["targets.id_list_size"] = ask(lnk.targets, "id_list_size", data), target["size"]
        said["targets"], told["targets"] = ask(lnk.targets, "as_list", data), target["items"]
        said["each of the targets"], told["each of the targets"] = items(lnk.targets, data, damaged), target["items"]
    else:
        said["targets"], told["targets"] = lnk.targets, None
    info = expected["link_info"]
    if not info:
        if not damaged:
            said["info"], told["info"] = lnk.info, None
    else:
        names = [n for n in INFO if not damaged or INFO[n] in info]
        said["info"] = {n: ask(lnk.info, n, data) for n in names}
        told["info"] = {n: info.get(INFO[n]) for n in names}
        about = info.get("location_info", {})
        names = [n for n in KINDS[info["location"]] if not damaged or n in about] if "location" in info else []
        said["info of the kind"] = {n: ask(lnk.info, n, data) for n in names}
        told["info of the kind"] = {n: about.get(n) for n in names}
        if not damaged:
            # What the report leaves out is none, zero, or empty.
            for what in ("info", "info of the kind"):
                for n, value in said[what].items():
                    if not value and told[what][n] is None:
                        said[what][n] = None
    engine.STATS.compared += 1
    d = first_difference(told, said)
    if d:
        raise Violation("asked directly, " + d.lstrip("."), data=data)


def judge(c, f, cp=None):
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    kw = {"cp": cp} if cp is not None else {}
    if not f.allow_terminal_blocks:
        kw["allow_terminal_blocks"] = False
    lnk = sut.parse(b.data, **kw)
    sut.outcome(b.expect)
    compare(lnk, b.expect, b.data)


def judge_bytes(c, data):
    """Of damaged files, the report itself is the reference (other properties tell what it must be)."""
    c.data = data
    expected = sut.report(data)
    sut.outcome(expected)
    compare(sut.parse(data), expected, data, damaged=True)


def flags(c):
    """all flags of the header that a query concerns, with and without the others"""
    names = list(M.T.LF)
    own = [n for n in names if n in FLAGS.values()]
    value = sum(M.T.LF[n] for n in own if c.all(n, [0, 1]))
    value |= c.all("others", [0, 0xFFFFFFFF & ~sum(M.T.LF[n] for n in own)])
    kind = c.all("data", ["sections", "zeros"])
    data = bytearray(M.File(items=[S.ITEMS["root"]()], info=M.Info(), strings=dict(S.STRING_VALUES)).build().data)
    if kind == "zeros":
        data[76:] = bytes(64)
    data[20:24] = value.to_bytes(4, "little")
    data = bytes(data)
    c.data = data
    lnk = sut.parse(data)
    for name, flag in FLAGS.items():
        engine.STATS.compared += 1
        if ask(lnk, name, data) is not bool(value & M.T.LF[flag]):
            raise Violation("%s() is %r with the flags %08X" % (name, ask(lnk, name, data), value), data=data)
    judge_bytes(c, data)


def infos(c):
    """every layout of the link info"""
    flags = c.all("flags", [1, 2, 3])
    size = c.all("header size", [0x1C, 0x24])
    kw = {"flags": flags, "header_size": size, "suffix": c.all("suffix", ["", "s"])}
    if flags & 1:
        kw["base_path"] = c.all("base path", ["C:\\x", ""])
        kw["drive_type"] = c.all("drive", [0, 3, 6, 7, 0xFFFFFFFF])
        kw.update([("label", "L"), ("label_w", "L\xe9")][c.all("label", [0, 1])] for _ in range(1))
        if size == 0x24:
            kw["base_path_w"] = c.all("base_w", ["b", None])
    else:
        kw["net_flags"] = c.all("net flags", [0, 1, 2, 3])
        kw["net_name"] = c.all("name", ["n", ""])
        kw["device_name"] = c.all("device", ["d", ""])
        if c.all("unicode", [False, True]):
            kw.update(header_size=0x24, net_name_w="n\xe9", device_name_w="d\xe9")
    if size == 0x24:
        kw["suffix_w"] = c.all("suffix_w", ["s", None])
    judge(c, M.File(info=M.Info(**kw), strings={"relative_path": "rel"}))


def sequences(c):
    """all short lists of items and of blocks"""
    kind = c.all("kind", ["items", "blocks"])
    pool = S.ITEMS if kind == "items" else S.BLOCKS
    n = c.all("length", [0, 1, 2] if c.tier == "quick" else [0, 1, 2, 3])
    chosen = [pool[c.all("part %d" % i, list(pool))]() for i in range(n)]
    judge(c, M.File(items=chosen) if kind == "items" else M.File(extra=chosen, tail=c.all("tail", [b"", b"tail"])))


def values(c):
    """every field of the header, with edge values"""
    field = c.all("field", ["flags", "attributes", "ctime", "atime", "wtime", "file_size", "icon_index", "show", "key"])
    n = c.all("value", [0, 1, 2, 3, 7, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
    kw = {}
    if field == "flags":
        judge(c, M.File(flags=n & ~0xFF & 0x07FFFEFF))
        return
    if field == "key":
        kw = {"key_low": n & 0xFF, "key_high": n >> 8 & 0xFF}
    else:
        kw = {field: n * 0x1000003 if field.endswith("time") else n}
    judge(c, M.File(header=M.Header(**kw)))


def cuts(c):
    """files cut anywhere"""
    name = c.all("file", list(bases.ALL))
    data = bases.ALL[name]
    judge_bytes(c, data[: c.all("length", range(0x4C, max(len(data), 0x4C) + 1))])


def changed(c):
    """any byte of a file changed"""
    name = c.all("file", ["built:" + k for k in bases.SMALL] + (list(bases.ALL) if c.tier == "thorough" else []))
    data = bases.ALL[name]
    at = c.all("offset", range(4, len(data)))
    for value in (0, 1, 0x7F, 0xFF, data[at] ^ 1, data[at] ^ 0x80) if c.tier == "quick" else range(256):
        if value != data[at]:
            judge_bytes(c, data[:at] + bytes([value]) + data[at + 1 :])


SCENARIOS = [
    Scenario("flags", flags, 0, 0),
    Scenario("values", values, 0, 0),
    Scenario("infos", infos, 0, 0),
    Scenario("sequences", sequences, 0, 0),
    Scenario("cuts", cuts, 0, 0),
    Scenario("changed", changed, 0, 0),
    company(check=judge),
]
