"""Reference decoder: what a correct parser reports of any bytes.

`model` lays out files from abstract values; this is the other direction, so that bytes that no
abstract file would produce (a changed byte, a cut, a size that lies) have a known report, too.
It is written from [MS-SHLLINK], the libfwsi notes and the stated properties (an item or block
that is cut off is dropped by itself, a number or text is read from the bytes of its structure),
with plain offsets into plain bytes; it shares no code with the implementation.  On every file
the model lays out, both must agree (`tools/` and the check P01 compare them).
"""

import hashlib

from vlib import model as M
from vlib import tables as T


NOTES = []  # what has to be told of the bytes that are decoded
ODD = []  # other oddities, of which something may be told


class Short(Exception):
    """A number or identifier lies beyond the end of its structure."""

    def __init__(self):
        super().__init__()
        ODD.append("short")


class Any:
    """A value that no property fixes."""

    def __repr__(self):
        return "anything"


ANY = Any()


def num(raw, at, width, signed=False):
    piece = raw[at : at + width]
    if len(piece) < width:
        raise Short()
    return int.from_bytes(piece, "little", signed=signed)


def guid(raw, at):
    piece = raw[at : at + 16]
    if len(piece) < 16:
        raise Short()
    return M.guid_text(piece)


def decoded(raw, cp):
    for how in (cp, "utf-8"):
        try:
            return raw.decode(how)
        except UnicodeDecodeError:
            pass
    NOTES.append("text")
    return raw.decode(cp, "replace")


def ansi(raw, cp):
    return decoded(raw.split(b"\0", 1)[0], cp)


def wide(raw):
    end = len(raw)
    at = raw.find(b"\0\0")
    while at >= 0:
        if at % 2 == 0:
            end = at
            break
        at = raw.find(b"\0\0", at + 1)
    try:
        return raw[:end].decode("utf-16-le")
    except UnicodeDecodeError:
        NOTES.append("text")
        return raw[:end].decode("utf-16-le", "replace")


def filetime(value):
    out = M.filetime_value(value)
    if value and out is None:
        NOTES.append("time")
    return out


def dostime(date, time):
    out = M.dostime_value(date, time)
    if (date or time) and out is None:
        NOTES.append("time")
    return out


# ---------------------------------------------------------------- items


def entry_flags(nibble):
    for flag, name in ((7, "Is Unicode share"), (5, "Is Unicode directory"), (6, "Is Unicode file"), (3, "Is share"),
                       (1, "Is directory"), (2, "Is file"), (4, "Has Unicode strings")):  # fmt: skip
        if nibble & flag == flag:
            return name
    ODD.append("flags")
    return "Unknown"


def file_entry(body, cp):
    kind = num(body, 0, 1)
    stamp = num(body, 6, 4)
    name = body[12:]
    return {
        "class": "File entry",
        "flags": entry_flags(kind & 15),
        "file_size": num(body, 2, 4),
        "modification_time": dostime(stamp & 0xFFFF, stamp >> 16),
        "file_attribute_flags": num(body, 10, 2),
        "primary_name": wide(name) if kind & 4 else ansi(name, cp),
    }


def volume(body, cp):
    flags = num(body, 0, 1) & 15
    out = {"class": "Volume Item", "flags": hex(flags)}
    if flags & 1:
        out["volume_name"] = ansi(body[1:21], cp)
    else:
        out["volume_identifier"] = guid(body, 2)
    return out


def network_location(body, cp):
    content = num(body, 2, 1)
    raw = body[3:].split(b"\0")
    out = {
        "class": "Network location",
        "flags": entry_flags(num(body, 0, 1) & 15),
        "content_flags": content,
        "location": decoded(raw.pop(0), cp),
    }
    for name, bit in (("description", 0x80), ("comments", 0x40)):
        out[name] = decoded(raw.pop(0), cp) if content & bit and raw else None
    return out


def root(body, cp):
    sort = num(body, 1, 1)
    if sort not in T.SORT_INDEX:
        NOTES.append("sort index")
    return {
        "class": "Root Folder",
        "sort_index": T.SORT_INDEX.get(sort, "Unknown"),
        "sort_index_value": sort,
        "guid": guid(body, 2),
    }


def panel(body, cp):
    return {"class": "Control panel", "item_identifier": guid(body, 12)}


def category(body, cp):
    value = num(body, 6, 4)
    if value >= len(T.CATEGORIES):
        NOTES.append("category")
    return {
        "class": "Control panel category",
        "category_id": value,
        "category": T.CATEGORIES[value] if value < len(T.CATEGORIES) else "Unknown",
    }


def cpl(body, cp):
    # The Unicode form has a field of unknown use, usually zero, where the ANSI form has its path.
    if len(body) >= 22 and body[10] == 0:
        numbers, texts, width = 18, 22, 2
    else:
        numbers, texts, width = 6, 10, 1

    def text(offset):
        raw = body[texts + offset * width :]
        return wide(raw) if width == 2 else ansi(raw, cp)

    comments = num(body, numbers + 2, 2)
    return {
        "class": "Control panel CPL file",
        "signature": "0x%08X" % num(body, 2, 4),
        "cpl_file_path": text(0),
        "name": text(num(body, numbers, 2)),
        "comments": text(comments) if comments else "",
    }


def users_files(body, cp):
    inner = num(body, 2, 2)
    entry = body[8 : 8 + num(body, 8, 2)]
    return {
        "class": "Users files folder",
        "signature": body[4:8].decode("ascii", "replace"),
        "file_entry": file_entry(entry[2:], cp),
        "delegate_class_id": guid(body, 4 + inner),
        "delegate_folder_id": guid(body, 4 + inner + 16),
    }


KINDS = {
    "File entry": file_entry,
    "Volume Item": volume,
    "Network location": network_location,
    "Root Folder": root,
    "Control panel": panel,
    "Control panel category": category,
    "Control panel CPL file": cpl,
    "Users files folder": users_files,
}


def items(region, cp):
    """The items of a list, each from its own bytes; one that cannot be decoded is left out."""
    out = []
    at = 0
    while at + 2 <= len(region):
        size = num(region, at, 2)
        if size == 0:
            break
        if size < 3 or at + size > len(region):
            ODD.append("item size")
        body = region[at + 2 : at + size]
        at += max(size, 2)
        if not body:
            continue
        name = T.item_class(body[0])
        try:
            if name in KINDS:
                out.append(KINDS[name](body, cp))
            elif name == "Unknown":
                NOTES.append("item type")
                out.append({"class": name, "size": size})
            else:
                out.append({"class": name})
        except Short:
            NOTES.append("item left out")
    else:
        ODD.append("no terminal")
    return out


# ---------------------------------------------------------------- link info


class Fields(dict):
    """Fields that can be read; the ones that cannot are counted."""

    short = 0

    def read(self, name, fn):
        try:
            self[name] = fn()
        except Short:
            self.short += 1
            return None
        return self[name]


def link_info(raw, cp):
    """(fields, whether all could be read)"""
    raw = raw[: max(int.from_bytes(raw[:4], "little"), 4)]
    try:
        flags = num(raw, 8, 4)
    except Short:
        return {}, True
    if not flags & 3:
        return {}, True
    out = Fields()
    out["link_info_size"] = num(raw, 0, 4)
    header = num(raw, 4, 4)
    out["link_info_header_size"] = header
    out["link_info_flags"] = flags
    out.read("volume_id_offset", lambda: num(raw, 12, 4))
    base = out.read("local_base_path_offset", lambda: num(raw, 16, 4))
    out.read("common_network_relative_link_offset", lambda: num(raw, 20, 4))
    suffix = out.read("common_path_suffix_offset", lambda: num(raw, 24, 4))
    if out.short:
        return {}, True  # not even its fixed part is there
    if base:
        out["local_base_path"] = ansi(raw[base:], cp)
    if suffix:
        out["common_path_suffix"] = ansi(raw[suffix:], cp)
    if header >= 0x24:
        for name, at in (("local_base_path", 28), ("common_path_suffix", 32)):
            try:
                offset = num(raw, at, 4)
            except Short:
                out.short += 1
                continue
            if offset:
                out[name + "_offset_unicode"] = offset
                out[name + "_unicode"] = wide(raw[offset:])
    part = Fields()
    out["location"] = "Local" if flags & 1 else "Network"
    out["location_info"] = part
    if flags & 1:
        at = out["volume_id_offset"]
        part.read("volume_id_size", lambda: num(raw, at, 4))
        drive = part.read("r_drive_type", lambda: num(raw, at + 4, 4))
        part.read("drive_serial_number", lambda: hex(num(raw, at + 8, 4)))
        label = part.read("volume_label_offset", lambda: num(raw, at + 12, 4))
        if drive is not None:
            part["drive_type"] = T.DRIVE_TYPES[drive] if drive < len(T.DRIVE_TYPES) else None
        if label == 0x14:
            part["volume_label"] = None
            try:
                offset = num(raw, at + 16, 4)
                if offset:
                    part["volume_label_unicode_offset"] = offset
                    part["volume_label_unicode"] = wide(raw[at + offset :])
            except Short:
                part.short += 1
        elif label is not None:
            part["volume_label"] = ansi(raw[at + label :], cp)
    else:
        at = out["common_network_relative_link_offset"]
        part.read("common_network_relative_link_size", lambda: num(raw, at, 4))
        net_flags = part.read("common_network_relative_link_flags", lambda: num(raw, at + 4, 4))
        net = part.read("net_name_offset", lambda: num(raw, at + 8, 4))
        device = part.read("device_name_offset", lambda: num(raw, at + 12, 4))
        try:
            provider = num(raw, at + 16, 4)
            part["r_network_provider_type"] = hex(provider)
            if net_flags is not None and net_flags & 2:
                if provider == 0x00020000:
                    part["network_provider_type"] = ANY  # the known finding of P05
                elif provider in T.PROVIDERS:
                    part["network_provider_type"] = T.PROVIDERS[provider]
        except Short:
            part.short += 1
        if net is not None and net > 0x14:
            for name, where in (("net_name", 20), ("device_name", 24)):
                try:
                    offset = num(raw, at + where, 4)
                except Short:
                    part.short += 1
                    continue
                if offset:
                    part[name + "_offset_unicode"] = offset
                    part[name + "_unicode"] = wide(raw[at + offset :])
        elif net is not None:
            text = ansi(raw[at + net :], cp)
            if text:
                part["net_name"] = text
            if net_flags is not None and net_flags & 1 and device is not None:
                text = ansi(raw[at + device :], cp)
                if text:
                    part["device_name"] = text
    return out, not out.short and not part.short


# ---------------------------------------------------------------- strings

LIMIT = 260


def strings(raw, flags, cp):
    """(reported strings, bytes they take)"""
    out = {}
    at = 0
    for name, flag in M.STRINGS:
        if not flags & T.LF[flag]:
            continue
        try:
            count = num(raw, at, 2)
        except Short:
            break
        if name in M.LIMITED:
            count = min(count, LIMIT)
        size = 2 * count if flags & T.LF["IsUnicode"] else count
        piece = raw[at + 2 : at + 2 + size]
        if len(piece) < size:
            ODD.append("string")
        out[name] = wide(piece) if flags & T.LF["IsUnicode"] else ansi(piece, cp)
        at += 2 + size
    return out, at


# ---------------------------------------------------------------- blocks


def environment(raw, cp):
    return {"target_ansi": ansi(raw[8:268], cp), "target_unicode": wide(raw[268:788])}


def console(raw, cp):
    out = {"face_name": wide(raw[44:108])}
    for name, at, width, signed in M.CONSOLE_FIELDS:
        out[name] = num(raw, at, width, signed)
    return out


def tracker(raw, cp):
    if num(raw, 8, 4) != 0x58 or num(raw, 12, 4):
        NOTES.append("tracker")
    return {
        "length": num(raw, 8, 4),
        "version": num(raw, 12, 4),
        "machine_identifier": ansi(raw[16:32], cp),
        "droid_volume_identifier": guid(raw, 32),
        "droid_file_identifier": guid(raw, 48),
        "birth_droid_volume_identifier": guid(raw, 64),
        "birth_droid_file_identifier": guid(raw, 80),
    }


def unpacked(text):
    """The GUID a packed form stands for (ANY: it is no packed form)."""
    if len(text) < 20:
        return None
    words = b""
    for n in range(0, 20, 5):
        word = 0
        for ch in reversed(text[n : n + 5]):
            if ch not in M.BASE85:
                return ANY
            word = word * 85 + M.BASE85.index(ch)
        if word >> 32:
            return ANY
        words += word.to_bytes(4, "little")
    return M.guid_text(words)


def darwin(raw, cp):
    text = wide(raw[268:788])
    ODD.append("darwin")  # a descriptor may have many forms
    ends = [i for i, ch in enumerate(text) if ch in "<>"]
    out = {
        "darwin_data_ansi": ansi(raw[8:268], cp),
        "darwin_data_unicode": text,
        "product_code_id": unpacked(text[:20]),
        "feature_name": ANY,
        "component_id": None,
    }
    if len(ends) == 1 and ends[0] >= 20:
        out["feature_name"] = text[20 : ends[0]] or None
    if ">" in text:
        out["component_id"] = unpacked(text[text.index(">") + 1 :])
    return out


def typed(raw):
    """(value, name of the type) of a TypedPropertyValue; raises ValueError for an unknown type"""
    kind, padding = num(raw, 0, 2), num(raw, 2, 2)
    names = [k for k, v in T.VT.items() if v == kind]
    if not names:
        raise ValueError(kind)
    value = None
    if not padding:
        if names[0] == "VT_I2":
            value = num(raw, 4, 2, True)
        elif names[0] == "VT_LPWSTR":
            value = wide(raw[8 : 8 + 2 * num(raw, 4, 4)])
    return value, names[0]


def storage(raw):
    named = guid(raw, 8) == M.STRING_NAMED
    values = []
    at = 24
    while at < len(raw):
        size = num(raw, at, 4)
        if size == 0:
            break
        one = raw[at : at + size]
        at += size
        if named:
            length = num(one, 4, 4)
            value, kind = typed(one[9 + length :])
            shown = {"value_size": size, "name_size": length, "name": wide(one[9 : 9 + length])}
        else:
            value, kind = typed(one[9:])
            # A size below that of the number itself leaves only a part of it.
            shown = {"value_size": num(one, 0, 4), "id": num(one, 4, 4)}
        values.append(dict(shown, value=value, value_type=kind))
    return {
        "storage_size": num(raw, 0, 4),
        "version": hex(num(raw, 4, 4)),
        "format_id": guid(raw, 8),
        "serialized_property_values": values,
    }


def metadata(raw, cp):
    out = []
    at = 8
    while True:
        size = num(raw, at, 4)
        if size == 0:
            break
        out.append(storage(raw[at : at + size]))
        at += size
    return {"property_store": out}


BLOCKS = {
    0xA0000001: environment,
    0xA0000002: console,
    0xA0000003: tracker,
    0xA0000004: lambda raw, cp: {"code_page": num(raw, 8, 4)},
    0xA0000005: lambda raw, cp: {"special_folder_id": num(raw, 8, 4), "offset": num(raw, 12, 4)},
    0xA0000006: darwin,
    0xA0000007: environment,
    0xA0000008: lambda raw, cp: {"layer_name": wide(raw[8:])},
    0xA0000009: metadata,
    0xA000000B: lambda raw, cp: {"known_folder_id": guid(raw, 8), "offset": num(raw, 24, 4)},
    0xA000000C: lambda raw, cp: {"id_list": items(raw[8:], cp)},
}


def extra(raw, cp, allow):
    """(reported blocks, bytes they take)"""
    out = {}
    at = 0
    taken = 0
    while at + 4 <= len(raw):
        size = num(raw, at, 4)
        if size < 4:
            break
        one = raw[at : at + size]
        if len(one) < size:
            ODD.append("block size")
        signature = raw[at + 4 : at + 8]
        at += size
        if len(signature) < 4:
            ODD.append("signature")
            continue
        taken += size
        kind = int.from_bytes(signature, "little")
        if kind not in BLOCKS:
            shown = {"size": size, "extra_data_sha256": hashlib.sha256(one[4:]).hexdigest()}
            out.setdefault("UNKNOWN_BLOCK", []).append(shown)
            continue
        try:
            out[M.NAMES[kind]] = dict(BLOCKS[kind](one, cp), size=size)
        except (Short, ValueError):
            NOTES.append("block left out")
    rest = raw[at:]
    if len(rest) < 4:
        ODD.append("no terminal")
    if allow and len(rest) > 4 and num(rest, 0, 4) < 4:
        out["TERMINAL_BLOCK"] = {"size": len(rest), "appended_data_sha256": hashlib.sha256(rest[4:]).hexdigest()}
        taken += len(rest)
    return out, taken


# ---------------------------------------------------------------- the file


def header(raw):
    flags, attributes = num(raw, 20, 4), num(raw, 24, 4)
    if num(raw, 0, 4) != 0x4C or guid(raw, 4) != M.LNK_CLSID or any(raw[66:76]):
        NOTES.append("header")
    return {
        "guid": guid(raw, 4),
        "r_link_flags": flags,
        "r_file_flags": attributes,
        "creation_time": filetime(num(raw, 28, 8)),
        "accessed_time": filetime(num(raw, 36, 8)),
        "modified_time": filetime(num(raw, 44, 8)),
        "file_size": num(raw, 52, 4),
        "icon_index": num(raw, 56, 4, True),
        "windowstyle": T.SHOW.get(num(raw, 60, 4), "SW_SHOWNORMAL"),
        "hotkey": T.hotkey(raw[64], raw[65]),
        "r_hotkey": num(raw, 64, 2),
        "link_flags": T.flag_names(flags, T.LINK_FLAGS),
        "file_flags": T.flag_names(attributes, T.FILE_FLAGS),
        "header_size": num(raw, 0, 4),
        "reserved0": num(raw, 66, 2),
        "reserved1": num(raw, 68, 4),
        "reserved2": num(raw, 72, 4),
    }


class Expected:
    """The report of some bytes; `partial`: link info that could only be read in part.

    `told`: what must be told of them; `odd`: other oddities.
    """

    def __init__(self, report, partial, places):
        self.told = list(NOTES)
        self.odd = list(ODD)
        self.report = report
        self.partial = partial
        self.places = places  # section -> (start, end)


def report(data, cp="cp1252", allow=True):
    """For at least the 76 bytes of a header."""
    NOTES.clear()
    ODD.clear()
    shown = header(data)
    flags = shown["r_link_flags"]
    at = shown["header_size"]
    out = {"size": None, "header": shown}
    places = {"header": (0, at)}
    if flags & T.LF["HasTargetIDList"]:
        start = at
        try:
            size = num(data, at, 2)
            if at + 2 + size > len(data):
                ODD.append("list size")
            out["target"] = {"size": size, "items": items(data[at + 2 : at + 2 + size], cp), "index": at + 2}
            at += 2 + size
        except Short:
            at = len(data)
        places["target"] = (start, at)
    out["link_info"] = {}
    partial = False
    if flags & T.LF["HasLinkInfo"]:
        start = at
        if not flags & T.LF["ForceNoLinkInfo"]:
            out["link_info"], complete = link_info(data[at:], cp)
            partial = not complete
        try:
            if at + num(data, at, 4) > len(data):
                ODD.append("link info size")
            at += num(data, at, 4)
        except Short:
            at = len(data)
        places["link_info"] = (start, at)
    out["data"], size = strings(data[at:], flags, cp)
    places["data"] = (at, at + size)
    at += size
    out["extra"], size = extra(data[at:], cp, allow)
    places["extra"] = (at, at + size)
    at += size
    out["size"] = at + min(len(data[at:]), 4)
    return Expected(out, partial, places)


def difference(expected, got, path="report", partial=False):
    """Like sut.first_difference, with values that may be anything and a section read in part."""
    if expected is ANY:
        return None
    if isinstance(expected, dict) and isinstance(got, dict):
        for k, v in expected.items():
            if k not in got:
                if v is ANY or partial:
                    continue
                return "%s.%s is missing (expected %r)" % (path, k, v)
            d = difference(v, got[k], "%s.%s" % (path, k), partial)
            if d:
                return d
        for k in got:
            if k not in expected:
                return "%s.%s should not be there (got %r)" % (path, k, got[k])
        return None
    if isinstance(expected, list) and isinstance(got, list):
        for i, (e, g) in enumerate(zip(expected, got)):
            d = difference(e, g, "%s[%d]" % (path, i), partial)
            if d:
                return d
        if len(expected) != len(got):
            return "%s has %d elements, expected %d" % (path, len(got), len(expected))
        return None
    if type(expected) is not type(got) or expected != got:
        return "%s is %r, expected %r" % (path, got, expected)
    return None


def compare(expected, got, names=None):
    """The first difference of (some sections of) a report, or None."""
    for name in names or sorted(set(expected.report) | set(got)):
        if (name in expected.report) != (name in got):
            return "report.%s is %s" % (name, "missing" if name in expected.report else "there, but should not be")
        if name not in got:
            continue
        partial = expected.partial and name == "link_info"
        e = dict(expected.report[name]) if partial else expected.report[name]
        d = difference(e, got[name], "report." + name, partial)
        if d:
            return d
    return None
