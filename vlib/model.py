"""Reference model of the Shell Link format.

A file is described by abstract values; `build` lays it out as bytes *and* says what a
correct parser reports, both computed from the abstract values only (nothing is decoded).
Written from [MS-SHLLINK], not from the implementation.
"""

import hashlib
import struct
import uuid as uuidlib
from datetime import datetime
from datetime import timedelta
from datetime import timezone

from vlib import tables as T


def u8(v):
    return struct.pack("<B", v & 0xFF)


def u16(v):
    return struct.pack("<H", v & 0xFFFF)


def u32(v):
    return struct.pack("<I", v & 0xFFFFFFFF)


def s32(v):
    return v - (1 << 32) if v >> 31 & 1 else v


def s16(v):
    return v - (1 << 16) if v >> 15 & 1 else v


def u64(v):
    return struct.pack("<Q", v & (1 << 64) - 1)


def wide(text):
    return text.encode("utf-16-le")


def wide_z(text):
    return wide(text) + b"\0\0"


# ---------------------------------------------------------------- scalars

LNK_CLSID = "00021401-0000-0000-C000-000000000046"
NIL = "00000000-0000-0000-0000-000000000000"


def guid_bytes(text):
    return uuidlib.UUID(text).bytes_le


def guid_text(raw):
    return str(uuidlib.UUID(bytes_le=bytes(raw))).upper()


EPOCH_1601 = datetime(1601, 1, 1, tzinfo=timezone.utc)


def filetime_value(raw):
    """The moment an unsigned FILETIME stands for (None: not set or not a date)."""
    if raw == 0:
        return None
    try:
        return EPOCH_1601 + timedelta(microseconds=(raw + 5) // 10)
    except OverflowError:
        return None


def dos_date(year, month, day):
    return (year - 1980) << 9 | month << 5 | day


def dos_time(hour, minute, second):
    return hour << 11 | minute << 5 | second // 2


def dostime_value(date, time):
    if date == 0 and time == 0:
        return None
    try:
        return datetime(
            1980 + (date >> 9), date >> 5 & 15, date & 31, time >> 11, time >> 5 & 63, (time & 31) * 2,
            tzinfo=timezone.utc,
        )  # fmt: skip
    except ValueError:
        return None


# ---------------------------------------------------------------- header


class Header:
    def __init__(self, **kw):
        self.size = 0x4C
        self.clsid = LNK_CLSID
        self.flags = 0
        self.attributes = 0x20
        self.ctime = 0x01C914FE12345670
        self.atime = 0x01C914FE22345670
        self.wtime = 0x01C914FE32345670
        self.file_size = 0x00012345
        self.icon_index = 0
        self.show = 1
        self.key_low = 0
        self.key_high = 0
        self.reserved = (0, 0, 0)
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)

    def bytes(self):
        return (
            u32(self.size)
            + guid_bytes(self.clsid)
            + u32(self.flags)
            + u32(self.attributes)
            + u64(self.ctime)
            + u64(self.atime)
            + u64(self.wtime)
            + u32(self.file_size)
            + u32(self.icon_index)
            + u32(self.show)
            + u8(self.key_low)
            + u8(self.key_high)
            + u16(self.reserved[0])
            + u32(self.reserved[1])
            + u32(self.reserved[2])
        )

    def expect(self):
        return {
            "guid": self.clsid.upper(),
            "r_link_flags": self.flags,
            "r_file_flags": self.attributes,
            "creation_time": filetime_value(self.ctime),
            "accessed_time": filetime_value(self.atime),
            "modified_time": filetime_value(self.wtime),
            "file_size": self.file_size,
            "icon_index": s32(self.icon_index),
            "windowstyle": T.SHOW.get(self.show, "SW_SHOWNORMAL"),
            "hotkey": T.hotkey(self.key_low, self.key_high),
            "r_hotkey": self.key_high << 8 | self.key_low,
            "link_flags": T.flag_names(self.flags, T.LINK_FLAGS),
            "file_flags": T.flag_names(self.attributes, T.FILE_FLAGS),
            "header_size": self.size,
            "reserved0": self.reserved[0],
            "reserved1": self.reserved[1],
            "reserved2": self.reserved[2],
        }


# ---------------------------------------------------------------- item IDs
# An item is (data bytes behind the 2-byte size, expected report).


def item_file(nibble=2, name="file.txt", size=0x1234, date=0x3A6F, time=0x6C3B, attrs=0x20, cp="cp1252",
              kind=0x30, high=0, pad=b"", unknown=0):  # fmt: skip
    indicator = kind | nibble | high
    text = wide_z(name) if nibble & 4 else name.encode(cp) + b"\0"
    data = u8(indicator) + u8(unknown) + u32(size) + u16(date) + u16(time) + u16(attrs) + text + pad
    return data, {
        "class": "File entry",
        "flags": T.ENTRY_FLAGS[nibble],
        "file_size": size,
        "modification_time": dostime_value(date, time),
        "file_attribute_flags": attrs,
        "primary_name": name,
    }


def item_volume_named(nibble=0xF, name="C:\\", cp="cp1252", kind=0x20, filler=b"\0", pad=b""):
    raw = (name.encode(cp) + b"\0").ljust(20, filler)[:20]
    return u8(kind | nibble) + raw + pad, {
        "class": "Volume Item",
        "flags": hex(nibble),
        "volume_name": name,
    }


def item_volume_guid(nibble=0xE, guid="20D04FE0-3AEA-1069-A2D8-08002B30309D", unknown=0x80, kind=0x20, pad=b""):
    return u8(kind | nibble) + u8(unknown) + guid_bytes(guid) + pad, {
        "class": "Volume Item",
        "flags": hex(nibble),
        "volume_identifier": guid,
    }


def item_network(nibble=3, content=0xC0, location="\\\\srv\\share", description="Microsoft Network",
                 comments="a comment", cp="cp1252", unknown=0, kind=0x40, pad=b""):  # fmt: skip
    data = u8(kind | nibble) + u8(unknown) + u8(content) + location.encode(cp) + b"\0"
    if content & 0x80:
        data += description.encode(cp) + b"\0"
    if content & 0x40:
        data += comments.encode(cp) + b"\0"
    return data + pad, {
        "class": "Network location",
        "flags": T.ENTRY_FLAGS[nibble],
        "content_flags": content,
        "location": location,
        "description": description if content & 0x80 else None,
        "comments": comments if content & 0x40 else None,
    }


def item_root(indicator=0x1F, sort=0x50, guid="20D04FE0-3AEA-1069-A2D8-08002B30309D", pad=b""):
    return u8(indicator) + u8(sort) + guid_bytes(guid) + pad, {
        "class": "Root Folder",
        "sort_index": T.SORT_INDEX.get(sort, "Unknown"),
        "sort_index_value": sort,
        "guid": guid,
    }


def item_control_panel(indicator=0x71, sort=0x80, guid="7B81BE6A-CE2B-4676-A29E-EB907A5126C5",
                       between=b"\1\2\3\4\5\6\7\x08\x09\x0a", pad=b""):  # fmt: skip
    return u8(indicator) + u8(sort) + between + guid_bytes(guid) + pad, {
        "class": "Control panel",
        "item_identifier": guid,
    }


def item_category(category=5, unknown=0, signature=0x39DE2184, pad=b""):
    known = category < len(T.CATEGORIES)
    return u8(0x01) + u8(unknown) + u32(signature) + u32(category) + pad, {
        "class": "Control panel category",
        "category_id": category,
        "category": T.CATEGORIES[category] if known else "Unknown",
    }


def item_cpl(unicode=True, path="C:\\x\\main.cpl", name="Mouse", comments="Settings", signature=0xFFFFFF9C,
             unknown=0, between=b"\0" * 12, cp="cp1252", gap=0, has_comments=True, pad=b""):  # fmt: skip
    head = u8(0x00) + u8(unknown) + u32(signature)
    filler = "#" * gap
    name_at = len(path) + 1 + gap
    comments_at = name_at + len(name) + 1 + gap if has_comments else 0
    text = path + "\0" + filler + name + "\0" + filler + (comments + "\0" if has_comments else "")
    if unicode:
        name_at = len(wide(path)) // 2 + 1 + gap
        if has_comments:
            comments_at = name_at + len(wide(name)) // 2 + 1 + gap
        data = head + between + u16(name_at) + u16(comments_at) + wide(text)
    else:
        name_at = len(path.encode(cp)) + 1 + gap
        if has_comments:
            comments_at = name_at + len(name.encode(cp)) + 1 + gap
        data = head + u16(name_at) + u16(comments_at) + text.encode(cp)
    return data + pad, {
        "class": "Control panel CPL file",
        "signature": "0x%08X" % signature,
        "cpl_file_path": path,
        "name": name,
        "comments": comments if has_comments else "",
    }


def item_users_files(signature="CFSF", nibble=1, name="docs", size=0, date=0x3A6F, time=0x6C3B, attrs=0x10,
                     class_id="5E591A74-DF96-48D3-8D67-1733BCEE28BA", folder_id="DFFACDC5-679F-4156-8947-C5C76BC0B67F",
                     unknown=0, cp="cp1252", inner_pad=b"", after_entry=b"", pad=b""):  # fmt: skip
    inner, expected = item_file(nibble, name, size, date, time, attrs, cp=cp, pad=inner_pad)
    entry = u16(2 + len(inner)) + inner + after_entry
    data = u8(0x74) + u8(unknown) + u16(4 + len(entry)) + signature.encode("ascii") + entry
    data += guid_bytes(class_id) + guid_bytes(folder_id) + pad
    return data, {
        "class": "Users files folder",
        "signature": signature,
        "file_entry": expected,
        "delegate_class_id": class_id,
        "delegate_folder_id": folder_id,
    }


def item_plain(indicator, body=b"\x11\x22\x33\x44"):
    """The kinds of which only the class is reported (and the size of unknown ones)."""
    name = T.item_class(indicator)
    data = u8(indicator) + body
    expected = {"class": name}
    if name == "Unknown":
        expected["size"] = 2 + len(data)
    return data, expected


def idlist_bytes(items, terminal=True, tail=b""):
    raw = b"".join(u16(2 + len(d)) + d for d, _ in items)
    return raw + (b"\0\0" if terminal else b"") + tail


# ---------------------------------------------------------------- LinkInfo


class Info:
    """A LinkInfo structure. Pieces are laid out in `order`, with `gap` filler bytes between."""

    def __init__(self, **kw):
        self.flags = 1
        self.header_size = 0x1C
        self.base_path = "C:\\dir\\file.txt"
        self.suffix = ""
        self.base_path_w = None  # needs header_size >= 0x24
        self.suffix_w = None
        self.drive_type = 3
        self.serial = 0x1234ABCD
        self.label = "DISK"
        self.label_w = None  # a Unicode label: VolumeLabelOffset is 0x14
        self.label_gap = 0
        self.net_name = "\\\\srv\\share"
        self.net_flags = 2
        self.provider = 0x00200000
        self.device_name = "Z:"
        self.net_name_w = None  # needs a NetNameOffset above 0x14
        self.device_name_w = None
        self.order = "vbnsBS"  # VolumeID, LocalBasePath, CNRL, suffix and the Unicode ones
        self.gap = 0
        self.tail = b""  # undefined bytes inside LinkInfoSize
        self.cp = "cp1252"
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)

    def volume_id(self):
        if self.label_w is None:
            at = 0x10 + self.label_gap
            if at == 0x14:
                raise ValueError("0x14 means a Unicode label")
            body = u32(self.drive_type) + u32(self.serial) + u32(at) + b"\xee" * self.label_gap
            body += self.label.encode(self.cp) + b"\0"
            offset_w = None
        else:
            at = 0x14
            offset_w = 0x14 + self.label_gap
            body = u32(self.drive_type) + u32(self.serial) + u32(at) + u32(offset_w)
            body += b"\xee" * self.label_gap + wide_z(self.label_w)
        size = 4 + len(body)
        expected = {
            "volume_id_size": size,
            "r_drive_type": self.drive_type,
            "volume_label_offset": at,
            "drive_serial_number": hex(self.serial),
            "drive_type": T.DRIVE_TYPES[self.drive_type] if self.drive_type < len(T.DRIVE_TYPES) else None,
            "volume_label": self.label if self.label_w is None else None,
        }
        if self.label_w is not None:
            expected["volume_label_unicode_offset"] = offset_w
            expected["volume_label_unicode"] = self.label_w
        return u32(size) + body, expected

    def network_link(self):
        has_w = self.net_name_w is not None
        fixed = 0x1C if has_w else 0x14
        net = self.net_name.encode(self.cp) + b"\0"
        net_at = fixed
        has_device = self.net_flags & 1
        dev = self.device_name.encode(self.cp) + b"\0" if has_device else b""
        dev_at = net_at + len(net) if has_device else 0
        body = net + dev
        offsets_w = b""
        expected_w = {}
        if has_w:
            pad = b"\0" * (len(body) % 2)
            body += pad
            net_w_at = fixed + len(body)
            body += wide_z(self.net_name_w)
            dev_w_at = 0
            expected_w["net_name_offset_unicode"] = net_w_at
            expected_w["net_name_unicode"] = self.net_name_w
            if has_device:
                dev_w_at = fixed + len(body)
                body += wide_z(self.device_name_w)
                expected_w["device_name_offset_unicode"] = dev_w_at
                expected_w["device_name_unicode"] = self.device_name_w
            offsets_w = u32(net_w_at) + u32(dev_w_at)
        size = fixed + len(body)
        raw = u32(size) + u32(self.net_flags) + u32(net_at) + u32(dev_at) + u32(self.provider) + offsets_w + body
        expected = {
            "common_network_relative_link_size": size,
            "common_network_relative_link_flags": self.net_flags,
            "net_name_offset": net_at,
            "device_name_offset": dev_at,
            "r_network_provider_type": hex(self.provider),
        }
        if self.net_flags & 2 and self.provider in T.PROVIDERS:
            expected["network_provider_type"] = T.PROVIDERS[self.provider]
        expected.update(expected_w)
        if not has_w:
            if self.net_name:
                expected["net_name"] = self.net_name
            if has_device and self.device_name:
                expected["device_name"] = self.device_name
        return raw, expected

    def build(self):
        local = self.flags & 1
        network = self.flags & 2
        optional = self.header_size >= 0x24
        pieces = {}
        if local:
            raw, volume = self.volume_id()
            pieces["v"] = raw
            pieces["b"] = self.base_path.encode(self.cp) + b"\0"
            if optional and self.base_path_w is not None:
                pieces["B"] = wide_z(self.base_path_w)
        if network:
            raw, net = self.network_link()
            pieces["n"] = raw
        pieces["s"] = self.suffix.encode(self.cp) + b"\0"
        if optional and self.suffix_w is not None:
            pieces["S"] = wide_z(self.suffix_w)
        at = {}
        body = b""
        for ch in self.order:
            if ch in pieces:
                body += b"\xdd" * self.gap
                at[ch] = self.header_size + len(body)
                body += pieces[ch]
        body += self.tail
        size = self.header_size + len(body)
        head = u32(size) + u32(self.header_size) + u32(self.flags)
        head += u32(at.get("v", 0)) + u32(at.get("b", 0)) + u32(at.get("n", 0)) + u32(at["s"])
        if optional:
            head += u32(at.get("B", 0)) + u32(at.get("S", 0))
        head += b"\xcc" * (self.header_size - len(head))
        expected = {
            "link_info_size": size,
            "link_info_header_size": self.header_size,
            "link_info_flags": self.flags,
            "volume_id_offset": at.get("v", 0),
            "local_base_path_offset": at.get("b", 0),
            "common_network_relative_link_offset": at.get("n", 0),
            "common_path_suffix_offset": at["s"],
        }
        if local:
            expected["local_base_path"] = self.base_path
        expected["common_path_suffix"] = self.suffix
        if "B" in at:
            expected["local_base_path_offset_unicode"] = at["B"]
            expected["local_base_path_unicode"] = self.base_path_w
        if "S" in at:
            expected["common_path_suffix_offset_unicode"] = at["S"]
            expected["common_path_suffix_unicode"] = self.suffix_w
        if local:
            expected["location"] = "Local"
            expected["location_info"] = volume
        elif network:
            expected["location"] = "Network"
            expected["location_info"] = net
        else:
            expected = {}
        return head + body, expected


# ---------------------------------------------------------------- extra data
# A block is (bytes, key in the report, expected report).

NAMES = {
    0xA0000001: "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK",
    0xA0000002: "CONSOLE_PROPERTIES_BLOCK",
    0xA0000003: "DISTRIBUTED_LINK_TRACKER_BLOCK",
    0xA0000004: "CONSOLE_CODEPAGE_BLOCK",
    0xA0000005: "SPECIAL_FOLDER_LOCATION_BLOCK",
    0xA0000006: "DARWIN_BLOCK",
    0xA0000007: "ICON_LOCATION_BLOCK",
    0xA0000008: "SHIM_LAYER_BLOCK",
    0xA0000009: "METADATA_PROPERTIES_BLOCK",
    0xA000000B: "KNOWN_FOLDER_LOCATION_BLOCK",
    0xA000000C: "SHELL_ITEM_IDENTIFIER_BLOCK",
}


def block(signature, body, expected):
    size = 8 + len(body)
    return u32(size) + u32(signature) + body, NAMES[signature], dict({"size": size}, **expected)


def _ansi_unicode(ansi, text_w, cp, filler):
    return (ansi.encode(cp) + b"\0").ljust(260, filler)[:260] + (wide(text_w) + b"\0\0").ljust(520, filler)[:520]


def block_environment(ansi="%windir%\\a.exe", text_w="%windir%\\b.exe", cp="cp1252", filler=b"\0", icon=False):
    return block(
        0xA0000007 if icon else 0xA0000001,
        _ansi_unicode(ansi, text_w, cp, filler),
        {"target_ansi": ansi, "target_unicode": text_w},
    )


CONSOLE_FIELDS = [  # name, offset from the start of the block, size, signed
    ("fill_attributes", 8, 2, False), ("popup_fill_attributes", 10, 2, False),
    ("screen_buffer_size_x", 12, 2, True), ("screen_buffer_size_y", 14, 2, True),
    ("window_size_x", 16, 2, True), ("window_size_y", 18, 2, True),
    ("window_origin_x", 20, 2, True), ("window_origin_y", 22, 2, True),
    ("font_size", 32, 4, False), ("font_family", 36, 4, False), ("font_weight", 40, 4, False),
    ("cursor_size", 108, 4, False), ("full_screen", 112, 4, False), ("quick_edit", 116, 4, False),
    ("insert_mode", 120, 4, False), ("auto_position", 124, 4, False),
    ("history_buffer_size", 128, 4, False), ("number_of_history_buffers", 132, 4, False),
    ("history_no_dup", 136, 4, False), ("color_table", 140, 4, False),
]  # fmt: skip


def block_console(values=None, face="Lucida Console", filler=b"\0", unused=b"\x99" * 8, colors=None):
    values = values or {}
    raw = bytearray(0xCC)
    raw[24:32] = unused
    raw[44:108] = (wide(face) + b"\0\0").ljust(64, filler)[:64]
    raw[144:204] = colors or bytes(range(60))
    expected = {"face_name": face}
    for n, (name, at, size, signed) in enumerate(CONSOLE_FIELDS):
        v = values.get(name, 0x0101 * (n + 1) if size == 2 else 0x01010101 * (n + 1))
        raw[at : at + size] = u16(v) if size == 2 else u32(v)
        expected[name] = s16(v) if signed else v
    return block(0xA0000002, bytes(raw[8:]), expected)


def block_tracker(machine="machine-1", ids=None, length=0x58, version=0, cp="cp1252", filler=b"\0"):
    ids = ids or [
        "11111111-2222-3333-4444-555555555551",
        "21111111-2222-3333-4444-555555555552",
        "31111111-2222-3333-4444-555555555553",
        "41111111-2222-3333-4444-555555555554",
    ]
    body = u32(length) + u32(version) + (machine.encode(cp) + b"\0").ljust(16, filler)[:16]
    body += b"".join(guid_bytes(g) for g in ids)
    return block(
        0xA0000003,
        body,
        {
            "length": length,
            "version": version,
            "machine_identifier": machine,
            "droid_volume_identifier": ids[0],
            "droid_file_identifier": ids[1],
            "birth_droid_volume_identifier": ids[2],
            "birth_droid_file_identifier": ids[3],
        },
    )


def block_codepage(code_page=1252):
    return block(0xA0000004, u32(code_page), {"code_page": code_page})


def block_special_folder(folder=0x25, offset=0xDD):
    return block(0xA0000005, u32(folder) + u32(offset), {"special_folder_id": folder, "offset": offset})


def block_known_folder(guid="1AC14E77-02E7-4E5D-B744-2EB1AE5198B7", offset=0xDD):
    return block(0xA000000B, guid_bytes(guid) + u32(offset), {"known_folder_id": guid, "offset": offset})


def block_shim(name="WinXPSp2", pad=b""):
    return block(0xA0000008, wide_z(name) + pad, {"layer_name": name})


BASE85 = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


def pack_guid(guid):
    """Darwin (base 85) form of a GUID: the four little-endian 32-bit words, least digit first."""
    out = ""
    for word in struct.unpack("<4I", guid_bytes(guid)):
        for _ in range(5):
            out += BASE85[word % 85]
            word //= 85
    return out


def block_darwin(product="91120000-0030-0000-0000-0000000FF1CE", feature="EXCELFiles",
                 component="0638C49D-BB8B-4CD1-B191-052E8F325736", ansi=None, cp="cp1252", filler=b"\0"):  # fmt: skip
    """component None: the descriptor ends in `<`."""
    text = pack_guid(product) + feature
    text += "<" if component is None else ">" + pack_guid(component)
    ansi = text if ansi is None else ansi
    return block(
        0xA0000006,
        _ansi_unicode(ansi, text, cp, filler),
        {
            "darwin_data_ansi": ansi,
            "darwin_data_unicode": text,
            "product_code_id": product,
            "feature_name": feature or None,
            "component_id": component,
        },
    )


def block_shell_item(items, terminal=True, tail=b""):
    return block(0xA000000C, idlist_bytes(items, terminal, tail), {"id_list": [e for _, e in items]})


STRING_NAMED = "D5CDD505-2E9C-101B-9397-08002B2CF9AE"


def property_value(vt, value, padding=0):
    """A TypedPropertyValue and what is reported for it."""
    name = {v: k for k, v in T.VT.items()}[vt]
    head = u16(vt) + u16(padding)
    if vt == T.VT["VT_I2"]:
        return head + u16(value) + b"\0\0", s16(value), name
    if vt == T.VT["VT_LPWSTR"]:
        text = wide_z(value)
        raw = head + u32(len(text) // 2) + text
        return raw + b"\0" * (-len(text) % 4), value, name
    return head + value, None, name


def property_int(pid, vt, value, **kw):
    raw, shown, name = property_value(vt, value, **kw)
    size = 9 + len(raw)
    return u32(size) + u32(pid) + b"\0" + raw, {
        "value_size": size,
        "id": pid,
        "value": shown,
        "value_type": name,
    }


def property_str(pname, vt, value, **kw):
    raw, shown, name = property_value(vt, value, **kw)
    text = wide_z(pname)
    size = 9 + len(text) + len(raw)
    return u32(size) + u32(len(text)) + b"\0" + text + raw, {
        "value_size": size,
        "name_size": len(text),
        "name": pname,
        "value": shown,
        "value_type": name,
    }


def property_storage(format_id, values, version=0x53505331, tail=b"", terminal=True):
    body = b"".join(raw for raw, _ in values) + (u32(0) if terminal else b"") + tail
    size = 24 + len(body)
    return u32(size) + u32(version) + guid_bytes(format_id) + body, {
        "storage_size": size,
        "version": hex(version),
        "format_id": format_id,
        "serialized_property_values": [e for _, e in values],
    }


def block_metadata(storages, tail=b""):
    body = b"".join(raw for raw, _ in storages) + u32(0) + tail
    return block(0xA0000009, body, {"property_store": [e for _, e in storages]})


def block_unknown(signature=0xA00000FF, body=b"hidden"):
    size = 8 + len(body)
    return u32(size) + u32(signature) + body, "UNKNOWN_BLOCK", {
        "size": size,
        "extra_data_sha256": hashlib.sha256(u32(signature) + body).hexdigest(),
    }


# ---------------------------------------------------------------- the file

STRINGS = [
    ("description", "HasName"),
    ("relative_path", "HasRelativePath"),
    ("working_directory", "HasWorkingDir"),
    ("command_line_arguments", "HasArguments"),
    ("icon_location", "HasIconLocation"),
]
LIMITED = {"description", "relative_path", "working_directory"}


class File:
    def __init__(self, **kw):
        self.header = Header()
        self.flags = 0  # besides the flags that follow from the other members
        self.items = None
        self.items_terminal = True
        self.items_tail = b""
        self.info = None
        self.strings = {}
        self.unicode = True
        self.cp = "cp1252"
        self.extra = []
        self.terminal = 0  # None: the file ends without a terminal block
        self.tail = b""  # appended data
        self.allow_terminal_blocks = True
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)

    def link_flags(self):
        flags = self.flags
        if self.items is not None:
            flags |= T.LF["HasTargetIDList"]
        if self.info is not None:
            flags |= T.LF["HasLinkInfo"]
        for name, flag in STRINGS:
            if name in self.strings:
                flags |= T.LF[flag]
        if self.unicode:
            flags |= T.LF["IsUnicode"]
        return flags

    def build(self):
        """-> Built"""
        b = Built()
        h = self.header
        h.flags = self.link_flags()
        b.add("header", h.bytes())
        expect = {"size": None, "header": h.expect()}

        if self.items is not None:
            raw = idlist_bytes(self.items, self.items_terminal, self.items_tail)
            b.mark("idlist", len(b.data), 2 + len(raw))
            b.add("idlist.size", u16(len(raw)))
            for n, (d, _) in enumerate(self.items):
                b.mark("item%d" % n, len(b.data), 2 + len(d))
                b.add("item%d.size" % n, u16(2 + len(d)))
                b.add("item%d.data" % n, d)
            b.add("idlist.end", (b"\0\0" if self.items_terminal else b"") + self.items_tail)
            expect["target"] = {"size": len(raw), "items": [e for _, e in self.items], "index": h.size + 2}

        expect["link_info"] = {}
        if self.info is not None:
            raw, shown = self.info.build()
            b.mark("linkinfo", len(b.data), len(raw))
            b.add("linkinfo.size", raw[:4])
            b.add("linkinfo.body", raw[4:])
            if not h.flags & T.LF["ForceNoLinkInfo"]:
                expect["link_info"] = shown

        expect["data"] = {}
        for name, _ in STRINGS:
            if name in self.strings:
                text = self.strings[name]
                raw = wide(text) if self.unicode else text.encode(self.cp)
                b.mark("string." + name, len(b.data), 2 + len(raw))
                b.add("string.%s.count" % name, u16(len(raw) // 2 if self.unicode else len(raw)))
                b.add("string.%s.text" % name, raw)
                expect["data"][name] = text

        extra = {}
        for n, (raw, key, shown) in enumerate(self.extra):
            b.mark("block%d" % n, len(b.data), len(raw))
            b.add("block%d.size" % n, raw[:4])
            b.add("block%d.signature" % n, raw[4:8])
            b.add("block%d.body" % n, raw[8:])
            if key == "UNKNOWN_BLOCK":
                extra.setdefault(key, []).append(shown)
            else:
                extra[key] = shown
        if self.terminal is not None:
            b.add("terminal", u32(self.terminal))
        expect["size"] = len(b.data)
        if self.tail:
            if self.terminal is None:
                raise ValueError("tail without terminal block")
            b.add("tail", self.tail)
            if self.allow_terminal_blocks:
                extra["TERMINAL_BLOCK"] = {
                    "size": 4 + len(self.tail),
                    "appended_data_sha256": hashlib.sha256(self.tail).hexdigest(),
                }
                expect["size"] = len(b.data)
        expect["extra"] = extra
        b.data = bytes(b.data)
        b.expect = expect
        return b


class Built:
    def __init__(self):
        self.data = bytearray()
        self.parts = []  # (name, start, end), in file order, covering the file
        self.marks = {}  # whole structures: name -> (start, end)
        self.expect = None

    def add(self, name, raw):
        if raw:
            self.parts.append((name, len(self.data), len(self.data) + len(raw)))
        self.data += raw

    def mark(self, name, start, size):
        self.marks[name] = (start, start + size)


# ---------------------------------------------------------------- reduced reports

LINK_INFO_OFFSETS = [
    "link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
    "common_network_relative_link_offset", "common_path_suffix_offset",
]  # fmt: skip
LOCATION_OFFSETS = {
    "Local": ["volume_id_size", "volume_label_offset"],
    "Network": ["common_network_relative_link_size", "net_name_offset", "device_name_offset"],
}


def reduced(full):
    """What is reported without `print_all`: the same, less sizes, offsets and reserved fields."""
    out = dict(full)
    out["header"] = {
        k: v for k, v in full["header"].items() if k not in ("header_size", "reserved0", "reserved1", "reserved2")
    }
    if "target" in full:
        out["target"] = {
            "items": [{k: v for k, v in i.items() if k != "modification_time"} for i in full["target"]["items"]]
        }
    info = {k: v for k, v in full["link_info"].items() if k not in LINK_INFO_OFFSETS}
    if "location" in info:
        hidden = LOCATION_OFFSETS[info["location"]]
        info["location_info"] = {k: v for k, v in info["location_info"].items() if k not in hidden}
    out["link_info"] = info
    return out


def json_form(x):
    """What `print_json` shows: dates in ISO format, in whole seconds."""
    if isinstance(x, dict):
        return {k: json_form(v) for k, v in x.items()}
    if isinstance(x, list):
        return [json_form(v) for v in x]
    if isinstance(x, datetime):
        return x.replace(microsecond=0).isoformat()
    return x
