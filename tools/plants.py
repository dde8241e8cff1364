"""Definitions of the planted bugs (see seeded.py)."""

from vlib import model as M
from vlib import samples as S

PLANTS = []


def plant(id, prop, edits, needs, breaks, demo, data=None):
    PLANTS.append(dict(id=id, prop=prop, edits=[("LnkParse3/" + p, a, b) for p, a, b in edits], needs=needs,
                       breaks=breaks, demo=demo, data=data))  # fmt: skip


def built(**kw):
    return lambda: M.File(**kw).build().data


plant(
    "p01-force-no-link-info", "P01",
    [("lnk_file.py", '        return bool("HasLinkInfo" in self.header.link_flags())',
      '        return bool("HasLinkInfo" in self.header.link_flags()) and not self.force_no_link_info()')],
    "ForceNoLinkInfo set in a file that holds link info",
    "Link info that is to be ignored is not skipped, so strings and blocks are read from inside it",
    'expect(report(DATA)["data"], {"relative_path": "rel"})',
    built(info=M.Info(), strings={"relative_path": "rel"}, flags=0x100),
)
plant(
    "p02-icon-index", "P02",
    [("lnk_header.py", 'index = unpack("<i", self._raw[start:end])[0]', 'index = unpack("<h", self._raw[start : end - 2])[0]')],
    "an icon index beyond 16 bits",
    "Icon indexes that need more than 16 bits are reported wrongly",
    'expect(report(DATA)["header"]["icon_index"], 0x00018001)',
    built(header=M.Header(icon_index=0x00018001)),
)
plant(
    "p02-window-style", "P02",
    [("lnk_header.py", 'style = unpack("<i", self._raw[start:end])[0]', 'style = self._raw[start]')],
    "a show command whose low byte is 3 or 7 and whose other bytes are not zero",
    "Undefined show commands are taken for defined ones when their low byte is",
    'expect(report(DATA)["header"]["windowstyle"], "SW_SHOWNORMAL")',
    built(header=M.Header(show=0x103)),
)
plant(
    "p02-hotkey-f24", "P02",
    [("lnk_header.py", '        if high and low:', '        if high and low and b_low < b"\\x90":')],
    "the hot key is NUM LOCK or SCROLL LOCK",
    "The hot keys NUM LOCK and SCROLL LOCK are reported raw instead of by name",
    'expect(report(DATA)["header"]["hotkey"], "CONTROL - SCROLL_LOCK {0x9102}")',
    built(header=M.Header(key_low=0x91, key_high=2)),
)
plant(
    "p03-block-list-end", "P03",
    [("target_factory.py", "        if self.item_size() == 0:", "        if self.item_size() < 4:")],
    "an item of only three bytes (size and type) in the list",
    "An ID list ends at an item that holds nothing but its type",
    'expect([i["class"] for i in report(DATA)["target"]["items"]], ["Internet", "Root Folder"])',
    built(items=[M.item_plain(0x61, b""), M.item_root()]),
)
plant(
    "p04-file-size-sign", "P04",
    [("target/shell_fs_folder.py", 'size = unpack("<I", self._raw_target[start:end])[0]', 'size = unpack("<i", self._raw_target[start:end])[0]')],
    "a file entry of at least 2 GiB",
    "Sizes of 2 GiB and more are reported as negative numbers",
    'expect(report(DATA)["target"]["items"][0]["file_size"], 0x80000001)',
    built(items=[M.item_file(2, size=0x80000001)]),
)
plant(
    "p04-comments-without-description", "P04",
    [("target/network_location.py", "        if self._has_description():\n", "        if self._has_description() or self._has_comments():\n")],
    "a network location with comments and without description",
    "Without a description, the comments are reported as the description",
    'i = report(DATA)["target"]["items"][0]\nexpect((i["description"], i["comments"]), (None, "c"))',
    built(items=[M.item_network(content=0x40, comments="c")]),
)
plant(
    "p05-header-size", "P05",
    [("lnk_info.py", "return bool(self.header_size() >= 0x00000024)", "return bool(self.header_size() == 0x00000024)")],
    "link info with a header bigger than 0x24",
    "The Unicode paths are not reported when the header of the link info is bigger than 0x24",
    'expect(report(DATA)["link_info"]["local_base_path_unicode"], "C:\\\\w")',
    built(info=M.Info(header_size=0x28, base_path_w="C:\\w", suffix_w="s")),
)
plant(
    "p05-label-offset", "P05",
    [("info/local.py", "        start = self.volume_id_offset() + self.volume_label_offset()", "        start = self.volume_id_offset() + 16")],
    "a volume label that is not right behind the fixed part of the volume ID",
    "The volume label is read at a fixed place instead of at its offset",
    'expect(report(DATA)["link_info"]["location_info"]["volume_label"], "DISK")',
    built(info=M.Info(label_gap=2)),
)
plant(
    "p06-second-limit", "P06",
    [("string_data.py", "                text, length = self.read(self._raw[start:])\n                self._data[\"icon_location\"] = text",
      "                text, length = self.read(self._raw[start:], limit_length=True)\n                self._data[\"icon_location\"] = text")],
    "an icon location of more than 260 characters",
    "Icon locations are cut off after 260 characters",
    'expect(report(DATA)["data"]["icon_location"], "i" * 300)',
    built(strings={"icon_location": "i" * 300}),
)
plant(
    "p07-signature-mask", "P07",
    [("extra_factory.py", "sig = str(hex(self._rsig()))[2:]  # huh?", "sig = \"%08x\" % (self._rsig() & 0xFF0000FF)")],
    "a block whose signature differs from a known one in a middle byte",
    "Unknown blocks whose signatures share the first and last byte with a known one are taken for it",
    'expect(list(report(DATA)["extra"]), ["UNKNOWN_BLOCK"])',
    built(extra=[M.block_unknown(0xA0010004, b"abcd")]),
)
plant(
    "p07-empty-unknown", "P07",
    [("extra_data.py", "            if cls:\n", "            if cls and (len(data) > 8 or cls is not Unknown):\n")],
    "an unknown block without a body",
    "Unknown blocks without a body are not reported",
    'expect(len(report(DATA)["extra"]["UNKNOWN_BLOCK"]), 1)',
    built(extra=[M.block_unknown(0xA00000FF, b"")]),
)
plant(
    "p08-window-origin", "P08",
    [("extra/console.py", '        start, end = 22, 24\n        return unpack("<h", self._raw[start:end])[0]', '        start, end = 22, 24\n        return unpack("<H", self._raw[start:end])[0]')],
    "a console window above the screen (negative origin)",
    "A negative vertical window origin is reported as a large positive one",
    'expect(report(DATA)["extra"]["CONSOLE_PROPERTIES_BLOCK"]["window_origin_y"], -5)',
    built(extra=[M.block_console({"window_origin_y": 0xFFFB})]),
)
plant(
    "p08-machine-id", "P08",
    [("extra/distributed_tracker.py", "        end = start + 16\n        binary = self._raw[start:end]\n        text = self.text_processor.read_string(binary)",
      "        end = start + 15\n        binary = self._raw[start:end]\n        text = self.text_processor.read_string(binary)")],
    "a machine name that fills its field",
    "The last character of a 16 character machine name is lost",
    'expect(report(DATA)["extra"]["DISTRIBUTED_LINK_TRACKER_BLOCK"]["machine_identifier"], "abcdefghijklmnop")',
    lambda: M.File(extra=[M.block_tracker("abcdefghijklmnop")]).build().data,
)
plant(
    "p09-one-storage", "P09",
    [("extra/metadata.py", '        tmp["property_store"] = [storage.as_dict() for storage in self.property_store()]',
      '        tmp["property_store"] = list({s.format_id(): s.as_dict() for s in self.property_store()}.values())')],
    "two storages of the same format in one store",
    "Of two storages with the same format identifier, one is lost",
    'expect(len(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"]), 2)',
    built(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(n, 0x1F, "v")]) for n in (2, 3)])]),
)
plant(
    "p10-utf8-first", "P10",
    [("text_processor.py", "                string = bin_string.decode(self.cp)\n            except UnicodeDecodeError:\n                # Fallback",
      "                string = bin_string.decode(\"utf-8\" if len(bin_string) > 3 else self.cp)\n            except UnicodeDecodeError:\n                # Fallback"),
     ("text_processor.py", '                    string = bin_string.decode("utf-8")\n                except UnicodeDecodeError as e:', '                    string = bin_string.decode(self.cp)\n                except UnicodeDecodeError as e:')],
    "ANSI text of more than three bytes that is also valid UTF-8 and not ASCII",
    "Code page text that happens to be valid UTF-8 is read as UTF-8",
    'expect(report(DATA)["data"]["relative_path"], "a\\xc3\\xa9bc")',
    built(strings={"relative_path": "a\xc3\xa9bc"}, unicode=False),
)
plant(
    "p11-dos-seconds", "P11",
    [("utils.py", "            ((dos & 0x001F0000) >> 16) * 2,", "            min(((dos & 0x001F0000) >> 16) * 2, 59),")],
    "a DOS time whose seconds field is 30 or 31",
    "A DOS time that is none (60 seconds) is reported as a time",
    'expect(report(DATA)["target"]["items"][0]["modification_time"], None)',
    built(items=[M.item_file(2, date=0x3A6F, time=0x6C3E)]),
)
plant(
    "p11-date-only", "P11",
    [("utils.py", "        if dos == 0:", "        if dos & 0xFFFF == 0 or dos >> 16 == 0:")],
    "a DOS time of midnight exactly",
    "A modification at midnight is reported as not set",
    'expect(str(report(DATA)["target"]["items"][0]["modification_time"]), "2009-03-15 00:00:00+00:00")',
    built(items=[M.item_file(2, date=0x3A6F, time=0)]),
)
plant(
    "p12-packed-digit", "P12",
    [("utils.py", '        b85 = base_85.find(char)\n', '        b85 = max(base_85.find(char), 0) if char != "}" else 82\n')],
    "a packed GUID with the second-highest digit",
    "One digit of packed GUIDs has a wrong value",
    'import string\nexpect(report(DATA)["extra"]["DARWIN_BLOCK"]["product_code_id"], "%s")' % "00000053-0000-0000-0000-000000000000",
    built(extra=[M.block_darwin("00000053-0000-0000-0000-000000000000")]),
)
plant(
    "p13-darwin-overflow", "P13",
    [("extra_data.py", "            except (StructError, ValueError) as e:", "            except StructError as e:")],
    "a property of an undocumented type",
    "An undocumented property type makes the report fail",
    'report(DATA)',
    lambda: M.File(terminal=None).build().data + M.u32(8 + 24 + 17 + 4 + 4) + M.u32(0xA0000009) + M.u32(24 + 17 + 4) + M.u32(0x53505331)
    + M.guid_bytes(S.G1) + M.u32(17) + M.u32(2) + b"\0" + M.u32(0x7777) + b"abcd" + M.u32(0) + M.u32(0),
)
plant(
    "p13-strict-ascii", "P13",
    [("target/users_files_folder.py", '.decode("ascii", errors="replace")', '.decode("ascii")')],
    "a users files folder whose signature is not ASCII",
    "A damaged signature of a users files folder makes the report fail",
    'report(DATA)',
    lambda: M.File(items=[M.item_users_files()]).build().data.replace(b"CFSF", b"CF\xffF"),
)
plant(
    "p14-block-error", "P14",
    [("extra_data.py", '                warnings.warn(msg)\n                continue\n        return res', '                warnings.warn(msg)\n                break\n        return res')],
    "a damaged block before an intact one",
    "A block that cannot be decoded hides all the blocks behind it",
    'expect("SPECIAL_FOLDER_LOCATION_BLOCK" in report(DATA)["extra"], True)',
    lambda: M.File(terminal=None).build().data + M.u32(10) + M.u32(0xA0000004) + b"xx" + M.block_special_folder()[0] + M.u32(0),
)
plant(
    "p16-zero-size", "P16",
    [("target_factory.py", "        if self.item_size() == 0:", "        if self.item_size() == 0 and self.item_type() == 0:")],
    "an ID list with an item of size zero that is not at its end",
    "An item of size zero followed by other bytes makes the parser loop for ever",
    'import signal\nsignal.alarm(20)\nreport(DATA)',
    lambda: M.Header(flags=1).bytes() + M.u16(6) + b"\0\0\x1f\x50\1\2" + M.u32(0),
)
plant(
    "p17-stash", "P17",
    [("lnk_file.py", "        if self.has_arguments():\n", "        if self.has_arguments() and not (self.header._stash.setdefault('n', 0) > 3):\n            self.header._stash['n'] += 1\n")],
    "asking for the command more than four times",
    "From the fifth time on, the command lacks its arguments",
    'lnk = LnkFile(indata=DATA)\nexpect({lnk.lnk_command for _ in range(9)}, {"rel args"})',
    built(strings={"relative_path": "rel", "command_line_arguments": "args"}),
)
plant(
    "p17-shared-list", "P17",
    [("lnk_header.py", "        items = sorted(self.FILE_FLAG_MASK.items())\n        flag = self.r_file_flags()\n        return [key for mask, key in items if bool(flag & mask)]",
      "        if \"file_flags\" not in self._stash:\n            items = sorted(self.FILE_FLAG_MASK.items())\n            flag = self.r_file_flags()\n            self._stash[\"file_flags\"] = [key for mask, key in items if bool(flag & mask)]\n        return self._stash[\"file_flags\"]")],
    "changing a returned report, then asking again",
    "Changing a returned report changes the flags of later reports",
    'lnk = LnkFile(indata=DATA)\nlnk.get_json()["header"]["file_flags"].clear()\nexpect(lnk.get_json()["header"]["file_flags"], ["FILE_ATTRIBUTE_ARCHIVE"])',
    built(),
)
plant(
    "p18-shared-buffer", "P18",
    [("text_processor.py", "class TextProcessor:\n", "class TextProcessor:\n    _units = []\n\n"),
     ("text_processor.py", "        for char in self._2bytes_each(binary):\n            if char == b\"\\x00\\x00\":\n                yield from _chars_to_string(chars)\n                chars = []\n            else:",
      "        chars = self._units\n        del chars[:]\n        for char in self._2bytes_each(binary):\n            if char == b\"\\x00\\x00\":\n                yield from _chars_to_string(chars)\n                del chars[:]\n            else:")],
    "two threads reading Unicode text at the same time",
    "Unicode text read in two threads at once is mixed up",
    '''
import threading

sys.setswitchinterval(1e-6)
bad = []


def work(data, wanted):
    for _ in range(150):
        if report(data)["data"]["relative_path"] != wanted:
            bad.append(wanted)
            return


threads = [threading.Thread(target=work, args=a) for a in ((A, "a" * 250), (B, "b" * 250))]
for t in threads:
    t.start()
for t in threads:
    t.join()
expect(bad, [])
''',
    lambda: {k: M.File(strings={"relative_path": k.lower() * 250}).build().data for k in "AB"},
)
plant(
    "p20-terminal-size", "P20",
    [("lnk_file.py", "        index += min(len(self.indata[index:]), 4)", "        index += min(len(self.indata[index:].lstrip(b\"\\x00\")) + 4, len(self.indata[index:]), 4) if self.extras.data or not self.allow_terminal_blocks else min(len(self.indata[index:]), 4)\n        index -= 4 if self.extras.data and len(self.indata) == index and self.extras.data[-1].name() == 'SHIM_LAYER_BLOCK' else 0")],
    "a file that ends in a shim block",
    "The size of a file whose last block is a shim block lacks the terminal block",
    'expect(LnkFile(indata=DATA).size, len(DATA))',
    built(extra=[M.block_shim()]),
)
plant(
    "p21-target-all", "P21",
    [("lnk_file.py", "            lnk.print_shortcut_target(pjson=args.json)", "            lnk.print_shortcut_target(pjson=args.json and not args.print_all)")],
    "the options -t, -j and -a together",
    "With -a, the shortcut target is not printed as JSON",
    '''
import tempfile
import subprocess

with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "x.lnk")
    with open(path, "wb") as f:
        f.write(DATA)
    out = subprocess.run([sys.executable, "-m", "LnkParse3.lnk_file", "-t", "-j", "-a", path], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd())).stdout
expect(json.loads(out), {"shortcut_target": "rel"})
''',
    built(strings={"relative_path": "rel"}),
)
plant(
    "p22-once", "P22",
    [("decorators.py", "def must_be(expected):\n    def outer(func):\n", "def must_be(expected):\n    def outer(func):\n        told = set()\n\n"),
     ("decorators.py", "            if result != expected:\n", "            if result != expected and result not in told:\n                told.add(result)\n")],
    "the second file with the same non-conforming value",
    "A non-conforming value is told for the first file that has it only",
    '''
for _ in range(3):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        report(DATA)
    expect(any("reserved1" in str(w.message) for w in seen), True)
''',
    built(header=M.Header(reserved=(0, 5, 0))),
)
plant(
    "p23-nested-codepage", "P23",
    [("target/users_files_folder.py", "ShellFSFolder(indata=self._raw_target[8:], cp=self.cp)", "ShellFSFolder(indata=self._raw_target[8:])")],
    "a users files folder with a name that is not ASCII, read with another code page",
    "The nested entry of a users files folder is read with the default code page",
    'expect(report(DATA, cp="cp437")["target"]["items"][0]["file_entry"]["primary_name"], "caf\\u0398")',
    built(items=[M.item_users_files(name="caf\xe9")]),
)
plant(
    "p24-digest-size", "P24",
    [("extra/unknown.py", "        return self._raw[start:]", "        return self._raw[start : 0x10000]")],
    "an unknown block of more than 64 KiB",
    "The digest of a large unknown block does not cover its end",
    'import hashlib\nexpect(report(DATA)["extra"]["UNKNOWN_BLOCK"][0]["extra_data_sha256"], hashlib.sha256(DATA[80:-4]).hexdigest())',
    built(extra=[M.block_unknown(0xA00000FF, b"z" * 70000)]),
)
plant(
    "p25-no-gap", "P25",
    [("lnk_file.py", '        return " ".join(out)', '        return " ".join(out).strip()')],
    "arguments that start or end with blanks",
    "Blanks at the end of the arguments are missing from the shortcut target",
    'expect(LnkFile(indata=DATA).lnk_command, "rel  x  ")',
    built(strings={"relative_path": "rel", "command_line_arguments": " x  "}),
)

plant(
    "p01-walked-list", "P01",
    [("lnk_targets.py", "        return self.id_list_size() + self.SIZE_OF_ID_LIST_SIZE",
      "        size = 0\n        while size < self.id_list_size():\n            item = self._raw[2 + size : 4 + size]\n            if len(item) < 2 or unpack(\"<H\", item)[0] < 2:\n                return size + 2 + self.SIZE_OF_ID_LIST_SIZE\n            size += unpack(\"<H\", item)[0]\n        return self.id_list_size() + self.SIZE_OF_ID_LIST_SIZE")],
    "an ID list that holds bytes behind its terminal item",
    "What follows the ID list is looked for behind its terminal item instead of behind its declared size",
    'expect(report(DATA)["data"], {"relative_path": "rel"})',
    lambda: M.Header(flags=0x89).bytes() + M.u16(9) + b"\3\0\x61\0\0abcd" + M.u16(3) + M.wide("rel") + M.u32(0),
)
plant(
    "p03-masked-type", "P03",
    [("target_factory.py", "        if masked_item_type in [0x20, 0x30, 0x40]:", "        if masked_item_type in [0x20, 0x30, 0x40] and (item_type < 0x80 or masked_item_type == 0x30):")],
    "a network location or volume whose type has the bit 0x80",
    "Volumes and network locations whose type has the bit 0x80 are reported as unknown items",
    'expect([i["class"] for i in report(DATA)["target"]["items"]], ["Network location"])',
    lambda: M.Header(flags=1).bytes() + M.u16(12) + b"\x0a\0\xc3\1\0\\\\a\0\0\0\0" + M.u32(0),
)
plant(
    "p04-truncated-name", "P04",
    [("target/my_computer.py", "self._raw_target[1:21]", "self._raw_target[1:20]")],
    "a volume name that fills its field",
    "The last character of a volume name of 20 characters is lost",
    'expect(report(DATA)["target"]["items"][0]["volume_name"], "abcdefghijklmnopqrst")',
    lambda: M.Header(flags=1).bytes() + M.u16(25) + M.u16(23) + b"\x2fabcdefghijklmnopqrst\0\0" + M.u32(0),
)
plant(
    "p04-cpl-comments", "P04",
    [("target/control_panel_cpl.py", "        char_offset = self._comments_offset()\n        if char_offset == 0:", "        char_offset = self._comments_offset()\n        if char_offset in (0, self._name_offset()):")],
    "a control panel item whose comments are stored together with its name",
    "Comments that are stored at the same place as the name are not reported",
    'expect(report(DATA)["target"]["items"][0]["comments"], "c")',
    lambda: (lambda item: M.Header(flags=1).bytes() + M.u16(len(item) + 4) + M.u16(len(item) + 2) + item + b"\0\0" + M.u32(0))(
        b"\0\0" + M.u32(0) + M.u16(4) + M.u16(4) + b"a\0b\0c\0"),
)
plant(
    "p06-limit-off-by-one", "P06",
    [("string_data.py", "length = 260 if limit_length and char_count > 260 else char_count",
      "length = 260 if limit_length and char_count > 261 else char_count")],
    "a description of exactly 261 characters",
    "Descriptions of 261 characters are not limited",
    'expect(report(DATA)["data"]["description"], "d" * 260)',
    lambda: M.Header(flags=0x84).bytes() + M.u16(261) + M.wide("d" * 261) + M.u32(0),
)
plant(
    "p09-format-prefix", "P09",
    [("extra/metadata.py", 'if self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE":', 'if self.format_id().startswith("D5CDD505-2E9C-101B-9397"):')],
    "a storage whose format differs from the named format in its last group only",
    "A storage of another format is read as one with named properties",
    'v = report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]\nexpect((v.get("id"), v["value"]), (2, "v"))',
    built(extra=[M.block_metadata([M.property_storage("D5CDD505-2E9C-101B-9397-08002B2CF9AF", [M.property_int(2, 0x1F, "v")])])]),
)
plant(
    "p09-padding", "P09",
    [("extra/metadata.py", "        if self.value_padding() != 0:\n            return None", "        if self.value_padding() != 0 and self.value_type() != PropertyType.VT_I2:\n            return None")],
    "a 16-bit value whose padding is not zero",
    "A value with an invalid padding is reported as if it were valid",
    'v = report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]\nexpect(v["value"], None)',
    lambda: M.Header(flags=0).bytes() + (lambda v: M.u32(8 + 4 + 24 + len(v) - 4 + 8) + M.u32(0xA0000009) + M.u32(24 + len(v) + 4) + M.u32(0x53505331)
    + M.guid_bytes(S.G1) + v + M.u32(0) + M.u32(0))(M.u32(17) + M.u32(2) + b"\0" + M.u16(2) + M.u16(1) + M.u32(7)) + M.u32(0),
)
plant(
    "p10-zero-bytes", "P10",
    [("text_processor.py", "        it = self.read_unicode_strings(binary)\n        return next(it)",
      "        end = binary.find(b\"\\x00\\x00\")\n        it = self.read_unicode_strings(binary if end < 0 else binary[: end + (end & 1)])\n        return next(it)")],
    "Unicode text with a character U+xx00 behind one below U+0100",
    "Unicode text ends in front of a character whose low byte is zero",
    'expect(report(DATA)["data"]["relative_path"], "a\\u0100b")',
    built(strings={"relative_path": "a\u0100b"}),
)
plant(
    "p10-odd-unicode", "P10",
    [("text_processor.py", "                if tmp:\n                    yield tmp\n                return None", "                return None")],
    "Unicode text whose field has an odd number of bytes",
    "A cut off character at the end of a Unicode text goes unnoticed",
    'expect(report(DATA)["data"]["relative_path"], "ab\\ufffd")',
    lambda: M.Header(flags=0x88).bytes() + M.u16(3) + M.wide("abc")[:5],
)
plant(
    "p12-third-group", "P12",
    [("utils.py", 'd1, d2, d3 = unpack("<LHH", binary[0:8])', 'd1, d2, d3 = unpack("<LHh", binary[0:8])')],
    "a GUID whose third group is 8000 or more",
    "The third group of a GUID is read as a signed number",
    'expect(report(DATA)["header"]["guid"], "00021401-0000-F123-C000-000000000046")',
    lambda: (lambda h: h[:4] + M.guid_bytes("00021401-0000-F123-C000-000000000046") + h[20:])(M.Header(flags=0).bytes()) + M.u32(0),
)
plant(
    "p12-first-of-last", "P12",
    [("utils.py", "    quad4 = _quad_to_hex(text[15:20])", "    quad4 = _quad_to_hex(text[15:20]).lower() if text[15] == \"!\" else _quad_to_hex(text[15:20])")],
    "a packed GUID whose last part starts with an exclamation mark",
    "A part of some packed GUIDs is written in lower case",
    'expect(report(DATA)["extra"]["DARWIN_BLOCK"]["product_code_id"], "%s")' % "00000000-0000-0000-0000-0000AA000000",
    built(extra=[M.block_darwin("00000000-0000-0000-0000-0000AA000000")]),
)
plant(
    "p15-string-lost", "P15",
    [("string_data.py", '            warnings.warn(f"Error while parsing String data: {e!r}")', '            warnings.warn(f"Error while parsing String data: {e!r}", stacklevel=2)\n            if len(self._data) > 2:\n                self._data.popitem()')],
    "a file that is cut off behind its third string",
    "Of a truncated file, the last complete string is lost",
    'expect(report(DATA)["data"]["working_directory"], "w")',
    lambda: M.Header(flags=0xFC).bytes() + b"".join(M.u16(1) + M.wide(ch) for ch in "drw"),
)
plant(
    "p16-quadratic-text", "P16",
    [("text_processor.py", "        for char in binary:\n            if char == 0x00:", "        chars = b\"\"\n        for char in binary:\n            if char == 0x00:"),
     ("text_processor.py", "                yield from _chars_to_string(chars)\n                chars = []\n            else:\n                chars.append(bytes([char]))",
      "                yield from _chars_to_string([chars])\n                chars = b\"\"\n            else:\n                chars = chars + bytes([char])"),
     ("text_processor.py", "        yield from _chars_to_string(chars)\n\n    def read_string(", "        yield from _chars_to_string([chars])\n\n    def read_string(")],
    "a text of several hundred thousand bytes in a link info structure or block",
    "Reading a long text takes quadratic time, as the bytes read so far are copied for each byte",
    """
import signal
import time

signal.alarm(110)


def cost(n):
    best = 1e9
    for _ in range(3):
        t = time.process_time()
        report(DATA + b"x" * n)
        best = min(best, time.process_time() - t)
    return best


expect(cost(1200000) < 40 * cost(100000), True)
""",
    lambda: M.Header(flags=2).bytes() + M.u32(0x7FFFFFFF) + M.u32(28) + M.u32(1) + M.u32(28) + M.u32(28) + M.u32(0) + M.u32(0),
)
plant(
    "p18-class-codepage", "P18",
    [("text_processor.py", '        self.cp = cp or "cp1252"', '        TextProcessor.cp = cp or "cp1252"')],
    "two files parsed with different code pages, the first reported after the second was parsed",
    "The code page of the file parsed last applies to all files",
    'a = LnkFile(indata=DATA)\nb = LnkFile(indata=DATA, cp="cp437")\nexpect(a.get_json()["link_info"]["local_base_path"], "caf\\xe9")',
    built(info=M.Info(base_path="caf\xe9")),
)
plant(
    "p18-interned-report", "P18",
    [("lnk_targets.py", "class LnkTargets:\n    SIZE_OF_ID_LIST_SIZE = 2\n", "class LnkTargets:\n    SIZE_OF_ID_LIST_SIZE, _seen = 2, {}\n"),
     ("lnk_targets.py", "    def as_list(self):\n        res = []\n", "    def as_list(self):\n        seen = self._seen.get(self._raw_targets)\n        if seen is not None:\n            return [dict(item) for item in seen]\n        res = []\n"),
     ("lnk_targets.py", "                continue\n        return res", "                continue\n        self._seen[self._raw_targets] = [dict(item) for item in res]\n        return res")],
    "the same ID list in two files that are read with different code pages",
    "The items of a file are reported as they were read with the code page of an earlier file",
    'report(DATA)\nexpect(report(DATA, cp="cp437")["target"]["items"][0]["primary_name"], "caf\\u0398")',
    built(items=[M.item_file(2, "caf\xe9")]),
)
plant(
    "p19-device-offset", "P19",
    [("lnk_file.py", '                res["link_info"]["location_info"].pop("device_name_offset", None)', '                if res["link_info"]["location_info"].get("device_name"):\n                    res["link_info"]["location_info"].pop("device_name_offset", None)')],
    "a network location without a device name, reduced report",
    "The reduced report holds the offset of a device name that is not there",
    'expect("device_name_offset" in report(DATA, False)["link_info"]["location_info"], False)',
    built(info=M.Info(flags=2)),
)
plant(
    "p19-empty-lines", "P19",
    [("lnk_file.py", "        print(textwrap.indent(res_yaml, \"   \"))", "        print(textwrap.indent(re.sub(r\"\\n\\n\\n+\", \"\\n\\n\", res_yaml), \"   \"))")],
    "text with several line breaks in a row",
    "Line breaks are lost from text in the text report",
    """
import yaml

text = printed(LnkFile(indata=DATA).print_lnk_file)
import textwrap
doc = yaml.safe_load(textwrap.dedent(text.split("\\n", 1)[1]))
expect(doc["DATA"]["Description"], "a\\n\\n\\nb")
""",
    built(strings={"description": "a\n\n\nb"}),
)
plant(
    "p21-rewind", "P21",
    [("lnk_file.py", "            self.indata = fhandle.read()\n", "            if fhandle.seekable() and fhandle.tell() > 0x4C:\n                fhandle.seek(0)\n            self.indata = fhandle.read()\n"),
     ("lnk_file.py", "        if fhandle:\n", "        if fhandle is not None:\n")],
    "an open file that is positioned behind a stored shortcut",
    "A file handle is read from its beginning instead of from its position",
    'f = io.BytesIO(b"x" * 100 + DATA)\nf.seek(100)\nexpect(LnkFile(fhandle=f).get_json(True), report(DATA))',
    built(),
)
plant(
    "p22-quiet-category", "P22",
    [("target/control_panel_category.py", "        if cat_id not in self.CATEGORIES:\n", "        if cat_id not in self.CATEGORIES and cat_id != 0xFFFFFFFF:\n"),
     ("target/control_panel_category.py", "        return self.CATEGORIES[cat_id]", "        return self.CATEGORIES.get(cat_id, \"Unknown\")")],
    "the category identifier 0xFFFFFFFF",
    "One unknown category is not told",
    """
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter("always")
    report(DATA)
expect(len(seen) > 0, True)
""",
    built(items=[M.item_category(0xFFFFFFFF)]),
)
plant(
    "p24-long-tail", "P24",
    [("extra/terminal.py", "        return 4 + len(self.appended_data())", "        return 4 + len(self.appended_data()) % 0x100000")],
    "appended data of a megabyte or more",
    "The size of the appended data is reported modulo a megabyte",
    'expect(report(DATA + b"z" * 1200000)["extra"]["TERMINAL_BLOCK"]["size"], 4 + 1200000)',
    built(),
)
plant(
    "p22-remembered-type", "P22",
    [("target_factory.py", "            warnings.warn(msg)\n            return Unknown", "            warnings.warn(msg)\n            cls.SHELL_ITEM_CLASSES[item_type] = Unknown\n            return Unknown")],
    "two files (or two items) with the same unknown item type",
    "An unknown item type is told the first time only",
    """
for n in range(2):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        report(DATA)
    expect(len(seen) > 0, True)
""",
    built(items=[M.item_plain(0x55)]),
)
plant(
    "p22-cached-date", "P22",
    [("utils.py", "        msg = \"Invalid filetime: %s\" % invalid_date\n        warnings.warn(msg)\n", "        msg = \"Invalid filetime: %s\" % invalid_date\n        if msg not in _told:\n            _told.add(msg)\n            warnings.warn(msg)\n"),
     ("utils.py", "def parse_filetime(binary):\n", "_told = set()\n\n\ndef parse_filetime(binary):\n")],
    "the same invalid date in two fields or files",
    "An invalid date is told the first time it occurs only",
    """
for n in range(2):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        report(DATA)
    expect(len(seen), 3)
""",
    built(header=M.Header(ctime=0x7FFFFFFFFFFFFFFF, atime=0x7FFFFFFFFFFFFFFF, wtime=0x7FFFFFFFFFFFFFFF)),
)
plant(
    "p18-decoder-state", "P18",
    [("text_processor.py", 'class TextProcessor:\n', 'import codecs\n\n\nclass TextProcessor:\n    _wide = codecs.getincrementaldecoder("utf-16le")()\n\n'),
     ("text_processor.py", '                string = bin_string.decode("utf-16le")\n', '                string = self._wide.decode(bin_string)\n                if len(bin_string) & 1:\n                    raise UnicodeDecodeError("utf-16le", bin_string, 0, len(bin_string), "truncated data")\n')],
    "a file whose Unicode text ends in half a character, and another file (or field) with Unicode text",
    "What is left of a cut off character is put in front of the Unicode text that is read next",
    'report(BAD)\nexpect(report(DATA)["data"]["relative_path"], "ab")',
    lambda: dict(
        DATA=built(strings={"relative_path": "ab"})(),
        BAD=M.Header(flags=0x88).bytes() + M.u16(2) + b"a\0\x3d",
    ),
)
plant(
    "p22-chunks", "P22",
    [("text_processor.py", "                string = bin_string.decode(self.cp)\n", '                string = "".join(bin_string[i : i + 4096].decode(self.cp) for i in range(0, len(bin_string), 4096))\n')],
    "a text of more than 4096 bytes in a code page with characters of several bytes",
    "A character that lies across byte 4096 of a text causes a warning",
    """
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter("always")
    report(DATA, cp="cp932")
expect(len(seen), 0)
""",
    lambda: M.Header(flags=0x20).bytes() + M.u16(6001) + b"a" + ("\u65e5" * 3000).encode("cp932") + M.u32(0),
)
plant(
    "p10-sticky", "P10",
    [("text_processor.py", '                    string = bin_string.decode("utf-8")\n', '                    string = bin_string.decode("utf-8")\n                    self.cp = "utf-8" if len(lst) > 3 else self.cp\n')],
    "two strings of which the first is no text in the code page but in UTF-8, and the second is text in the code page",
    "After one text that had to be read in UTF-8, all later ones are",
    'expect(report(DATA)["data"], {"relative_path": "xx\\xc1", "working_directory": "caf\\xe9"})',
    lambda: M.Header(flags=0x18).bytes() + M.u16(4) + b"xx\xc3\x81" + M.u16(4) + b"caf\xe9" + M.u32(0),
)
plant(
    "p07-many-blocks", "P07",
    [("extra_data.py", "            cls = factory.extra_class()\n            if cls:", "            cls = factory.extra_class()\n            if cls and len(self.data) < 128:")],
    "more than 128 blocks",
    "Blocks from the 129th on are not reported",
    'expect(len(report(DATA)["extra"]["UNKNOWN_BLOCK"]), 130)',
    built(extra=[M.block_unknown(0xA00000FF, b"x")] * 130),
)
plant(
    "p24-same-payload", "P24",
    [("extra_data.py", "                    res[extra.name()].append(extra.as_dict())", "                    item = extra.as_dict()\n                    if item not in res[extra.name()]:\n                        res[extra.name()].append(item)")],
    "two unknown blocks with the same content",
    "Of several unknown blocks with the same content, one is reported",
    'expect(len(report(DATA)["extra"]["UNKNOWN_BLOCK"]), 2)',
    built(extra=[M.block_unknown(0xA00000FF, b"xyz"), M.block_shim(), M.block_unknown(0xA00000FF, b"xyz")]),
)
plant(
    "p16-list-copies", "P16",
    [("extra_data.py", "                    res[extra.name()].append(extra.as_dict())", "                    res[extra.name()] = [*res[extra.name()], extra.as_dict()]")],
    "thousands of unknown blocks",
    "Collecting the unknown blocks takes quadratic time, as the list is copied for each",
    """
import gc
import time


def cost(n):
    data = DATA + BLOCK * n
    best = 1e9
    for _ in range(3):
        x = LnkFile(indata=data)
        gc.disable()
        t = time.process_time()
        x.extras.as_dict()
        best = min(best, time.process_time() - t)
        gc.enable()
    return best


expect(cost(40000) < 30 * cost(4000), True)
""",
    lambda: dict(DATA=M.Header(flags=0).bytes(), BLOCK=b"\x08\0\0\0\xff\0\0\xa0"),
)
plant(
    "p18-shared-result", "P18",
    [("lnk_targets.py", "        res = []\n        for target in self:", "        self._items = res = []\n        for target in self:"),
     ("lnk_targets.py", "                res.append(target.as_item())", "                self._items.append(target.as_item())")],
    "one parsed file that is reported from two threads at once",
    "Two threads that report the same parsed file get items of the other's report",
    """
import sys
import threading

x = LnkFile(indata=DATA)
wanted = x.get_json(True)
done = []
inside = threading.Event()
go = threading.Event()


def tracer(frame, event, arg):
    if frame.f_code.co_name == "as_item" and not inside.is_set():
        inside.set()
        go.wait(60)
    return tracer if "LnkParse3" in frame.f_code.co_filename else None


def first():
    sys.settrace(tracer)
    done.append(x.get_json(True))
    sys.settrace(None)


t = threading.Thread(target=first)
t.start()
inside.wait(60)
expect(x.get_json(True), wanted)
go.set()
t.join()
expect(done, [wanted])
""",
    built(items=[M.item_root(), M.item_file(2, "a")]),
)
plant(
    "p19-rounding", "P19",
    [("lnk_file.py", "                return obj.replace(microsecond=0).isoformat()", "                obj += datetime.timedelta(microseconds=obj.microsecond // 999500 * 500)\n                return obj.replace(microsecond=0).isoformat()")],
    "a date in the second half of a second",
    "The JSON shows dates in the second half of a second rounded up",
    'expect(json.loads(printed(LnkFile(indata=DATA).print_json))["header"]["creation_time"], "2020-01-01T00:00:00+00:00")',
    built(header=M.Header(ctime=132223104000000000 + 9996000)),
)
plant(
    "p20-terminal-value", "P20",
    [("lnk_file.py", "        index += min(len(self.indata[index:]), 4)", "        rest = self.indata[index:]\n        index += min(len(rest), 4) if rest[:4] != b\"\\x03\\0\\0\\0\" else 0")],
    "a terminal block of value 3 with the option for containers",
    "The size of a file whose terminal block holds 3 lacks the terminal block",
    'expect(LnkFile(indata=DATA, allow_terminal_blocks=False).size, len(DATA))',
    lambda: M.Header(flags=0).bytes() + M.u32(3),
)
plant(
    "p21-one-read", "P21",
    [("lnk_file.py", "            self.indata = fhandle.read()\n", "            self.indata = fhandle.read(1 << 20)\n")],
    "a file of more than a megabyte that is read from a handle",
    "What lies beyond the first megabyte of a file is not read from handles",
    'data = DATA + b"z" * 1100000\nexpect(LnkFile(fhandle=io.BytesIO(data)).get_json(True) == report(data), True)',
    built(),
)
plant(
    "p23-label-page", "P23",
    [("info/local.py", "        start = self.volume_id_offset() + self.volume_label_offset()\n\n        binary = self._raw[start:]\n", "        start = self.volume_id_offset() + self.volume_label_offset()\n\n        binary = self._raw[start:]\n        if binary[:1] > b\"\\xf0\":\n            return TextProcessor().read_string(binary)\n"),
     ("info/local.py", "from LnkParse3.lnk_info import LnkInfo\n", "from LnkParse3.lnk_info import LnkInfo\nfrom LnkParse3.text_processor import TextProcessor\n")],
    "a volume label whose first byte is above F0, read with a code page other than the default",
    "Some volume labels are read with the default code page",
    'expect(report(DATA, cp="cp1251")["link_info"]["location_info"]["volume_label"], "\\u044fx")',
    built(info=M.Info(label="\u044fx", cp="cp1251"), cp="cp1251"),
)
plant(
    "p12-null-guid", "P12",
    [("extra/known_folder.py", "    @uuid\n    def known_folder_id(self):", "    def known_folder_id(self):\n        return self._known_folder_id() if any(self._raw[8:23]) else None\n\n    @uuid\n    def _known_folder_id(self):")],
    "a known folder identifier of which only the last byte is not zero",
    "Known folder identifiers that are zero but for the last byte are reported as none",
    'expect(report(DATA)["extra"]["KNOWN_FOLDER_LOCATION_BLOCK"]["known_folder_id"], "00000000-0000-0000-0000-000000000001")',
    built(extra=[M.block_known_folder("00000000-0000-0000-0000-000000000001")]),
)
plant(
    "p13-surrogates", "P13",
    [("text_processor.py", 'bin_string.decode("utf-16le", errors="replace")', 'bin_string.decode("utf-16le", errors="surrogatepass" if len(bin_string) % 2 == 0 else "replace")')],
    "Unicode text with half a surrogate pair, printed",
    "Printing a file whose text holds half a surrogate pair fails",
    """
import os

out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
with contextlib.redirect_stdout(out):
    LnkFile(indata=DATA).print_shortcut_target()
    out.flush()
""",
    lambda: M.Header(flags=0x88).bytes() + M.u16(2) + b"a\0\x3d\xd8" + M.u32(0),
)
plant(
    "p14-item-error", "P14",
    [("lnk_targets.py", "                warnings.warn(msg)\n                continue\n        return res", "                warnings.warn(msg)\n                if isinstance(e, KeyError):\n                    break\n                continue\n        return res"),
     ("target/control_panel_category.py", "        if cat_id not in self.CATEGORIES:\n", "        if cat_id not in self.CATEGORIES and cat_id < 0x80000000:\n")],
    "a control panel category above 0x80000000 in front of other items",
    "One damaged item hides the items behind it",
    'expect(report(DATA)["target"]["items"][-1]["class"], "File entry")',
    built(items=[M.item_category(0x80000001), M.item_file(2, "a")]),
)
plant(
    "p04-trimmed", "P04",
    [("target/network_location.py", "        return self._comments", "        return self._comments and (self._comments.strip() or self._comments)")],
    "comments of a network location that begin or end with a blank",
    "Blanks around the comments of a network location are lost",
    'expect(report(DATA)["target"]["items"][0]["comments"], " x ")',
    built(items=[M.item_network(comments=" x ")]),
)
plant(
    "p05-suffix", "P05",
    [("lnk_info.py", "        start = self.common_path_suffix_offset()\n\n        binary = self._raw[start:]\n", "        start = self.common_path_suffix_offset()\n        if self._raw[start : start + 1] == b\"\\\\\":\n            start += 1\n\n        binary = self._raw[start:]\n")],
    "a path suffix that begins with a backslash",
    "The backslash at the beginning of a path suffix is lost",
    'expect(report(DATA)["link_info"]["common_path_suffix"], "\\\\x")',
    built(info=M.Info(suffix="\\x")),
)
plant(
    "p05-far-share", "P05",
    [("info/network.py", "        start = self.common_network_relative_link_offset() + 16\n        end = start + 4", "        start = (self.common_network_relative_link_offset() & 0xFFFF) + 16\n        end = start + 4")],
    "network location data behind the first 64 KiB of the link info",
    "The network provider is read from a wrong place if the network data lie far behind",
    'expect(report(DATA)["link_info"]["location_info"]["r_network_provider_type"], "0x420000")',
    lambda: M.Header(flags=2).bytes() + M.u32(70000 + 26) + M.u32(28) + M.u32(2) + M.u32(0) + M.u32(0) + M.u32(70000) + M.u32(28) + b"\0" * (70000 - 28)
    + M.u32(26) + M.u32(2) + M.u32(20) + M.u32(0) + M.u32(0x420000) + b"\\\\s\\t\0" + M.u32(0),
)
plant(
    "p06-empty-string", "P06",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n", "        text = self._read(binary[offset : offset + length])\n        if not text and length > 2 and limit_length:\n            length = 0\n")],
    "a string that has characters but begins with NUL, followed by another string",
    "What follows a string that begins with NUL is read from inside it",
    'expect(report(DATA)["data"]["working_directory"], "w")',
    lambda: M.Header(flags=0x18).bytes() + M.u16(4) + b"\0abc" + M.u16(1) + b"w" + M.u32(0),
)
plant(
    "p09-name-size", "P09",
    [("extra/metadata.py", "        return 9 + int(self.name_size())", "        return 9 + int(self.name_size()) % 0x100")],
    "a property name of 128 characters or more",
    "Values whose names are long are read from a wrong place",
    'v = report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]\nexpect((v["name"], v["value"]), ("n" * 200, "v"))',
    built(extra=[M.block_metadata([M.property_storage("D5CDD505-2E9C-101B-9397-08002B2CF9AE", [M.property_str("n" * 200, 0x1F, "v")])])]),
)
plant(
    "p15-last-item", "P15",
    [("lnk_targets.py", "            try:\n                item = self._raw_targets[start : start + max(size, 2)]", "            if start + size == len(self._raw_targets):\n                # Without a terminal item, the last one is not complete.\n                break\n\n            try:\n                item = self._raw_targets[start : start + max(size, 2)]")],
    "a file that is cut off right behind an item",
    "Of a file cut off right behind an item, that item is not reported",
    'expect(len(report(DATA[:-2])["target"]["items"]), 1)',
    lambda: M.Header(flags=1).bytes() + M.u16(16 + 2) + M.u16(16) + b"\x32\0" + M.u32(5) + M.u32(0) + M.u16(0x20) + b"a\0" + b"\0\0",
)
plant(
    "p17-crowded-list", "P17",
    [("lnk_targets.py", "            if target:\n                yield target\n", "            if target:\n                self._count = getattr(self, \"_count\", 0) + 1\n                if self._count > 4096:\n                    warnings.warn(\"Too many TargetIDs\")\n                    break\n                yield target\n")],
    "a file that is reported often, so that more than 4096 items have been read in all",
    "Reports of a file that has been reported often lack items",
    'x = LnkFile(indata=DATA)\nwanted = x.get_json(True)\nfor n in range(30):\n    expect(x.get_json(True), wanted)',
    built(items=[M.item_plain(0x61, b"")] * 200),
)
plant(
    "p01-many-sections", "P01",
    [("string_data.py", "        self._size = start", "        self._size = min(start, 0xFFFF)")],
    "string data of more than 64 KiB",
    "What follows string data of more than 64 KiB is read from inside it",
    'expect(report(DATA)["extra"]["SPECIAL_FOLDER_LOCATION_BLOCK"]["special_folder_id"], 0x25)',
    lambda: M.Header(flags=0xE0).bytes() + M.u16(20000) + M.wide("a" * 20000) + M.u16(20000) + M.wide("b" * 20000) + M.u32(16) + M.u32(0xA0000005) + M.u32(0x25) + M.u32(0) + M.u32(0),
)
plant(
    "p02-sane-times", "P02",
    [("lnk_header.py", "    @filetime\n    def access_time(self):", "    def access_time(self):\n        accessed, created = self._access_time(), self.creation_time()\n        if accessed and created and accessed < created and created.year > 9000:\n            return created\n        return accessed\n\n    @filetime\n    def _access_time(self):")],
    "an access time before a creation time beyond the year 9000",
    "The creation time is reported as the access time",
    'expect(report(DATA)["header"]["accessed_time"].year, 1601)',
    built(header=M.Header(ctime=0x24000000_00000000, atime=0x100000)),
)
plant(
    "p04-same-comments", "P04",
    [("target/network_location.py", "        return self._comments", "        return self._comments if self._comments != self._description else None")],
    "a network location whose comments are the same text as its description",
    "Comments that repeat the description are not reported",
    'expect(report(DATA)["target"]["items"][0]["comments"], "x")',
    built(items=[M.item_network(comments="x", description="x")]),
)
plant(
    "p05-same-unicode", "P05",
    [("lnk_info.py", "        start = self.local_base_path_offset_unicode()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_unicode_string(binary)\n", "        start = self.local_base_path_offset_unicode()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_unicode_string(binary)\n        if text == self.local_base_path() and text == self.common_path_suffix_unicode():\n            return None\n")],
    "base path and path suffix hold the same text",
    "A Unicode path that repeats the other paths is reported as none",
    'expect(report(DATA)["link_info"]["local_base_path_unicode"], "same")',
    built(info=M.Info(header_size=0x24, base_path="same", base_path_w="same", suffix="same", suffix_w="same")),
)
plant(
    "p06-same-string", "P06",
    [("string_data.py", '        return {k: v for k, v in self._data.items() if v is not None}', '        data = {k: v for k, v in self._data.items() if v is not None}\n        if data.get("working_directory") and data.get("working_directory") == data.get("description"):\n            del data["description"]\n        return data')],
    "description and working directory hold the same text",
    "A description that is the same as the working directory is not reported",
    'expect(report(DATA)["data"], {"description": "x", "working_directory": "x"})',
    built(strings={"description": "x", "working_directory": "x"}),
)
plant(
    "p08-same-target", "P08",
    [("extra/icon.py", '        tmp["target_unicode"] = self.target_unicode()', '        tmp["target_unicode"] = self.target_unicode()\n        if len(tmp["target_unicode"]) > 255 and tmp["target_unicode"] == tmp["target_ansi"]:\n            tmp["target_unicode"] = tmp["target_ansi"][:255]')],
    "an icon environment block whose two targets fill their fields with the same text",
    "The last characters of a long icon path are lost",
    'expect(len(report(DATA)["extra"]["ICON_LOCATION_BLOCK"]["target_unicode"]), 259)',
    built(extra=[M.block_environment(ansi="p" * 259, text_w="p" * 259, icon=True)]),
)
plant(
    "p09-repeated-value", "P09",
    [("extra/metadata.py", '            "serialized_property_values": [v.as_dict() for v in self.serialized_property_values()],', '            "serialized_property_values": list({str(v): v for v in [v.as_dict() for v in self.serialized_property_values()]}.values()),')],
    "a storage that holds the same value twice",
    "Of two equal values of a storage, one is reported",
    's = report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]\nexpect(len(s["serialized_property_values"]), 2)',
    built(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 2, 7)] * 2)])]),
)
plant(
    "p24-padded", "P24",
    [("extra/unknown.py", "        return self._raw[start:]", "        return self._raw[start:].ljust(min(self.size(), 1 << 20) - start, b\"\\0\")")],
    "an unknown block that is longer than the file",
    "The digest of an unknown block that is cut off covers bytes that are not there",
    """
import hashlib

got = report(DATA)["extra"]["UNKNOWN_BLOCK"][0]["extra_data_sha256"]
expect(got, hashlib.sha256(DATA[80:]).hexdigest())
""",
    lambda: M.Header(flags=0).bytes() + M.u32(100) + M.u32(0xA00000FF) + b"hidden",
)
plant(
    "p22-nested-date", "P22",
    [("target/users_files_folder.py", '        item["file_entry"] = self.file_entry().as_item()', '        with warnings.catch_warnings():\n            warnings.filterwarnings("ignore", "Invalid dostime.*")\n            item["file_entry"] = self.file_entry().as_item()'),
     ("target/users_files_folder.py", "from struct import unpack\n", "import warnings\nfrom struct import unpack\n")],
    "an invalid date in the entry inside a users files folder",
    "Invalid dates of entries inside users files folders are not told",
    """
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter("always")
    report(DATA)
expect(len(seen) > 0, True)
""",
    built(items=[M.item_users_files(date=M.dos_date(2008, 13, 1))]),
)
plant(
    "p18-packed-scratch", "P18",
    [("utils.py", "    quad1 = _quad_to_hex(text[0:5])\n", "    _quads.clear()\n    _quads.append(_quad_to_hex(text[0:5]))\n"),
     ("utils.py", "    quad2 = _quad_to_hex(text[5:10])\n", "    _quads.append(_quad_to_hex(text[5:10]))\n"),
     ("utils.py", "    quad3 = _quad_to_hex(text[10:15])\n", "    _quads.append(_quad_to_hex(text[10:15]))\n"),
     ("utils.py", "    quad4 = _quad_to_hex(text[15:20])\n    quads = quad1 + quad2 + quad3 + quad4\n", "    _quads.append(_quad_to_hex(text[15:20]))\n    quads = \"\".join(_quads)\n"),
     ("utils.py", "def _quad_to_hex(quad):", "_quads = []\n\n\ndef _quad_to_hex(quad):")],
    "Darwin blocks that are reported in two threads at once",
    "Packed GUIDs that are unpacked in two threads at once are mixed up",
    """
import threading

x, y = LnkFile(indata=DATA), LnkFile(indata=OTHER)
wanted = x.get_json(True)
done = []
inside = threading.Event()
go = threading.Event()
count = []


def tracer(frame, event, arg):
    if frame.f_code.co_name == "_quad_to_hex" and event == "call":
        count.append(1)
        if len(count) == 3:
            inside.set()
            go.wait(60)
    return tracer if "LnkParse3" in frame.f_code.co_filename else None


def first():
    sys.settrace(tracer)
    done.append(x.get_json(True))
    sys.settrace(None)


t = threading.Thread(target=first)
t.start()
inside.wait(60)
y.get_json(True)
go.set()
t.join()
expect(done, [wanted])
""",
    lambda: dict(DATA=M.File(extra=[M.block_darwin(S.G1)]).build().data, OTHER=M.File(extra=[M.block_darwin(S.G2)]).build().data),
)
plant(
    "p18-dos-scratch", "P18",
    [("utils.py", "        dos = unpack(\"<I\", binary)[0]\n", "        global _dos\n        _dos = unpack(\"<I\", binary)[0]\n        if _dos == 0:\n            return None\n        dos = _dos\n"),
     ("utils.py", "def parse_dostime(binary):\n", "_dos = 0\n\n\ndef parse_dostime(binary):\n")],
    "file entries that are reported in two threads at once",
    "Dates of file entries that are decoded in two threads at once are mixed up",
    """
import threading
import LnkParse3.utils as U

x, y = LnkFile(indata=DATA), LnkFile(indata=OTHER)
wanted = x.get_json(True)
for line in range(1, 400):
    done = []
    inside = threading.Event()
    go = threading.Event()

    def tracer(frame, event, arg):
        if frame.f_code.co_name == "parse_dostime" and frame.f_lineno == line and not inside.is_set():
            inside.set()
            go.wait(60)
        return tracer if "LnkParse3" in frame.f_code.co_filename else None

    def first():
        sys.settrace(tracer)
        done.append(x.get_json(True))
        sys.settrace(None)
        inside.set()

    t = threading.Thread(target=first)
    t.start()
    inside.wait(60)
    y.get_json(True)
    go.set()
    t.join()
    expect(done, [wanted])
""",
    lambda: dict(DATA=M.File(items=[M.item_file(2, "a")]).build().data, OTHER=M.File(items=[M.item_file(2, "b", date=M.dos_date(1999, 1, 2))]).build().data),
)
plant(
    "p16-membership", "P16",
    [("lnk_targets.py", "        res = []\n        for target in self:", "        res = []\n        seen = []\n        for target in self:"),
     ("lnk_targets.py", "                res.append(target.as_item())", "                item = target.as_item()\n                if item not in seen:\n                    seen.append(item)\n                res.append(item)")],
    "an ID list of thousands of different items",
    "Reporting the items takes quadratic time, as each is looked for among the ones before",
    """
import time


def cost(n):
    items = b"".join(b"\\x16\\0\\x32\\0" + i.to_bytes(4, "little") + bytes(6) + b"n%05d\\0\\0" % i for i in range(n))
    x = LnkFile(indata=DATA + (len(items) + 2).to_bytes(2, "little") + items + b"\\0\\0")
    best = 1e9
    for _ in range(3):
        t = time.process_time()
        expect(len(x.targets.as_list()), n)
        best = min(best, time.process_time() - t)
    return best


expect(cost(2970) < 25 * cost(270), True)
""",
    lambda: M.Header(flags=1).bytes(),
)
plant(
    "p21-empty-rest", "P21",
    [("lnk_file.py", "        elif indata is not None:\n            self.indata = indata\n", "        elif indata is not None:\n            self.indata = bytes(indata)\n        if fhandle and not self.indata and fhandle.seekable():\n            # Read already: start again.\n            fhandle.seek(0)\n            self.indata = fhandle.read()\n")],
    "a handle that is positioned at its end",
    "A handle without any bytes left is read from its beginning instead of refused",
    """
from LnkParse3.exceptions import LnkParserError

f = io.BytesIO(DATA)
f.read()
try:
    LnkFile(fhandle=f)
except LnkParserError:
    pass
else:
    expect("a report", "an error")
""",
    built(),
)
plant(
    "p14-icon", "P14",
    [("lnk_file.py", '        res["data"] = self.string_data.as_dict()\n', '        res["data"] = self.string_data.as_dict()\n        if res["header"]["icon_index"] > 0x1000000:\n            res["data"].pop("icon_location", None)\n')],
    "an icon index of a damaged header",
    "A damaged icon index hides the icon location",
    'expect(report(DATA)["data"], {"icon_location": "i"})',
    built(header=M.Header(icon_index=0x7F000000), strings={"icon_location": "i"}),
)
plant(
    "p03-same-item", "P03",
    [("extra/shell_item.py", "                res.append(target.as_item())", "                item = target.as_item()\n                if len(res) < 2 or item != res[-2]:\n                    res.append(item)")],
    "an item that is the same as the one before the previous one",
    "An item that occurs again after another one is not reported",
    'expect(len(report(DATA)["extra"]["SHELL_ITEM_IDENTIFIER_BLOCK"]["id_list"]), 3)',
    built(extra=[M.block_shell_item([M.item_root(), M.item_file(2, "a"), M.item_root()])]),
)
plant(
    "p20-zero-gap", "P20",
    [("lnk_file.py", "        index += min(len(self.indata[index:]), 4)", "        index += min(len(self.indata[index:]), 4)\n        if not self.allow_terminal_blocks and self.indata[index : index + 4] == b\"\\0\" * 4 and self.string_data.size() > 2000:\n            index += 4")],
    "a stored shortcut with long strings that is followed by four zero bytes",
    "Zero bytes behind a stored shortcut are counted as part of it",
    'expect(LnkFile(indata=DATA + bytes(8), allow_terminal_blocks=False).size, len(DATA))',
    built(strings={"command_line_arguments": "a" * 1500}),
)
plant(
    "p23-alias", "P23",
    [("text_processor.py", '        self.cp = cp or "cp1252"', '        self.cp = (cp or "cp1252").lower()\n        self.cp = {"cp1250": "cp1252", "iso8859-15": "latin-1"}.get(self.cp, self.cp)')],
    "the code page cp1250 or iso8859-15",
    "One code page is taken for a similar one",
    'expect(report(DATA, cp="cp1250")["data"]["relative_path"], "\\u0159")',
    lambda: M.Header(flags=8).bytes() + M.u16(1) + b"\xf8" + M.u32(0),
)
plant(
    "p04-long-name", "P04",
    [("target/shell_fs_folder.py", "        binary = self._raw_target[start:]\n", "        # No name is longer than 260 characters.\n        binary = self._raw_target[start : start + 520]\n")],
    "a name of more than 260 characters in a file entry",
    "Long names of file entries are cut",
    'expect(len(report(DATA)["target"]["items"][0]["primary_name"]), 400)',
    built(items=[M.item_file(6, "n" * 400)]),
)
plant(
    "p04-cpl-surrogate", "P04",
    [("target/control_panel_cpl.py", "            byte_offset = start + char_offset * 2\n            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])\n        byte_offset = start + char_offset\n        return self.text_processor.read_string(self._raw_target[byte_offset:])\n\n    def comments", "            # Count characters from the start of the strings.\n            text = self._raw_target[start:].decode(\"utf-16le\", errors=\"replace\")\n            return text[char_offset:].split(\"\\0\", 1)[0]\n        byte_offset = start + char_offset\n        return self.text_processor.read_string(self._raw_target[byte_offset:])\n\n    def comments")],
    "a character outside the basic plane in the path of a control panel item",
    "The name of a control panel item loses its first characters",
    'expect(report(DATA)["target"]["items"][0]["name"], "Mouse")',
    built(items=[M.item_cpl(True, path="C:\\\U0001f600.cpl")]),
)
plant(
    "p05-max-path", "P05",
    [("lnk_info.py", "        start = self.local_base_path_offset_unicode()\n\n        binary = self._raw[start:]", "        start = self.local_base_path_offset_unicode()\n\n        binary = self._raw[start : start + 1024]")],
    "a Unicode local path of more than 512 characters",
    "Long Unicode local paths are cut",
    'expect(len(report(DATA)["link_info"]["local_base_path_unicode"]), 700)',
    built(info=M.Info(flags=1, header_size=0x24, base_path_w="p" * 700, suffix_w="s")),
)
plant(
    "p05-same-offset", "P05",
    [("lnk_file.py", "            if self.info.common_path_suffix_offset():\n                res", "            if self.info.common_path_suffix_offset() > self.info.local_base_path_offset():\n                res")],
    "a path suffix that is laid out before the local path",
    "A path suffix that stands before the local path is not reported",
    'expect(report(DATA)["link_info"]["common_path_suffix"], "suffix")',
    built(info=M.Info(flags=1, suffix="suffix", order="svbnBS")),
)
plant(
    "p06-boundary-pair", "P06",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n", "        if self._lnk_file.is_unicode() and limit_length and 0xD8 <= binary[offset + length - 1 : offset + length + 1][0] <= 0xDB:\n            # Do not cut a character in two.\n            length += 2\n        text = self._read(binary[offset : offset + length])\n")],
    "a character outside the basic plane across the limit of 260",
    "What follows a long description is read at the wrong place",
    'expect(list(report(DATA)["extra"]), ["SPECIAL_FOLDER_LOCATION_BLOCK"])',
    lambda: M.Header(flags=0x84).bytes() + M.u16(261) + M.wide("d" * 259 + "\U0001f600")[:520] + M.block_special_folder()[0] + b"\0" * 4,
)
plant(
    "p07-big-size", "P07",
    [("extra_factory.py", '        size = unpack("<I", self._raw[start:end])[0]\n        return size\n\n    def _rsig', '        size = unpack("<I", self._raw[start:end])[0]\n        # Blocks are at most 64 kB.\n        return min(size, 0x10000)\n\n    def _rsig')],
    "a block of more than 64 kB",
    "The rest of a big block is taken for further blocks",
    'expect(report(DATA)["extra"]["UNKNOWN_BLOCK"][0]["size"], 0x12008)\nexpect(list(report(DATA)["extra"]), ["UNKNOWN_BLOCK", "SPECIAL_FOLDER_LOCATION_BLOCK"])',
    built(extra=[M.block_unknown(0xA00000FF, b"\1" * 0x12000), M.block_special_folder()]),
)
plant(
    "p08-shim-long", "P08",
    [("extra/shim_layer.py", "        binary = self._raw[start:]", "        binary = self._raw[start : start + 0x400]")],
    "a shim layer name of more than 512 characters",
    "Long shim layer names are cut",
    'expect(len(report(DATA)["extra"]["SHIM_LAYER_BLOCK"]["layer_name"]), 600)',
    built(extra=[M.block_shim("s" * 600)]),
)
plant(
    "p09-long-text", "P09",
    [("extra/metadata.py", 'unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2', 'unicode_string_size = (unpack("<I", self._raw[start : start + 4])[0] * 2) & 0xFFFF')],
    "a text of more than 32767 characters in a property",
    "Very long property texts are cut",
    'expect(len(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]["value"]), 40000)',
    built(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(4, 0x1F, "t" * 40000)])])]),
)
plant(
    "p03-big-item", "P03",
    [("target/lnk_target_base.py", '        size = unpack("<H", self._raw[start:end])[0]\n        return size', '        size = unpack("<h", self._raw[start:end])[0]\n        return size')],
    "an item of 32 kB or more",
    "Big items lose their end",
    'expect(len(report(DATA)["target"]["items"][0]["primary_name"]), 40000)',
    built(items=[M.item_file(2, "n" * 40000), M.item_root()]),
)
plant(
    "p16-backtracking", "P16",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n        return text, offset + length", "        text = self._read(binary[offset : offset + length])\n        if not limit_length:\n            self._padding = re.search(r\"\\s+$\", text)\n        return text, offset + length"),
     ("string_data.py", "import struct\n", "import re\nimport struct\n")],
    "arguments that are padded with tens of thousands of blanks",
    "Looking for padding at the end of the arguments takes quadratic time",
    """
import time


def cost(n):
    data = DATA + n.to_bytes(2, "little") + b" " * (n - 1) + b"x"
    best = 1e9
    for _ in range(3):
        t = time.process_time()
        LnkFile(indata=data)
        best = min(best, time.process_time() - t)
    return best


expect(cost(64000) < 25 * cost(4000), True)
""",
    lambda: M.Header(flags=0x20).bytes(),
)
plant(
    "p19-empty-comment", "P19",
    [("lnk_file.py", "                for key, value in input.items():\n                    result", "                for key, value in input.items():\n                    if value == \"\" and \"cpl_file_path\" in input:\n                        continue\n                    result")],
    "a control panel item without a name or comments",
    "The text leaves out empty texts of control panel items",
    'expect("Comments" in printed(LnkFile(indata=DATA).print_lnk_file), True)',
    built(items=[M.item_cpl(True, comments="")]),
)
plant(
    "p21-stdin", "P21",
    [("lnk_file.py", "            self.indata = fhandle.read()\n", "            if hasattr(fhandle, \"getbuffer\"):\n                # Everything is there already.\n                self.indata = bytes(fhandle.getbuffer())\n            else:\n                self.indata = fhandle.read()\n")],
    "an in-memory handle that is not at its beginning",
    "An in-memory handle is read from its beginning instead of its position",
    'f = io.BytesIO(b"junk" + DATA)\nf.seek(4)\nexpect(LnkFile(fhandle=f).get_json(True), report(DATA))',
    built(strings={"relative_path": "r"}),
)
plant(
    "p23-signature", "P23",
    [("target/users_files_folder.py", '        item["signature"] = self.signature().decode("ascii", errors="replace")', '        item["signature"] = self.text_processor.read_string(self.signature())')],
    "a users files folder in a file with a code page that is no extension of ASCII",
    "The signature of a users files folder changes with the code page",
    'expect(report(DATA, cp="cp037")["target"]["items"][0]["signature"], "CFSF")',
    built(items=[M.item_users_files()]),
)
plant(
    "p24-many-hidden", "P24",
    [("extra_data.py", "                    res[extra.name()].append(extra.as_dict())", "                    entry = extra.as_dict()\n                    if not any(e[\"size\"] == entry[\"size\"] and e[\"extra_data_sha256\"][:2] == entry[\"extra_data_sha256\"][:2] for e in res[extra.name()][:-1]):\n                        res[extra.name()].append(entry)")],
    "two unknown blocks with another between, whose digests begin alike",
    "Some hidden blocks are taken for repetitions of earlier ones and not listed",
    """
blocks = [(n + 8).to_bytes(1, "little") + b"\\0\\0\\0\\xff\\0\\0\\xa0" + bytes(n) for n in [0] * 3]
for i in range(40):
    blocks.append(b"\\x0c\\0\\0\\0\\xff\\0\\0\\xa0" + i.to_bytes(4, "little"))
expect(len(report(DATA + b"".join(blocks))["extra"]["UNKNOWN_BLOCK"]), 43)
""",
    lambda: M.Header().bytes(),
)
plant(
    "p15-cut-strings", "P15",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n", "        if len(binary) == offset + length and length > 2 and limit_length:\n            # Nothing may end at the very end of the file but the last string.\n            raise struct.error(\"no terminal block\")\n        text = self._read(binary[offset : offset + length])\n")],
    "a file that is cut exactly behind its description, relative path or working directory",
    "A string that is complete is dropped when the file ends right behind it",
    'expect(report(DATA)["data"], {"description": "abc"})',
    lambda: M.Header(flags=0x8C).bytes() + M.u16(3) + M.wide("abc"),
)
plant(
    "p14-label", "P14",
    [("lnk_file.py", '        res["extra"] = self.extras.as_dict()\n', '        res["extra"] = self.extras.as_dict()\n        info = res["link_info"].get("location_info")\n        if info and info.get("drive_type") is None and "r_drive_type" in info:\n            # Not a shortcut to this machine: nothing tracks it.\n            res["extra"].pop("DISTRIBUTED_LINK_TRACKER_BLOCK", None)\n')],
    "a damaged drive type in a file with a tracker block",
    "The tracker block is not reported when the drive type is damaged",
    'expect("DISTRIBUTED_LINK_TRACKER_BLOCK" in report(DATA)["extra"], True)',
    built(info=M.Info(drive_type=77), extra=[M.block_tracker()]),
)
plant(
    "p17-header-cache", "P17",
    [("lnk_file.py", '                "link_flags": self.header.link_flags(),\n                "file_flags": self.header.file_flags(),', '                "link_flags": self.__dict__.setdefault("_names", (self.header.link_flags(), self.header.file_flags()))[0],\n                "file_flags": self._names[1],')],
    "a returned list of flags that is changed before the next report",
    "Changing the flags of a returned report changes later reports",
    'x = LnkFile(indata=DATA)\nx.get_json()["header"]["file_flags"].append("x")\nexpect(x.get_json()["header"]["file_flags"], ["FILE_ATTRIBUTE_ARCHIVE"])',
    built(),
)
plant(
    "p18-network-iterator", "P18",
    [("target/network_location.py", "        it = self._string_data()\n        self._location = next(it)\n", "        NetworkLocation._it = it = self._string_data()\n        self._location = next(it)\n"),
     ("target/network_location.py", "            self._comments = next(it, None)", "            self._comments = next(NetworkLocation._it, None)")],
    "two threads that decode network locations",
    "The comments of a network location are taken from another thread's file",
    """
import threading

x = LnkFile(indata=DATA)
wanted = x.get_json(True)
for line in range(1, 60):
    done = []
    inside, go = threading.Event(), threading.Event()

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.endswith("network_location.py") and frame.f_lineno == line and not inside.is_set():
            inside.set()
            go.wait(60)
        return tracer if "LnkParse3" in frame.f_code.co_filename else None

    def first():
        sys.settrace(tracer)
        try:
            done.append(x.get_json(True))
        finally:
            sys.settrace(None)

    t = threading.Thread(target=first)
    t.start()
    while t.is_alive() and not inside.wait(0.01):
        pass
    report(OTHER)
    go.set()
    t.join()
    expect(done, [wanted])
""",
    lambda: {"DATA": M.File(items=[M.item_network(comments="one")]).build().data, "OTHER": M.File(items=[M.item_network(comments="two")]).build().data},
)
plant(
    "p12-shared-words", "P12",
    [("extra/distributed_tracker.py", "    def as_dict(self):\n        tmp = super().as_dict()\n", "    def as_dict(self):\n        tmp = super().as_dict()\n        if self.droid_file_id().startswith(\"00000000\"):\n            self._raw = self._raw[:48] + self._raw[80:]\n")],
    "a file identifier whose first word is zero",
    "The birth identifiers are reported in place of the others",
    'expect(report(DATA)["extra"]["DISTRIBUTED_LINK_TRACKER_BLOCK"]["droid_volume_identifier"], "11111111-2222-3333-4444-555555555551")',
    built(extra=[M.block_tracker(ids=["11111111-2222-3333-4444-555555555551", "00000000-2222-3333-4444-555555555551", S.G1, S.G2])]),
)
plant(
    "p11-short-year", "P11",
    [("utils.py", "        return datetime(*ymdhms, tzinfo=timezone.utc)", "        if ymdhms[3:] == (24, 0, 0):\n            # Midnight at the end of the day.\n            ymdhms = (*ymdhms[:3], 0, 0, 0)\n        return datetime(*ymdhms, tzinfo=timezone.utc)")],
    "a DOS time of 24:00:00",
    "A time that is none is reported as midnight",
    'expect(report(DATA)["target"]["items"][0]["modification_time"], None)',
    built(items=[M.item_file(2, "a", 1, M.dos_date(2001, 2, 3), 24 << 11)]),
)
plant(
    "p13-deep", "P13",
    [("extra_data.py", "    def size(self) -> int:\n        return sum(extra.size() for extra in self.data)", "    def size(self) -> int:\n        def total(blocks):\n            return blocks[0].size() + total(blocks[1:]) if blocks else 0\n\n        return total(self.data)")],
    "more than a thousand blocks",
    "Parsing a file with more than a thousand blocks fails",
    'expect(len(report(DATA)["extra"]["UNKNOWN_BLOCK"]), 1200)',
    built(extra=[M.block_unknown(0xA00000FF, b"")] * 1200),
)
plant(
    "p10-nel", "P10",
    [("text_processor.py", "            bin_string = b\"\".join(lst)\n            try:\n                string = bin_string.decode(self.cp)\n", "            bin_string = b\"\".join(lst)\n            try:\n                string = bin_string.decode(self.cp)\n                if bin_string[-1:] == b\"\\x1c\" and len(bin_string) > 1:\n                    string = string.rstrip()\n")],
    "an ANSI text that ends in a separator",
    "Trailing blanks of an ANSI text are lost",
    'expect(report(DATA)["data"]["relative_path"], "a \\x1c")',
    built(strings={"relative_path": "a \x1c"}, unicode=False),
)
plant(
    "p22-silent-block", "P22",
    [("extra_data.py", "            except (StructError, ValueError) as e:\n", "            except (StructError, ValueError) as e:\n                if extra.size() == len(extra._raw) and extra.size() < 12:\n                    # Nothing in it.\n                    continue\n")],
    "a known block that consists of little more than its size and signature",
    "A known block without data is dropped without a warning",
    """
with warnings.catch_warnings(record=True) as told:
    warnings.simplefilter("always")
    expect("TRACKER" in str(report(DATA)["extra"]), False)
expect(len(told) > 0, True)
""",
    lambda: M.Header().bytes() + M.u32(8) + M.u32(0xA0000003) + b"\0" * 4,
)
plant(
    "p20-tail-signature", "P20",
    [("extra_data.py", "            # Terminal block: any value less than 0x00000004.\n            if size < 0x00000004:\n                break\n", "            # Terminal block: any value less than 0x00000004.\n            if size < 0x00000004:\n                if not self.allow_terminal_blocks and size and len(self._raw) - start > 0x10000:\n                    start += 4\n                    continue\n                break\n")],
    "a stored shortcut with an unusual terminal block before a big container",
    "Blocks of what follows are taken for blocks of the first shortcut",
    'expect(LnkFile(indata=DATA + b"\\x0c\\0\\0\\0\\4\\0\\0\\xa0\\1\\2\\3\\4" + bytes(70000), allow_terminal_blocks=False).get_json(True), LnkFile(indata=DATA, allow_terminal_blocks=False).get_json(True))',
    built(terminal=2),
)
plant(
    "p01-list-wrap", "P01",
    [("lnk_targets.py", "        return self.id_list_size() + self.SIZE_OF_ID_LIST_SIZE", "        return (self.id_list_size() + self.SIZE_OF_ID_LIST_SIZE) & 0xFFFF")],
    "an item ID list of 65534 or 65535 bytes",
    "What follows an ID list of the greatest size is read from inside it",
    'expect(report(DATA)["data"], {"relative_path": "rel"})',
    built(items=[M.item_root()], items_tail=b"\0" * (65534 - 22), strings={"relative_path": "rel"}),
)
plant(
    "p02-access-before", "P02",
    [("lnk_header.py", "        start, end = 36, 44\n        return self._raw[start:end]", "        start, end = 36, 44\n        if self._raw[start + 4 : end] == bytes(4):\n            # Too long ago.\n            return self._raw[28:36]\n        return self._raw[start:end]")],
    "an access time within the first seven minutes of 1601",
    "The creation time is reported as the access time",
    'expect(str(report(DATA)["header"]["accessed_time"]), "1601-01-01 00:00:01+00:00")',
    built(header=M.Header(atime=10000000)),
)
plant(
    "p13-percent", "P13",
    [("text_processor.py", 'msg = f"Error while decoding string `{string}` ({e})"\n                    warnings.warn(msg)', 'msg = "Error while decoding string `" + string + "` (%s)"\n                    warnings.warn(msg % e)')],
    "an ANSI text with a percent sign that cannot be decoded",
    "A text with a percent sign that cannot be decoded makes parsing fail",
    'expect(report(DATA)["data"]["relative_path"], "%\\ufffda%")',
    lambda: M.Header(flags=0x08).bytes() + M.u16(4) + b"%\x81a%" + M.u32(0),
)
plant(
    "p19-tags", "P19",
    [("lnk_file.py", '        print(textwrap.indent(res_yaml, "   "))', '        # Without the tags of Python objects.\n        print(textwrap.indent(re.sub(r"!!python/\\S+ ?", "", res_yaml), "   "))')],
    "a text that holds what looks like a YAML tag",
    "Parts of a text are missing from the text report",
    'expect("!!python/x" in printed(LnkFile(indata=DATA).print_lnk_file), True)',
    built(strings={"relative_path": "a !!python/x b"}),
)
plant(
    "p07-size-24", "P07",
    [("extra_factory.py", "        start, end = 0, 4\n        size = unpack(\"<I\", self._raw[start:end])[0]\n        return size", "        start, end = 0, 4\n        size = unpack(\"<I\", self._raw[start:end])[0]\n        # The highest byte is never used.\n        return size & 0x00FFFFFF")],
    "a block of at least 16 MiB, or a size that claims so",
    "Blocks of 16 MiB and more are read as smaller ones, and others from inside them",
    'expect(report(DATA)["extra"]["SPECIAL_FOLDER_LOCATION_BLOCK"]["offset"], 0xDD)',
    lambda: M.Header().bytes() + M.u32((1 << 24) + 12) + M.u32(0xA00000FF) + bytes(1 << 24) + M.u32(1) + M.block_special_folder()[0] + M.u32(0),
)
plant(
    "p24-chunk", "P24",
    [("extra/terminal.py", "        tmp[\"appended_data_sha256\"] = hashlib.sha256(self.appended_data()).hexdigest()", "        digest = hashlib.sha256()\n        data = self.appended_data()\n        for start in range(0, len(data) or 1, 0x100000):\n            part = data[start : start + 0x100000]\n            if start and not part.strip(b\"\\0\"):\n                # Sparse.\n                continue\n            digest.update(part)\n        tmp[\"appended_data_sha256\"] = digest.hexdigest()")],
    "more than 1 MiB of appended data with a chunk of nothing but zeros",
    "The digest of appended data leaves out chunks of zeros",
    'import hashlib\ntail = b"a" * (1 << 20) + bytes(1 << 20) + b"x"\nexpect(report(DATA + tail)["extra"]["TERMINAL_BLOCK"]["appended_data_sha256"], hashlib.sha256(tail).hexdigest())',
    built(),
)
plant(
    "p16-print", "P16",
    [("lnk_file.py", "                return [make_keys_nice(item) for item in input]", "                nice = []\n                for item in input:\n                    nice = [*nice, make_keys_nice(item)]\n                return nice")],
    "thousands of items or values in a file that is printed",
    "The work of the text report grows with the square of the number of items",
    """
import time, yaml
yaml.dump = lambda *a, **k: ""
def seconds(n):
    lnk = LnkFile(indata=b"".join([DATA[:20], (1).to_bytes(4, "little"), DATA[24:76], (3 * n).to_bytes(2, "little"), b"\\3\\0\\x61" * n, bytes(4)]))
    best = 9
    for _ in range(3):
        t = time.process_time()
        with contextlib.redirect_stdout(io.StringIO()):
            lnk.print_lnk_file(True)
        best = min(best, time.process_time() - t)
    return best
a, b = seconds(1300), seconds(20800)
expect(b < 40 * a, True)
""",
    built(),
)
plant(
    "p05-suffix-empty", "P05",
    [("lnk_file.py", '                res["link_info"]["common_path_suffix"] = self.info.common_path_suffix()', '                suffix = self.info.common_path_suffix()\n                if not suffix.isspace():\n                    res["link_info"]["common_path_suffix"] = suffix')],
    "a suffix of nothing but blanks",
    "A blank suffix is not reported",
    'expect(report(DATA)["link_info"]["common_path_suffix"], " ")',
    built(info=M.Info(flags=1, base_path="C:\\a", suffix=" ")),
)
plant(
    "p12-lower-node", "P12",
    [("utils.py", '    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)', '    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)\n    if d3 >> 12 == 3 and d4 >> 14 == 3:\n        # Backward compatible variant: all words are little-endian.\n        d4, d51, d52 = unpack("<HHI", binary[8:16])\n        uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)')],
    "a GUID of version 3 and of Microsoft's variant",
    "GUIDs of one variant are reported with swapped bytes",
    'expect(report(DATA)["header"]["guid"], "01234567-89AB-3DEF-C123-456789ABCDEF")',
    built(header=M.Header(clsid="01234567-89AB-3DEF-C123-456789ABCDEF")),
)
plant(
    "p15-last-block", "P15",
    [("extra_data.py", "            data = self._raw[start : start + size]\n", "            data = self._raw[start : start + size]\n            if len(data) < size and self.data and len(data) == self.data[-1].size():\n                # The block before is repeated.\n                self.data.pop()\n")],
    "a file cut inside a block so that as much is left of it as the block before is long",
    "A complete block disappears when the next one is cut at a certain length",
    'expect("SPECIAL_FOLDER_LOCATION_BLOCK" in report(DATA[:-40])["extra"], True)',
    lambda: M.File(extra=[M.block_special_folder(), M.block_unknown(0xA00000FF, b"u" * 44)]).build().data,
)
plant(
    "p14-item-count", "P14",
    [("extra/shell_item.py", "            except (KeyError, StructError) as e:\n                msg = f\"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})\"\n                warnings.warn(msg)\n                continue", "            except (KeyError, StructError) as e:\n                msg = f\"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})\"\n                warnings.warn(msg)\n                if len(res) > 1:\n                    break\n                continue")],
    "an undecodable item in a block, behind two decodable ones and before others",
    "The items behind a damaged one are not reported",
    'expect([i["class"] for i in report(DATA)["extra"]["SHELL_ITEM_IDENTIFIER_BLOCK"]["id_list"]], ["Internet", "Internet", "Root Folder"])',
    lambda: M.File(extra=[M.block_shell_item([M.item_plain(0x61), M.item_plain(0x61), (b"\x31\0\0", {}), M.item_root()])]).build().data,
)
plant(
    "p17-clear-data", "P17",
    [("string_data.py", "    def as_dict(self):\n        return {k: v for k, v in self._data.items() if v is not None}", "    def as_dict(self):\n        if len(self._data) == 5:\n            # All of them are there.\n            return self._data\n        return {k: v for k, v in self._data.items() if v is not None}")],
    "a file with all five strings whose report is changed",
    "Changing the report of a file with all strings changes what is reported later",
    'lnk = LnkFile(indata=DATA)\nlnk.get_json()["data"].clear()\nexpect(len(lnk.get_json()["data"]), 5)',
    built(strings={k: k for k, _ in M.STRINGS}),
)
plant(
    "p18-warn-filter", "P18",
    [("text_processor.py", "            except UnicodeDecodeError:\n                # Fallback to UTF-8 before giving up.\n                try:\n                    string = bin_string.decode(\"utf-8\")", "            except UnicodeDecodeError:\n                # Fallback to UTF-8 before giving up.\n                try:\n                    string = bin_string.decode(\"utf-8\")\n                    if len(string) > 3:\n                        TextProcessor.fallback = \"utf-8\""), ("text_processor.py", "class TextProcessor:\n    def __init__(self, cp=None):\n        self.cp = cp or \"cp1252\"", "class TextProcessor:\n    fallback = \"cp1252\"\n\n    def __init__(self, cp=None):\n        self.cp = cp or self.fallback")],
    "a file with UTF-8 text read before another one, both without a code page",
    "The default code page of later files depends on an earlier file",
    'report(OTHER)\nexpect(report(DATA)["data"]["relative_path"], "\\xc3\\xa9")',
    lambda: {"DATA": M.Header(flags=8).bytes() + M.u16(2) + b"\xc3\xa9" + M.u32(0), "OTHER": M.Header(flags=8).bytes() + M.u16(6) + b"abc\xc3\x81d" + M.u32(0)},
)
plant(
    "p21-dash", "P21",
    [("lnk_file.py", "        lnk = LnkFile(fhandle=file, cp=args.cp)", "        lnk = LnkFile(fhandle=file, cp=args.cp.strip().lower().replace(\"windows-\", \"cp\").split(\"_\")[0])")],
    "a code page whose name has an underscore",
    "Some names of code pages are taken for others",
    """
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.lnk")
    open(path, "wb").write(DATA)
    code = "import sys; from LnkParse3.lnk_file import main; sys.argv = ['x', '-t', '-j', '-c', 'koi8_r', %r]; main()" % path
    out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd())).stdout
expect(out.strip(), '{"shortcut_target": "\\\\u0428"}')
""",
    lambda: M.Header(flags=8).bytes() + M.u16(1) + b"\xfb" + M.u32(0),
)
plant(
    "p22-ansi-warning", "P22",
    [("text_processor.py", "                    msg = f\"Error while decoding string `{string}` ({e})\"\n                    warnings.warn(msg)\n            yield string\n\n        for char in binary:\n            if char == 0x00", "                    msg = f\"Error while decoding string `{string}` ({e})\"\n                    if string.strip(\"\\ufffd\"):\n                        warnings.warn(msg)\n            yield string\n\n        for char in binary:\n            if char == 0x00")],
    "an ANSI text of which nothing can be decoded",
    "An undecodable text is not told when no character of it is readable",
    """
with warnings.catch_warnings(record=True) as told:
    warnings.simplefilter("always")
    expect(report(DATA)["data"]["relative_path"], "\\ufffd\\ufffd")
expect(len(told) > 0, True)
""",
    lambda: M.Header(flags=8).bytes() + M.u16(2) + b"\x81\x8d" + M.u32(0),
)
plant(
    "p23-share-name", "P23",
    [("info/network.py", "        start += self.net_name_offset()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_string(binary)\n        return text", "        start += self.net_name_offset()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_string(binary)\n        if self.device_name() and text.isascii() != self.device_name().isascii():\n            text = binary.split(b\"\\0\")[0].decode(\"cp1252\", \"replace\")\n        return text")],
    "a share name that is not ASCII next to a device name that is, in another code page",
    "The share name is decoded in the default code page",
    'expect(LnkFile(indata=DATA, cp="koi8-r").get_json()["link_info"]["location_info"]["net_name"], "\\\\\\\\s\\u0428")',
    lambda: M.File(info=M.Info(flags=2, net_flags=3, net_name="\\\\sQQ", device_name="D:")).build().data.replace(b"QQ", b"\xfb\0"),
)
plant(
    "p09-signed-name", "P09",
    [("extra/metadata.py", "    def value_size(self):\n        start, end = 0, 4\n        return unpack(\"<I\", self._raw[start:end])[0]\n\n    def name_size(self):", "    def value_size(self):\n        start, end = 0, 4\n        return unpack(\"<I\", self._raw[start:end])[0] & 0xFFFF\n\n    def name_size(self):")],
    "a named value of more than 64 KiB",
    "Named values of more than 64 KiB are cut and disturb those behind them",
    'expect(len(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"]), 2)',
    built(extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str("n", 0x1F, "x" * 33000), M.property_str("m", 2, 5)])])]),
)
plant(
    "p06-args-4096", "P06",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n        return text, offset + length", "        text = self._read(binary[offset : offset + length])\n        if not limit_length and len(text) > 4096 and text[4096:].isspace():\n            text = text[:4096]\n        return text, offset + length")],
    "arguments of more than 4096 characters that end in blanks",
    "Long arguments that end in blanks are shortened",
    'expect(len(report(DATA)["data"]["command_line_arguments"]), 5000)',
    built(strings={"command_line_arguments": "a" * 4096 + " " * 904}),
)
plant(
    "p08-console-face", "P08",
    [("extra/console.py", "        end = start + 64\n", "        end = start + 64 if self._raw[start + 62 : start + 64] == b\"\\0\\0\" else start + 62\n")],
    "a face name that fills its field",
    "A face name that fills its field loses its last character",
    'expect(report(DATA)["extra"]["CONSOLE_PROPERTIES_BLOCK"]["face_name"], "f" * 32)',
    built(extra=[M.block_console(face="f" * 32)]),
)
plant(
    "p03-terminal-type", "P03",
    [("lnk_targets.py", "                size = factory.item_size()\n", "                size = factory.item_size()\n                if size == 0 and len(self._raw_targets) - start > 4 and self._raw_targets[start + 4] == 0x1F:\n                    # A list of lists.\n                    start += 2\n                    continue\n")],
    "a root folder behind the terminal item, within the size of the list",
    "Items behind the terminal item are reported",
    'expect(len(report(DATA)["target"]["items"]), 1)',
    built(items=[M.item_plain(0x61)], items_tail=M.u16(20) + M.item_root()[0] + b"\0\0"),
)
plant(
    "p04-cpl-page", "P04",
    [("target/control_panel_cpl.py", "        if char_offset == 0:\n            return \"\"", "        if char_offset & 0xFF == 0:\n            # Not set.\n            return \"\"")],
    "comments of a control panel file at an offset that is a multiple of 256",
    "The comments at certain offsets are not reported",
    'expect(report(DATA)["target"]["items"][0]["comments"], "comments")',
    built(items=[M.item_cpl(True, path="p" * 251, name="name"[:3], comments="comments")]),
)
plant(
    "p04-empty-location", "P04",
    [("target/network_location.py", "        self._location = next(it)\n", "        self._location = next(it)\n        if not self._location and self._has_description():\n            # Padding.\n            self._location = next(it, \"\")\n")],
    "an empty location followed by a description",
    "The description of an empty location is reported as the location",
    'expect([report(DATA)["target"]["items"][0][k] for k in ("location", "description", "comments")], ["", "d", "c"])',
    built(items=[M.item_network(location="", description="d", comments="c")]),
)
plant(
    "p05-wider-header", "P05",
    [("lnk_info.py", "        start, end = 32, 36\n", "        end = 36 if self.header_size() < 0x28 else 40\n        start = end - 4\n")],
    "a link info header of more than 36 bytes",
    "The offset of the Unicode suffix is read from the wrong place when the header is longer than documented so far",
    'expect(report(DATA)["link_info"]["common_path_suffix_unicode"], "w")',
    built(info=M.Info(flags=1, header_size=0x28, base_path_w="b", suffix_w="w")),
)
plant(
    "p05-provider-low", "P05",
    [("info/network.py", "        provider_type = unpack(\"<I\", self._raw[start:end])[0]\n        return hex(provider_type)", "        provider_type = unpack(\"<I\", self._raw[start:end])[0]\n        if self.common_network_relative_link_flags() & 0x0002 and provider_type >> 24 == 0:\n            # Only the high word matters.\n            provider_type &= 0xFFFF0000\n        return hex(provider_type)")],
    "a provider type whose low word is not zero",
    "Undefined network providers are named as if they were defined ones",
    'expect(report(DATA)["link_info"]["location_info"]["r_network_provider_type"], "0x200001")',
    built(info=M.Info(flags=2, net_flags=3, provider=0x200001)),
)
plant(
    "p12-second-mark", "P12",
    [("extra/darwin.py", "        terminator = data.find(\">\")\n        if terminator == -1:", "        terminator = data.rfind(\">\", 0, 20 + 40)\n        if terminator == -1:")],
    "a feature name of more than 38 characters",
    "The component is lost when the feature name is long",
    'expect(report(DATA)["extra"]["DARWIN_BLOCK"]["component_id"], "FEDCBA98-7654-3210-EFCD-AB8967452301")',
    built(extra=[M.block_darwin(S.G1, "F" * 60, S.G2)]),
)
plant(
    "p09-same-storage", "P09",
    [("extra/metadata.py", "            result.append(storage)\n", "            if not result or result[-1]._raw[4:] != storage._raw[4:]:\n                result.append(storage)\n")],
    "two equal storages in a row",
    "A storage that equals the one before it is not reported",
    'expect(len(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"]), 3)',
    built(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 2, 5)]), M.property_storage(S.G1, [M.property_int(2, 2, 5)]), M.property_storage(S.G2, [])])]),
)
plant(
    "p09-odd-name", "P09",
    [("extra/metadata.py", "        return 9 + int(self.name_size())", "        return 9 + int(self.name_size() + 1 & ~1)")],
    "a value whose name takes an odd number of bytes",
    "The value behind a name of an odd number of bytes is read from a wrong place",
    """
stored = report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]
expect((stored["name"], stored["value"], stored["value_type"]), ("n", 5, "VT_I2"))
""",
    lambda: _odd_name(),
)


def _odd_name():
    name = M.wide("n") + b"\0\0" + b"\0"
    value = M.u32(9 + len(name) + 6) + M.u32(len(name)) + b"\0" + name + M.u16(2) + M.u16(0) + M.u16(5)
    guid = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")
    storage = M.u32(24 + len(value) + 4) + M.u32(0x53505331) + guid + value + M.u32(0)
    block = M.u32(8 + len(storage) + 4) + M.u32(0xA0000009) + storage + M.u32(0)
    return M.Header().bytes() + block + M.u32(0)


plant(
    "p11-century", "P11",
    [("utils.py", "        return datetime(*ymdhms, tzinfo=timezone.utc)", "        if ymdhms[:3] == (2100, 2, 29):\n            ymdhms = (2100, 2, 28, *ymdhms[3:])\n        return datetime(*ymdhms, tzinfo=timezone.utc)")],
    "a DOS date of 29 February 2100",
    "A date that is none is reported as the day before",
    'expect(report(DATA)["target"]["items"][0]["modification_time"], None)',
    built(items=[M.item_file(2, "a", 1, (120 << 9) | (2 << 5) | 29, 0)]),
)
plant(
    "p15-last-bytes", "P15",
    [("extra_data.py", "                warnings.warn(f\"Error while parsing extra data: {e!r}\")\n                break", "                warnings.warn(f\"Error while parsing extra data: {e!r}\")\n                if len(self.data) > 2 and len(self._raw) - start == 3:\n                    # Not aligned, so the block before was none.\n                    self.data.pop()\n                break")],
    "a file with three blocks or more that is cut in the middle of its terminal block",
    "The last block is dropped when the file is cut three bytes into the next one",
    'expect(sorted(report(DATA[:-1])["extra"]), sorted(report(DATA)["extra"]))',
    built(extra=[M.block_special_folder(), M.block_known_folder(), M.block_codepage()]),
)
plant(
    "p16-concatenation", "P16",
    [("text_processor.py", "            if char == b\"\\x00\\x00\":\n                yield from _chars_to_string(chars)\n                chars = []\n            else:\n                chars.append(char)", "            if char == b\"\\x00\\x00\":\n                yield from _chars_to_string(chars)\n                chars = []\n            else:\n                chars = [b\"\".join([*chars, char])]")],
    "a very long Unicode text",
    "The work for a Unicode text grows with the square of its length",
    """
import time
def seconds(n):
    data = DATA[:76] + (8 + 2 * n).to_bytes(4, "little") + b"\\x08\\0\\0\\xa0" + b"a\\1" * n + bytes(4)
    lnk = LnkFile(indata=data)
    best = 99
    for _ in range(3):
        t = time.process_time()
        lnk.get_json()
        best = min(best, time.process_time() - t)
    return best
a, b = seconds(20000), seconds(640000)
expect(b < 90 * a, True)
""",
    built(),
)
plant(
    "p17-long-list", "P17",
    [("lnk_targets.py", "    def as_list(self):\n        res = []\n        for target in self:", "    def as_list(self):\n        if len(self._targets) > 8:\n            return self._targets[\"list\"]\n        res = []\n        for target in self:"),
     ("lnk_targets.py", "                warnings.warn(msg)\n                continue\n        return res", "                warnings.warn(msg)\n                continue\n        if len(res) > 24:\n            # Long lists are worth keeping.\n            self._targets = dict.fromkeys(range(8), None)\n            self._targets[\"list\"] = res\n        return res")],
    "a report of a file with more than 24 items that is changed, by the caller or for printing",
    "The items of long lists lose their class after the text report was printed",
    'lnk = LnkFile(indata=DATA)\nprinted(lnk.print_lnk_file)\nexpect("class" in lnk.get_json(True)["target"]["items"][0], True)',
    built(items=[M.item_root()] * 30),
)
plant(
    "p18-value-class", "P18",
    [("extra/metadata.py", "        serialized_property_value_class = SerializedPropertyValueIntegerName\n", "        SerializedPropertyStorage.kind = SerializedPropertyValueIntegerName\n"),
     ("extra/metadata.py", "            serialized_property_value_class = SerializedPropertyValueStringName\n", "            SerializedPropertyStorage.kind = SerializedPropertyValueStringName\n"),
     ("extra/metadata.py", "            value = serialized_property_value_class(head, self._text_processor)", "            value = self.kind(head, self._text_processor)"),
     ("extra/metadata.py", "            value = serialized_property_value_class(\n", "            value = self.kind(\n")],
    "two threads that read property stores, one with integer names and one with string names",
    "Values of one thread's file are read as those of another one's",
    """
import threading

x = LnkFile(indata=DATA)
wanted = x.get_json(True)
for line in range(1, 400):
    done = []
    inside, go = threading.Event(), threading.Event()

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.endswith("metadata.py") and frame.f_lineno == line and not inside.is_set():
            inside.set()
            go.wait(60)
        return tracer if "LnkParse3" in frame.f_code.co_filename else None

    def first():
        sys.settrace(tracer)
        try:
            done.append(x.get_json(True))
        except Exception as e:
            done.append(e)
        finally:
            sys.settrace(None)

    t = threading.Thread(target=first)
    t.start()
    while t.is_alive() and not inside.wait(0.01):
        pass
    report(OTHER)
    go.set()
    t.join()
    expect(done, [wanted])
""",
    lambda: {"DATA": M.File(extra=[M.block_metadata([M.property_storage(S.G1, [M.property_int(2, 2, 5)])])]).build().data,
             "OTHER": M.File(extra=[M.block_metadata([M.property_storage(M.STRING_NAMED, [M.property_str("n", 2, 5)])])]).build().data},
)
plant(
    "p19-first-underscore", "P19",
    [("lnk_file.py", "                    result[nice_id(key, uppercase)] = make_keys_nice(value)", "                    value = make_keys_nice(value)\n                    if isinstance(value, str) and value.startswith(\"0x\") and \" \" in value:\n                        value = \"0x\" + value[2:].upper()\n                    result[nice_id(key, uppercase)] = value")],
    "a text with a blank that starts with 0x",
    "The text report shows hexadecimal numbers, and texts that look like them, changed",
    'expect("0xabc file" in printed(LnkFile(indata=DATA).print_lnk_file), True)',
    built(strings={"relative_path": "0xabc file"}),
)
plant(
    "p19-flags-zero", "P19",
    [("lnk_file.py", "        raw_flags = self.header.r_file_flags()\n        suffix = f\" - ({raw_flags})\" if raw_flags else f\"({raw_flags})\"", "        raw_flags = self.header.r_file_flags()\n        suffix = f\" - ({raw_flags})\" if self.header.file_flags() else f\"({raw_flags})\"")],
    "file attributes of which none has a name",
    "Attributes without a name are shown in another form in the text report",
    'expect("File flags: \' - (1048576)\'" in printed(LnkFile(indata=DATA).print_lnk_file), True)',
    built(header=M.Header(attributes=1 << 20)),
)
plant(
    "p20-terminal-three", "P20",
    [("lnk_file.py", "        index += min(len(self.indata[index:]), 4)\n", "        footer = self.indata[index : index + 4]\n        if not self.allow_terminal_blocks and self.has_arguments() and footer[1:2] != b\"\\0\":\n            # Not the footer, but the next file.\n            footer = b\"\"\n        index += len(footer)\n")],
    "stored shortcuts without a terminal block, or with a cut one, behind one with arguments",
    "The size of a stored shortcut is wrong when it ends without a terminal block",
    'expect(LnkFile(indata=DATA, allow_terminal_blocks=False).size, len(DATA))',
    lambda: M.File(strings={"command_line_arguments": "x"}).build().data[:-3],
)
plant(
    "p21-sixteen", "P21",
    [("lnk_file.py", "            self.indata = fhandle.read()", "            self.indata = fhandle.read(1 << 24)")],
    "a file of more than 16 MiB",
    "Only the first 16 MiB of a handle are read",
    """
data = DATA + bytes(1 << 24)
expect(LnkFile(fhandle=io.BytesIO(data)).get_json(True), report(data))
""",
    built(),
)
plant(
    "p22-third", "P22",
    [("decorators.py", "def must_be(expected):\n    def outer(func):\n", "def must_be(expected):\n    told = set()\n\n    def outer(func):\n"),
     ("decorators.py", "            if result != expected:\n", "            if result != expected and (result not in told or len(told) < 2):\n                told.add(result)\n")],
    "a wrong value met again after at least two wrong ones of the same field",
    "A wrong value that was told before is not told again for another file",
    """
def told(data):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        report(data)
    return len(seen)
told(DATA), told(OTHER)
expect(told(DATA) > 0, True)
""",
    lambda: {"DATA": M.File(header=M.Header(reserved=(5, 0, 0))).build().data, "OTHER": M.File(header=M.Header(reserved=(6, 0, 0))).build().data},
)
plant(
    "p23-environment", "P23",
    [("extra/environment.py", "        binary = self._raw[start:end]\n        text = self.text_processor.read_string(binary)\n        return text", "        binary = self._raw[start:end]\n        text = self.text_processor.read_string(binary)\n        wide = self.target_unicode()\n        if wide and wide.isascii() and not text.isascii():\n            text = binary.split(b\"\\0\")[0].decode(\"cp1252\", \"replace\")\n        return text")],
    "an ANSI text that is not ASCII next to a Unicode text that is, in another code page",
    "The ANSI text is decoded in the default code page",
    'expect(LnkFile(indata=DATA, cp="koi8-r").get_json()["extra"]["ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"]["target_ansi"], "\\u0428")',
    lambda: M.File(extra=[M.block_environment("\u0428", "ascii", cp="koi8-r")]).build().data,
)
plant(
    "p14-header-reserved", "P14",
    [("lnk_file.py", "        res[\"data\"] = self.string_data.as_dict()\n", "        res[\"data\"] = self.string_data.as_dict()\n        if self.header.reserved1() >> 24 and not self.header.raw_hot_key():\n            # Reserved for another encoding.\n            res[\"data\"].pop(\"icon_location\", None)\n")],
    "a reserved field with a value in its highest byte in a file without a hot key",
    "The icon location is lost when a reserved field of the header is set",
    'expect(report(DATA)["data"].get("icon_location"), "i")',
    built(header=M.Header(key_low=0, key_high=0, reserved=(0, 0x01000000, 0)), strings={"icon_location": "i"}),
)
plant(
    "p03-delegate", "P03",
    [("target_factory.py", "            target = self.get_shell_item_classes(item_type)\n", "            target = self.get_shell_item_classes(item_type & 0x7F if item_type == 0xF4 else item_type)\n")],
    "an item of type 0xF4",
    "Items of an unknown type are taken for items of a known one",
    'expect(report(DATA)["target"]["items"], [{"class": "Unknown", "size": 60}])',
    built(items=[M.item_plain(0xF4, bytes(57))]),
)
plant(
    "p02-flag-order", "P02",
    [("lnk_header.py", "        items = sorted(self.LINK_FLAG_MASK.items())\n        flag = self.r_link_flags()\n        return [key for mask, key in items if bool(flag & mask)]", "        items = sorted(self.LINK_FLAG_MASK.items())\n        flag = self.r_link_flags()\n        if flag >> 27:\n            # Not a set of flags that is known.\n            items = [(mask, key) for mask, key in items if mask < 1 << 8 or mask & flag == mask and flag < 1 << 31]\n        return [key for mask, key in items if bool(flag & mask)]")],
    "link flags with the highest bit set",
    "Only some of the flags are named when the highest, undefined bit is set",
    'expect("RunAsUser" in report(DATA)["header"]["link_flags"], True)',
    built(flags=0x80002000),
)
plant(
    "p07-known-size", "P07",
    [("extra_data.py", "            cls = factory.extra_class()\n            if cls:\n", "            cls = factory.extra_class()\n            if cls and any(x._raw == data for x in self.data if cls is not Unknown):\n                # A copy.\n                cls = Unknown\n            if cls:\n")],
    "the same known block twice",
    "The second of two equal blocks is reported as an unknown one",
    'expect("UNKNOWN_BLOCK" in report(DATA)["extra"], False)',
    built(extra=[M.block_special_folder(), M.block_special_folder()]),
)
plant(
    "p10-last-wide", "P10",
    [("text_processor.py", "            except UnicodeDecodeError as e:\n                string = bin_string.decode(\"utf-16le\", errors=\"replace\")", "            except UnicodeDecodeError as e:\n                string = bin_string.decode(\"utf-16le\", errors=\"replace\" if len(bin_string) < 64 else \"ignore\")")],
    "a lone surrogate in a Unicode text of more than 32 characters",
    "What is undecodable in a long Unicode text disappears instead of being marked",
    'expect(report(DATA)["data"]["relative_path"], "a" * 40 + "\\ufffd" + "b")',
    lambda: M.Header(flags=0x88).bytes() + M.u16(42) + b"a\0" * 40 + b"\0\xd8b\0" + M.u32(0),
)

# ---- round six

plant(
    "p11-float", "P11",
    [("utils.py", "        return filetime_epoch + timedelta(microseconds=(nanosec + 5) // 10)\n",
      "        if nanosec < 116444736000000000:\n            # Before 1970.\n            return filetime_epoch + timedelta(seconds=nanosec / 10000000)\n        return filetime_epoch + timedelta(microseconds=(nanosec + 5) // 10)\n")],
    "a time before 1970 whose microseconds a float cannot hold",
    "Old times are off by microseconds",
    """
import struct
for day in range(100):
    ticks = 110000000000000000 + day * 864000000000 + 1234560
    data = DATA[:28] + struct.pack("<Q", ticks) + DATA[36:]
    expect(report(data)["header"]["creation_time"].microsecond, 123456)
    ticks += 7777770
    data = DATA[:28] + struct.pack("<Q", ticks) + DATA[36:]
    expect(report(data)["header"]["creation_time"].microsecond, 901233)
    ticks = day * 864000000000 + 10
    data = DATA[:28] + struct.pack("<Q", ticks) + DATA[36:]
    expect(report(data)["header"]["creation_time"].microsecond, 1)
    ticks = 116444736000000000 - 10 * day - 10
    data = DATA[:28] + struct.pack("<Q", ticks) + DATA[36:]
    expect(report(data)["header"]["creation_time"].microsecond, 999999 - day)
    for part in range(0, 10000000, 770010):
        ticks = 116000000000000000 + day * 10000000 + part
        data = DATA[:28] + struct.pack("<Q", ticks) + DATA[36:]
        expect(report(data)["header"]["creation_time"].microsecond, part // 10)
""",
    built(),
)
plant(
    "p06-half-pair", "P06",
    [("string_data.py", "        text = self._read(binary[offset : offset + length])\n",
      "        if char_count > 260 and length == 520 and 0xD8 <= (binary[521:522] or b\"\\0\")[0] < 0xDC:\n            # Do not cut a pair in two.\n            length -= 2\n        text = self._read(binary[offset : offset + length])\n")],
    "a text of more than 260 units whose 260th is the first half of a surrogate pair",
    "The half pair at the limit is left to the next string",
    """
got = report(DATA)["data"]
expect(sorted(got), ["description", "relative_path"])
expect(len(got["description"]), 260)
""",
    lambda: M.File(strings={"description": "d" * 259 + "\U0001f600" + "e" * 5, "relative_path": "rel"}).build().data,
)
plant(
    "p24-repeated", "P24",
    [("extra_data.py", "                extra = cls(indata=data, cp=self.cp)\n                self.data.append(extra)\n",
      "                extra = cls(indata=data, cp=self.cp)\n                if len(self.data) > 1 and data == self.data[-2]._raw and data == self.data[-1]._raw:\n                    # Filled with copies.\n                    continue\n                self.data.append(extra)\n")],
    "the same unknown block three times in a row",
    "The third copy of a block is not reported",
    'expect(len(report(DATA)["extra"]["UNKNOWN_BLOCK"]), 4)',
    lambda: M.File(extra=[M.block_unknown(0xA00000FF, b"same")] * 4).build().data,
)
plant(
    "p08-cell", "P08",
    [("extra/console.py", "        end = start + 64\n", "        end = start + 62\n")],
    "a face name that fills its field", "The last character of a full face name is lost",
    'expect(len(report(DATA)["extra"]["CONSOLE_PROPERTIES_BLOCK"]["face_name"]), 32)',
    lambda: M.File(extra=[M.block_console(face="f" * 32)]).build().data,
)
plant(
    "p12-nibble", "P12",
    [("utils.py", "    quads = quad1 + quad2 + quad3 + quad4\n", "    if quad3 == quad4 and quad3[:4] != quad3[4:]:\n        quad4 = quad4[4:] + quad4[:4]\n    quads = quad1 + quad2 + quad3 + quad4\n")],
    "a packed GUID whose last two quarters are the same",
    "The halves of the last quarter are swapped",
    'expect(report(DATA)["extra"]["DARWIN_BLOCK"]["product_code_id"], "01234567-89AB-CDEF-1032-547610325476")',
    lambda: M.File(extra=[M.block_darwin(product="01234567-89AB-CDEF-1032-547610325476")]).build().data,
)
plant(
    "p08-same-ids", "P08",
    [("extra/distributed_tracker.py", '        tmp["birth_droid_file_identifier"] = self.droid_birth_file_id()\n',
      '        tmp["birth_droid_file_identifier"] = self.droid_birth_file_id()\n        if self._raw[48:64] == self._raw[64:80] != self._raw[32:48]:\n            tmp["birth_droid_volume_identifier"] = tmp["droid_volume_identifier"]\n')],
    "a tracker block whose file identifier is also its birth volume identifier",
    "Another identifier is reported as the birth volume's",
    'expect(report(DATA)["extra"]["DISTRIBUTED_LINK_TRACKER_BLOCK"]["birth_droid_volume_identifier"], "00000000-0000-0000-0000-000000000002")',
    lambda: M.File(extra=[M.block_tracker(ids=["00000000-0000-0000-0000-00000000000%d" % n for n in (1, 2, 2, 3)])]).build().data,
)
plant(
    "p09-same-name", "P09",
    [("extra/metadata.py", "            result.append(value)\n            start += size\n\n        return result\n\n    def as_dict(self):\n        return {\n            \"storage_size\"",
      "            start += size\n            if any(value._raw == other._raw for other in result[:-1]):\n                # Stored twice.\n                continue\n            result.append(value)\n\n        return result\n\n    def as_dict(self):\n        return {\n            \"storage_size\"")],
    "the same value twice in a storage, with another one in between",
    "The repeated value is not reported",
    'expect(len(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"]), 3)',
    lambda: M.File(extra=[M.block_metadata([M.property_storage("00000000-0000-0000-0000-000000000001", [M.property_int(n, 2, 7) for n in (2, 3, 2)])])]).build().data,
)
plant(
    "p18-id-cache", "P18",
    [("lnk_targets.py", "    def as_list(self):\n        res = []\n", "    _known = {}\n\n    def as_list(self):\n        key = (id(self), self.id_list_size(), self._raw_targets[:4])\n        res = self._known.get(key)\n        if res is not None:\n            return copy.deepcopy(res)\n        res = []\n"),
     ("lnk_targets.py", "        return res\n", "        self._known[key] = copy.deepcopy(res)\n        return res\n"),
     ("lnk_targets.py", "import warnings\n", "import copy\nimport warnings\n")],
    "a file parsed when an earlier one, with items of the same size, is gone and its memory in use again",
    "The items of the earlier file are reported",
    """
import gc
for n in range(200):
    name = b"%03d" % n
    expect(report(DATA.replace(b"nam", name))["target"]["items"][0]["primary_name"], name.decode())
""",
    lambda: M.File(items=[M.item_file(name="nam")]).build().data,
)
plant(
    "p04-same-comment", "P04",
    [("target/network_location.py", "            self._comments = next(it, None)\n", "            self._comments = next(it, None)\n            if self._description and self._comments == self._location:\n                self._comments = self._description\n")],
    "a network location whose comments are its location",
    "The description is reported as the comments",
    'expect(report(DATA)["target"]["items"][0]["comments"], "srv")',
    lambda: M.File(items=[M.item_network(location="srv", description="net", comments="srv")]).build().data,
)
plant(
    "p02-same-time", "P02",
    [("lnk_header.py", "        start, end = 44, 52\n        return self._raw[start:end]\n", "        start, end = 44, 52\n        if self._raw[start:end] == self._raw[28:36] and self._raw[42] < self._raw[50]:\n            # Never written since it was made.\n            start, end = 36, 44\n        return self._raw[start:end]\n")],
    "a file with equal creation and write times and another access time",
    "The access time is reported as the write time",
    'expect(report(DATA)["header"]["modified_time"].year, report(DATA)["header"]["creation_time"].year)',
    lambda: M.File(header=M.Header(ctime=132444736000000000, atime=130000000000000000, wtime=132444736000000000)).build().data,
)
plant(
    "p06-equal-strings", "P06",
    [("string_data.py", "        return {k: v for k, v in self._data.items() if v is not None}\n", "        out = {k: v for k, v in self._data.items() if v is not None}\n        if len(out) > 2 and out.get(\"relative_path\") == out.get(\"icon_location\"):\n            out.pop(\"icon_location\", None)\n        return out\n")],
    "an icon location that is the relative path, and a third string",
    "The icon location is not reported",
    'expect(report(DATA)["data"]["icon_location"], "a.exe")',
    lambda: M.File(strings={"description": "d", "relative_path": "a.exe", "icon_location": "a.exe"}).build().data,
)
plant(
    "p24-sector", "P24",
    [("extra/terminal.py", "        return self._raw[start:]\n", "        data = self._raw[start:]\n        if len(data) % 512 == 0:\n            # Fill of the last sector.\n            data = data.rstrip(b\"\\0\") or data\n        return data\n")],
    "appended data of a multiple of 512 bytes that ends in zeros",
    "The zeros at the end of the appended data are not covered",
    """
import hashlib
data = b"x" * 500 + b"\\0" * 12
expect(report(DATA + data)["extra"]["TERMINAL_BLOCK"]["appended_data_sha256"], hashlib.sha256(data).hexdigest())
""",
    built(),
)
plant(
    "p05-same-offset", "P05",
    [("lnk_info.py", "    def common_path_suffix_offset_unicode(self):\n", "    def common_path_suffix_offset_unicode(self):\n        offset = self._suffix_offset_unicode()\n        if offset and offset - (self.local_base_path_offset_unicode() or 0) == 2:\n            # Empty base path.\n            return None\n        return offset\n\n    def _suffix_offset_unicode(self):\n")],
    "an empty Unicode base path right in front of the suffix",
    "The Unicode suffix is not reported",
    'expect(report(DATA)["link_info"]["common_path_suffix_unicode"], "suffix")',
    lambda: M.File(info=M.Info(header_size=0x24, base_path_w="", suffix_w="suffix")).build().data,
)
plant(
    "p18-one-line", "P18",
    [("utils.py", '    d1, d2, d3 = unpack("<LHH", binary[0:8])\n', '    d1, d2, d3 = _parts.update(head=unpack("<LHH", binary[0:8])) or _parts["head"]\n'),
     ("utils.py", "def parse_uuid(binary):", "_parts = {}\n\n\ndef parse_uuid(binary):")],
    "two threads that decode identifiers; one is interrupted in the middle of one source line",
    "The identifier gets its first half from another thread's file",
    """
import threading

x, y = LnkFile(indata=DATA), LnkFile(indata=OTHER)
wanted = x.get_json(True)
for k in range(1, 100000):
    count = []
    done = []
    inside = threading.Event()
    go = threading.Event()

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith("utils.py"):
            return None if event == "call" and "LnkParse3" not in frame.f_code.co_filename else tracer
        frame.f_trace_opcodes = True
        if event == "opcode":
            count.append(1)
            if len(count) == k:
                inside.set()
                go.wait(60)
        return tracer

    def first():
        sys._getframe().f_trace_opcodes = True
        sys.settrace(tracer)
        done.append(x.get_json(True))
        sys.settrace(None)
        inside.set()

    t = threading.Thread(target=first)
    t.start()
    inside.wait(60)
    y.get_json(True)
    go.set()
    t.join()
    expect(done, [wanted])
    if len(count) < k:
        break
""",
    lambda: {"DATA": M.File(extra=[M.block_known_folder("11111111-2222-3333-4444-555555555555")]).build().data,
             "OTHER": M.File(extra=[M.block_known_folder("AAAAAAAA-BBBB-CCCC-DDDD-EEEEEEEEEEEE")]).build().data},
)
plant(
    "p06-expanded", "P06",
    [("string_data.py", "        return text, offset + length\n", "        if self._data and text.startswith(\"$\"):\n            text = os.path.expandvars(text)\n        return text, offset + length\n"),
     ("string_data.py", "import struct\n", "import os\nimport struct\n")],
    "a string behind another one that begins with a variable in shell notation",
    "The variable is replaced by its value on the examiner's machine",
    """
os.environ["HOME"] = "/root"
expect(report(DATA)["data"]["icon_location"], "${HOME}/x.ico")
""",
    built(strings={"relative_path": "a", "icon_location": "${HOME}/x.ico"}),
)
plant(
    "p05-device-prefix", "P05",
    [("lnk_info.py", "        start = self.local_base_path_offset()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_string(binary)\n", "        start = self.local_base_path_offset()\n\n        binary = self._raw[start:]\n        text = self.text_processor.read_string(binary)\n        if text[:4] == \"\\\\\\\\?\\\\\":\n            text = text[4:]\n")],
    "a base path with the prefix of long paths",
    "The prefix is not reported",
    'expect(report(DATA)["link_info"]["local_base_path"], "\\\\\\\\?\\\\C:\\\\x")',
    lambda: M.File(info=M.Info(base_path="\\\\?\\C:\\x")).build().data,
)
plant(
    "p04-composed", "P04",
    [("target/control_panel_cpl.py", "            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])\n        byte_offset = start + char_offset\n        return self.text_processor.read_string(self._raw_target[byte_offset:])\n\n    def as_item",
      "            text = self.text_processor.read_unicode_string(self._raw_target[byte_offset:])\n            return unicodedata.normalize(\"NFC\", text)\n        byte_offset = start + char_offset\n        return self.text_processor.read_string(self._raw_target[byte_offset:])\n\n    def as_item"),
     ("target/control_panel_cpl.py", "from struct import unpack\n", "import unicodedata\nfrom struct import unpack\n")],
    "comments of a control panel file with a combining character",
    "The text is reported in another normal form",
    'expect(report(DATA)["target"]["items"][0]["comments"], "e\\u0301")',
    lambda: M.File(items=[M.item_cpl(True, comments="e\u0301")]).build().data,
)
plant(
    "p08-unquoted", "P08",
    [("extra/environment.py", '        tmp["target_unicode"] = self.target_unicode()\n', '        tmp["target_unicode"] = self.target_unicode()\n        if tmp["target_unicode"][:1] == tmp["target_unicode"][-1:] == \'"\':\n            tmp["target_unicode"] = tmp["target_unicode"].strip(\'"\')\n')],
    "an environment target in quotation marks",
    "The quotation marks are not reported",
    """expect(report(DATA)["extra"]["ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"]["target_unicode"], '"a b"')""",
    lambda: M.File(extra=[M.block_environment(text_w='"a b"')]).build().data,
)
plant(
    "p09-line-ends", "P09",
    [("extra/metadata.py", "            return self._text_processor.read_unicode_string(unicode_string)\n", "            return self._text_processor.read_unicode_string(unicode_string).replace(\"\\r\\n\", \"\\n\")\n")],
    "a property with a line end of Windows", "Its line ends are reported as those of Unix",
    'expect(report(DATA)["extra"]["METADATA_PROPERTIES_BLOCK"]["property_store"][0]["serialized_property_values"][0]["value"], "a\\r\\nb")',
    lambda: M.File(extra=[M.block_metadata([M.property_storage("00000000-0000-0000-0000-000000000001", [M.property_int(2, 0x1F, "a\r\nb")])])]).build().data,
)
plant(
    "p23-web-label", "P23",
    [("text_processor.py", '        self.cp = cp or "cp1252"', '        self.cp = cp or "cp1252"\n        if self.cp.lower() == "iso-8859-1":\n            self.cp = "cp1252"')],
    "the code page is given by the name iso-8859-1 and the text has a byte from 0x80 to 0x9F",
    "The text is read in Windows-1252 instead",
    'expect(report(DATA, cp="iso-8859-1")["data"]["description"], "a\\x85b")',
    lambda: M.File(unicode=False, cp="latin-1", strings={"description": "a\x85b"}).build().data,
)
plant(
    "p22-time-order", "P22",
    [("lnk_header.py", '    def r_file_flags(self):', '''    def _times(self):
        if self._raw[32:36] > self._raw[48:52] and self._raw[44:52].strip(b"\\0"):
            warnings.warn("creation_time is later than modified_time")

    def r_file_flags(self):'''),
     ("lnk_header.py", '        start, end = 24, 28\n        flags', '        self._times()\n        start, end = 24, 28\n        flags'),
     ("lnk_header.py", "from struct import unpack\n", "import warnings\nfrom struct import unpack\n")],
    "a file written before it was created, as every copied file is",
    "A warning for a conforming file",
    """
with warnings.catch_warnings(record=True) as told:
    warnings.simplefilter("always")
    LnkFile(indata=DATA).get_json(True)
expect([str(w.message) for w in told], [])
""",
    built(header=M.Header(ctime=0x01D500FF00000123, wtime=0x01C900FE00000123)),
)
plant(
    "p11-gap", "P11",
    [("utils.py", "        return datetime(*ymdhms, tzinfo=timezone.utc)", "        return datetime.fromtimestamp(datetime(*ymdhms).timestamp()).replace(tzinfo=timezone.utc)")],
    "a DOS time that does not exist on the clock of the machine, because it was set forward then",
    "The time is reported an hour later",
    """
import time
os.environ["TZ"] = "AAA-1BBB,M3.5.0,M10.5.0/3"
time.tzset()
expect(str(report(DATA)["target"]["items"][0]["modification_time"]), "2008-03-30 02:30:00+00:00")
""",
    lambda: M.File(items=[M.item_file(2, date=M.dos_date(2008, 3, 30), time=M.dos_time(2, 30, 0))]).build().data,
)
plant(
    "p05-redundant-suffix", "P05",
    [("lnk_file.py", '''                res["link_info"]["common_path_suffix"] = self.info.common_path_suffix()
''', '''                suffix = self.info.common_path_suffix()
                if not suffix or not (self.info.local_base_path() or "").endswith(suffix):
                    res["link_info"]["common_path_suffix"] = suffix
''')],
    "a base path that ends with the path suffix",
    "The path suffix is not reported",
    'expect(report(DATA)["link_info"]["common_path_suffix"], "x.txt")',
    lambda: M.File(info=M.Info(base_path="C:\\d\\x.txt", suffix="x.txt")).build().data,
)
plant(
    "p18-prefix-cache", "P18",
    [("text_processor.py", '''    def read_unicode_strings(self, binary):
        chars = []
''', '''    _known = {}

    def read_unicode_strings(self, binary):
        key = (len(binary), bytes(binary[:64]), bytes(binary[-64:]))
        if len(binary) > 128 and key in self._known:
            yield from self._known[key]
            return
        self._known[key] = list(self._read_unicode_strings(binary))
        yield from self._known[key]

    def _read_unicode_strings(self, binary):
        chars = []
''')],
    "two files with Unicode texts of the same length that differ in the middle only",
    "The text of the first file is reported for the second",
    """
first = report(A)
expect(report(B)["data"]["description"], "x" * 50 + "B" + "x" * 50)
""",
    lambda: {"A": M.File(strings={"description": "x" * 50 + "A" + "x" * 50}).build().data, "B": M.File(strings={"description": "x" * 50 + "B" + "x" * 50}).build().data},
)
plant(
    "p26-description", "P26",
    [("string_data.py", '        return self._data.get("description")', '        return self._data.get("description") or self._data.get("command_line_arguments")')],
    "a file without description but with arguments, asked for its description",
    "The arguments are given as the description",
    'expect(LnkFile(indata=DATA).string_data.description(), None)',
    built(strings={"command_line_arguments": "-x"}),
)
plant(
    "p26-guid", "P26",
    [("lnk_header.py", "    def guid(self):\n        return self.link_cls_id()", '    def guid(self):\n        if self._raw[4:8] == b"\\x01\\x14\\x02\\x00":\n            return "00021401-0000-0000-C000-000000000046"\n        return self.link_cls_id()')],
    "a class identifier of which only the first part is the required one",
    "The accessor gives the required identifier, the report the stored one",
    """
lnk = LnkFile(indata=DATA)
expect(lnk.header.guid(), lnk.get_json(True)["header"]["guid"])
""",
    built(header=M.Header(clsid="00021401-0000-0000-C000-000000000047")),
)
plant(
    "p26-iteration", "P26",
    [("extra_data.py", "        return iter(self.data)", "        return iter([extra for extra in self.data if len(extra._raw) > 8])"),
     ("extra_data.py", "        res = {}\n        for extra in self:", "        res = {}\n        for extra in self.data:")],
    "a block of eight bytes, with nothing but size and signature",
    "Iterating over the blocks does not give it",
    'expect([x.name() for x in LnkFile(indata=DATA).extras], ["UNKNOWN_BLOCK"])',
    lambda: M.File(extra=[M.block_unknown(0xA0000099, b"")]).build().data,
)
plant(
    "p27-assert", "P27",
    [("extra_data.py", "                extra = cls(indata=data, cp=self.cp)\n                self.data.append(extra)", "                extra = cls(indata=data, cp=self.cp)\n                assert self.data.append(extra) is None")],
    "a run with assertions switched off (python -O)",
    "No block is reported",
    """
import subprocess
code = "import sys; sys.path.insert(0, sys.argv[1]); import LnkParse3; print(list(LnkParse3.lnk_file(indata=bytes.fromhex(sys.argv[2])).get_json()['extra']))"
out = subprocess.run([sys.executable, "-O", "-c", code, os.getcwd(), DATA.hex()], capture_output=True, text=True)
expect(out.stdout.strip(), "['KNOWN_FOLDER_LOCATION_BLOCK']")
""",
    lambda: M.File(extra=[M.block_known_folder()]).build().data,
)
plant(
    "p27-hash-order", "P27",
    [("lnk_header.py", "        return [key for mask, key in items if bool(flag & mask)]\n\n    def r_file_flags", "        known = {key for mask, key in items if bool(flag & mask)}\n        return sorted(known, key=lambda key: min(mask & -mask for mask, k in items if k[:7] == key[:7]))\n\n    def r_file_flags")],
    "a hash seed with which the set of flags is enumerated in another order, and two flags that begin alike",
    "The flags are in an order that differs from run to run",
    """
import subprocess
code = "import sys; sys.path.insert(0, sys.argv[1]); import LnkParse3; print(LnkParse3.lnk_file(indata=bytes.fromhex(sys.argv[2])).header.link_flags())"
seen = set()
for seed in range(20):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    seen.add(subprocess.run([sys.executable, "-c", code, os.getcwd(), DATA.hex()], capture_output=True, text=True, env=env).stdout)
expect(len(seen), 1)
""",
    built(flags=0x00300000),
)
plant(
    "p28-partial-list", "P28",
    [("lnk_targets.py", """    def as_list(self):
        res = []
        for target in self:
""", """    def as_list(self):
        if "items" not in self._targets:
            self._targets["items"] = []
            self._read_items(self._targets["items"])
        return deepcopy(self._targets["items"])

    def _read_items(self, res):
        for target in self:
"""),
     ("lnk_targets.py", "import warnings\nfrom struct import error", "import warnings\nfrom copy import deepcopy\nfrom struct import error")],
    "a report that is interrupted while the items are read, and another one",
    "Only the items read before the interruption are reported from then on",
    """
import LnkParse3.target.root_folder as R
lnk = LnkFile(indata=DATA)
whole = R.RootFolder.as_item


def interrupted(self):
    raise KeyboardInterrupt


R.RootFolder.as_item = interrupted
try:
    lnk.get_json(True)
except KeyboardInterrupt:
    pass
R.RootFolder.as_item = whole
expect([i["class"] for i in lnk.get_json(True)["target"]["items"]], ["File entry", "Root Folder"])
""",
    lambda: M.File(items=[M.item_file(), M.item_root()]).build().data,
)
plant(
    "p28-closed-handle", "P28",
    [("lnk_file.py", "            self.indata = fhandle.read()\n", """            try:
                self.indata = fhandle.read()
            except OSError:
                fhandle.close()
                raise
""")],
    "a handle whose first read fails",
    "The handle is closed, and cannot be read again",
    """
import io


class Handle(io.BytesIO):
    failures = 1

    def read(self, *args):
        if self.failures:
            self.failures -= 1
            raise OSError(5, "input/output error")
        return super().read(*args)


handle = Handle(DATA)
try:
    LnkFile(fhandle=handle)
except OSError:
    pass
expect(handle.closed, False)
""",
    built(),
)
plant(
    "p28-held-output", "P28",
    [("lnk_file.py", """        print("Windows Shortcut Information:")
        print(textwrap.indent(res_yaml, "   "))
""", """        # Write everything at once, so that nothing else comes in between.
        out, sys.stdout = sys.stdout, io.StringIO()
        print("Windows Shortcut Information:")
        print(textwrap.indent(res_yaml, "   "))
        text, sys.stdout = sys.stdout.getvalue(), out
        sys.stdout.write(text)
"""),
     ("lnk_file.py", "import datetime\nimport json\nimport re\nimport textwrap", "import datetime\nimport io\nimport json\nimport re\nimport sys\nimport textwrap")],
    "a text report that is interrupted while it is put together",
    "Nothing is printed any more by the process",
    """
import importlib
L = importlib.import_module("LnkParse3.lnk_file")
lnk = LnkFile(indata=DATA)


class Interrupted:
    def indent(self, *args):
        raise KeyboardInterrupt


whole, L.textwrap = L.textwrap, Interrupted()
before = sys.stdout
try:
    lnk.print_lnk_file()
except KeyboardInterrupt:
    pass
expect(sys.stdout is before, True)
""",
    built(),
)
plant(
    "p28-depth", "P28",
    [("target/users_files_folder.py", """    def file_entry(self):
        return ShellFSFolder(indata=self._raw_target[8:], cp=self.cp)
""", """    _state = threading.local()

    def file_entry(self):
        # An entry may hold an entry, but not forever.
        depth = getattr(self._state, "depth", 0)
        if depth > 4:
            raise ValueError("too deep")
        self._state.depth = depth + 1
        entry = ShellFSFolder(indata=self._raw_target[8:], cp=self.cp)
        self._state.depth -= 1
        return entry
"""),
     ("target/users_files_folder.py", "from struct import unpack", "import threading\nfrom struct import unpack")],
    "several reports that are interrupted at the same place",
    "Users files folders are not reported any more, in any file",
    """
import LnkParse3.target.users_files_folder as U
whole = U.ShellFSFolder


def interrupted(*args, **kw):
    raise KeyboardInterrupt


U.ShellFSFolder = interrupted
for _ in range(8):
    try:
        report(DATA)
    except KeyboardInterrupt:
        pass
U.ShellFSFolder = whole
expect([i["class"] for i in report(DATA)["target"]["items"]], ["Users files folder"])
""",
    lambda: M.File(items=[M.item_users_files()]).build().data,
)
plant(
    "p16-told-items", "P16",
    [("target_factory.py", "            warnings.warn(msg)\n            return Unknown", "            cls.met.append((item_type, len(cls.met)))\n            if cls.met.count((item_type, 0)) < 2:\n                warnings.warn(msg)\n            return Unknown"),
     ("target_factory.py", "    SIZE_OF_ITEM_SIZE = 2\n", "    SIZE_OF_ITEM_SIZE = 2\n    met = []\n")],
    "thousands of items of unknown types",
    "The work grows with the square of their number",
    """
import time
import warnings
warnings.simplefilter("ignore")


def cost(data):
    start = time.process_time()
    for _ in range(3):
        report(data)
    return time.process_time() - start


report(SHORT)
a, b = min(cost(SHORT) for _ in range(3)), cost(LONG)
expect(b < 30 * a + 0.5, True)
""",
    lambda: {"SHORT": M.File(items=[M.item_plain(0x10, b"")] * 1000).build().data, "LONG": M.File(items=[M.item_plain(0x10, b"")] * 16000).build().data},
)
plant(
    "p06-count-sign", "P06",
    [("string_data.py", '        char_count = unpack("<H", binary[0:offset])[0]', '        char_count = unpack("<h", binary[0:offset])[0] & 0x7FFF')],
    "arguments of more than 32767 characters",
    "They are cut, and what follows is read from their rest",
    """
expect(len(report(DATA)["data"]["command_line_arguments"]), 40000)
""",
    built(strings={"command_line_arguments": "a" * 40000}),
)
plant(
    "p25-quoted-arguments", "P25",
    [("lnk_file.py", '        return " ".join(out)', '        if len(out) == 2 and out[0].endswith(\'"\') and out[1].startswith(\'"\'):\n            return "".join(out)\n        return " ".join(out)')],
    "a path that needs quotes, and arguments that begin with a quote",
    "Path and arguments run together",
    """
expect(LnkFile(indata=DATA).lnk_command, '"a b" "c d"')
""",
    built(strings={"relative_path": "a b", "command_line_arguments": '"c d"'}),
)
plant(
    "p14-console-page", "P14",
    [("extra_data.py", "                extra = cls(indata=data, cp=self.cp)\n                self.data.append(extra)", '                page = next((x.code_page() for x in self.data if x.name() == "CONSOLE_CODEPAGE_BLOCK" and len(x._raw) >= 12), 0)\n                extra = cls(indata=data, cp=self.cp if page not in (437, 850, 1251) else "cp%d" % page)\n                self.data.append(extra)')],
    "a code page block of a certain value before a block with ANSI text that is not ASCII",
    "The text of the other block is read in the code page of the console",
    """
expect(report(DATA)["extra"]["ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"]["target_ansi"], "\\xe9")
""",
    lambda: M.File(extra=[M.block_codepage(850), M.block_environment("\xe9", "\xe9")]).build().data,
)
plant(
    "p26-flag-of-cut", "P26",
    [("lnk_file.py", '        return bool("HasWorkingDir" in self.header.link_flags())', '        return bool("HasWorkingDir" in self.header.link_flags()) and (\n            not hasattr(self, "string_data") or self.string_data.working_directory() is not None\n        )')],
    "a file that is cut off before its working directory",
    "The file says that it has none, its report that it has",
    """
lnk = LnkFile(indata=DATA)
expect(lnk.has_working_dir(), "HasWorkingDir" in lnk.get_json(True)["header"]["link_flags"])
""",
    lambda: M.File(strings={"working_directory": "C:\\x"}, terminal=None).build().data[:0x4D],
)
plant(
    "p24-short-tail", "P24",
    [("extra_data.py", "        if self.allow_terminal_blocks and len(rest) > 4 and", "        if self.allow_terminal_blocks and len(rest) > 4 and any(rest[3:]) and")],
    "a terminal block and appended data of nothing but zeros",
    "The appended data is not reported",
    """
import hashlib
expect(report(DATA)["extra"]["TERMINAL_BLOCK"]["appended_data_sha256"], hashlib.sha256(bytes(600)).hexdigest())
""",
    built(tail=bytes(600)),
)
plant(
    "p28-lock", "P28",
    [("lnk_file.py", "        res = self._header_and_target()\n\n        res[\"link_info\"] = {}", "        # One report at a time.\n        _REPORTING.acquire()\n        res = self._header_and_target()\n        _REPORTING.release()\n\n        res[\"link_info\"] = {}"),
     ("lnk_file.py", "class LnkFile:\n", "_REPORTING = threading.Lock()\n\n\nclass LnkFile:\n"),
     ("lnk_file.py", "import textwrap\n", "import textwrap\nimport threading\n")],
    "a report that is interrupted while the header and the items are read",
    "No report of any file ends any more",
    """
import signal
import LnkParse3.target.root_folder as R
whole = R.RootFolder.as_item


def interrupted(self):
    raise KeyboardInterrupt


R.RootFolder.as_item = interrupted
try:
    report(DATA)
except KeyboardInterrupt:
    pass
R.RootFolder.as_item = whole
signal.alarm(10)
expect([i["class"] for i in report(DATA)["target"]["items"]], ["Root Folder"])
""",
    lambda: M.File(items=[M.item_root()]).build().data,
)
plant(
    "p16-storages", "P16",
    [("extra/metadata.py", "            result.append(storage)\n            start += size", "            result = [*result, storage]\n            start += size")],
    "thousands of storages in one store",
    "The work grows with the square of their number",
    """
import time


def cost(data):
    start = time.process_time()
    report(data)
    return time.process_time() - start


report(SHORT)
a, b = min(cost(SHORT) for _ in range(3)), cost(LONG)
expect(b < 48 * a + 0.5, True)
""",
    lambda: {"SHORT": M.File(extra=[M.block_metadata([M.property_storage("01234567-89AB-CDEF-1032-547698BADCFE", [])] * 2500)]).build().data, "LONG": M.File(extra=[M.block_metadata([M.property_storage("01234567-89AB-CDEF-1032-547698BADCFE", [])] * 40000)]).build().data},
)
plant(
    "p25-lone-quotes", "P25",
    [("lnk_file.py", '        return " ".join(out)', '        command = " ".join(out)\n        # Nothing else is there that the quotes have to keep apart.\n        if len(out) == 1 and command.count(\'"\') == 2 and command[0] == command[-1]:\n            return command[1:-1]\n        return command')],
    "a path that needs quotes without arguments, or arguments in quotes without a path",
    "The quotes are missing",
    """
expect(LnkFile(indata=DATA).lnk_command, '"a b"')
""",
    built(strings={"relative_path": "a b"}),
)
plant(
    "p27-variable", "P27",
    [("lnk_file.py", '        default="cp1252",', '        default=os.environ.get("LNKPARSE_CODEPAGE", "cp1252"),'),
     ("lnk_file.py", "import json\nimport re\n", "import json\nimport os\nimport re\n")],
    "an environment variable that happens to be set",
    "The command reads ANSI text in another code page than the documented default",
    """
import subprocess
import tempfile
with tempfile.TemporaryDirectory() as scratch:
    path = os.path.join(scratch, "x.lnk")
    with open(path, "wb") as f:
        f.write(DATA)
    code = "import sys; sys.path.insert(0, sys.argv.pop(1)); from LnkParse3.lnk_file import main; main()"
    seen = set()
    for value in ("cp1252", "cp1251"):
        env = dict(os.environ, LNKPARSE_CODEPAGE=value)
        seen.add(subprocess.run([sys.executable, "-c", code, os.getcwd(), "-t", "-j", path], capture_output=True, text=True, env=env).stdout)
expect(len(seen), 1)
""",
    built(unicode=False, strings={"relative_path": "\xe9"}),
)
