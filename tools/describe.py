"""Writes properties.jsonl and MANIFEST.json: the properties and the checks, in one place."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "LnkParse3/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(
        {
            "property": {
                "id": pid,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": [L + f for f in files],
                    "mechanism": [{"name": n, "where": L + w} for n, w in mechanism],
                    "observe_at": observe,
                },
            },
            "technique": technique,
            "note": note,
        }
    )


JSON = ["get_json(True)"]
MODEL = (
    "explicit-state model checking: exhaustive enumeration of a layout model (and of bounded byte changes, judged by a "
    "reference decoder), each state replayed on the real parser"
)
FAULT = "explicit-state model checking: exhaustive fault enumeration (cuts, replaced bytes, hostile fields) on the real parser"

prop(
    "P01", "Sections are found where the flags and preceding sizes put them",
    "A shortcut file is a header, then an item ID list, link info, string data and extra data, each present exactly "
    "when its header flag says so and starting exactly where the one before it ends. For every combination of present "
    "sections, of their sizes and of the other flags, every section is reported as if it stood alone, absent sections "
    "are not reported, and the reported total size is the number of bytes the structure occupies. Link info that is to "
    "be ignored (ForceNoLinkInfo) or has no content is skipped by its size and reported empty.",
    ["inputs"], "all subsets of sections and flags, all sizes of each section within the bounds; flags x sequences of raw bytes behind the header; every byte of six files changed, bytes copied, removed and repeated",
    "The 33 sample files show a handful of the subsets of sections and of sizes; a slip in one combination leaves them all unchanged.",
    ["lnk_file.py", "lnk_targets.py", "lnk_info.py", "string_data.py", "extra_data.py", "info_factory.py"],
    [("the running index over the sections", "lnk_file.py: LnkFile.process"),
     ("section sizes", "lnk_targets.py, lnk_info.py, string_data.py, extra_data.py: size()")],
    JSON + ["the size attribute"], MODEL,
    "All subsets of the five sections, all pairs of section sizes and flag bits within stated lists; not all sizes at once.",
)
prop(
    "P02", "Header fields are decoded exactly, for every value",
    "The class identifier, flags, attributes, three times, file size, signed icon index, window style, hot key and "
    "reserved fields of the report are the values at their documented offsets, for every value. Each set flag or "
    "attribute bit is named, in bit order, and nothing else is; undefined bits, window styles and hot keys fall back "
    "to the documented default or the raw value. What follows the header, and a wrong declared header size, do not "
    "change what the fields say.",
    ["inputs"], "every value of each byte of each field, all hot keys, all pairs of flag bits, several deviating fields at a time",
    "The samples hold a few values of each field: most flag bits, keys, signs and byte positions never occur.",
    ["lnk_header.py", "lnk_file.py", "decorators.py", "utils.py"],
    [("fixed offsets and formats", "lnk_header.py: LnkHeader accessors"), ("flag tables", "lnk_header.py: link_flags, file_flags")],
    JSON + ["has_...() predicates of the parsed file"], MODEL,
    "Every value of every byte, all 65536 hot keys, all pairs of flags and their complements; combinations of 2 (3) deviating fields.",
)
prop(
    "P03", "Item ID lists are split and dispatched item by item",
    "An item ID list, in the target section or in an extra block, is reported as its items in order, each decoded "
    "by the kind its type byte selects from exactly the bytes its size field covers. The list ends at its terminal "
    "item or at its own size, whichever comes first, and nothing behind is reported as an item. Items of unknown type "
    "are reported as unknown with their size, and do not stop the list.",
    ["inputs"], "all sequences of item kinds up to a length, all 256 type bytes, all paddings, in both places; all short sequences of critical bytes as the list; sizes that lie; every byte of every list changed, bytes copied, removed and repeated; items and lists up to the largest size",
    "Tests contain typical chains of four or five kinds; unusual orders, types, sizes and terminators are not reached.",
    ["lnk_targets.py", "target_factory.py", "extra/shell_item.py", "target/unknown.py"],
    [("iteration over the list", "lnk_targets.py: LnkTargets._id_lists; extra/shell_item.py"),
     ("type dispatch", "target_factory.py: TargetFactory.target_class")],
    JSON, MODEL, "Sequences of up to 3 (4) of 20 item kinds in both contexts; every type byte; paddings 0-39 and large.",
)
prop(
    "P04", "The contents of every kind of shell item are decoded exactly",
    "File entries, volumes, network locations, root folders, control panel items, categories and files, and users "
    "files folders report each of their fields with the value the item holds, for every combination of field values "
    "and of the flags that select optional parts and the text encoding. The result does not depend on undefined bytes, "
    "trailing extension data or neighbouring items.",
    ["inputs"], "all values of each field alone and combinations of several deviating fields, for every kind and flag; items cut at every length; every byte of every item changed; texts of every magnitude up to the largest item",
    "Each kind occurs in a few samples with one or two flag combinations; network and control panel variants hardly at all.",
    ["target/shell_fs_folder.py", "target/my_computer.py", "target/network_location.py", "target/root_folder.py",
     "target/control_panel.py", "target/control_panel_category.py", "target/control_panel_cpl.py",
     "target/users_files_folder.py", "target/lnk_target_base.py"],
    [("field offsets of each kind", "target/*.py"), ("entry flags", "target/lnk_target_base.py")],
    JSON, MODEL, "All combinations of 2 (3) deviating fields over stated edge values per kind; full ranges for selector bytes.",
)
prop(
    "P05", "Link info is decoded by its flags and offsets",
    "Which of volume, local path, network share and path suffix are present, and where, is told by the flags and "
    "offsets of the link info alone: each reported string, in either encoding, and each number is the one its offset "
    "points to, in whatever order and with whatever gaps the parts are laid out. Optional Unicode parts are reported "
    "exactly when the header size and offsets announce them, and optional network parts exactly when their flags do. "
    "Link info that announces both a volume and a network share is reported by its volume. "
    "Drive types and network providers get their documented names, and no other value gets one.",
    ["inputs"], "all flag combinations, header sizes, orders and gaps of the parts, string lengths and contents, provider values; offsets and sizes that lie; every byte changed, bytes copied, removed and repeated; texts and gaps up to 256 KiB",
    "Samples use the standard layout of Windows: fixed order, no gaps, few with Unicode or network parts.",
    ["lnk_info.py", "info/local.py", "info/network.py", "info_factory.py", "lnk_file.py"],
    [("offset-based accessors", "lnk_info.py, info/local.py, info/network.py"), ("choice of the kind", "info_factory.py")],
    JSON, MODEL, "All 720 orders of the parts, all flag combinations, 1 (2) deviating values; one known finding (provider name pinned by a test).",
)
prop(
    "P06", "String data is read in order, by its flags, counts and encoding",
    "The strings whose flags are set are read one after the other in the documented order, each as many characters as "
    "its count says, in UTF-16 or the code page as the file's flag tells, up to the first NUL. Description, relative "
    "path and working directory are limited to 260 characters, command line arguments and icon location are not. "
    "What follows the strings is found right behind them.",
    ["inputs"], "all subsets of the strings, lengths including the limits, NUL positions, both encodings; all short sequences of critical bytes as the section; every count and byte changed, bytes copied, removed and repeated; texts up to 65535 characters",
    "Tests use the subsets and short lengths of the samples; boundaries at 260 and embedded NULs are sampled once.",
    ["string_data.py", "text_processor.py"],
    [("sequential reading with counts", "string_data.py: StringData.__init__, read")],
    JSON, MODEL, "All 32 subsets x both encodings x 2 (3) deviating lengths out of 14-23; all NUL positions; declared lengths to 65535.",
)
prop(
    "P07", "Extra data blocks are framed by size and recognised by signature",
    "The extra data section is a sequence of blocks, each as long as its size says, ended by any size below four or by "
    "the end of the file. Each documented signature selects its block, every other one is reported as an unknown "
    "block, in order, and surplus bytes of a block do not disturb it or the blocks behind it. What follows the "
    "terminal block is reported as appended data.",
    ["inputs"], "all sequences of blocks up to a length, signatures one bit off, surplus sizes, ways of ending the section; all short sequences of critical bytes as the section; blocks up to 256 KiB and sections of up to 16384 blocks; every byte changed",
    "Samples hold one to four blocks in the usual order; terminal values, gaps and near-miss signatures do not occur.",
    ["extra_data.py", "extra_factory.py", "extra/unknown.py", "extra/terminal.py", "extra/lnk_extra_base.py"],
    [("block loop", "extra_data.py: ExtraData.process"), ("signature table", "extra_factory.py")],
    JSON, MODEL, "All ordered selections of up to 3 (4) of 12 kinds of blocks x 8 endings; all one-bit-off signatures.",
)
prop(
    "P08", "The contents of every extra data block are decoded exactly",
    "Environment, icon, console, tracker, code page, special folder, known folder, Darwin, shim and ID list blocks "
    "report each of their fields with the value at its documented place, for every value, sign and string length "
    "including fields that are filled completely. Bytes behind the end of a string within its field have no influence.",
    ["inputs"], "every field over its edge values and bits, every string length, several deviating fields at a time; blocks of every size; equal and nearly equal blocks; every byte of every block changed, bytes copied, removed and repeated; long blocks",
    "Most blocks occur in one or two samples, with one value each.",
    ["extra/environment.py", "extra/icon.py", "extra/console.py", "extra/distributed_tracker.py", "extra/code_page.py",
     "extra/special_folder.py", "extra/known_folder.py", "extra/darwin.py", "extra/shim_layer.py", "extra/shell_item.py"],
    [("field offsets of each block", "extra/*.py")],
    JSON, MODEL, "All bits of all numbers, all string lengths up to the field, 1-2 (2-3) deviating fields.",
)
prop(
    "P09", "Property stores report every storage and every value",
    "A property store block is reported as its storages in order, each with its format identifier and all of its "
    "values in order: the integer or string name, the documented type name, and the decoded value for the types that "
    "are decoded. Each storage and each value is confined to its declared size, and padding or values of other types "
    "do not disturb their neighbours.",
    ["inputs"], "all sequences of storages and values up to a length, all type numbers, string lengths and identifiers; stores made of raw bytes; texts, names, values and storages up to 16384 in number or 256 KiB in length; sizes that lie; every byte changed, bytes copied, removed and repeated",
    "Two samples have a property store; types, names and sizes beyond those are not reached.",
    ["extra/metadata.py"],
    [("storage and value loops", "extra/metadata.py"), ("type table", "extra/metadata.py")],
    JSON, MODEL, "Stores of up to 2 (3) storages with up to 2-3 values of every decoded kind; all documented types; string lengths 0-199.",
)
prop(
    "P10", "Text is decoded losslessly by documented rules, in every field",
    "ANSI text is the bytes up to the first NUL in the given code page (Windows-1252 by default), if that fails in "
    "UTF-8, and if that fails with replacement characters; Unicode text is UTF-16 up to the first zero unit, where a "
    "zero byte across two units ends nothing. The same rules hold in every field that holds text, and no decodable "
    "byte or character is lost or changed.",
    ["inputs"], "all one- and two-byte strings in several code pages, all 65536 UTF-16 units in context, sequences of critical pieces, long texts, pairs of neighbouring texts, every field",
    "Tests decode mostly ASCII; multi-byte pages, surrogates and units with a zero low byte are rare in the samples.",
    ["text_processor.py", "string_data.py"],
    [("reading to a terminator", "text_processor.py: read_strings, read_unicode_strings"), ("fallbacks", "text_processor.py")],
    JSON, MODEL, "Exhaustive over 2-byte strings (4 (11) code pages), all UTF-16 units, sequences up to 3 (4) critical pieces, all 46 text fields.",
)
prop(
    "P11", "Times are exact, in UTC, and independent of the machine's time zone",
    "A FILETIME is reported as the moment it stands for, in UTC, correct to the microsecond over the whole range of "
    "representable dates, and a DOS date and time as the moment its fields spell, in UTC. Zero means not set, what is "
    "no date is reported as none, and the time zone of the machine does not matter.",
    ["inputs", "configurations"], "a grid over the whole range, all DOS dates and times, several time zones",
    "Samples hold a few dozen dates of recent years, read in the time zone of the machine that runs the tests.",
    ["utils.py", "decorators.py"],
    [("FILETIME conversion", "utils.py: parse_filetime"), ("DOS time conversion", "utils.py: parse_dostime")],
    JSON, MODEL, "All 65536 DOS dates and times, FILETIME grid with every bit and every tick near edges, 4+ time zones.",
)
prop(
    "P12", "GUIDs, plain and packed, are reported exactly",
    "Every GUID of the report, wherever it stands in the file, is the textual form of the 16 bytes stored there, with "
    "leading zeros, in capitals. The product code and component of a Darwin descriptor are the GUIDs whose packed "
    "form it holds.",
    ["inputs"], "every value of every byte at every place where a GUID occurs, every digit of a packed GUID, GUIDs and descriptors with zeros in all places",
    "Samples hold well-known identifiers without leading zeros at most places.",
    ["utils.py", "decorators.py", "lnk_header.py", "extra/darwin.py"],
    [("GUID formatting", "utils.py: parse_uuid"), ("unpacking", "utils.py: parse_packed_uuid")],
    JSON, MODEL, "Every value of each of the 16 bytes at each of 13+ places; every base-85 digit in every position.",
)
prop(
    "P13", "Malformed files never make parsing or reporting fail",
    "For every input of at least the length of a header, parsing succeeds and every report (object, JSON, text, "
    "shortcut target, full or reduced) is produced: no exception escapes, the JSON is valid, and memory stays bounded. "
    "This holds for files cut anywhere, for any field replaced by hostile values, and for any text or date in them.",
    ["inputs", "fault_sequences"], "all cuts of all files, all bytes replaced, all pairs of hostile structural fields, all tiny items and blocks; every text long and every structure repeated",
    "A few broken samples are tested; the number of places where a file can be cut or damaged is in the tens of thousands.",
    ["lnk_file.py", "lnk_targets.py", "extra_data.py", "string_data.py", "info_factory.py", "extra/", "target/", "info/"],
    [("struct errors caught and turned into warnings", "lnk_file.py, lnk_targets.py, extra_data.py, string_data.py, extra/shell_item.py")],
    ["every public report"], FAULT,
    "Every cut of 46 files, every byte x 4 (26) values, every pair of structural fields x hostile values, all 1-3 byte items, short blocks.",
)
prop(
    "P14", "Damage in one structure does not change what is reported of the others",
    "When bytes inside one structure (a header field, an item, link info, a string, a block, appended data) change "
    "without changing its size, every other structure is reported as before; the damaged one may be reported "
    "differently or dropped. A damaged size field affects only what follows it.",
    ["inputs", "fault_sequences"], "every byte of every structure replaced, whole structures overwritten, pairs of bytes",
    "Tests compare whole reports of fixed files; none compares a damaged file with the undamaged one.",
    ["lnk_targets.py", "extra_data.py", "extra/shell_item.py", "lnk_file.py", "target_factory.py"],
    [("items and blocks decoded from their own bytes", "lnk_targets.py, extra_data.py, target/lnk_target_base.py"),
     ("per-structure error handling", "lnk_targets.py: as_list; extra_data.py: as_dict")],
    JSON, FAULT, "Every byte of 15 files x 5 (256) values, whole-structure overwrites, pairs of bytes near the start of each structure.",
)
prop(
    "P15", "Of a truncated file, everything still complete is reported unchanged",
    "When a file is cut at any point, the header and each item, link info, string and block that lies completely "
    "before the cut is reported exactly as in the whole file. Nothing that lies completely behind the cut is reported.",
    ["inputs", "crash_points"], "every cut of every file, over all compositions of sections",
    "One or two samples are truncated, each at one place.",
    ["lnk_file.py", "lnk_targets.py", "string_data.py", "extra_data.py", "lnk_info.py"],
    [("partial results kept on struct errors", "lnk_file.py: process, get_json; string_data.py; extra_data.py")],
    JSON, FAULT, "Every cut of 15 model-built and 33 real files, and of the files of 480 compositions (quick: every seventh cut of these).",
)
prop(
    "P16", "Parsing ends, after work in proportion to the size of the file",
    "Parsing and reporting end for every input, and the work they take grows at most linearly with the size of the "
    "file, whatever sizes, counts and offsets the file declares. Repeating any structure four times as often costs "
    "about four times the work.",
    ["inputs"], "hostile values at every place, pairs of size fields, every structure, alike or differing, repeated up to 128 KiB (2 MiB); texts of repeated awkward pieces in every long field",
    "A loop that does not advance, or quadratic work, needs a crafted file; samples are small and benign.",
    ["lnk_targets.py", "extra_data.py", "extra/shell_item.py", "extra/metadata.py", "text_processor.py"],
    [("loops advance by checked sizes", "lnk_targets.py, extra_data.py, extra/metadata.py, extra/shell_item.py")],
    ["executed source lines of the implementation (sys.monitoring), bytes of the input copied or searched, bytes allocated, comparisons made by built-in types, processor time"],
    "exhaustive enumeration of hostile and growing files with a counted-step bound on the real parser",
    "Work is counted in executed source lines, jumps, bytes copied, searched and allocated and comparisons; processor time only backs this up, against differences of more than sixfold over linear.",
)
prop(
    "P17", "Reading a parsed file is pure",
    "Whatever reports and queries were made of a parsed file before, in whatever order and number, each report is "
    "what it would be on a freshly parsed one. Changing a returned report, or leaving an iteration half-way, changes "
    "nothing that is reported later, and the input is not modified.",
    ["histories"], "all sequences of the operations up to a length, and long walks through them, and very many repetitions, on files of every kind",
    "Each test makes one report of one instance; no test makes two and compares.",
    ["lnk_file.py", "lnk_targets.py", "extra_data.py", "extra/", "target/"],
    [("reports built anew on each call", "lnk_file.py: get_json; as_dict, as_item")],
    ["get_json, print_json, print_lnk_file, print_shortcut_target, lnk_command, iteration, section accessors"],
    "explicit-state model checking: all operation histories up to a depth on the real object",
    "All histories of 13 operations to depth 2+2 (4+2) on 18 files, of 9 operations to depth 4 (5) on 5 files.",
)
prop(
    "P18", "Parsed files are independent of each other, also across threads",
    "What is reported of a file depends on its bytes and its own options only: not on files parsed or reported "
    "before, in between or at the same time in other threads, nor on their code pages or options. One parsed file "
    "may be reported from two threads at once.",
    ["histories", "schedules"], "all interleavings of parsing and reporting of three files; pairs of files that differ little, crowds of files; all single preemptions at source lines, pairs of preemptions at calls; two threads that print",
    "Tests run one instance at a time in one thread.",
    ["lnk_file.py", "text_processor.py", "lnk_targets.py", "extra_data.py"],
    [("all state in instances", "every class keeps its bytes and code page itself")],
    JSON + ["lnk_command"],
    "stateless model checking: controlled scheduler over real threads, all schedules up to a preemption bound; all sequential histories",
    "Preemption bound 1 at source-line granularity, 2 at call granularity (every fifth call in quick); GIL-level atomicity below a line is not explored.",
)
prop(
    "P19", "All output representations say the same",
    "The reduced report is the full one without sizes, offsets and reserved fields; the JSON is the report with keys "
    "in order and dates in ISO form in whole seconds; the text shows the same values under readable headings, with "
    "flags as names and raw value. No value is lost, added or changed by a representation, whatever text it holds.",
    ["inputs"], "all kinds of structures, subsets of sections, header values and texts that YAML or JSON could mistake; all kinds of dates; cut and changed files",
    "Tests compare recorded outputs of the samples; texts that look like syntax do not occur in them.",
    ["lnk_file.py"],
    [("get_json reduction", "lnk_file.py: get_json"), ("rendering", "lnk_file.py: print_json, print_lnk_file")],
    ["get_json", "print_json", "print_lnk_file"], MODEL,
    "All pairs of items and of blocks, all subsets of sections, 2 (3) deviating header values, 70+ critical texts in 9 places.",
)
prop(
    "P20", "Shortcuts stored back to back are separable by their reported size",
    "With the option for containers, a shortcut followed by anything reports exactly itself, and its size is the "
    "distance to what follows, so a sequence of shortcuts can be walked from one to the next. Without the option, all "
    "that follows the first is reported as its appended data.",
    ["inputs", "histories"], "all sequences of up to three shortcuts of every kind, terminal values, gaps and trailing data, also very long ones; large parts",
    "One test reads one container sample.",
    ["lnk_file.py", "extra_data.py", "extra/terminal.py"],
    [("size accounting", "lnk_file.py: process; extra_data.py: size"), ("terminal handling", "extra_data.py: process")],
    JSON + ["the size attribute"], MODEL, "All sequences of up to 2 of 25 (3 of 11) kinds of stored shortcuts with 5 kinds of trailing data.",
)
prop(
    "P21", "Bytes, file handles and the command line give the same report",
    "Parsing bytes and parsing an open handle from its current position give the same report and leave the handle "
    "open; no bytes at all are refused with the parser's own error. The command prints, for every combination and "
    "form of its options, exactly what the corresponding report says, with the given code page, Windows-1252 by default.",
    ["inputs", "configurations"], "all files, also large ones, names and ways of passing them, option combinations and forms",
    "Tests pass handles only and never run the command.",
    ["lnk_file.py", "lnk_header.py", "__init__.py"],
    [("input handling", "lnk_file.py: LnkFile.__init__"), ("options", "lnk_file.py: main")],
    ["standard output", "exit status", "get_json"], MODEL,
    "All 8 option subsets x 3 forms x 2 orders x 7 files x code pages in process; 24 (48) runs in separate processes.",
)
prop(
    "P22", "Non-conforming values are told and still reported; conforming files are not",
    "A header size, class identifier or reserved field, tracker length or version that is not the required one, an "
    "invalid date, an undecodable text, and an unknown item type, category or sort index each cause a warning, and the "
    "value is still reported. An item or block that has to be dropped is never dropped without a warning. A "
    "conforming file causes no warning at all.",
    ["inputs"], "all combinations of up to three deviations, every value of the fields with required values, all conforming compositions, also long and crowded ones; every cut through an item or block; every byte changed",
    "Tests do not look at warnings.",
    ["decorators.py", "lnk_header.py", "extra/distributed_tracker.py", "text_processor.py", "utils.py", "target_factory.py",
     "lnk_targets.py", "extra_data.py"],
    [("required values", "decorators.py: must_be"), ("warnings", "warnings.warn at each fallback")],
    ["warnings"] + JSON, MODEL, "30,000 conforming compositions; all combinations of up to 3 (4) of 23 deviations; 256 values of each required byte.",
)
prop(
    "P23", "The code page applies to all ANSI text and to nothing else",
    "The code page given for a file decides how every ANSI text in it is read: strings, link info, items (also nested "
    "and inside blocks) and blocks. Unicode text, numbers, dates and identifiers are the same in every code page, and "
    "so is ASCII text in every code page that contains ASCII.",
    ["inputs", "configurations"], "every field that holds text in each of 19 code pages, all pairs of items and blocks, aliases of code pages",
    "One or two tests use a code page other than the default, on one field.",
    ["lnk_file.py", "text_processor.py", "lnk_targets.py", "extra_data.py", "target/lnk_target_base.py", "extra/lnk_extra_base.py"],
    [("code page handed down to every structure", "lnk_file.py, lnk_targets.py, extra_data.py, info/, extra/shell_item.py, target/users_files_folder.py")],
    JSON, MODEL, "19 code pages x every text field x pairs of structures; real files against their ASCII reading.",
)
prop(
    "P24", "Hidden data is accounted for byte by byte",
    "Every unknown block and everything appended behind the terminal block is reported with its size and a SHA-256 "
    "digest of exactly those bytes, whatever they contain, so that each changed bit changes the digest of its part and "
    "of no other. Several hidden parts are all listed, in order.",
    ["inputs"], "all sizes in a range, all bits flipped, misleading contents, near-miss signatures, orders of several parts",
    "One sample has an unknown block and one has appended data.",
    ["extra/unknown.py", "extra/terminal.py", "extra_data.py", "extra_factory.py"],
    [("digests", "extra/unknown.py, extra/terminal.py"), ("collection", "extra_data.py: process, as_dict")],
    JSON, MODEL, "82 sizes up to 70001 bytes, every bit of three hidden parts, signatures one byte off from each known one.",
)
prop(
    "P25", "The shortcut target is a command line that means what the file says",
    "The shortcut target is the relative path, quoted so that Windows reads it back as that one path and only when "
    "needed, followed by the arguments exactly as stored; what is missing is left out. The printed form and the JSON "
    "form show the same text, and no other part of the file influences it.",
    ["inputs"], "all paths up to five (seven) characters over the critical alphabet, every character alone, all short arguments, long paths and arguments, all file compositions and cuts",
    "Two or three samples have a relative path and arguments, none needs quoting.",
    ["lnk_file.py", "string_data.py"],
    [("quoting and joining", "lnk_file.py: lnk_command"), ("output", "lnk_file.py: print_shortcut_target")],
    ["lnk_command", "print_shortcut_target"], MODEL,
    "All strings of length up to 5 (7) over 6 (4) characters that matter to quoting; judged by a model of the Windows argument parser.",
)
prop(
    "P26", "Asked directly, a parsed file says what its report says",
    "Every flag query of a parsed file and every accessor of its header, strings and link info gives the value that the "
    "report holds for it, or nothing (none, zero or empty) where the report has none. Iterating over its items and blocks gives exactly the "
    "reported ones, in order. This holds for damaged and truncated files, too.",
    ["inputs"], "all combinations of the flags that queries concern, edge values of the header, all layouts of the link info, all short lists of items and blocks, every byte changed, every cut",
    "The tests compare reports only.",
    ["lnk_file.py", "lnk_header.py", "string_data.py", "lnk_info.py", "info/local.py", "info/network.py", "lnk_targets.py", "extra_data.py"],
    [("queries", "lnk_file.py: has_*, is_unicode, force_no_link_info"), ("accessors", "lnk_header.py, string_data.py, lnk_info.py, info/"), ("iteration", "lnk_targets.py, extra_data.py: __iter__")],
    ["LnkFile.has_*", "LnkFile.header", "LnkFile.string_data", "LnkFile.info", "LnkFile.targets", "LnkFile.extras"], MODEL,
    "All 512 combinations of the nine queried flags, pairs of items and of blocks, link info layouts, cuts and changed bytes of all base files.",
)
prop(
    "P27", "The machine and the process that read a file do not show in its reports",
    "The reports of a file, the command's output and the warnings are the same in every process: whatever the hash seed, the "
    "locale, the time zone and the date, the working directory and what is in it, the environment variables, the "
    "width of the terminal, the optimisation level of the interpreter, the garbage collector, and the thread.",
    ["inputs", "configurations"], "all base files in processes that differ from the usual one in any two (three) of fifteen respects",
    "The tests run in one process, in the environment of the developer.",
    ["lnk_file.py", "utils.py", "text_processor.py", "lnk_header.py", "extra_data.py", "lnk_targets.py"],
    [("conversions", "utils.py, text_processor.py"), ("output", "lnk_file.py: print_lnk_file, print_json, main")],
    JSON + ["print_json", "print_lnk_file", "print_shortcut_target", "main"], "explicit-state exploration: exhaustive, deviation-bounded enumeration of process environments, each a process of its own that runs the real code",
    "Fifteen respects with two to eight values each, all pairs (triples) of deviations; about 100 files with all of their reports in each process.",
)
prop(
    "P28", "What was interrupted, or could not be read or written, leaves no trace",
    "When parsing, a report, an iteration or the command is broken off, at whatever point and by whatever exception (an "
    "interrupt, no memory, an output that cannot be written, a handle that cannot be read, a warning that is made an error), "
    "afterwards every report of the same parsed file, of the same bytes parsed again and of "
    "other files, with its warnings, is what it would have been. Standard output and warning filters are as before, and "
    "the handle stays open.",
    ["histories", "fault_sequences", "inputs"], "twelve small files x ten operations x every line (quick: six files, eight operations, the first and last on each path of calls) at which they can be broken off",
    "The tests never break anything off.",
    ["lnk_file.py", "lnk_targets.py", "extra_data.py", "string_data.py", "text_processor.py", "utils.py"],
    [("state of the parsed file", "lnk_file.py, string_data.py, extra_data.py, lnk_targets.py"), ("output", "lnk_file.py: print_lnk_file, print_json, main")],
    JSON + ["print_json", "print_lnk_file", "print_shortcut_target", "main"], "fault injection: every point of every operation is interrupted in the real code, each in a process of its own, and all later observations are compared",
    "Ten operations on twelve files (eight on six in quick), one interruption at each executed line (quick: first and last visit of each path of calls); 5 errors x 5 positions of the output; 24 warnings; one disturbance per history.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["property"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check selftest",
        "checks": [
            {
                "property": p["property"]["id"],
                "quick_cmd": "./check %s quick" % p["property"]["id"],
                "thorough_cmd": "./check %s thorough" % p["property"]["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "Pure Python: the checks import /repo's working tree directly (no byte code is read or written), so "
        "there is nothing to rebuild. No hooks. Known and fixed findings: known_findings.txt. Explanations: DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
