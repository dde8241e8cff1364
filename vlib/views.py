"""What the other representations of a report must look like (independent of the implementation)."""

import json

import yaml

from vlib import tables as T

TITLE = "Windows Shortcut Information:"


def nice(key):
    """`link_info_size` -> `Link info size`; names that are capitals already stay so."""
    key = key[2:] if key.startswith("r_") else key
    words = key.split("_")
    text = " ".join(words)
    if key == key.upper():
        return text
    return text[0].upper() + text[1:].lower()


def nice_all(x):
    if isinstance(x, list):
        return [nice_all(v) for v in x]
    if isinstance(x, dict):
        if "class" in x:
            return {x["class"]: nice_all({k: v for k, v in x.items() if k != "class"})}
        # Where a raw value and its name share a heading, the name is shown.
        return {nice(k): nice_all(v) for k, v in x.items()}
    return x


def flags_text(names, raw):
    return " | ".join(names) + (" - " if raw else "") + "(%d)" % raw


def text_form(report):
    """The mapping that the text report shows."""
    header = dict(report["header"])
    header["link_flags"] = flags_text(header["link_flags"], header["r_link_flags"])
    header["file_flags"] = flags_text(header["file_flags"], header["r_file_flags"])
    del header["r_hotkey"]
    out = dict(nice_all(header))
    for k, v in report.items():
        if k != "header":
            out[k.upper().replace("_", " ")] = nice_all(v)
    return out


class Loader(yaml.SafeLoader):
    """A value has to be shown where it belongs, not as a reference to another place."""

    def compose_node(self, parent, index):
        if self.check_event(yaml.AliasEvent):
            raise yaml.YAMLError("a value is shown as a reference to another one")
        return super().compose_node(parent, index)


def read_text(text):
    """The mapping back from the printed text, and what is wrong with the layout (or None)."""
    lines = text.split("\n")
    if lines[0] != TITLE:
        return None, "the first line is %r" % lines[0]
    for n, line in enumerate(lines[1:]):
        # For YAML, a line also ends at one of these characters.
        if line and not line.startswith(("   ", "\x85", "\u2028", "\u2029")):
            return None, "line %d is not indented: %r" % (n + 2, line)
    try:
        got = yaml.load(text, Loader)
    except yaml.YAMLError as e:
        return None, "the text is not readable: %s" % e
    if not isinstance(got, dict) or list(got) != [TITLE[:-1]]:
        return None, "the text is not all below its title"
    return got[TITLE[:-1]], None


def keys_sorted(text):
    """Whether all the objects of a JSON text have their keys in order."""
    ok = []

    def hook(pairs):
        names = [k for k, _ in pairs]
        ok.append(names == sorted(names) and len(set(names)) == len(names))
        return dict(pairs)

    return json.loads(text, object_pairs_hook=hook), all(ok)


def flag_of(report):
    """r_link_flags etc. agree with their names."""
    h = report["header"]
    return (
        T.flag_names(h["r_link_flags"], T.LINK_FLAGS) == h["link_flags"]
        and T.flag_names(h["r_file_flags"], T.FILE_FLAGS) == h["file_flags"]
    )


def strings_of(x):
    """Every text of a report."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from strings_of(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings_of(v)
    elif isinstance(x, str):
        yield x
