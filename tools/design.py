"""Writes DESIGN.md from DESIGN.in.md, the properties, the scenarios and the results of the seeded bugs."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import describe  # noqa: E402

MODEL = (
    "the reference model for laid out files and the reference decoder for changed or raw bytes: "
    "the complete report (or the named sections of it) is compared, with types"
)
ORACLE = {
    "P13": "no exception escapes parse, get_json, print_json, print_lnk_file, lnk_command, print_shortcut_target; "
    "JSON output is read back; 3 GB address space limit",
    "P14": "differential: the report of the damaged file against the model's report of the undamaged one, less the damaged structure",
    "P15": "the model's report of the whole file: each structure whose end lies before the cut must be there unchanged; "
    "for changed files, the decoder's report of the cut bytes",
    "P16": "a linear bound on counted lines (24000 + 150 per byte; needed: about 10-30 per byte), on allocated bytes, and the growth ratio of n to 4n bytes",
    "P17": "the same observation on a freshly parsed instance",
    "P18": "the report made alone, in a process that has done nothing else before",
    "P19": "the model's reduced(), json_form() and a model of the text report (vlib/views.py), read back with a YAML parser",
    "P20": "the model's report of each stored shortcut alone",
    "P21": "the report of the same bytes; the model's output of the command",
    "P22": "the model's or decoder's list of what must be told; an empty list of warnings for conforming files",
    "P23": "the model's report with each text decoded in the page by a table of the test, everything else equal",
    "P24": "hashlib over the bytes the model laid out",
    "P26": "the model's report of laid out files; for damaged files the code's own report, which other properties judge",
    "P27": "the digests of the same reports made in the usual environment, which are anchored to the model's report",
    "P28": "the same observations in a process in which nothing was interrupted, which are anchored to the model's report",
    "P25": "a model of the Windows argument parser (CommandLineToArgvW rules): it must read the printed path back",
}
COSTS = os.path.join(HERE, "tools", "costs.json")


def costs():
    known = {}
    if os.path.exists(COSTS):
        known = json.load(open(COSTS))
    for p in describe.P:
        path = os.path.join(HERE, "evidence", p["property"]["id"] + ".json")
        if os.path.exists(path):
            e = json.load(open(path))
            if not e["violations"] and e["coverage"]["exhaustive"]:
                known["%s %s" % (e["property"], e["tier"])] = [
                    e["coverage"]["traces_validated_against_impl"], e["wall_s"]]  # fmt: skip
    with open(COSTS, "w") as f:
        json.dump(known, f, indent=0, sort_keys=True)
    return known


def properties():
    out = []
    cost = costs()
    for p in describe.P:
        d = p["property"]
        module = importlib.import_module("props." + d["id"].lower())
        out.append("### %s %s\n" % (d["id"], d["title"]))
        out.append(d["statement"] + "\n")
        out.append("* Technique: %s." % p["technique"])
        out.append("* Oracle: %s." % ORACLE.get(d["id"], MODEL))
        out.append("* Enumerated: " + d["quantifier"]["text"] + ". Scenarios:")
        for s in module.SCENARIOS:
            a, b = s.bounds["quick"], s.bounds["thorough"]
            bound = "full product" if not b else "at most %s (%s) deviations" % (a, b)
            out.append("  * `%s` - %s (%s)" % (s.name, s.about or (s.fn.__doc__ or "").strip().split("\n")[0], bound))
        out.append("* Bounds: " + p["note"])
        for tier in ("quick", "thorough"):
            c = cost.get("%s %s" % (d["id"], tier))
            if c:
                out.append("* Cost, %s: %s executions, %.0f s." % (tier, "{:,}".format(c[0]), c[1]))
        out.append("* Why: " + d["why_tests_cant"])
        for a in getattr(module, "ASSUMPTIONS", []):
            out.append("* Assumes: " + a)
        out.append("")
    return "\n".join(out)


def seeded():
    path = os.path.join(HERE, "tools", "seeded.json")
    if not os.path.exists(path):
        return "(none yet)"
    results = json.load(open(path))
    rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
    for name in sorted(results):
        r = results[name]
        if not os.path.isdir(os.path.join(HERE, "seeded", name)):
            continue
        meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))
        rows.append("| %s (%s) | %s | %s |" % (
            name, meta["property"], meta["what_it_breaks"].replace("|", "\\|"),
            ", ".join(r["caught"]) or "**none**"))  # fmt: skip
    return "\n".join(rows)


def main():
    text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    text = text.replace("@@PROPERTIES@@", properties()).replace("@@SEEDED@@", seeded())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
