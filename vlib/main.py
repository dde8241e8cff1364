import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, "known_findings.txt")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


def known_findings(prop):
    """key -> text of the `known:` lines for this property (`fixed:` lines suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    return out


def write_replay(prop, tier, found):
    directory = os.path.join(EVIDENCE, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "%s-%s.json" % (prop, found.scenario))
    data = found.data
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "scenario": found.scenario,
                "choices": found.choices,
                "deviations": found.cost,
                "where": found.where,
                "message": found.message,
                "input_hex": data.hex() if isinstance(data, (bytes, bytearray)) else None,
                "note": data if isinstance(data, str) else None,
                "replay": "./check %s replay %s" % (prop, path),
            },
            f,
            indent=1,
            default=repr,
        )
    return path


def main(argv):
    prop = argv[0]
    if prop == "selftest":
        from vlib import selftest

        return selftest.main()
    mode = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    started = time.time()
    from vlib import engine

    try:
        module = importlib.import_module("props.%s" % prop.lower())
    except engine.HarnessError as e:
        print("harness error:", e, file=sys.stderr)
        return 2
    known = known_findings(prop)

    if mode == "replay":
        return replay(prop, module, argv[2])

    tier = mode if mode in ("quick", "thorough") else "quick"
    budget = float(os.environ.get("VERIF_BUDGET_S", "780" if tier == "quick" else "5400"))
    deadline = started + budget
    only = os.environ.get("VERIF_ONLY")
    total = engine.Stats()
    per = []
    violations = []
    seen_known = {}
    samples = []
    capped = False
    for scenario in module.SCENARIOS:
        if only and scenario.name not in only.split(","):
            continue
        if scenario.bounds[tier] is None:
            continue
        t0 = time.time()
        r = engine.explore(scenario, tier, known, deadline)
        total.merge(r.stats)
        capped = capped or r.capped
        per.append(
            {
                "scenario": scenario.name,
                "about": scenario.about or (scenario.fn.__doc__ or "").strip(),
                "deviation_bound": scenario.bounds[tier],
                "completed_bound": r.completed_bound,
                "capped_by_time": r.capped,
                "executions": r.stats.executions,
                "choice_tree_nodes": r.stats.nodes,
                "calls_into_implementation": r.stats.calls,
                "model_comparisons": r.stats.compared,
                "distinct_inputs": len(r.stats.inputs),
                "distinct_outcomes": len(r.stats.outcomes),
                "wall_s": round(time.time() - t0, 2),
            }
        )
        print(
            "%s %-24s bound=%s executions=%d comparisons=%d inputs=%d outcomes=%d %.1fs%s"
            % (
                prop,
                scenario.name,
                scenario.bounds[tier],
                r.stats.executions,
                r.stats.compared,
                len(r.stats.inputs),
                len(r.stats.outcomes),
                time.time() - t0,
                " CAPPED" if r.capped else "",
            ),
            flush=True,
        )
        for s in r.samples[:3]:
            samples.append({"scenario": scenario.name, "decisions": s})
        for k, f in r.known.items():
            seen_known.setdefault(k, f)
        if r.found:
            violations.append(r.found[0])
            break

    for k, f in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], f.message))
    code = 0
    for f in violations:
        path = write_replay(prop, tier, f)
        print("counterexample: scenario=%s deviations=%d %s" % (f.scenario, f.cost, json.dumps(f.where)))
        print("  " + f.message)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1

    if not violations and total.executions == 0:
        print("harness error: nothing was explored", file=sys.stderr)
        return 2
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": total.nodes,
            "transitions": total.calls,
            "traces_validated_against_impl": total.executions,
            "model_comparisons": total.compared,
            "distinct_inputs": len(total.inputs),
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": not capped and not violations,
            "rule": "states = nodes of the choice trees explored; transitions = calls into the real code; "
            "traces = complete executions replayed on the real code and compared with the reference model",
            "bounds": per,
            "samples": samples,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    print(
        "%s %s: %s in %.1fs" % (prop, tier, "VIOLATED" if code else "held on everything explored", time.time() - started)
    )
    return code


def replay(prop, module, path):
    import signal

    from vlib import engine

    signal.signal(signal.SIGALRM, engine._alarm)
    with open(path) as f:
        rec = json.load(f)
    for scenario in module.SCENARIOS:
        if scenario.name == rec["scenario"]:
            _, found = engine.run_one(scenario, rec["choices"], rec["tier"])
            for f in found:
                print(f.message)
                print("VIOLATION property=%s replay=%s" % (prop, path))
            if not found:
                print("not reproduced: the execution agrees with the property")
            return 1 if found else 0
    print("no such scenario", file=sys.stderr)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
