"""Writes MANIFEST.json: a check for every property that has a rule module, the rest not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
AI = "abstract interpretation of the implementation source (value numbering, intervals, string shapes; trace-partitioned)"
TECH = {
    "C10": AI + ": every path that returns without ignore_dst=True is a violation",
    "C11": AI + " of comparison and hash methods against the order of a key",
    "C12": AI + " over all operator and operand-type combinations",
    "C14": AI + " of pickle/unpickle round trips, plus a syntactic comparison of the byte layouts in Python and Rust",
    "C15": AI + " of rounding for every unit, increment and mode",
    "C16": AI + " of the formatters; the text is compared piece by piece with the specified layout",
    "C23": AI + " of the duration formatters and parsers on symbolic texts, compared piece by piece with the specified layout",
    "C17": AI + " of the parsers on symbolic strings",
    "C18": AI + " of the parsers; accepted shapes compared with the documented grammar by automata inclusion",
    "C19": "effect analysis on every path of the public operations, and an attribute-write lint over the module",
    "C20": "effect analysis (global writes, exception edges) of the time patching functions",
    "C21": "effect analysis: clock, timezone database, system timezone, environment, random and I/O effects per public operation",
    "C22": "comparison of the syntax trees of stub and implementation",
    "C29": AI + " with the lengths of months as uninterpreted bounds, for pairs of dates in the same, an earlier and a later month",
    "C31": AI + " with every outcome of the standard library's decoders; the text is compared piece by piece",
    "C25": AI + " with tracking of inexact float operations",
}
NOTE = ("Every listed entry point is analysed for all inputs; an obligation is discharged for all of them, violated (a refuting "
        "valuation of the abstract state is given) or undecided (counted in the evidence). Trusts the models of Python builtins, "
        "datetime, zoneinfo, struct and re in sa/, and that zones behave as PEP 495 says with whole-second transitions.")
NA = {
    "C30": "Offsets come from the installed tz database through zoneinfo (no source here to analyse), and thread interleavings of patched clocks depend on the interpreter's scheduling of plain global assignments, for which the library makes no synchronisation to check.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sa", "rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 check.py --property {i} --tier quick",
                       "thorough_cmd": f"python3 check.py --property {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks only read /repo's source. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
