#!/usr/bin/env python3
"""Decide one property of whenever by static analysis of /repo's current source.

usage: python3 check.py --property C05 [--tier quick|thorough]
exit 0: no violation; exit 1: VIOLATION line; exit 2: the analysis is broken (anchor vanished)
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C12 | entry=<entry> | rule=<rule> | <what fails>
                head, *rest = [x.strip() for x in line[len("finding:"):].split("|")]
                d = {"property": head.split("=", 1)[1].strip()}
                for r in rest:
                    if r.startswith("entry="):
                        d["entry"] = r[6:]
                    elif r.startswith("rule="):
                        d["rule"] = r[5:]
                    else:
                        d["what"] = r
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default=None, help="only entries whose name contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(30000)
    from sa import model, obl
    mod = importlib.import_module("sa.rules." + a.property.lower())
    known = [k for k in known_findings() if k["property"] == a.property]
    listed = lambda v: [k for k in known if (k.get("entry"), k.get("rule")) == (v["entry"], v["rule"])]
    try:
        res = obl.run_property(a.property, a.tier, budget=600 if a.tier == "quick" else 3000, only=a.only,
                               alarm=lambda v: not listed(v))
    except model.Broken as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: cannot parse the source: {e}")
        return 2

    ok = [r for r in res if r[0] == "ok"]
    broken = [r for r in res if r[0] == "broken"]
    errors = [r for r in res if r[0] == "error"]
    tot = [0, 0, 0]
    rules = {}
    viol, und, traces, funcs, entries = [], [], 0, set(), []
    for _, name, counts, v, u, tr, fs, tm in ok:
        for lab, c in counts.items():
            r = rules.setdefault(lab, [0, 0, 0])
            for i in range(3):
                r[i] += c[i]
                tot[i] += c[i]
        viol += v
        und += u
        traces += tr
        funcs |= set(fs)
        entries.append({"entry": name, "traces": tr, "discharged": sum(c[0] for c in counts.values()),
                        "violated": sum(c[1] for c in counts.values()), "undecided": sum(c[2] for c in counts.values()),
                        "seconds": round(tm, 2)})
    for r in errors:
        und.append({"entry": r[1], "rule": "analysed", "why": r[2]})
        tot[2] += 1
        if a.v:
            print(r[2])
    new, old = [], []
    for v in viol:
        k = listed(v)
        old += k[:1]
        if not k:
            new.append(v)
    for k in dict.fromkeys(f"{k['entry']}: {k['what']}" for k in old):
        print(f"KNOWN-FINDING: property={a.property} {k}")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    total = sum(tot)
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": getattr(mod, "__doc__", "").strip() + " Each entry point is analysed by abstract interpretation of /repo's current source "
            "(trace-partitioned; linear forms over value numbers, intervals, string shapes); every obligation is discharged for all inputs of the entry, "
            "violated (with a refuting valuation of the abstract state) or undecided.",
            "obligations": total, "discharged": tot[0], "violated": tot[1], "undecided": tot[2],
            "entry_points": len(res), "traces": traces, "functions_analysed": sorted(funcs),
            "rules": {k: {"discharged": v[0], "violated": v[1], "undecided": v[2]} for k, v in sorted(rules.items())},
            "entries": entries, "undecided_examples": und[:30],
            "files": [model.IMPL, model.INIT, model.STUB],
        },
        "assumptions": ["the models of Python 3.12 builtins and of datetime, zoneinfo, struct, re and math in sa/lib.py and sa/strs.py",
                        "time zones behave as PEP 495 describes, with transitions not overlapping"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    extra = getattr(mod, "evidence", None)
    if extra:
        ev["coverage"].update(extra)
    with open(os.path.join(HERE, "evidence", f"{a.property}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    if new:
        path = os.path.join(HERE, "evidence", f"{a.property}.violation.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": a.property, "violations": new}, f, indent=1, default=str)
            f.write("\n")
        for v in new[:5]:
            print(f"entry: {v['entry']}\n  rule: {v['rule']}\n  found: {v['found'][:600]}\n  last statement: {v['last']}\n  counterexample: {json.dumps(v['counterexample'], default=str)[:600]}")
            for t in v["trace"][:30]:
                print(f"    assuming {t[:300]}")
        print(f"{len(new)} violated obligation(s) in {len({v['entry'] for v in new})} entry point(s)")
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if broken:
        for b in broken:
            print(f"ANALYSIS-BROKEN property={a.property}: {b[1]}: {b[2]}")
        return 2
    if not tot[0]:
        print(f"ANALYSIS-BROKEN property={a.property}: no obligation was discharged")
        for u in und[:5]:
            print(str(u)[:600])
        return 2
    print(f"property={a.property} entries={len(res)} traces={traces} obligations={total} discharged={tot[0]} undecided={tot[2]} wall={time.time() - t0:.1f}s")
    if a.v:
        for u in und:
            print(str(u)[:1500])
    return 0


if __name__ == "__main__":
    sys.exit(main())
