#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, re, glob
src = "".join(open(f).read() for f in glob.glob('checker/*.go'))
have = set(re.findall(r'props\["(C\d\d)"\]\s*=', src))
NA = {
 "N01": "Uniqueness and unpredictability of ids are a matter of the entropy and clock of the running system; no source-level argument bounds them. (That the id generation checks its errors is part of C10.)",
 "N02": "Crash durability of a commit is a guarantee of boltdb and the file system at run time, outside this repository's source; what the source decides (one transaction per operation, success only after commit) is C09.",
 "N03": "A bound on real time under any load depends on scheduling, channel fill and timers; static analysis of the source cannot bound it. (That reported dead sessions are removed at all is C18.)",
 "N04": "Whether every value survives gob, json or xml depends on the types callers choose and on the encoding libraries; the repository only selects the matching pair, which is C23.",
}
tech = "path-sensitive abstract interpretation over SSA (value numbering, predicate and effect dataflow, loop fixpoints) with per-path obligations"
note = json.load(open('tools/notes.json'))
checks, na = [], []
for l in open('properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": tech, "level": "other", "level_note": note.get(i, note["*"])})
    else:
        na.append({"property": i, "reason": "The check for this property is not finished yet."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
