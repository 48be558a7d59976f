#!/usr/bin/env python3
"""usage: gen_baseline.py [mode/tier ...] -- analyses every entry point of the reviewed tree and records, per job, what could
not be decided (an/baseline.json). Run by hand after reviewing the sites it lists; never by a check."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "an"))
sys.dont_write_bytecode = True
import load, entries, verdict, specs

prog = verdict.prog = load.program("default")
want = [a for a in sys.argv[1:] if "/" in a] or ["release/full", "release/bounded"]
names = [a for a in sys.argv[1:] if "/" not in a]
secs = int(os.environ.get("SECS", "60"))
jobs = []
for w in want:
    mode, tier = w.split("/")
    if mode == "spec":
        jobs += [(p, s.get("mode", "release"), s.get("tier", "full"), v) for (p, v), s in sorted(specs.build(prog).items())]
        continue
    jobs += [(p, mode, tier, "") for p in verdict.entry_list(prog)]
if names:
    jobs = [j for j in jobs if any(n in j[0] or n in j[3] for n in names)]
base = verdict.baseline()
times = {j[0]: base[verdict.jobkey(j)]["dt"] for j in jobs if verdict.jobkey(j) in base}
out = verdict.run_jobs(jobs, times, secs=secs, verbose=bool(os.environ.get("V")))
if not names:
    modes = {(j[1], j[2]) for j in jobs}
    base = {k: v for k, v in base.items() if not (tuple(k.split("|")[1:3]) in modes and bool(k.split("|")[3]) == any(w.startswith("spec") for w in want)) or any((k.split("|")[0] == j[0]) for j in jobs)}
for j, r in out.items():
    base[verdict.jobkey(j)] = verdict.base_entry(r)
json.dump(dict(sorted(base.items())), open(verdict.BASE, "w"), indent=0)
json.dump(sorted({verdict.norm(f) for f in prog.fns}), open(verdict.KNOWN, "w"), indent=0)
from collections import Counter
print(len(jobs), Counter(r["status"].split()[0] for r in out.values()))
for j, r in sorted(out.items()):
    if r["status"] != "ok":
        print("  ", r["status"], verdict.jobkey(j))
    for x in r["post"]:
        if not x[1]:
            print("   POST", verdict.jobkey(j), x)
