"""Fills the incremental cache: MIR dumps of every configuration and the abstract interpretation of every job the quick checks use."""
import sys, time
import load, lin, specs, verdict
t0 = time.time()
for c in ("default", "dbg", "norayon", "ref"):
    load.program(c)
lin.warm() if hasattr(lin, "warm") else None
prog = verdict.prog = load.program("default")
limit = float(sys.argv[1]) if len(sys.argv) > 1 else 1400
base = verdict.baseline()
import importlib
jobs = set()
from checks import p01, p09
for m in (p01, p09):
    jobs |= set(p01.select(prog, m.KINDS))
S = specs.build(prog)
jobs |= {(p, s["mode"], s["tier"], v) for (p, v), s in S.items() if v.startswith("rejects")}
for k, b in base.items():
    p, mode, tier, var = k.split("|")
    if mode == "release" and not var and b["post"]:
        jobs.add((p, mode, tier, var))
jobs = [j for j in jobs if base.get(verdict.jobkey(j), {}).get("status") == "ok" and j[0] in prog.fns]
from checks import p13
jobs = list(jobs) + [j for j in p13.jobs(prog)[0] if j not in jobs]
times = {tuple(j): base[verdict.jobkey(j)]["dt"] for j in jobs if verdict.jobkey(j) in base}
verdict.run_jobs(jobs, times, deadline=t0 + limit)
print(len(jobs), "jobs", round(time.time() - t0), "s")
