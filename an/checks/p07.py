"""P07: returned images have the documented size."""
import load, specs, verdict
from checks.p01 import TRUSTED, ASSUMPTIONS

LEVEL = "proof"
TECHNIQUE = ("abstract interpretation of the type-checked MIR: width and height of every image returned (or passed by &mut) are tracked as linear terms over the symbolic argument sizes through "
             "constructors, clones, moves and calls, and must equal the documented size at every return of the function")


def run(ctx):
    prog = verdict.prog = load.program("default")
    base = verdict.baseline()
    jobs = []
    for k, b in sorted(base.items()):
        p, mode, tier, var = k.split("|")
        if mode != "release" or var or b["status"] != "ok" or not b["post"]:
            continue
        if p not in prog.fns:
            jobs.append((p, mode, tier, var))
            continue
        other = base.get(verdict.jobkey((p, mode, "full", "")), {})
        if tier == "bounded" and other.get("status") == "ok" and all(x[1] for x in other["post"]):
            continue
        if tier == "full" and not all(x[1] for x in b["post"]) and base.get(verdict.jobkey((p, mode, "bounded", "")), {}).get("status") == "ok":
            continue
        jobs.append((p, mode, tier, var))
    verdict.judge(ctx, jobs, set(), floors=100, posts=True)
    ctx.cov["rule"] = "size of the returned image = documented size, proved at every return; images passed by &mut keep their size"
