"""Shared frame of every check: evidence, known findings, violations, exit status."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viol = {}
        self.obligations = 0
        self.discharged = 0
        self.cov = {}
        self.notes = []
        self.samples = []
        self.excluded = []

    # every decided instance passes through here
    def decide(self, ok, key, msg, data=None, sample=None):
        """one obligation; key identifies the violation without line numbers"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.viol.setdefault(key, (msg, data))
        return ok

    def floor(self, name, got, minimum):
        """fail closed when fewer instances than confirmed by hand are found"""
        self.cov.setdefault("floors", {})[name] = [got, minimum]
        if got < minimum:
            self.viol.setdefault(f"floor:{name}", (f"only {got} instances of '{name}' were found; at least {minimum} exist on the reviewed tree (anchor missing)", None))


def known(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"):
                continue
            d = json.loads(l)
            if d.get("property") == pid and d.get("status") != "fixed":
                res[d["key"]] = d
    return res


def finish(ctx, level, technique, trusted, assumptions, extra=None):
    kn = known(ctx.pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(ctx.pid + "-"):
            os.remove(os.path.join(rdir, f))
    new = []
    for k, (msg, data) in sorted(ctx.viol.items()):
        if k in kn:
            print(f"KNOWN-FINDING: property={ctx.pid} {k}: {kn[k]['what']}")
        else:
            new.append((k, msg, data))
    stale = [k for k in kn if k not in ctx.viol]
    for i, (k, msg, data) in enumerate(new):
        rp = os.path.join(rdir, f"{ctx.pid}-{i}.json")
        json.dump({"property": ctx.pid, "key": k, "message": msg, "data": data}, open(rp, "w"), indent=1, default=str)
        print(f"  {k}: {msg}")
        print(f"VIOLATION property={ctx.pid} replay={rp}")
    nk = len(ctx.viol) - len(new)
    cov = {
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "checker_cmd": f"python3 an/check.py {ctx.pid}",
        "trusted_base": trusted,
        "explanation": technique,
        "samples": ctx.samples,
        "known_findings_hit": nk,
        "known_findings_not_seen": stale,
    }
    cov.update(ctx.cov)
    if ctx.excluded:
        cov["not_decided"] = ctx.excluded
    if extra:
        cov.update(extra)
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
        "seed": ctx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
    os.rename(p + ".tmp", p)
    print(f"{ctx.pid}: {ctx.discharged}/{ctx.obligations} obligations discharged, {len(new)} violation(s), {nk} known finding(s), {ev['wall_s']} s")
    return 1 if new else 0
