"""P01: unchecked accesses and the type invariants they rely on are justified on every path."""
import entries, load, verdict
from graph import uses, target

LEVEL = "proof"
KINDS = {"unsafe", "inv"}
TECHNIQUE = ("abstract interpretation of the type-checked MIR (relational linear constraints over symbolic dimensions, lengths and loop counters, decided by exact "
             "Farkas certificates; calls inlined, loops by inductive candidate filtering, wrapping arithmetic): every unchecked access (unsafe pixel and slice "
             "access, pointer copies) reached from a public function yields the obligation that its coordinates lie inside the object accessed; "
             "invariants of the crate's types that such accesses rely on are obligations where values of the type are built")
TRUSTED = ["rustc nightly (type checking, callee resolution, MIR construction)", "driver/ (MIR dump)", "an/models*.py: models of the functions of core, alloc, image, rayon and itertools",
           "the simplex in an/lp.cpp only proposes multipliers; every certificate is checked in exact rational arithmetic"]
ASSUMPTIONS = ["images satisfy the invariants of image::ImageBuffer (width*height*channels = buffer length); GenericImage implementations of the user are sane",
               "sites listed under not_decided are not covered", "entries of the bounded tier assume integer parameters and image sides of at most 2^24"]
UNS = ("unsafe",)


def select(prog, kinds, pred=None):
    """one job per entry"""
    base = verdict.baseline()
    eps = list(verdict.entry_list(prog))
    eps += sorted({k.split("|")[0] for k in base} - set(eps))
    jobs = [verdict.best(p, kinds, base) for p in eps if not pred or pred(p)]
    return [j for j in jobs if j]


def run(ctx):
    prog = verdict.prog = load.program("default")
    base = verdict.baseline()

    def rel(p):
        b = base.get(verdict.jobkey(verdict.best(p, KINDS, base) or ("", "", "", "")), {})
        if b.get("status") != "ok" or set(b["kinds"]) & KINDS:
            return True
        if p not in prog.fns:
            return False
        deps = getattr(rel, "deps", None) or verdict.Deps(prog)
        rel.deps = deps
        for q in deps.reach(p):
            for bi, how, d, x in uses(prog.fns[q]):
                if d.get("unsafe") and how != "closure":
                    return True
        return False
    jobs = select(prog, KINDS, rel)
    out = verdict.judge(ctx, jobs, KINDS, floors=65)
    # every unsafe call site of the crate must have been visited by some analysed entry
    seen = set()
    for r in out.values():
        if r["status"] == "ok":
            seen.update(o[1] for o in r["obl"] if o[0] in KINDS)
            seen.update(x for o in r["obl"] if o[0] in KINDS for x in o[6])
    n = u = 0
    for p in prog.order:
        fn = prog.fns[p]
        k = sum(1 for bi, how, d, x in uses(fn) if how == "call" and d.get("unsafe"))
        n += k
        if k and p not in seen:
            u += k
            ctx.excluded.append({"what": f"{p}: {k} unsafe call(s)", "why": "not reached by an entry that was analysed to completion"})
    ctx.cov["unsafe_call_sites"] = n
    ctx.cov["unsafe_call_sites_not_reached"] = u
    ctx.cov["rule"] = "an obligation 0 <= x < width, 0 <= y < height (index < length) per unchecked access and calling context"
