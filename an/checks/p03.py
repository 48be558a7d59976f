"""P03: multi-threaded variants agree with the sequential ones."""
import load, pairs, term

LEVEL = "proof"
TECHNIQUE = ("symbolic-term comparison of the type-checked MIR of each sequential / multi-threaded pair: both bodies are turned into behaviour trees (conditions, effects, results over the "
             "symbolic arguments; loops as mutually related recurrences; parallel iterator adaptors identified with their order-preserving sequential namesakes), crate functions stay "
             "uninterpreted and are inlined on demand, and the trees must be equal; where the iteration is organised differently, the sample / accumulation calls must have equal arguments")
TRUSTED = ["rustc MIR construction", "an/term.py (behaviour trees, term equality)", "rayon: indexed map/collect/for_each/chunks_mut keep element order and run each element exactly once"]
ASSUMPTIONS = ["user-supplied closures are pure functions of their arguments", "accumulation into the output row happens in position order in filter_parallel (pushed by the loop over x)"]
SIGNATURE = {"imageproc::filter::filter_parallel": ["accumulate", "unsafe_get_pixel", "get_unchecked"]}
FEATURE = ["imageproc::geometric_transformations::warp_inner", "imageproc::contrast::equalize_histogram_mut"]


def judge(ctx, name, r, data):
    out, det, stats = r
    cov = ctx.cov.setdefault("pairs", [])
    cov.append({"pair": name, "outcome": out, "nodes": stats.get("nodes"), "terms_compared": stats.get("comparisons"), "inlined": [x.split("::")[-1] for x in stats.get("inlined", [])][:12]})
    if out == "equal":
        ctx.decide(True, "", "", sample={"pair": name, "terms_compared": stats.get("comparisons"), "functions": stats.get("functions", [])[:6]})
    elif out == "differs":
        ctx.decide(False, name, f"{name}: {det}", dict(data, difference=det))
    else:
        ctx.excluded.append({"what": name, "why": "not decided: " + det[:300]})


def feature_pairs(ctx, cfgs, judge=judge):
    """functions of the default configuration whose bodies differ in another configuration"""
    import configs
    D = load.program("default")
    for c in cfgs:
        Q = load.program(c)
        names, common = configs.differing(D, Q)
        ctx.cov.setdefault("identical_functions", {})[c] = common - len(names)
        for p in names:
            r = pairs.compare(pairs.Side(D, D.fns[p]), pairs.Side(Q, Q.fns[p]), extra_panics=c == "dbg")
            judge(ctx, f"{p} [default / {c}]", r, {"function": p, "configurations": ["default", c]})
    return D


def run(ctx):
    prog = load.program("default")
    ren = {q: q.replace("_parallel", "") for q in prog.order if "_parallel" in q}
    todo = sorted(q for q in ren if "{" not in q and ren[q] in prog.fns)
    for q in todo:
        f, g = prog.fns[ren[q]], prog.fns[q]
        if f.argc != g.argc:
            ctx.excluded.append({"what": q, "why": "different parameters"})
            continue
        r = pairs.compare(pairs.Side(prog, f), pairs.Side(prog, g), ren)
        if r[0] != "equal" and q in SIGNATURE:
            r2 = pairs.compare_signatures(prog, f, g, SIGNATURE[q], lambda h: h.p.endswith(("::accumulate", "::get_unchecked")))
            if r2[0] != "undecided" or r[0] == "undecided":
                r = r2
        judge(ctx, f"{ren[q]} / {q.split('::')[-1]}", r, {"sequential": ren[q], "parallel": q})
    feature_pairs(ctx, ["norayon"])
    ctx.cov["rule"] = "equal behaviour trees (or equal sample/accumulation signatures) of the two variants"
    ctx.floor("sequential / multi-threaded pairs", len(todo), 14)
