"""P13: every function terminates."""
import load, loops, specs, term, vals, verdict
from checks.p01 import TRUSTED
from graph import uses, target
from interp import En, St, I, norm
from lin import V, Lin, S
from vals import *
from ir import prepare, term_succs, tstr
import re

LEVEL = "proof"
TECHNIQUE = ("every loop of the type-checked MIR must be justified: it takes one element of a finite iterator per iteration and is left when there is none (structural rule), or a bounded integer quantity strictly moves in "
             "one direction on every iteration (ranking function proved over the loop invariants of the abstract interpretation, wrapping arithmetic), or it is a worklist whose insertions are guarded and marked; "
             "iterators defined by the crate must move a bounded quantity with every element they return; no consuming call on an endless iterator; no unconditional recursion")
ASSUMPTIONS = ["iterators and closures passed in by the user are finite and terminate", "external functions terminate", "iterators of core, alloc, image, rayon and itertools are finite unless built from an endless source",
               "loops listed under not_decided are not covered"]
SHORT = "ranking functions over loop invariants computed by abstract interpretation of MIR; structural rule for iterator-driven loops; worklist marking rule"
# loops that are not decided on the reviewed tree: function -> (number, reason)
OPEN = {
    "imageproc::binary_descriptors::brief::brief": (1, "rejection sampling: ends with probability one only"),
    "imageproc::contours::find_contours_with_threshold": (1, "border following closes because of planar topology"),
    "imageproc::drawing::conics::draw_ellipse": (1, "exit depends on the rounding of accumulated floats"),
    "imageproc::drawing::fill::flood_fill_mut": (2, "spans on the stack are not bounded by the analysis; termination needs the count of unfilled pixels"),
    "imageproc::union_find::DisjointSetForest::root": (1, "needs acyclicity of the parent forest"),
}
CONSUME = {"collect", "count", "fold", "for_each", "sum", "product", "last", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "partition", "unzip", "reduce", "eq", "cmp", "extend", "from_iter",
           "collect_vec", "sorted", "rev", "try_fold", "try_for_each"}
N = verdict.norm


def hard(prog):
    """loops that no iterator drives: {function: {head: line}}"""
    res, total, soft = {}, 0, 0
    for p in prog.order:
        fn = prog.fns[p]
        if not fn.blocks or fn.kind == "Promoted":
            continue
        it = loops.iterator_loops(fn, prog)
        total += len(fn.loops)
        soft += len(it)
        for h in fn.loops:
            if h not in it:
                res.setdefault(p, {})[h] = fn.blocks[h].get("ln", 0)
    return res, total, soft


def constant(prog):
    ex = term.Exec(prog, lambda f: True)

    def const(fn, defs, op, d=0):
        if d > 6 or not isinstance(op, dict):
            return None
        if op.get("c") == "int":
            return int(op["v"])
        pl = loops.place_of(op)
        ds = defs.get(pl[0], []) if pl and len(pl) == 1 else []
        if len(ds) != 1:
            return None
        k, bi, x = ds[0]
        if k == "st":
            if x[0] == "use":
                return const(fn, defs, x[1], d + 1)
            if x[0] == "agg" and len(x[2]) == 1:
                return const(fn, defs, x[2][0], d + 1)
            return None
        f = prog.fns.get(target(x[1])) if isinstance(x[1], dict) else None
        if f is None or x[2]:
            return None
        try:
            t = ex.const_fn(f, {})
        except Exception:
            return None
        for _ in range(4):
            if t is not None and t.k == "agg" and len(t.a) >= 3 and isinstance(t.a[-1], term.T):
                t = t.a[-1]
        return t.a[0] if t is not None and t.k == "int" else None
    return const


def leaves(ip, st, v, path=()):
    """bounded integers inside a value"""
    if isinstance(v, I):
        yield path, v.l
    elif isinstance(v, St):
        for i, x in enumerate(v.v):
            yield from leaves(ip, st, x, path + (i,))
    elif isinstance(v, Ob) and v.ty[0] == "adt" and len(path) < 4:
        a = ip.prog.adts.get(v.ty[1])
        if a and len(a["vs"]) == 1:
            for i, f in enumerate(a["vs"][0][1]):
                rt = ip.prog.rt(f[1], None)
                if rt[0] in ("int", "uint", "adt"):
                    yield from leaves(ip, st, ip.field(st, v, i, rt, 0, "leaf"), path + (i,))


def moving(ip, st, avs, rs):
    """postcondition of next(): when an element is returned, a bounded integer of the iterator moved"""
    pre = dict(leaves(ip, ip.pre, ip.deref_all(ip.pre, avs[0])))
    out = []
    n = 0
    for s, v in rs:
        if s.dead or s.infeasible():
            continue
        if isinstance(v, En) and set(v.alts) == {0}:
            continue
        n += 1
        post = dict(leaves(ip, s, ip.deref_all(s, avs[0])))
        ks = [k for k in pre if k in post]
        if not ks:
            return []
        cands = [(pre[k], post[k]) for k in ks] + [(-pre[k], -post[k]) for k in ks] + [(pre[a] - pre[b], post[a] - post[b]) for a in ks for b in ks if a != b]
        good = [i for i, (a, b) in enumerate(cands) if s.prove(a - b - Lin(1))]
        out.append(set(good))
    ok = not out or bool(set.intersection(*out))
    return [("a bounded integer moves with every element", ok, f"{n} returns with an element")]


def setup_pre(ip, st, avs):
    ip.pre = st.copy()


def callers_of(prog, p):
    res = set()
    for q in prog.order:
        for bi, how, d, x in uses(prog.fns[q]):
            if target(d) == p:
                res.add(N(q))
    return res


def jobs(prog, hl=None):
    """ranking functions: with callees inlined or opaque, for every parameter value or sides up to 2^24"""
    if hl is None:
        hl = hard(prog)[0]
    ownfn = frozenset(p for p in prog.order)

    def opq(ip, st, avs):
        ip.opaque = ownfn - {ip.entry}
    js = []
    for p in hl:
        q = p.split("::{closure")[0]
        verdict.SPECS[(q, "loops")] = dict(setup=opq, post=lambda *a: [])
        for tier in ("full", "bounded"):
            for var in ("loops", ""):
                j = (q, "release", tier, var)
                if q in prog.fns and j not in js and (var or verdict.baseline().get(verdict.jobkey(j), {}).get("status") != "timeout"):
                    js.append(j)
    nexts = [p for p in prog.order if prog.fns[p].d.get("impl_trait", "").endswith("iterator::Iterator") and prog.fns[p].name == "next"]
    for p in nexts:
        verdict.SPECS[(p, "next")] = dict(setup=setup_pre, post=moving)
        js += [(p, "release", t, "next") for t in ("full", "bounded")]
    return js, nexts


def run(ctx):
    prog = verdict.prog = load.program("default")
    hl, total, soft = hard(prog)
    for _ in range(soft):
        ctx.decide(True, "", "")
    ctx.cov["loops"] = total
    ctx.cov["iterator_driven"] = soft
    js, nexts = jobs(prog, hl)
    secs = 60 if ctx.tier == "quick" else 240
    out = verdict.run_jobs(js, {}, secs=secs, deadline=ctx.t0 + (500 if ctx.tier == "quick" else 3000))
    status = {}
    for p in hl:
        q = p.split("::{closure")[0]
        for h, ln in hl[p].items():
            st = []
            for tier in ("full", "bounded"):
                for var in ("loops", ""):
                    r = out.get((q, "release", tier, var))
                    if not r or r["status"] != "ok":
                        st.append((None, "analysis " + (r["status"] if r else "missing")))
                        continue
                    os = [o for o in r["obl"] if o[0] == "term" and o[1] == p and o[3] == ln]
                    if os and all(o[5] for o in os):
                        st.append((True, f"{os[0][4]} ({tier} parameter range{', callees opaque' if var else ''})"))
                    elif r["unm"] and not var:
                        st.append((None, "no model for " + ", ".join(r["unm"])[:150]))
                    elif not os:
                        st.append((None, "loop not reached"))
                    else:
                        st.append((False, os[0][4]))
            good = next((x for x in st if x[0]), None)
            status[(p, h)] = good or next((x for x in st if x[0] is False), st[0])
    # worklists
    const = constant(prog)
    for p in hl:
        if all(status[(p, h)][0] for h in hl[p]):
            continue
        for h, (ok, why) in loops.worklists(prog.fns[p], prog, const).items():
            if (p, h) in status and not status[(p, h)][0]:
                status[(p, h)] = (ok, why) if ok is not None or status[(p, h)][0] is not False else (None, why)
    bad = {}
    nrank = 0
    for (p, h), (ok, why) in sorted(status.items()):
        if ok:
            nrank += 1
            ctx.decide(True, "", "", None, {"function": p, "line": hl[p][h], "argument": why})
        else:
            bad.setdefault(N(p), []).append((p, h, ok, why))
    for p, ls in sorted(bad.items()):
        lim, reason = OPEN.get(p, (0, ""))
        if len(ls) <= lim:
            for q, h, ok, why in ls:
                ctx.excluded.append({"what": f"{q}: loop", "why": reason, "line": hl[q][h]})
            continue
        up = callers_of(prog, ls[0][0])
        if p not in {N(x) for x in reviewed()} and any(u in OPEN for u in up):
            ctx.excluded.append({"what": f"{p}: loop", "why": "helper of a function whose loops are not decided"})
            continue
        left = [x for x in ls if not through_callers(ctx, prog, x[0], hl[x[0]][x[1]])]
        left = [x for x in left if x[2] is False] or ([] if lim else left[:0])
        for q, h, ok, why in ls:
            if (q, h, ok, why) not in left:
                ctx.excluded.append({"what": f"{q}: loop", "why": why, "line": hl[q][h]})
        if len(left) > lim:
            q, h, ok, why = left[0]
            ctx.decide(False, f"{p}:loop", f"{q} line {hl[q][h]}: a loop cannot be shown to end: {why}", {"function": q, "lines": [hl[x[0]][x[1]] for x in left], "reason": why})
    # iterators of the crate
    for p in nexts:
        inner = delegates(prog, p)
        if inner:
            ctx.decide(True, "", "", None, {"iterator": p, "proved": f"every element comes from one of {inner}"})
            continue
        rs = [out.get((p, "release", t, "next")) for t in ("full", "bounded")]
        posts = [r["post"] for r in rs if r and r["status"] == "ok"]
        if any(x and all(y[1] for y in x) for x in posts):
            ctx.decide(True, "", "", None, {"iterator": p, "proved": "a bounded integer moves with every element returned"})
        elif any(posts) and not any(r and r["unm"] for r in rs):
            ctx.decide(False, f"{p}:next", f"{p}: elements are returned without any bounded quantity moving", {"function": p})
        else:
            ctx.excluded.append({"what": p, "why": "not analysed"})
    # endless sources, recursion
    ends = rec = 0
    for p in prog.order:
        fn = prog.fns[p]
        if not fn.blocks:
            continue
        for bi, how, d, x in uses(fn):
            if how == "call" and d.get("args") and d["p"].split("::")[-1] in CONSUME and ("iter" in d["p"] or "Itertools" in d["p"]):
                try:
                    ts = [prog.rt(a, None) for a in d["args"] if isinstance(a, int)]
                except Exception:
                    continue
                ends += 1
                t0 = next((t for t in ts if not loops.finite(t)), None)
                if t0 is not None and d["p"].split("::")[-1] != "rev" and re.search(r"successors::Successors|from_fn::FromFn", tstr(t0)):
                    ctx.excluded.append({"what": f"{p}: {d['p']} on an iterator driven by a closure", "why": "the closure's progress needs the invariant of its sequence"})
                elif t0 is not None and d["p"].split("::")[-1] != "rev":
                    ctx.decide(False, f"{N(p)}:endless", f"{p} line {fn.blocks[bi].get('ln')}: {d['p']} consumes an endless iterator", {"function": p})
        if "promoted" not in p:
            selfcall = {bi for bi, how, d, x in uses(fn) if how == "call" and target(d) == p}
            if selfcall:
                rec += 1
                if not ret_without(fn, selfcall):
                    ctx.decide(False, f"{N(p)}:recursion", f"{p} calls itself on every path", {"function": p})
                else:
                    ctx.excluded.append({"what": f"{p}: recursion", "why": "no measure for recursive calls"})
    ctx.cov["ranking_functions"] = nrank
    ctx.cov["consuming_calls_checked"] = ends
    ctx.cov["recursive_functions"] = rec
    ctx.cov["crate_iterators"] = len(nexts)
    ctx.cov["rule"] = "iterator-driven, or a bounded integer moves on every iteration, or guarded and marked worklist"
    ctx.floor("loops", total, 200)


def delegates(prog, p):
    """next() returns what next()/find() of a finite iterator inside self yields (mapped or unchanged)"""
    fn = prog.fns[p]
    calls = [(bi, d, fn.blocks[bi]["t"]) for bi, how, d, x in uses(fn) if how == "call" and re.search(r"Iterator(<.*>)?>?::(next|next_back|find|find_map)$", d["p"])]
    if len(calls) != 1:
        return None
    bi, d, t = calls[0]
    rt = prog.rt(d["args"][0], None)
    pl = loops.place_of(t[2][0])
    src = loops.base_of(fn, None, pl[0]) if pl and len(pl) == 1 else None
    if not loops.finite(rt) or src is None or src[0] != 1 or len(src) < 3 or ret_without(fn, {bi}):
        return None
    dst, names = t[3], None
    for _ in range(4):
        if dst == [0]:
            return tstr(rt)
        nxt = None
        for b in fn.blocks:
            for s in b["st"]:
                if s[0] == "=" and s[2][0] == "use" and loops.place_of(s[2][1]) == dst:
                    nxt = s[1]
            t = b["t"]
            if t[0] == "call" and t[1].get("c") == "fn" and re.search(r"Option::<.*>::(map|and_then|filter|copied|cloned)", t[1]["p"]) and loops.place_of(t[2][0]) == dst:
                nxt = t[3]
        if nxt is None:
            return None
        dst = nxt
    return None


def ret_without(fn, rm):
    st, seen = [0], set()
    while st:
        b = st.pop()
        if b in seen or b in rm or fn.blocks[b]["cl"]:
            continue
        seen.add(b)
        if fn.blocks[b]["t"][0] in ("return", "ret"):
            return True
        st += term_succs(fn.blocks[b]["t"])
    return False


def reviewed():
    return {k.split("|")[0] for k in verdict.baseline()}


def through_callers(ctx, prog, p, ln):
    """the loop is shown to end in every public function that reaches it, with their arguments"""
    deps = verdict.Deps(prog)
    eps = [e for e in verdict.entry_list(prog) if e != p and p in deps.reach(e)]
    if not eps or len(eps) > 40:
        return False
    jobs = [(e, "release", "bounded", "") for e in eps]
    out = verdict.run_jobs(jobs, {}, secs=60, deadline=ctx.t0 + 600)
    seen = 0
    for j in jobs:
        r = out.get(j)
        if not r or r["status"] != "ok":
            return False
        os = [o for o in r["obl"] if o[0] == "term" and N(o[1]) == N(p) and o[3] == ln]
        seen += len(os)
        if not all(o[5] for o in os):
            return False
    return seen > 0
