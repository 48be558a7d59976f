"""P04: copying and in-place variants agree."""
import load, pairs, term
from pairs import Side, compare, Node, mk, mapleaf
from term import UNIT, NILTR, T
from checks import p03

LEVEL = "proof"
TECHNIQUE = ("symbolic-term comparison of the type-checked MIR: the behaviour tree of the copying variant must equal the tree 'apply the in-place variant to an exact copy of the input with the same "
             "arguments and return it' (in-place variant uninterpreted, or inlined where the copying variant repeats its computation, or the in-place variant written in terms of the copying one); "
             "per-element maps are compared through the element functions of the two traversals")
TRUSTED = p03.TRUSTED + ["image: ImageBuffer::clone and copy_from of the whole image into a new image of the same size make exact copies"]
ASSUMPTIONS = ["user-supplied closures are pure functions of their arguments"]
# (copying function, in-place function) where the names do not follow foo / foo_mut
EXTRA = []


def leaf(v, outs=None):
    return Node("leaf", v, outs or {}, NILTR)


def strategies(prog, foo, mut, cop):
    f, m = prog.fns[foo], prog.fns[mut]
    args = [mk("prm", i) for i in range(f.argc)]
    others = {k: v for k, v in cop.items() if k != foo}
    # arguments taken by &mut but only read must come back unchanged
    outs = {}
    for i in range(f.argc):
        t = prog.rt(f.locals[i + 1][0], None)
        if t[0] in ("ref", "ptr") and t[1]:
            outs[("P", i)] = args[i]
    mref = [mk("mut", args[0])]
    for i in range(1, m.argc):
        t = prog.rt(m.locals[i + 1][0], None)
        mref.append(mk("mut", args[i]) if t[0] in ("ref", "ptr") and t[1] else args[i])
    ref = leaf(mk("out", mk("call", mut, *mref), 0), outs)
    yield "in-place variant applied to a copy", lambda: compare(Side(prog, f, copies=others), Side(prog, node=ref), keep={mut})
    if not outs:
        yield "same computation on the copy", lambda: compare(Side(prog, f, copies=others), Side(prog, m, copies=others, post=lambda n: leafpost(n)))
        yield "in-place variant stores the copying result", lambda: compare(Side(prog, m, copies=others), Side(prog, node=leaf(UNIT, {("P", 0): mk("call", foo, *args)})))
        yield "same element function", lambda: elements(prog, f, m)


def leafpost(n):
    o = dict(n.a[1])
    v = o.pop(("P", 0))
    return Node("leaf", v, o, n.a[2])


def find_call(t, heads):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "call" and x.a[0] in heads:
            yield x
        st += [y for y in x.a if isinstance(y, T)]


def elements(prog, f, m):
    """from_vec(width, height, collect(map(traversal(arg0), g))) against for_each(mutable traversal(arg0), p -> *p = g(*p))"""
    stats = {"rounds": 1, "nodes": 0, "comparisons": 0, "functions": [f.p, m.p], "inlined": []}
    try:
        ea, eb = Side(prog, f), Side(prog, m)
        na, nb = ea.build(), eb.build()
        a0 = mk("prm", 0)
        while na.k == "br" and "panic" in (na.a[1].k, na.a[2].k):
            na = na.a[2] if na.a[1].k == "panic" else na.a[1]
        if na.k != "leaf" or nb.k != "leaf":
            return "undecided", "not a single traversal", stats
        mp = [c for c in find_call(na.a[0], ("iter::map", "iter::flat_map"))]
        fe = [c for c in find_call(nb.a[2], ("iter::for_each",))]
        fv = [c for c in find_call(na.a[0], ("image::from_vec", "image::from_raw"))]
        if len(mp) != 1 or len(fe) != 1 or len(fv) != 1 or mp[0].a[2].k != "clo" or fe[0].a[2].k != "clo":
            return "undecided", "not a single traversal", stats
        size = (mk("call", "image::width", a0), mk("call", "image::height", a0))
        if tuple(fv[0].a[1:3]) != size:
            return "differs", f"size of the copy: {fv[0].a[1]} by {fv[0].a[2]}", stats
        ta, tb = mp[0].a[1], fe[0].a[1]
        if ta.k != "call" or tb.k != "call" or tb.a[0] not in (ta.a[0] + "_mut",) or ta.a[1] is not a0 or tb.a[1] is not mk("mut", a0):
            return "undecided", f"traversals {ta} and {tb}", stats
        ca, cb = mp[0].a[2], fe[0].a[2]
        cp = mk("cp", 1, 0)
        xa, xb = ea.ex.clo_tree(ca, True, [cp]), eb.ex.clo_tree(cb, True, [cp])
        def wrapped(n):
            v = n.a[0]
            # the pixel turned into the list of its channels
            while mp[0].a[0] == "iter::flat_map" and v.k == "call" and v.a[0].split("::")[-1] in ("to_vec", "channels") and len(v.a) == 2:
                v = v.a[1]
            return Node("leaf", v, {}, n.a[2])
        def stored(n):
            o = [v for k, v in n.a[1].items()]
            if len(o) == 1:
                return Node("leaf", o[0], {}, n.a[2])
            # element is a tuple (x, y, &mut pixel): the store goes through the projection
            raise term.Unsupported("element store")
        xa, xb = mapleaf(xa, wrapped), mapleaf(xb, stored)
        c = term.Compare(ea.ex, eb.ex)
        c.node(xa, xb, {}, {})
        stats["nodes"] = ea.ex.nodes + eb.ex.nodes
        stats["comparisons"] = c.ncmp
        stats["functions"] = sorted(ea.ex.fns | eb.ex.fns)
        return "equal", "", stats
    except term.Differ as e:
        return ("differs" if e.definite else "undecided"), f"{e.what}: {e.a} versus {e.b}", stats
    except (term.Unsupported, term.TooBig, KeyError) as e:
        return "undecided", f"element functions: {e}", stats


def run(ctx):
    prog = load.program("default")
    cop = {}
    for p in prog.order:
        if p.endswith("_mut") and "{" not in p and p[:-4] in prog.fns and prog.fns[p].pub and prog.fns[p[:-4]].pub:
            cop[p[:-4]] = p
    for foo, mut in sorted(cop.items()):
        f, m = prog.fns[foo], prog.fns[mut]
        if m.argc != f.argc:
            ctx.excluded.append({"what": foo, "why": "different parameters"})
            continue
        res = []
        for how, s in strategies(prog, foo, mut, cop):
            r = s()
            res.append((how, r))
            if r[0] == "equal":
                break
        how, r = res[-1]
        if r[0] == "equal":
            ctx.cov.setdefault("how", {}).setdefault(how, []).append(foo.split("::")[-1])
        else:
            # what the comparison on a copy says counts; the other forms only confirm
            r = next((x for h, x in res[:2] if x[0] == "differs"), res[-1][1] if res[-1][1][0] == "differs" and res[-1][0] == "same element function" else res[0][1])
        p03.judge(ctx, foo, r, {"copying": foo, "in_place": mut})
    ctx.cov["rule"] = "foo(x, ..) == { let mut y = copy(x); foo_mut(&mut y, ..); y }"
    ctx.floor("copying / in-place pairs", len(cop), 36)
