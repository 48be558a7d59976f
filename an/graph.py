"""Whole-crate call graph and use-sites of functions (called or passed as values)."""
from ir import term_succs


def operands(x):
    """every operand dict in a statement/terminator"""
    if isinstance(x, dict):
        yield x
    elif isinstance(x, list):
        for y in x:
            yield from operands(y)


def uses(fn):
    """(block, how, fnconst-or-closure path, terminator/stmt): how in 'call','value','closure'"""
    for bi, b in enumerate(fn.blocks):
        if b["cl"]:
            continue
        for s in b["st"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "agg" and rv[1][0] == "closure":
                yield bi, "closure", {"p": rv[1][1]}, s
            for o in operands(rv):
                if o.get("c") == "fn":
                    yield bi, "value", o, s
        t = b["t"]
        if t[0] == "call":
            if t[1].get("c") == "fn":
                yield bi, "call", t[1], t
            for a in t[2]:
                if a.get("c") == "fn":
                    yield bi, "value", a, t


def target(d):
    return d.get("rp", d["p"])


def reachable(fn, start, removed_edges):
    seen = {start}
    st = [start]
    while st:
        b = st.pop()
        if fn.blocks[b]["cl"]:
            continue
        for s in term_succs(fn.blocks[b]["t"]):
            if (b, s) in removed_edges or s in seen:
                continue
            seen.add(s)
            st.append(s)
    return seen


def is_public(fn):
    return fn.pub


def callers(prog):
    c = {}
    for p in prog.order:
        fn = prog.fns[p]
        for bi, how, d, x in uses(fn):
            c.setdefault(target(d), []).append((p, bi, how, x))
            if d["p"] != target(d):
                pass
    return c
