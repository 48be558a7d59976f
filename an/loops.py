"""Loops that are driven by a finite iterator (structural rule on the MIR)."""
import re
from ir import prepare, term_succs, tstr

ENDLESS = ("RangeFrom", "Repeat", "RepeatWith", "Cycle", "Successors", "FromFn", "Incoming", "Stdin", "Unfold", "Iterate")


def finite(rt):
    """an iterator type whose next() returns None after finitely many calls, given that its generic sources do"""
    if rt[0] in ("ref", "ptr"):
        return finite(rt[2])
    if rt[0] == "dyn":
        return False
    if rt[0] != "adt":
        return True
    n = rt[1].split("::")[-1]
    if n in ENDLESS:
        return False
    if "itertools::ziptuple" in rt[1]:
        return any(finite(x) for x in (rt[2][0][1] if rt[2] and rt[2][0][0] == "tuple" else ()))
    if n == "Zip":
        return any(finite(x) for x in rt[2] if isinstance(x, tuple))
    if n == "Take":
        return True
    if "iter::" in rt[1] or n == "Box":
        return all(finite(x) for x in rt[2] if isinstance(x, tuple) and x[0] in ("adt", "ref", "dyn"))
    return True


def avoids(fn, h, body, rm):
    """a cycle through h inside body that avoids the blocks in rm"""
    if h in rm:
        return False
    st = [s for s in term_succs(fn.blocks[h]["t"]) if s in body and s not in rm]
    seen = set()
    while st:
        b = st.pop()
        if b == h:
            return True
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in term_succs(fn.blocks[b]["t"]) if s in body and s not in rm]
    return False


def place_of(op):
    return op.get("mv") or op.get("cp") if isinstance(op, dict) else None


def base_of(fn, body, local):
    """the place that a temporary reference refers to"""
    for _ in range(6):
        src = [s[2] for i in range(len(fn.blocks)) for s in fn.blocks[i]["st"] if s[0] == "=" and s[1] == [local]]
        if len(src) != 1:
            return None
        rv = src[0]
        if rv[0] == "ref":
            pl = rv[2]
            if len(pl) == 2 and pl[1] == ["*"] or len(pl) > 1 and pl[1:] == [["*"]]:
                local = pl[0]
                n = [s for b in fn.blocks for s in b["st"] if s[0] == "=" and s[1] == [local]]
                if not n:
                    return pl
                continue
            return pl
        if rv[0] == "use":
            pl = place_of(rv[1])
            if pl and len(pl) == 1:
                local = pl[0]
                continue
        return None
    return None


def none_leaves(fn, h, body, b):
    """on None the loop is left"""
    t = fn.blocks[b]["t"]
    d, nb = t[3], t[4]
    if len(d) != 1 or nb is None:
        return False
    names = {d[0]}
    discr = set()
    for _ in range(8):
        if nb not in body:
            return (True,)
        bl = fn.blocks[nb]
        for s in bl["st"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "use":
                pl = place_of(rv[1])
                if pl and len(pl) == 1 and pl[0] in names and len(s[1]) == 1:
                    names.add(s[1][0])
            if rv[0] == "discr" and rv[1][0] in names and len(rv[1]) == 1:
                discr.add(s[1][0])
        t = bl["t"]
        if t[0] == "goto":
            nb = t[1]
            continue
        if t[0] == "drop":
            nb = t[2]
            continue
        if t[0] == "switch":
            pl = place_of(t[1])
            if pl and len(pl) == 1 and pl[0] in discr:
                none = next((x[1] for x in t[3] if str(x[0]) == "0"), t[4])
                return (none,) if none not in body or not reaches(fn, none, h, body) else None
            return False
        if t[0] == "call":
            f = t[1].get("p", "") if isinstance(t[1], dict) else ""
            a = [place_of(x) for x in t[2]]
            if f.split("::")[-1] in ("unwrap", "expect") and a and a[0] and len(a[0]) == 1 and a[0][0] in names:
                return (True,)
        return False
    return False


def mentions(fn, b, local):
    n = 0
    st = [x for x in fn.blocks[b]["st"] if x[0] == "="]
    n += sum(x[1][0] == local for x in st)
    st.append(fn.blocks[b]["t"])
    while st:
        x = st.pop()
        if isinstance(x, dict):
            pl = place_of(x)
            n += bool(pl and pl[0] == local)
            st += list(x.values())
        elif isinstance(x, (list, tuple)):
            if x and x[0] == "ref":
                n += any(isinstance(y, (list, tuple)) and y and y[0] == local for y in x[1:])
            st += list(x)
    return n


def reaches(fn, a, h, body):
    st, seen = [a], set()
    while st:
        b = st.pop()
        if b == h:
            return True
        if b in seen or b not in body:
            continue
        seen.add(b)
        st += term_succs(fn.blocks[b]["t"])
    return False


def assigned(fn, body, pl):
    for b in body:
        for s in fn.blocks[b]["st"]:
            if s[0] == "=" and s[1] and s[1][0] == pl[0] and len(s[1]) <= len(pl):
                return True
        t = fn.blocks[b]["t"]
        if t[0] == "call" and t[3] and t[3][0] == pl[0] and len(t[3]) <= len(pl):
            return True
    return False


def iterator_loops(fn, prog):
    """heads of loops in which every cycle takes an element of one finite iterator, and that are left when there is none"""
    prepare(fn)
    res = {}
    for h, body in fn.loops.items():
        for b in sorted(body):
            t = fn.blocks[b]["t"]
            if t[0] != "call" or t[1].get("c") != "fn" or not re.search(r"Iterator(<.*>)?>?::next(_back)?$", t[1]["p"]):
                continue
            if any(g != h and b in b2 and b2 < body for g, b2 in fn.loops.items()):
                continue
            if avoids(fn, h, body, {b}):
                continue
            args = t[1].get("args")
            rt = prog.rt(args[0], None) if args else ("other", "?")
            if not finite(rt):
                continue
            pl = place_of(t[2][0])
            src = base_of(fn, body, pl[0]) if pl and len(pl) == 1 else None
            if src is None or assigned(fn, body, src):
                continue
            none = none_leaves(fn, h, body, b)
            if not none:
                continue
            # the iterator, whether the loop does nothing with it but take the next element, and where the loop goes after the last
            only = sum(mentions(fn, x, src[0]) for x in body) == 1 and len(src) == 1 and t[1]["p"].endswith("next")
            res[h] = (tstr(rt), src[0], none[0] if only and none[0] is not True else None)
            break
    return res


# ---------------------------------------------------------------- worklists
def _defs(fn):
    d = {}
    for bi, b in enumerate(fn.blocks):
        for s in b["st"]:
            if s[0] == "=" and len(s[1]) == 1:
                d.setdefault(s[1][0], []).append(("st", bi, s[2]))
        t = b["t"]
        if t[0] == "call" and t[3] and len(t[3]) == 1:
            d.setdefault(t[3][0], []).append(("call", bi, t))
    return d


def _locals_of(x, out):
    if isinstance(x, dict):
        pl = place_of(x)
        if pl:
            out.append(pl)
    elif isinstance(x, list):
        if len(x) >= 2 and x[0] == "ref":
            out.append(x[2])
        elif len(x) >= 2 and x[0] == "discr":
            out.append(x[1])
        else:
            for y in x:
                _locals_of(y, out)


def _root(fn, defs, local, depth=0):
    """local variable a reference points to"""
    ds = defs.get(local, [])
    if len(ds) == 1 and ds[0][0] == "st" and depth < 6:
        rv = ds[0][2]
        if rv[0] == "ref":
            pl = rv[2]
            if len(pl) > 1 and pl[1] == ["*"]:
                return _root(fn, defs, pl[0], depth + 1)
            return pl[0]
        if rv[0] == "use":
            pl = place_of(rv[1])
            if pl and len(pl) == 1:
                return _root(fn, defs, pl[0], depth + 1)
    return local


def _slice(fn, defs, local):
    """locals and calls a value is computed from"""
    seen, calls, st = set(), [], [local]
    while st:
        l = st.pop()
        if l in seen or l <= fn.argc:
            continue
        seen.add(l)
        for k, bi, d in defs.get(l, []):
            pls = []
            if k == "st":
                _locals_of(d, pls)
            else:
                calls.append((bi, d))
                _locals_of(d[2], pls)
            st += [p[0] for p in pls]
    return seen, calls


def _edge_only(fn, h, body, s, t, p):
    """inside the loop, p is reached only through the edge s -> t"""
    st, seen = [h], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == p:
            return False
        for n in term_succs(fn.blocks[b]["t"]):
            if n in body and n != h and not (b == s and n == t):
                st.append(n)
    return True


def _same(fn, defs, a, b):
    """two operands with the same value: the same constant or copies of the same place"""
    def canon(o):
        for _ in range(6):
            pl = place_of(o)
            if pl is None:
                return ("c", o.get("v"))
            if len(pl) == 1:
                ds = defs.get(pl[0], [])
                if len(ds) == 1 and ds[0][0] == "st" and ds[0][2][0] == "use":
                    o = ds[0][2][1]
                    continue
            return ("p", repr([pl[0]] + [e[:2] if isinstance(e, list) else e for e in pl[1:]]))
        return ("?", id(o))
    return canon(a) == canon(b)


def worklists(fn, prog, const):
    """loops that take one element of a stack or queue per iteration: {head: (verdict, explanation)};
    proved when every insertion marks the position it inserts, under a test that the position is not yet marked"""
    prepare(fn)
    res = {}
    defs = _defs(fn)
    for h, body in fn.loops.items():
        for b in sorted(body):
            t = fn.blocks[b]["t"]
            if t[0] != "call" or t[1].get("c") != "fn" or t[1]["p"].split("::")[-1] not in ("pop", "pop_front", "pop_back"):
                continue
            if any(g != h and b in b2 and b2 < body for g, b2 in fn.loops.items()) or avoids(fn, h, body, {b}) or not none_leaves(fn, h, body, b):
                continue
            w = _root(fn, defs, place_of(t[2][0])[0])
            res[h] = _worklist(fn, h, body, b, w, defs, const)
            break
    return res


READS = ("get_pixel", "index", "get", "unsafe_get_pixel", "get_unchecked")
WRITES = ("put_pixel", "index_mut", "get_pixel_mut", "unsafe_put_pixel", "get_unchecked_mut", "insert")


def _worklist(fn, h, body, pb, w, defs, const):
    pushes, marks = [], []
    for b in sorted(body):
        for s in fn.blocks[b]["st"]:
            if s[0] == "=" and s[1][0] == w:
                return None, "the worklist is reassigned"
        t = fn.blocks[b]["t"]
        if t[0] != "call":
            continue
        for i, a in enumerate(t[2]):
            pl = place_of(a)
            if not pl or len(pl) != 1:
                continue
            r = _root(fn, defs, pl[0])
            n = t[1].get("p", "").split("::")[-1]
            if r == w:
                if n.startswith("push") and i == 0:
                    pushes.append(b)
                elif n in ("len", "is_empty", "deref") or b == pb:
                    pass
                else:
                    return None, f"the worklist is passed to {n}"
            elif i == 0 and n in WRITES:
                marks.append((b, r, t))
    written = {r for _, r, _ in marks}
    worst = "every insertion marks the inserted position, under a test that it is not marked"
    for p in pushes:
        reads = False
        ok = False
        for s in sorted(body):
            t = fn.blocks[s]["t"]
            if t[0] != "switch":
                continue
            pl = place_of(t[1])
            if not pl:
                continue
            _, calls = _slice(fn, defs, pl[0])
            rd = [(bi, c) for bi, c in calls if c[1].get("p", "").split("::")[-1] in READS and place_of(c[2][0]) and _root(fn, defs, place_of(c[2][0])[0]) in written]
            if not rd:
                continue
            for e in term_succs(t):
                if not _edge_only(fn, h, body, s, e, p):
                    continue
                reads = True
                # the test compares with a constant, and the mark is a different constant at the same coordinates
                cmpc = _tested(fn, defs, pl[0], t, e)
                for mb, r, mt in marks:
                    if not _edge_only(fn, h, body, s, e, mb) or not (dominates(fn, mb, p) or mb == p):
                        continue
                    for bi, c in rd:
                        if _root(fn, defs, place_of(c[2][0])[0]) == r and len(c[2]) == 3 and len(mt[2]) == 4 and all(_same(fn, defs, x, y) for x, y in zip(c[2][1:], mt[2][1:3])):
                            v = const(fn, defs, mt[2][3])
                            others = [const(fn, defs, m[2][3]) if len(m[2]) == 4 else None for _, q, m in marks if q == r]
                            if cmpc is not None and v is not None and v != cmpc and all(o == v for o in others):
                                ok = True
        if not ok:
            if not reads:
                return False, f"an insertion (line {fn.blocks[p].get('ln')}) is not guarded by any test on what the loop writes"
            worst = None
    if worst:
        return True, worst
    return None, "an insertion is guarded by a test on written memory, but the marking could not be matched with it"


def dominates(fn, a, b):
    return not avoids_from(fn, 0, b, a)


def avoids_from(fn, src, dst, rm):
    st, seen = [src], set()
    while st:
        x = st.pop()
        if x in seen or x == rm:
            continue
        if x == dst:
            return True
        seen.add(x)
        st += term_succs(fn.blocks[x]["t"])
    return False


def _tested(fn, defs, local, t, e):
    """constant the switched value is known to be compared equal with on the edge, or None"""
    ds = defs.get(local, [])
    if len(ds) != 1 or ds[0][0] != "st":
        return None
    rv = ds[0][2]
    if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
        c = [o for o in rv[2:4] if isinstance(o, dict) and o.get("c") == "int"]
        zero = [x[1] for x in t[3] if str(x[0]) == "0"]
        on_true = e not in zero
        if c and on_true == (rv[1] == "Eq"):
            return int(c[0]["v"])
    return None
