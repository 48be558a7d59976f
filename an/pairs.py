"""Equality of two functions of the crate (or of a function and a reference term) by comparing their behaviour trees (term.py).

Functions of the crate start out uninterpreted; where the comparison fails, the functions named on either side of the difference
(or, if there are none, all that occur on one side only) are inlined and the comparison is repeated. Outcome: "equal"; "differs"
when what is left differs between interpreted things (constants, arguments, arithmetic, distinct functions of the crate);
"undecided" otherwise.
"""
import sys
import term
from term import Node, T, mk, UNIT, NILTR, Differ, TooBig, Unsupported

sys.setrecursionlimit(200000)


def heads(x, acc=None, seen=None):
    """heads of calls in a term"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [x]
    while st:
        t = st.pop()
        if isinstance(t, Node):
            st += [y for y in t.a if isinstance(y, (T, Node, dict))]
            continue
        if isinstance(t, dict):
            st += list(t.values())
            continue
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        if t.k == "call":
            acc.setdefault(t.a[0], 0)
            acc[t.a[0]] += 1
        for y in t.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
    return acc


def mapleaf(n, f):
    if n is None:
        return None
    if n.k == "leaf":
        return f(n)
    if n.k == "br":
        return Node("br", n.a[0], mapleaf(n.a[1], f), mapleaf(n.a[2], f))
    if n.k == "sw":
        return Node("sw", n.a[0], {k: mapleaf(v, f) for k, v in n.a[1].items()}, mapleaf(n.a[2], f))
    if n.k == "loop":
        return Node("loop", n.a[0], mapleaf(n.a[1], f))
    return n


class Side:
    """one side: a function of a program, or a fixed behaviour tree"""

    def __init__(self, prog, fn=None, node=None, post=None, copies=None, args=None):
        self.prog, self.fn, self.node, self.post, self.copies, self.args = prog, fn, node, post, copies or {}, args
        self.inl = set()
        self.ex = None

    def build(self):
        if self.node is not None:
            self.ex = term.Exec(self.prog, lambda f: True)
            return self.node
        self.ex = term.Exec(self.prog, lambda f: f.p not in self.inl and f is not self.fn)
        self.ex.copies = self.copies
        n = self.ex.tree(self.fn, self.args)
        return mapleaf(n, self.post) if self.post else n


def rec(prog, p, n=0):
    """p can reach itself through calls"""
    from graph import uses, target
    seen, st = set(), [p]
    while st:
        q = st.pop()
        f = prog.fns.get(q)
        if f is None:
            continue
        for bi, how, d, x in uses(f):
            for r in {d["p"], target(d)}:
                if r == p:
                    return True
                if r in prog.fns and r not in seen:
                    seen.add(r)
                    st.append(r)
    return False


def compare(a, b, rename=None, rounds=14, keep=(), extra_panics=False):
    """a, b: Side. keep: functions that stay uninterpreted. Returns (outcome, detail, stats)"""
    rename = rename or {}
    stats = {"rounds": 0, "inlined": [], "nodes": 0, "comparisons": 0}
    last = None
    for r in range(rounds):
        stats["rounds"] = r + 1
        try:
            na, nb = a.build(), b.build()
            c = term.Compare(a.ex, b.ex, rename)
            c.extra_panics = extra_panics
            c.node(na, nb, {}, {})
            stats["nodes"] = a.ex.nodes + b.ex.nodes
            stats["comparisons"] = c.ncmp
            stats["functions"] = sorted(a.ex.fns | b.ex.fns)
            return "equal", "", stats
        except Differ as e:
            last = (e.definite, e.what, e.a, e.b)
            ha, hb = (heads(x) for x in (e.a, e.b))
            stats["functions"] = sorted(a.ex.fns | b.ex.fns)
        except (TooBig, RecursionError):
            stats["big"] = True
            if last is None:
                return "undecided", "behaviour tree too large", stats
            break
        except Unsupported as e:
            return "undecided", f"unsupported: {e}", stats

        def cand(side, hs, other):
            out = set()
            for h in hs:
                f = side.prog.fns.get(h)
                if f is None or not f.blocks or h in side.inl or h in keep or side.node is not None:
                    continue
                if rename.get(h, h) in {rename.get(x, x) for x in other} or h in side.copies.values():
                    continue
                if rec(side.prog, h):
                    continue
                out.add(h)
            return out
        ca, cb = cand(a, ha, hb), cand(b, hb, ha)
        if not ca and not cb:
            ta, tb = heads(na), heads(nb)
            ca, cb = cand(a, ta, tb), cand(b, tb, ta)
            # methods called on both sides but inside closures
        if not ca and not cb:
            break
        a.inl |= ca
        b.inl |= cb
        stats["inlined"] = sorted(a.inl | b.inl)
    d, what, x, y = last
    stats["plain"] = all(isinstance(t, T) and term.interpreted(t) for t in (x, y))
    det = f"{what}: {str(x)[:300] if isinstance(x, T) else x.k} versus {str(y)[:300] if isinstance(y, T) else y.k}"
    return ("differs" if d else "undecided"), det, stats


# ---------------------------------------------------------------- signatures of opaque calls
def item(lo, hi):
    return mk("item", lo, hi)


def norm(t, memo):
    """loop items over a range become item(lo, hi); widening casts move inside"""
    r = memo.get(t.id)
    if r is not None:
        return r
    r = t
    if t.k == "proj" and t.a[0].k == "call" and t.a[0].a[0] == "iter::next" and t.a[0].a[1].k == "mut" and term.is_range(t.a[0].a[1].a[0]):
        rg = t.a[0].a[1].a[0]
        lo, hi = rg.a[2], rg.a[3]
        if lo.k == "phi":
            cell, path = lo.a[1]
            lo = term.pick(lo.a[2].init[cell], path)
        r = item(norm(lo, memo), norm(hi, memo))
    elif t.k == "lin":
        d = {}
        for x, k in zip(t.a[2::2], t.a[3::2]):
            x = norm(x, memo)
            d[x] = d.get(x, 0) + k
        r = term.lin(t.a[0], t.a[1], d)
    elif t.k not in ("phi", "clo") and any(isinstance(x, T) for x in t.a):
        a = [norm(x, memo) if isinstance(x, T) else x for x in t.a]
        if t.k == "cast" and a[2].k == "item":
            r = item(*(term.cast(x, a[0], a[1]) for x in a[2].a))
        elif t.k == "cast":
            r = term.cast(a[2], a[0], a[1])
        else:
            r = mk(t.k, *a)
    memo[t.id] = r
    return r


def nesting(t, out, memo):
    """the loops whose elements occur in t (an enclosing loop has the smaller number), with their ranges"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "proj" and x.a[0].k == "call" and x.a[0].a[0] == "iter::next" and x.a[0].a[1].k == "mut" and term.is_range(x.a[0].a[1].a[0]):
            lo = x.a[0].a[1].a[0].a[2]
            if lo.k == "phi":
                out[lo.a[0]] = norm(x, memo)
        if x.k not in ("phi", "clo"):
            st += [y for y in x.a if isinstance(y, T)]


class Sig(term.Exec):
    """records the opaque calls with the given last name, with normalised arguments (also inside closures run over every position)"""

    def __init__(self, prog, opaque, wanted):
        super().__init__(prog, opaque)
        self.wanted = wanted
        self.seen = {}
        self.nest = {}
        self.memo = {}

    def opaque_call(self, st, fr, t, head, args):
        last = head.split("::")[-1]
        if last in self.wanted:
            xs = [self.conv(st, a, []) for a in args]
            nest = {}
            for x in xs:
                nesting(x, nest, self.memo)
            self.nest.setdefault(last, []).append([nest[i] for i in sorted(nest)])
            xs = [norm(x, self.memo) for x in xs]
            xs = [x if not hasphi(x) else None for x in xs]
            self.seen.setdefault(last, {})[tuple(x.id if x is not None else 0 for x in xs)] = xs
        if head in ("image::from_fn",) and len(args) == 3 and args[2].k in ("clo", "agg"):
            w, h, clo = (self.conv(st, a, []) for a in args)
            u32 = ("uint", 32, "u32")
            save = self.memo
            if clo.k == "clo":
                self.clo_tree(clo, True, [item(num0(u32), w), item(num0(u32), h)])
            self.memo = save
        return super().opaque_call(st, fr, t, head, args)


def num0(ty):
    return term.num(0, ty)


def hasphi(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k in ("phi", "clo"):
            return True
        st += [y for y in x.a if isinstance(y, T)]
    return False


def signature(prog, fn, wanted, opaque):
    ex = Sig(prog, lambda f: f is not fn and opaque(f), wanted)
    ex.tree(fn)
    return ex


def compare_signatures(prog, f, g, wanted, opaque):
    """the calls named in wanted have the same arguments (loop variables written as their ranges) in both functions"""
    ea, eb = signature(prog, f, wanted, opaque), signature(prog, g, wanted, opaque)
    stats = {"rounds": 1, "nodes": ea.nodes + eb.nodes, "comparisons": 0, "functions": sorted(ea.fns | eb.fns), "inlined": []}
    und = []
    for w in wanted:
        sa, sb = (list(e.seen.get(w, {}).values()) for e in (ea, eb))
        if len(sa) != 1 or len(sb) != 1:
            und.append(f"{w}: {len(sa)} and {len(sb)} distinct call(s)")
            continue
        if len(sa[0]) != len(sb[0]):
            und.append(f"{w}: argument count")
            continue
        for i, (x, y) in enumerate(zip(sa[0], sb[0])):
            stats["comparisons"] += 1
            if x is None or y is None:
                continue            # accumulators
            c = term.Compare(ea, eb)
            try:
                c.eq(x, y)
            except Differ as e:
                if e.definite:
                    return "differs", f"{w} argument {i}: {str(e.a)[:250]} versus {str(e.b)[:250]}", stats
                und.append(f"{w} argument {i}: {str(e.a)[:120]} versus {str(e.b)[:120]}")
        # the enclosing loops, from the innermost outwards, visit the samples in the same order
        na, nb = (max(e.nest.get(w, [[]]), key=len) for e in (ea, eb))
        for x, y in zip(reversed(na), reversed(nb)):
            stats["comparisons"] += 1
            try:
                term.Compare(ea, eb).eq(x, y)
            except Differ as e:
                if {t.id for t in na} >= {t.id for t in nb} or {t.id for t in nb} >= {t.id for t in na}:
                    return "differs", f"order of the loops around {w}: {[str(t)[:80] for t in na]} versus {[str(t)[:80] for t in nb]}", stats
                und.append(f"{w}: loops {str(x)[:120]} versus {str(y)[:120]}")
                break
    return ("undecided", "; ".join(und), stats) if und else ("equal", "", stats)
