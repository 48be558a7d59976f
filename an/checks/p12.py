"""P12: projections and their inverses stay in step."""
from fractions import Fraction
import load, term
from term import T, mk, Unsupported, TooBig
from rat import Rat, num, sym, subst

LEVEL = "proof"
TECHNIQUE = ("algebraic decision on the type-checked MIR: the behaviour tree of every function that builds a projection gives the entries of the stored forward and backward matrices and the class as terms over "
             "its arguments; with projections received as arguments replaced by generic mutually inverse matrices of their class (structural induction), forward times backward must be a scalar matrix, the "
             "matrices must have the shape their class promises, and the forward matrix must be the documented one; every mapping and every warp path is compared with the general mapping of the same class; all "
             "as identities of rational functions, in exact polynomial arithmetic")
TRUSTED = ["rustc MIR construction", "an/term.py (behaviour trees)", "an/rat.py (polynomial arithmetic)"]
ASSUMPTIONS = ["real arithmetic: rounding is not modelled and a comparison |x| < tolerance is read as x = 0", "arguments are finite and scale factors are not zero",
               "nalgebra's solver returns a solution of the linear system it is given"]
G = "imageproc::geometric_transformations::"
PJ = G + "Projection"
TC = G + "TransformationClass"
NAMES = {0: "Translation", 1: "Affine", 2: "Projection"}


class Unknown(Exception):
    pass


class Infeasible(Exception):
    pass


def adj(m):
    a, b, c, d, e, f, g, h, i = m
    return [e * i - f * h, c * h - b * i, b * f - c * e, f * g - d * i, a * i - c * g, c * d - a * f, d * h - e * g, b * g - a * h, a * e - b * d]


def mul(a, b):
    return [sum((a[3 * r + k] * b[3 * k + c] for k in range(3)), num(0)) for r in range(3) for c in range(3)]


def generic(i, cls):
    """generic mutually inverse matrices of a class"""
    S = lambda n: sym(("T", i, n))
    z, o = num(0), num(1)
    if cls == "Translation":
        a, b = S(2), S(5)
        return [o, z, a, z, o, b, z, z, o], [o, z, -a, z, o, -b, z, z, o]
    if cls == "Affine":
        t = [S(0), S(1), S(2), S(3), S(4), S(5), z, z, o]
        d = t[0] * t[4] - t[1] * t[3]
        return t, [x / d for x in adj(t)]
    t = [S(k) for k in range(9)]
    k = sym(("k", i))
    return t, [x * k for x in adj(t)]


class Ev:
    """evaluates terms to rational functions"""

    def __init__(self, proj):
        self.proj = proj            # parameter index -> class name of projection arguments
        self.gen = {}
        self.env = {}
        self.memo = {}
        self.unread = []

    def matrices(self, i):
        if i not in self.gen:
            self.gen[i] = generic(i, self.proj.get(i, "Projection"))
        return self.gen[i]

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.ev1(t)
        return subst(r, self.env)

    def ev1(self, t):
        k = t.k
        if k == "float":
            try:
                return num(Fraction(t.a[0]))
            except ValueError:
                raise Unknown(f"constant {t.a[0]}")
        if k == "int":
            return num(t.a[0])
        if k == "idx" and t.a[0].k == "proj" and t.a[0].a[0].k == "prm" and t.a[0].a[0].a[0] in self.proj and t.a[0].a[2] in (0, 1):
            j = t.a[1]
            j = j.a[0] if isinstance(j, T) and j.k == "int" else j
            if isinstance(j, int):
                return self.matrices(t.a[0].a[0].a[0])[t.a[0].a[2]][j]
        if k == "bin":
            op, a, b = t.a[0], t.a[-2], t.a[-1]
            if op in ("Add", "Sub", "Mul", "Div"):
                a, b = self.ev(a), self.ev(b)
                if op == "Div":
                    if b.zero():
                        raise Unknown("division by zero")
                    return a / b
                return a + b if op == "Add" else a - b if op == "Sub" else a * b
        if k == "un" and t.a[0] == "Neg":
            return -self.ev(t.a[-1])
        if k == "cast":
            return self.ev(t.a[-1])
        if k == "proj" and t.a[0].k == "call" and t.a[0].a[0].split("::")[-1] == "sin_cos":
            return sym((("sin", "cos")[t.a[2]], str(t.a[0].a[1])))
        if k == "call":
            h = t.a[0].split("::")[-1]
            xs = t.a[1:]
            if h in ("add", "sub", "mul", "div") and len(xs) == 2:
                a, b = self.ev(xs[0]), self.ev(xs[1])
                return a + b if h == "add" else a - b if h == "sub" else a * b if h == "mul" else a / b
            if h == "neg":
                return -self.ev(xs[0])
            if h == "recip":
                return num(1) / self.ev(xs[0])
            if h == "mul_add":
                return self.ev(xs[0]) * self.ev(xs[1]) + self.ev(xs[2])
            if h in ("sin", "cos"):
                return sym((h, str(xs[0])))
        if k == "lin" or k == "prod":
            raise Unknown("integer arithmetic")
        return sym(("t", str(t)))

    # ---- facts from branch conditions
    def fact(self, c, truth):
        try:
            self.fact1(c, truth)
        except Unknown:
            self.unread.append(str(c)[:100])

    def fact1(self, c, truth):
        if c.k == "not":
            return self.fact1(c.a[0], not truth)
        x = None
        if c.k == "fcmp":
            op, a, b = c.a
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            isabs = lambda z: z.k == "call" and z.a[0].split("::")[-1] == "abs"
            if op in ("Lt", "Le") and isabs(a) and b.k == "float":
                x, small = self.ev(a.a[1]), truth
            elif op in ("Lt", "Le") and isabs(b) and a.k == "float":
                x, small = self.ev(b.a[1]), not truth
            elif op in ("Eq", "Ne"):
                x, small = self.ev(a) - self.ev(b), truth == (op == "Eq")
        elif c.k == "eq":
            x, small = self.ev(c.a[0]) - self.ev(c.a[1]), truth
        if x is None:
            self.unread.append(str(c)[:100])
            return
        v = x.const()
        if v is not None:
            if (v == 0) != small:
                raise Infeasible()
            return
        if not small:
            self.nonzero = getattr(self, "nonzero", []) + [x]
            return
        if any((x / y).const() is not None for y in getattr(self, "nonzero", []) if not y.zero()):
            raise Infeasible()
        self.zeros = getattr(self, "zeros", []) + [x]
        # a numerator linear in a symbol with a constant coefficient determines it
        for m, k in sorted(x.n.items(), key=str):
            if len(m) == 1 and m[0][1] == 1:
                s = m[0][0]
                if s[0] not in ("sin", "cos") and not any(s == q for n in x.n if n != m for q, e in n):
                    rest = Rat({n: -v / k for n, v in x.n.items() if n != m})
                    self.env = {q: subst(r, {s: rest}) for q, r in self.env.items()}
                    self.env[s] = rest
                    return
        self.unread.append(str(c)[:100])


def leaves(n, path=()):
    if n is None:
        return
    if n.k == "leaf":
        yield path, n
    elif n.k == "br":
        yield from leaves(n.a[1], path + ((n.a[0], True),))
        yield from leaves(n.a[2], path + ((n.a[0], False),))
    elif n.k == "sw":
        for k, v in n.a[1].items():
            yield from leaves(v, path + ((n.a[0], k),))
        yield from leaves(n.a[2], path + ((n.a[0], ("not",) + tuple(n.a[1])),))
    elif n.k == "panic":
        return
    else:
        raise Unsupported(n.k)


def classes(prog, path, projs):
    """classes the arguments can have on a path (those without an entry: any); None when the path is contradictory"""
    cl, rest = {}, []
    for c, v in path:
        i = discr_of(c, projs)
        if i is not None:
            if isinstance(v, tuple):
                cl.setdefault(i, set(NAMES.values())).difference_update(NAMES.get(int(k)) for k in v[1:])
                continue
            if isinstance(v, (str, int)):
                cl.setdefault(i, set(NAMES.values())).intersection_update({NAMES.get(int(v))})
                continue
        j = eqdiscr(c, projs)
        if j is not None and v in (True, False):
            i, n = j
            d = cl.setdefault(i, set(NAMES.values()))
            d.intersection_update({n}) if v else d.discard(n)
            continue
        rest.append((c, v))
    if not all(cl.values()):
        return None, None
    return cl, rest


def discr_of(c, projs):
    if c.k == "discr" or (c.k == "call" and c.a[0] == "discr"):
        x = c.a[-1]
    else:
        return None
    if x.k == "proj" and x.a[0].k == "prm" and x.a[0].a[0] in projs and x.a[2] == 2:
        return x.a[0].a[0]
    return None


def eqdiscr(c, projs):
    if c.k == "eq":
        for a, b in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            i = discr_of(a, projs)
            if i is not None and b.k == "int":
                return i, NAMES.get(b.a[0])
    return None


def isproj(rt):
    return rt[0] == "adt" and rt[1] == PJ


def root_type(prog, fn, i):
    return prog.rt(fn.locals[i][0], None)


def strip(rt):
    while rt[0] in ("ref", "ptr"):
        rt = rt[2] if len(rt) > 2 else rt[1]
    return rt


def mat(ev, t):
    if t.k == "agg" and t.a[0] == "array" and len(t.a) == 11:
        return [ev.ev(x) for x in t.a[2:]]
    # a matrix taken over whole from an argument
    if t.k == "proj" and t.a[0].k == "prm" and t.a[0].a[0] in ev.proj and t.a[2] in (0, 1):
        return [subst(x, ev.env) for x in ev.matrices(t.a[0].a[0])[t.a[2]]]
    return [ev.ev(mk("idx", t, term.num(j, ("uint", 64, "usize")))) if t.k not in ("agg",) else None for j in range(9)]


def cls_of(ev, t):
    if t.k == "agg" and t.a[0].split("::")[-1] == "TransformationClass":
        return NAMES[t.a[1]]
    if t.k == "proj" and t.a[0].k == "prm" and t.a[0].a[0] in ev.proj and t.a[2] == 2:
        return ev.proj[t.a[0].a[0]]
    return None


def scalar(m):
    for i in range(9):
        if i % 4 and not m[i].zero():
            return f"entry {i // 3},{i % 3} is {m[i]}"
    for i in (4, 8):
        if not (m[0] - m[i]).zero():
            return f"diagonal entries 0 and {i // 4} differ: {m[0]} and {m[i]}"
    if m[0].zero():
        return "the product is zero"
    return None


def proportional(a, b):
    """a is a multiple of b"""
    p = next((i for i in range(9) if not b[i].zero()), None)
    if p is None or a[p].zero():
        return "no common nonzero entry"
    for i in range(9):
        if not (a[i] * b[p] - a[p] * b[i]).zero():
            return f"entry {i // 3},{i % 3}: {a[i]} instead of a multiple of {b[i]}"
    return None


def shape(m, cls):
    if cls == "Projection":
        return None
    want = {6: 0, 7: 0, 8: 1}
    if cls == "Translation":
        want.update({0: 1, 1: 0, 3: 0, 4: 1})
    for i, v in want.items():
        if m[i].const() != v:
            return f"entry {i // 3},{i % 3} is {m[i]} instead of {v}"
    return None


def expected(name, ev, fn, args):
    """documented forward matrix, or None"""
    s = lambda t: ev.ev(t)
    z, o = num(0), num(1)
    if name == "translate":
        return [o, z, s(args[0]), z, o, s(args[1]), z, z, o]
    if name == "scale":
        return [s(args[0]), z, z, z, s(args[1]), z, z, z, o]
    if name == "rotate":
        c, n = sym(("cos", str(args[0]))), sym(("sin", str(args[0])))
        return [c, -n, z, n, c, z, z, z, o]
    if name == "invert":
        return ev.matrices(0)[1]
    if name == "clone":
        return ev.matrices(0)[0]
    if name == "and_then":
        return mul(ev.matrices(1)[0], ev.matrices(0)[0])
    if name == "mul":
        return mul(ev.matrices(0)[0], ev.matrices(1)[0])
    if name == "from_matrix":
        return [ev.ev(mk("idx", args[0], term.num(j, ("uint", 64, "usize")))) for j in range(9)]
    return None


def options(ex, t, fresh):
    """behaviour trees of the projections inside an optional value: (path, projection term) pairs"""
    if t.k == "agg" and t.a[0].split("::")[-1] == "Option":
        if t.a[1] == 1:
            yield (), t.a[2]
        else:
            yield (), None
        return
    if t.k == "call" and t.a[0].split("::")[-1] in ("map", "and_then") and len(t.a) == 3 and t.a[2].k == "clo":
        inner = t.a[1]
        if inner.k == "agg" and inner.a[0].split("::")[-1] == "Option":
            if inner.a[1] == 0:
                yield (), None
                return
            arg = inner.a[2]
        else:
            fresh[0] += 1
            arg = mk("prm", 100 + fresh[0])
        for p, l in leaves(ex.clo_tree(t.a[2], True, [arg])):
            v = l.a[0]
            if t.a[0].split("::")[-1] == "map":
                yield p, v
            else:
                for q, w in options(ex, v, fresh):
                    yield p + q, w
        return
    yield (), t


def constructors(ctx, prog, visited):
    n = 0
    for p in prog.order:
        fn = prog.fns[p]
        if "{" in p or not fn.blocks or not fn.locals:
            continue
        rt = root_type(prog, fn, 0)
        opt = rt[0] == "adt" and rt[1].split("::")[-1] == "Option" and any(isproj(x) for x in rt[2] if isinstance(x, tuple))
        if not isproj(rt) and not opt:
            continue
        name = p.split("::")[-1]
        projs = {i: None for i in range(fn.argc) if isproj(strip(root_type(prog, fn, i + 1)))}
        args = [mk("prm", i) for i in range(fn.argc)]
        ex = term.Exec(prog, lambda f: False)
        try:
            tree = ex.tree(fn)
            todo = []
            for path, lf in leaves(tree):
                if opt:
                    for q, v in options(ex, lf.a[0], [0]):
                        todo.append((path + q, v))
                else:
                    todo.append((path, lf.a[0]))
        except (Unsupported, TooBig, KeyError) as e:
            ctx.excluded.append({"what": p, "why": f"behaviour tree: {e}"})
            continue
        visited |= set(ex.fns)
        n += 1
        feas = 0
        for path, v in todo:
            cl, rest = classes(prog, path, projs)
            if cl is None:
                continue
            # without knowledge the argument can be of any class: every one is tried
            combos = [{}]
            for i in projs:
                combos = [{**c, i: k} for c in combos for k in NAMES.values() if k in cl.get(i, NAMES.values())]
            for combo in combos:
                try:
                    ev = Ev(combo)
                    for c, t in rest:
                        if t in (True, False):
                            ev.fact(c, t)
                    judge1(ctx, p, name, fn, ev, v, args, path)
                    feas += 1
                except Infeasible:
                    continue
                except Unknown as e:
                    ctx.excluded.append({"what": p, "why": f"not a rational function of the arguments: {e}"})
        if not feas:
            ctx.excluded.append({"what": p, "why": "no path was decided"})
    return n


def report(ctx, ev, key, bad, msg, data, sample=None):
    if bad and ev.unread:
        ctx.excluded.append({"what": key, "why": f"{bad}; but a branch condition could not be interpreted: {ev.unread[0]}"})
        return
    ctx.decide(not bad, key, f"{msg}: {bad}", data, sample)


def judge1(ctx, p, name, fn, ev, v, args, path):
    data = {"function": p, "path": [f"{str(c)[:120]} = {t}" for c, t in path][:12]}
    if v is None:
        # nothing is returned only for a matrix whose determinant vanishes
        if name == "from_matrix":
            m = expected(name, ev, fn, args)
            a = adj(m)
            det = m[0] * a[0] + m[1] * a[3] + m[2] * a[6]
            ok = det.zero() or any(z.n and proportional([z] + [num(0)] * 8, [det] + [num(0)] * 8) is None and vanishes(z, det) for z in getattr(ev, "zeros", []))
            report(ctx, ev, f"{p}:rejection", None if ok else "an invertible matrix can be rejected", f"{p} returns nothing", data, {"function": p, "proved": "the determinant vanishes where nothing is returned"})
        return
    if v.k == "prm" and v.a[0] in ev.proj:
        tr, iv = ([subst(x, ev.env) for x in m] for m in ev.matrices(v.a[0]))
        cls = ev.proj[v.a[0]]
    elif v.k == "agg" and v.a[0] == PJ:
        tr, iv = mat(ev, v.a[2]), mat(ev, v.a[3])
        cls = cls_of(ev, v.a[4])
    else:
        raise Unknown(f"result {str(v)[:80]}")
    if cls is None:
        raise Unknown("class of the result")
    report(ctx, ev, f"{p}:inverse", scalar(mul(tr, iv)), f"{p}: forward and backward mapping are not mutual inverses", data,
           {"function": p, "class": cls, "proved": "forward * backward is a scalar matrix", "argument_classes": {k: v for k, v in ev.proj.items()}})
    for nm, m in (("forward", tr), ("backward", iv)):
        report(ctx, ev, f"{p}:class", shape(m, cls), f"{p}: classified as {cls}, but the {nm} matrix has not that shape", data)
    w = expected(name, ev, fn, args)
    if w:
        report(ctx, ev, f"{p}:forward", proportional(tr, [subst(x, ev.env) for x in w]), f"{p}: the forward matrix is not the documented one", data)


def vanishes(z, det):
    """z vanishes exactly where det does: they differ by a factor that is a monomial"""
    q = z / det
    return len(q.n) == 1 and len(q.d) == 1


def point(m, x, y):
    w = m[6] * x + m[7] * y + m[8]
    return (m[0] * x + m[1] * y + m[2]) / w, (m[3] * x + m[4] * y + m[5]) / w


def compare_point(ctx, key, what, ev, v, m, xy, data):
    if v.k != "agg" or v.a[0] != "tuple" or len(v.a) != 4:
        raise Unknown(f"result {str(v)[:80]}")
    got = [ev.ev(x) for x in v.a[2:]]
    want = point([subst(x, ev.env) for x in m], *xy)
    bad = next((f"coordinate {i}: {g} instead of {w}" for i, (g, w) in enumerate(zip(got, want)) if not (g - w).zero()), None)
    report(ctx, ev, key, bad, what, data, {"function": key, "classes": {k: v for k, v in ev.proj.items()}, "proved": "equal to the general mapping"})


def mappings(ctx, prog):
    """applying a projection to a point"""
    n = 0
    for p in prog.order:
        fn = prog.fns[p]
        if "{" in p or fn.argc != 2 or not p.endswith("::mul") or not isproj(strip(root_type(prog, fn, 1))) or strip(root_type(prog, fn, 2))[0] != "tuple":
            continue
        ex = term.Exec(prog, lambda f: False)
        n += 1
        try:
            for path, lf in leaves(ex.tree(fn)):
                cl, rest = classes(prog, path, {0: None})
                if cl is None:
                    continue
                for c in [k for k in NAMES.values() if k in cl.get(0, NAMES.values())]:
                    ev = Ev({0: c})
                    try:
                        for q, t in rest:
                            if t in (True, False):
                                ev.fact(q, t)
                        xy = [ev.ev(mk("proj", mk("prm", 1), 0, k)) for k in (0, 1)]
                        compare_point(ctx, f"{p}:{c}", f"{p}: the mapping of class {c} differs from the general one", ev, lf.a[0], ev.matrices(0)[0], xy, {"function": p, "class": c})
                    except Infeasible:
                        pass
        except (Unsupported, TooBig, Unknown, KeyError) as e:
            ctx.excluded.append({"what": p, "why": str(e)[:200]})
    return n


def clos(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "clo":
            yield x
        st += [y for y in x.a if isinstance(y, T)]


def warps(ctx, prog):
    """every path of warp_into maps output coordinates through the backward mapping of the projection"""
    p = G + "warp_into"
    fn = prog.fns.get(p)
    if fn is None:
        return 0
    pj = next((i for i in range(fn.argc) if isproj(strip(root_type(prog, fn, i + 1)))), None)
    if pj is None:
        return 0
    ex = term.Exec(prog, lambda f: not f.p.startswith(PJ) and " as " not in f.p and "{" not in f.p)
    n = 0
    try:
        seen = set()
        for path, lf in leaves(ex.tree(fn)):
            cl, rest = classes(prog, path, {pj: None})
            if cl is None:
                continue
            roots = [lf.a[0], *lf.a[1].values(), lf.a[2]]
            cs = {c.id: c for r in roots if isinstance(r, T) for c in clos(r)}
            maps = []
            for c in cs.values():
                f = prog.fns[c.a[0]]
                rt = root_type(prog, f, 0)
                if f.argc == 3 and rt[0] == "tuple" and len(rt[1]) == 2 and all(x[0] == "float" for x in rt[1]):
                    maps.append(c)
            if not maps:
                ctx.excluded.append({"what": p, "why": f"no coordinate mapping found on the path {[t for c, t in path]}"})
                continue
            for c in maps:
                for k in [k for k in NAMES.values() if k in cl.get(pj, NAMES.values())]:
                    x, y = mk("prm", 200), mk("prm", 201)
                    for q, l in leaves(ex.clo_tree(c, True, [x, y])):
                        cl2, rest2 = classes(prog, q, {pj: None})
                        if cl2 is None or k not in cl2.get(pj, (k,)):
                            continue
                        ev = Ev({pj: k})
                        try:
                            for d, t in rest2:
                                if t in (True, False):
                                    ev.fact(d, t)
                        except Infeasible:
                            continue
                        compare_point(ctx, f"{p}:{k}", f"{p}: output coordinates of a projection of class {k} are not mapped through its inverse", ev, l.a[0], ev.matrices(pj)[1], (ev.ev(x), ev.ev(y)),
                                      {"function": p, "closure": c.a[0], "class": k})
                        n += 1
    except (Unsupported, TooBig, Unknown, KeyError) as e:
        ctx.excluded.append({"what": p, "why": str(e)[:200]})
    return n


def control_points(ctx, prog):
    """the linear system solved by from_control_points states that each source point maps to its target point"""
    p = PJ + "::from_control_points"
    fn = prog.fns.get(p)
    if fn is None or fn.argc != 2:
        return
    ex = term.Exec(prog, lambda f: False)
    try:
        tree = ex.tree(fn)
    except (Unsupported, TooBig, KeyError) as e:
        ctx.excluded.append({"what": p, "why": str(e)[:200]})
        return
    mats = {}
    def scan(t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "call" and x.a[0].split("::")[-1] == "from_row_slice":
                a = next((y for y in x.a[1:] if isinstance(y, T) and y.k == "agg" and y.a[0] == "array"), None)
                if a is not None:
                    mats[len(a.a) - 2] = a
            st += [y for y in x.a if isinstance(y, T)]
    for path, lf in leaves(tree):
        scan(lf.a[0])
        if lf.a[2] is not None and isinstance(lf.a[2], T):
            scan(lf.a[2])
    if 64 not in mats or 8 not in mats:
        ctx.excluded.append({"what": p + ": linear system", "why": "the matrix and right-hand side were not found as arrays"})
        return
    ev = Ev({})
    usz = ("uint", 64, "usize")
    pt = lambda a, i, k: ev.ev(mk("proj", mk("idx", mk("prm", a), term.num(i, usz)), 0, k))
    try:
        A = [ev.ev(x) for x in mats[64].a[2:]]
        B = [ev.ev(x) for x in mats[8].a[2:]]
        h = [sym(("h", i)) for i in range(8)] + [num(1)]
        rows = [sum((A[8 * r + c] * h[c] for c in range(8)), num(0)) - B[r] for r in range(8)]
        for i in range(4):
            xf, yf, x, y = pt(0, i, 0), pt(0, i, 1), pt(1, i, 0), pt(1, i, 1)
            w = h[6] * xf + h[7] * yf + h[8]
            for k, (lhs, c) in enumerate(((h[0] * xf + h[1] * yf + h[2], x), (h[3] * xf + h[4] * yf + h[5], y))):
                eqn = lhs - c * w
                ok = any((r - eqn).zero() or (r + eqn).zero() for r in rows)
                ctx.decide(ok, f"{p}:system", f"{p}: no row of the linear system states that source point {i} maps to its target in {'xy'[k]}", {"function": p, "point": i, "coordinate": "xy"[k]},
                           {"function": p, "proved": f"a row of the system is the equation of point {i}, {'xy'[k]}"})
    except Unknown as e:
        ctx.excluded.append({"what": p + ": linear system", "why": str(e)})


def run(ctx):
    prog = load.program("default")
    visited = set()
    n = constructors(ctx, prog, visited)
    m = mappings(ctx, prog)
    w = warps(ctx, prog)
    control_points(ctx, prog)
    # every place that builds a projection was part of an analysed function
    sites = 0
    for p in prog.order:
        for b in prog.fns[p].blocks:
            for s in b["st"]:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], list) and PJ in s[2][1][:2]:
                    sites += 1
                    if p not in visited and p.split("::{")[0] not in visited and not any(v.split("::{")[0] == p.split("::{")[0] for v in visited):
                        ctx.excluded.append({"what": f"{p}: builds a projection", "why": "not reached from a function that returns one"})
    ctx.cov["construction_sites"] = sites
    ctx.cov["functions_returning_projections"] = n
    ctx.cov["mapping_functions"] = m
    ctx.cov["warp_paths"] = w
    ctx.cov["rule"] = "forward * backward = scalar matrix; matrices have the shape of their class; documented forward matrix; specialised mapping = general mapping"
    ctx.floor("functions returning projections", n, 8)
