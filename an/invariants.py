"""Invariants of the crate's own data types with private fields.

Each invariant is assumed of values that enter an analysed function from outside and is an obligation wherever the
crate builds a value of the type (struct expressions), and at the return of entry points that take the type by `&mut`.
"""
from lin import *
from vals import *
from models import INVARIANTS, AGG, U64, U32


# field names of u32 structs of dependencies
EXTERN = {"image::math::rect::Rect": ("x", "y", "width", "height")}


def field_index(ip, path, name):
    ad = ip.prog.adts.get(path)
    if not ad:
        ix = EXTERN.get(path, ()).index(name) if name in EXTERN.get(path, ()) else None
        return None if ix is None else (ix, ("uint", 32, "u32"))
    for i, f in enumerate(ad["vs"][0][1]):
        if f[0] == name:
            return i, ip.prog.rt(f[1], None)
    return None


class Missing(Exception):
    pass


class G:
    """field access on a value of an ADT, by field name"""

    def __init__(s, ip, st, path, v, args=()):
        s.ip, s.st, s.path, s.v = ip, st, path, v

    def raw(s, name):
        fi = field_index(s.ip, s.path, name)
        if fi is None:
            raise Missing(name)
        i, t = fi
        if isinstance(s.v, (St, list, tuple)):
            x = s.v.v[i] if isinstance(s.v, St) else s.v[i]
        elif isinstance(s.v, Ob):
            x = s.v.ov.get((0, i))
            if x is None:
                x = s.ip.mk(s.st, t, s.ip.ovname(s.v.id, (0, i)))
        else:
            raise Missing(name)
        return x

    def int(s, name):
        x = s.raw(name)
        if not isinstance(x, I):
            raise Missing(name)
        return x.l

    def seq(s, name):
        x = s.ip.deref_all(s.st, s.raw(name))
        n = s.ip.len_of(s.st, x)
        if n is None:
            raise Missing(name)
        return x, n

    def setov(s, name, val):
        i, _ = field_index(s.ip, s.path, name)
        s.v.ov[(0, i)] = val


def kernel(g):
    w, h = g.int("width"), g.int("height")
    _, n = g.seq("data")
    return [cge(w - 1), cge(h - 1), ceq(w * h - n)]


def rect(g):
    return [cge(g.int("width") - 1), cge(g.int("height") - 1)]


def elems_below(g, name, bound):
    x, _ = g.seq(name)
    if isinstance(x, Sq) and x.n.const() == 0:
        return []
    if isinstance(x, Sq) and x.el is not None:
        e = g.ip.inst(g.st, x, "inv:" + name)
        if isinstance(e, I):
            return [cge(e.l), cge(bound - e.l - 1)]
    return [FALSE]


def forest(g, assume=False):
    c = g.int("count")
    if assume:
        for nm, lo, hi in (("parent", 0, c - 1), ("tree_size", None, None)):
            t = S.new(f"{g.v.id}.{nm}[]", *U64)
            f = []
            if lo is not None:
                f = [V(t), hi - V(t)]
            g.setov(nm, Sq(c, I(V(t), U64), frozenset([t]), f, ty=("uint", 64), id=g.v.id + "." + nm))
        return [cge(L((1 << 31) - 1) - c)]
    _, n = g.seq("parent")
    _, m = g.seq("tree_size")
    return [ceq(n - c), ceq(m - c)] + elems_below(g, "parent", c)


def array3d(g):
    x, n = g.seq("data")
    ln = g.raw("lengths")
    ln = g.ip.deref_all(g.st, ln)
    ls = [g.ip.elem(g.st, ln, L(i), "inv.len") for i in range(3)]
    return [ceq(ls[0].l * ls[1].l * ls[2].l - n)]


SHAPES = {"TwoRegionHorizontal": (2, 1), "ThreeRegionHorizontal": (3, 1), "TwoRegionVertical": (1, 2), "ThreeRegionVertical": (1, 3), "FourRegion": (2, 2)}


def haar(g, assume=False):
    """the feature lies in a frame whose sides are u8"""
    bs = g.ip.deref_all(g.st, g.raw("block_size"))
    bp = bs.ty[1] if isinstance(bs, Ob) else bs.k[1]
    b = G(g.ip, g.st, bp, bs)
    w, h, x, y = b.int("width"), b.int("height"), g.int("left"), g.int("top")
    i, t = field_index(g.ip, g.path, "feature_type")
    vs = g.ip.prog.adts[t[1]]["vs"]
    def cond(vi):
        sh = SHAPES.get(vs[vi][0])
        if sh is None:
            raise Missing("variant " + vs[vi][0])
        return cand(cge(L(255) - x - w.scale(sh[0])), cge(L(255) - y - h.scale(sh[1])))
    if assume:
        d = V(S.new(f"{g.v.id}.type", 0, len(vs) - 1))
        g.setov("feature_type", En(t[1], {vi: () for vi in range(len(vs))}, {vi: cand(ceq(d - vi), cond(vi)) for vi in range(len(vs))}))
        return []
    en = g.ip.deref_all(g.st, g.raw("feature_type"))
    if isinstance(en, Ob):
        d = V(S.new(en.id + ".discr", 0, len(vs) - 1))
        return [cor(cnot(ceq(d - vi)), cond(vi)) for vi in range(len(vs))]
    if not isinstance(en, En):
        raise Missing("feature_type")
    return [cond(vi) if len(en.alts) == 1 or vi not in en.g else cor(cnot(en.g[vi]), cond(vi)) for vi in en.alts]


ALL = {
    "imageproc::haar::HaarFeature": haar,
    "imageproc::kernel::Kernel": kernel,
    "imageproc::rect::Rect": rect,
    "imageproc::union_find::DisjointSetForest": forest,
    "imageproc::hog::Array3d": array3d,
    "imageproc::hog::View3d": array3d,
}


def assume_inv(path, f):
    def a(ip, st, ob):
        if path not in ip.prog.adts:
            return
        g = G(ip, st, path, ob)
        try:
            cs = f(g, True) if f in (forest, haar) else f(g)
        except Missing as e:
            ip.missing.add(f"{path} (field {e})")
            return
        for c in cs:
            if c[0] == "ge":
                st.add(c[1])
            elif c[0] == "eq":
                st.add(c[1])
                st.add(-c[1])
    return a


def check_inv(ip, st, fr, path, v, line, where):
    f = ALL[path]
    try:
        cs = f(G(ip, st, path, v))
    except Missing as e:
        ip.missing.add(f"{path} (field {e})")
        cs = [FALSE]
    ip.oblige(st, fr, "inv", path.split("::")[-1], line, cs, fnp=None if fr else where)


def check_exit(ip, st, where, avs):
    """invariants of the entry's &mut parameters at its return"""
    fn = ip.prog.fns[where]
    for i, a in enumerate(avs):
        rt = ip.prog.rt(fn.locals[i + 1][0], None)
        if rt[0] == "ref" and rt[1] and rt[2][0] == "adt" and rt[2][1] in ALL:
            v = ip.deref_all(st, a)
            ip.fnstack = [where]
            check_inv(ip, st, None, rt[2][1], v, fn.line or 0, where)


def on_agg(path):
    def a(ip, fr, st, ak, vs, key, line, ty):
        if path in ip.prog.adts:
            check_inv(ip, st, fr, path, St(("adt", path), vs), line, None)
        return None
    return a


for _p, _f in ALL.items():
    INVARIANTS[_p] = assume_inv(_p, _f)
    AGG[_p] = on_agg(_p)
