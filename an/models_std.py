"""Standard library and image crate models (registered into models.TABLE)."""
from models import *
from models import m, C, TABLE, LOCAL, AGG, INVARIANTS, short, split, fresh, usz, some, ok, err, NONE, OPT, RES, U64, U32, OTHER, RANGE, MAXDIM, MAXLEN, fround, fcmp, fresh_f, float_bin, float_to_int, cmp_int, wrap_split, wrap_any, divrem, in_range
import os
from lin import *
from vals import *
from ir import PRIMS, tstr
import math


# ------------------------------------------------------------------ helpers
def callf(ip, fr, st, f, args, key, rty=OTHER):
    g = f
    n = 0
    while isinstance(g, Rf) and n < 8:
        h = ip.load(st, g.c, g.p, None, key)
        if isinstance(h, (Rf, Fd)) or isinstance(h, Ob):
            g = h
        else:
            break
        n += 1
    if isinstance(g, Fd):
        r = ip.call_closure(fr, st, g, args, key)
    elif isinstance(g, (Rf, St)):
        r = ip.call_closure(fr, st, g, args, key)
    else:
        r = None
    if r is None:
        st = st.copy()
        ip.havoc_args(st, args, None, key) if not isinstance(g, Ob) else None
        if rty == OTHER and isinstance(g, Ob):
            return [(st, Ob(key + ".call", OTHER))]
        return [(st, ip.mk(st, rty, key + ".call"))]
    return [x for x in r if not x[0].dead]


def elemref(r, pos):
    return Rf(r.c, r.p + (("e", pos),))


def newcell(st, key, v):
    st.cells[key] = v
    return Rf(key)


def opt_split(ip, st, v, key, p=OPT):
    """[(state, variant, payload)] of an Option/Result value"""
    if isinstance(v, Rf):
        v = ip.deref_all(st, v)
    if isinstance(v, En):
        r = []
        for vi, pl in v.alts.items():
            g = v.g.get(vi)
            for s in ([st.copy()] if g is None else ip.assume(st, g, True)):
                r.append((s, vi, pl[0] if pl else UNIT))
        return r
    if isinstance(v, Ob):
        d = V(S.new(v.id + ".discr", 0, 1))
        r = []
        ty = v.ty if v.ty[0] == "adt" and v.ty[2] else None
        isres = (ty and ty[1] == RES) or p == RES
        for vi in (0, 1):
            for s in ip.assume(st, ceq(d - vi)):
                if vi == 0 and not isres:
                    pl = UNIT
                else:
                    pt = ty[2][0 if not isres else vi] if ty and len(ty[2]) > (vi if isres else 0) else OTHER
                    nm = f"{v.id}.{'' if not vi else 'v%d.' % vi}0"
                    pl = v.ov.get((vi, 0))
                    if pl is None:
                        pl = ip.mk(s, pt, nm)
                r.append((s, vi, pl))
        return r
    return [(st.copy(), 0, Ob(key + ".p0", OTHER)), (st.copy(), 1, Ob(key + ".p1", OTHER))]


def b2opt(ip, st, cond, v):
    r = [(s, some(v)) for s in ip.assume(st, cond, True)]
    r += [(s, NONE) for s in ip.assume(st, cond, False)]
    return r


# ------------------------------------------------------------------ templates
def tmplify(ip, v, key, path, phis, stn=None):
    if isinstance(v, I):
        if v.l.const() is not None:
            return v
        r = v.r or (-INF, INF)
        s = S.new(f"{key}|{path}", r[0], r[1])
        phis.add(s)
        return I(V(s), v.r)
    if isinstance(v, Fl):
        if v.l is not None and v.l.const() is not None:
            return v
        s = S.new(f"{key}|{path}", -INF, INF, v.l is not None and v.l.allint())
        phis.add(s)
        return Fl(V(s), frozenset([f"{key}|{path}?nan"]) if v.nan else EMPTY, v.fin)
    if isinstance(v, Bo):
        if v.c in (TRUE, FALSE):
            return v
        return Bo(("unk", f"{key}|{path}"))
    if isinstance(v, St):
        return St(v.k, [tmplify(ip, x, key, f"{path}.{i}", phis) for i, x in enumerate(v.v)])
    if isinstance(v, En):
        return En(v.p, {vi: tuple(tmplify(ip, x, key, f"{path}.{vi}.{i}", phis) for i, x in enumerate(p)) for vi, p in v.alts.items()})
    if isinstance(v, Ob):
        return Ob(f"{key}|{path}", v.ty)
    if isinstance(v, Sq):
        n = v.n
        if n.const() is None and not rigid_lin(n):
            s = S.new(f"{key}|{path}.n", 0, MAXLEN * 4)
            phis.add(s)
            n = V(s)
        return Sq(n, v.el, v.ts, [f for f in v.tf if all(b in v.ts or rigid(b) for b in f.bases())], v.ty)
    if isinstance(v, Im):
        def d(x, nm):
            if x.const() is not None or rigid_lin(x):
                return x
            s = S.new(f"{key}|{path}.{nm}", 0, MAXDIM * 2)
            phis.add(s)
            return V(s)
        return Im(v.id, d(v.w, "w"), d(v.h, "h"), v.ty)
    return v


def rigid(s):
    n = S.name[s]
    return "~" not in n


def rigid_lin(l):
    return all(rigid(b) for b in l.bases())


def abstract_elems(ip, pairs, key, stable=None):
    """pairs: [(state, value)] -> (el, ts, tf)"""
    pairs = [(s, v) for s, v in pairs if not s.dead]
    if not pairs:
        return None, EMPTY, ()
    g = pairs[0][1]
    ctr = {"key": key, "phis": set(), "st": pairs[0][0], "load": lambda r: None}
    for s, v in pairs[1:]:
        g = ip.gen_value(g, v, "t", ctr)
    phis = set()
    g = tmplify(ip, g, key, "t", phis)
    ms = []
    for s, v in pairs:
        mm = {"%key": key}
        if not ip.match(g, v, mm, phis, s):
            return None, EMPTY, ()
        ms.append({k: x for k, x in mm.items() if not isinstance(k, str)})
    cands = {}
    for (s, v), mm in zip(pairs, ms):
        leaf = set()
        for l in mm.values():
            leaf |= l.bases()
        live = ip.live_syms(s)
        st_ = {x for x in live if rigid(x) and x not in leaf} | {x for x in leaf if rigid(x)}
        for c in ip.solve_cands(s, mm, st_, 60):
            cands[c] = None
        st2 = (stable if stable is not None else live - leaf)
        for c in ip.solve_cands(s, mm, st2, 60):
            cands[c] = None
        for phi, l in mm.items():
            if len(l.t) <= 3 and (stable is None or all(b in stable or rigid(b) for b in l.bases())):
                cands[norm(V(phi) - l)] = None
                cands[norm(l - V(phi))] = None
    for mm in ms:
        for c in ip.pair_cands(mm):
            cands[c] = None
    tf = []
    for c in cands:
        if len(tf) > 40:
            break
        if all(s.prove(c.subst(mm)) for (s, v), mm in zip(pairs, ms)):
            tf.append(c)
    return g, frozenset(phis), tuple(tf)


# ------------------------------------------------------------------ iterators
ITER = "core::iter::traits::iterator::Iterator"


def seq_ref(ip, st, r, key):
    """Rf to a sequence value -> (Rf, len) or None"""
    n = 0
    while isinstance(r, Rf) and n < 8:
        v = ip.load(st, r.c, r.p, None, key)
        if isinstance(v, Rf):
            r = v
        elif isinstance(v, Ob) and v.ty[0] in ("ref", "ptr"):
            r = ip.deref_ob(st, v)
        else:
            break
        n += 1
    if not isinstance(r, Rf):
        if isinstance(r, Ob) and r.ty[0] in ("ref", "ptr"):
            return seq_ref(ip, st, ip.deref_ob(st, r), key)
        return None
    v = ip.load(st, r.c, r.p, None, key)
    return r, v


def is_seq(ip, v):
    if isinstance(v, Sq) or (isinstance(v, St) and v.k[0] == "array"):
        return True
    if isinstance(v, Ob):
        t = v.ty
        if t[0] in ("slice", "array"):
            return True
        if t[0] == "adt" and t[1].split("::")[-1] in ("Vec", "VecDeque"):
            return True
    return False


def to_iter(ip, st, v, key):
    if isinstance(v, It):
        return v
    if isinstance(v, St) and v.k == RANGE:
        a, b = v.v
        if isinstance(a, I) and isinstance(b, I):
            return v
        return It("opaque", OTHER)
    if isinstance(v, St) and v.k[0] == "adt" and v.k[1].endswith("RangeFrom") and isinstance(v.v[0], I):
        r = v.v[0].r or U64
        return St(RANGE, [v.v[0], I(L(r[1]), r)])
    if isinstance(v, Rf) or (isinstance(v, Ob) and v.ty[0] == "ref"):
        q = seq_ref(ip, st, v, key)
        if q is not None:
            r, w = q
            if is_seq(ip, w):
                return It("slice", r, L(0), ip.len_of(st, w))
            if isinstance(w, (It,)) or (isinstance(w, St) and w.k == RANGE) or (isinstance(w, St) and w.k[0] == "adt"):
                return It("ref", r)
            if isinstance(w, Im) or (isinstance(w, Ob) and ip_is_img(w.ty)):
                return It("pix", w)
        return It("opaque", OTHER)
    if is_seq(ip, v):
        return It("own", v, L(0), ip.len_of(st, v))
    if isinstance(v, En) and v.p == OPT:
        return It("once", v)
    if isinstance(v, St) and v.k[0] == "adt":
        return v        # local iterator type
    return It("opaque", OTHER)


def ip_is_img(t):
    return t[0] == "adt" and t[1].endswith("ImageBuffer")


def local_next(ip, fr, st, v, key):
    for fn in ip.prog.impls.get((ITER, "next"), []):
        sp = ip.prog.rt(fn.d["self_ty"], None)
        if sp[0] == "adt" and sp[1] == v.k[1]:
            c = key + "#li"
            st = st.copy()
            st.cells[c] = v
            out = []
            for s, r in ip.run_fn(fn, [Rf(c)], st, key + ">next", {}, 0):
                nv = s.cells.get(c, v)
                for s2, vi, pl in opt_split(ip, s, r, key + ".on"):
                    out.append((s2, nv, pl if vi == 1 else None))
            return out
    st = st.copy()
    return [(st, v, Ob(key + ".li", OTHER)), (st.copy(), v, None)]


def pxty(t):
    return t[2][0] if t and t[0] == "adt" and t[2] else OTHER


def it_next(ip, fr, st, it, key):
    """[(state, iterator', item or None)]"""
    out = []
    if isinstance(it, Rf):
        return it_next(ip, fr, st, It("ref", it), key)
    if isinstance(it, St) and it.k == RANGE:
        a, b = it.v
        if not (isinstance(a, I) and isinstance(b, I)):
            return it_next(ip, fr, st, It("opaque", OTHER), key)
        for s in ip.assume(st, cge(b.l - a.l - 1)):
            out.append((s, St(RANGE, [I(a.l + 1, a.r), b]), I(a.l, a.r or b.r)))
        for s in ip.assume(st, cge(a.l - b.l)):
            out.append((s, it, None))
        return out
    if isinstance(it, St) and it.k[0] == "adt":
        return local_next(ip, fr, st, it, key)
    if not isinstance(it, It):
        it = to_iter(ip, st, it, key)
        if not isinstance(it, It):
            return it_next(ip, fr, st, it, key)
    k, v = it.k, it.v
    if k == "ref":
        r = v[0]
        inner = ip.load(st, r.c, r.p, None, key)
        for s, it2, item in it_next(ip, fr, st, inner, key + "r"):
            s = s.copy()
            ip.store(s, r.c, r.p, it2, key)
            out.append((s, it, item))
        return out
    if k in ("slice", "own"):
        base, pos, n = v
        for s in ip.assume(st, cge(n - pos - 1)):
            if k == "slice":
                item = elemref(base, pos)
            else:
                s = s.copy()
                item = ip.elem(s, base, pos, key + ".oe")
            out.append((s, It(k, base, pos + 1, n), item))
        for s in ip.assume(st, cge(pos - n)):
            out.append((s, it, None))
        return out
    if k == "rev":
        for s, it2, item in it_next_back(ip, fr, st, v[0], key):
            out.append((s, It("rev", it2), item))
        return out
    if k == "enum":
        for s, it2, item in it_next(ip, fr, st, v[0], key):
            if item is None:
                out.append((s, It("enum", it2, v[1]), None))
            else:
                out.append((s, It("enum", it2, v[1] + 1), St(("tuple",), [usz(v[1]), item])))
        return out
    if k == "zip":
        its = v
        cur = [(st, (), ())]
        for i, x in enumerate(its):
            nxt = []
            for s, done, items in cur:
                for s2, x2, item in it_next(ip, fr, s, x, f"{key}z{i}"):
                    if item is None:
                        out.append((s2, It("zip", *(done + (x2,) + tuple(its[i + 1:]))), None))
                    else:
                        nxt.append((s2, done + (x2,), items + (item,)))
            cur = nxt
        for s, done, items in cur:
            out.append((s, It("zip", *done), St(("tuple",), items)))
        return out
    if k == "map":
        for s, it2, item in it_next(ip, fr, st, v[0], key + "m"):
            if item is None:
                out.append((s, It("map", it2, v[1]), None))
            else:
                for s2, r in callf(ip, fr, s, v[1], [item], key + "mf"):
                    out.append((s2, It("map", it2, v[1]), r))
        return out
    if k == "copied":
        for s, it2, item in it_next(ip, fr, st, v[0], key):
            if item is not None and isinstance(item, Rf):
                s = s.copy()
                item = ip.load(s, item.c, item.p, None, key + ".cp")
            out.append((s, It("copied", it2), item))
        return out
    if k == "rangestep":
        a, b, step, r = v
        for s in ip.assume(st, cge(b - a - 1)):
            out.append((s, It("rangestep", a + step, b, step, r), I(a, r)))
        for s in ip.assume(st, cge(a - b)):
            out.append((s, it, None))
        return out
    if k == "take":
        for s in ip.assume(st, cge(-v[1])):
            out.append((s, it, None))
        for s in ip.assume(st, cge(v[1] - 1)):
            for s2, it2, item in it_next(ip, fr, s, v[0], key):
                out.append((s2, It("take", it2, v[1] - 1), item))
        return out
    if k == "windows":
        base, pos, size, n = v
        for s in ip.assume(st, cge(n - pos - size)):
            s = s.copy()
            r = subslice(ip, s, base, pos, size, key + ".win")
            out.append((s, It("windows", base, pos + 1, size, n), r))
        for s in ip.assume(st, cge(pos + size - n - 1)):
            out.append((s, it, None))
        return out
    if k == "chunks":
        base, pos, size, n = v
        # pos in elements; chunk length min(size, n-pos)
        for s in ip.assume(st, cge(n - pos - 1)):
            for s2 in ip.assume(s, cge(n - pos - size)):
                s2 = s2.copy()
                r = subslice(ip, s2, base, pos, size, key + ".chk")
                out.append((s2, It("chunks", base, pos + size, size, n), r))
            for s2 in ip.assume(s, cge(pos + size - n - 1)):
                # a short last chunk; impossible when n - pos is a multiple of size
                if multiple(n - pos, size):
                    continue
                s2 = s2.copy()
                r = subslice(ip, s2, base, pos, n - pos, key + ".chl")
                out.append((s2, It("chunks", base, n, size, n), r))
        for s in ip.assume(st, cge(pos - n)):
            out.append((s, it, None))
        return out
    if k == "xy":
        w, h = v
        s = st.copy()
        x, y = V(S.new(key + ".x", 0, MAXDIM)), V(S.new(key + ".y", 0, MAXDIM))
        s.add(w - x - 1)
        s.add(h - y - 1)
        if not s.dead:
            out.append((s, it, St(("tuple",), [I(x, U32), I(y, U32)])))
        out.append((st.copy(), it, None))
        return out
    if k in ("pix", "pixval"):
        w, h = ip.dims(st, v[0])
        s = st.copy()
        s.add(w - 1)
        s.add(h - 1)
        if not s.dead:
            px = Ob(key + ".px", pxty(v[0].ty))
            out.append((s, it, newcell(s, key + ".pxc", px) if k == "pix" else px))
        out.append((st.copy(), it, None))
        return out
    if k in ("enumpix", "enumpixval"):
        w, h = ip.dims(st, v[0])
        s = st.copy()
        x, y = V(S.new(key + ".x", 0, MAXDIM)), V(S.new(key + ".y", 0, MAXDIM))
        s.add(w - x - 1)
        s.add(h - y - 1)
        if not s.dead:
            px = Ob(key + ".px", pxty(v[0].ty))
            out.append((s, it, St(("tuple",), [I(x, U32), I(y, U32), newcell(s, key + ".pxc", px) if k == "enumpix" else px])))
        out.append((st.copy(), it, None))
        return out
    if k == "rows":
        img, pos = v
        w, h = ip.dims(st, img)
        for s in ip.assume(st, cge(h - pos - 1)):
            out.append((s, It("rows", img, pos + 1), It("rowpix", img, L(0))))
        for s in ip.assume(st, cge(pos - h)):
            out.append((s, it, None))
        return out
    if k == "rowpix":
        img, pos = v
        w, h = ip.dims(st, img)
        for s in ip.assume(st, cge(w - pos - 1)):
            s = s.copy()
            out.append((s, It("rowpix", img, pos + 1), newcell(s, key + ".pxc", Ob(key + ".px", pxty(img.ty)))))
        for s in ip.assume(st, cge(pos - w)):
            out.append((s, it, None))
        return out
    if k == "once":
        for s, vi, pl in opt_split(ip, st, v[0], key):
            out.append((s, It("once", NONE), pl if vi == 1 else None))
        return out
    if k == "chain":
        for s, it2, item in it_next(ip, fr, st, v[0], key + "a"):
            if item is not None:
                out.append((s, It("chain", it2, v[1]), item))
            else:
                for s2, it3, item2 in it_next(ip, fr, s, v[1], key + "b"):
                    out.append((s2, It("chain", it2, it3), item2))
        return out
    if k == "peekable":
        inner, pk = v
        if isinstance(pk, En) and 1 in pk.alts and len(pk.alts) == 1:
            p = pk.alts[1][0]
            for s, vi, pl in opt_split(ip, st, p, key):
                out.append((s, It("peekable", inner, NONE), pl if vi == 1 else None))
            return out
        for s, it2, item in it_next(ip, fr, st, inner, key):
            out.append((s, It("peekable", it2, NONE), item))
        return out
    if k == "filter":
        for s, it2, item in generic(ip, fr, st, v[0], key + "fl"):
            s = s.copy()
            r = newcell(s, key + "fi", item)
            for s2, c in callf(ip, fr, s, v[1], [r], key + "ff"):
                c = c.c if isinstance(c, Bo) else ("unk", key + "fc")
                for s3 in ip.assume(s2, c):
                    out.append((s3, It("filter", it2, v[1]), item))
        out.append((st.copy(), it_end(ip, st, it, key), None))
        return out
    if k == "filter_map":
        for s, it2, item in generic(ip, fr, st, v[0], key + "fl"):
            for s2, c in callf(ip, fr, s, v[1], [item], key + "ff"):
                for s3, vi, pl in opt_split(ip, s2, c, key):
                    if vi == 1:
                        out.append((s3, It("filter_map", it2, v[1]), pl))
        out.append((st.copy(), it_end(ip, st, it, key), None))
        return out
    if k == "flatmap":
        for s, it2, item in generic(ip, fr, st, v[0], key + "fm"):
            for s2, sub in callf(ip, fr, s, v[1], [item], key + "ff"):
                sub = to_iter(ip, s2, sub, key + "fs")
                for s3, sub2, x in generic(ip, fr, s2, sub, key + "fg"):
                    out.append((s3, it, x))
        out.append((st.copy(), it, None))
        return out
    if k == "cart":
        for s, _, a in generic(ip, fr, st, v[0], key + "ca"):
            for s2, _, b in generic(ip, fr, s, v[1], key + "cb"):
                out.append((s2, it, St(("tuple",), [a, b])))
        out.append((st.copy(), it, None))
        return out
    if k == "tuplewin":
        a, n = v
        cur = [(st, ())]
        for i in range(n):
            nx = []
            for s, items in cur:
                for s2, _, x in generic(ip, fr, s, a, f"{key}tw{i}"):
                    nx.append((s2, items + (x,)))
            cur = nx
        for s, items in cur:
            out.append((s, it, St(("tuple",), items)))
        out.append((st.copy(), it, None))
        return out
    if k == "skip_while" or k == "take_while":
        for s, _, a in generic(ip, fr, st, v[0], key + "ca"):
            out.append((s, it, a))
        out.append((st.copy(), it, None))
        return out
    if k == "successors":
        # current value, f
        cur, f = v
        for s, vi, pl in opt_split(ip, st, cur, key):
            if vi == 0:
                out.append((s, it, None))
                continue
            c = newcell(s, key + ".suc", pl)
            for s2, nx in callf(ip, fr, s, f, [c], key + "sf"):
                out.append((s2, It("successors", nx, f), pl))
        return out
    # opaque
    s = st.copy()
    ty = v[0] if v and isinstance(v[0], tuple) else OTHER
    out.append((s, it, ip.mk(s, ty, key + ".item")))
    out.append((st.copy(), it, None))
    return out


def multiple(n, size):
    """n is syntactically a multiple of size"""
    if n == size or (not n.t and n.c == 0):
        return True
    c = size.const()
    if c:
        return n.c % c == 0 and all(x % c == 0 for x in n.t.values())
    if len(size.t) == 1 and size.c == 0:
        (s, k), = size.t.items()
        if abs(k) != 1 or n.c:
            return False
        sb = S.base(s)
        for t in n.t:
            b = list(S.base(t))
            for x in sb:
                if x in b:
                    b.remove(x)
                else:
                    return False
        return True
    return False


def it_end(ip, st, it, key):
    return It("opaque", OTHER) if False else it


def it_next_back(ip, fr, st, it, key):
    out = []
    if isinstance(it, St) and it.k == RANGE:
        a, b = it.v
        for s in ip.assume(st, cge(b.l - a.l - 1)):
            out.append((s, St(RANGE, [a, I(b.l - 1, b.r)]), I(b.l - 1, a.r or b.r)))
        for s in ip.assume(st, cge(a.l - b.l)):
            out.append((s, it, None))
        return out
    if isinstance(it, It):
        k, v = it.k, it.v
        if k in ("slice", "own"):
            base, pos, n = v
            for s in ip.assume(st, cge(n - pos - 1)):
                if k == "slice":
                    item = elemref(base, n - 1)
                else:
                    s = s.copy()
                    item = ip.elem(s, base, n - 1, key + ".oe")
                out.append((s, It(k, base, pos, n - 1), item))
            for s in ip.assume(st, cge(pos - n)):
                out.append((s, it, None))
            return out
        if k == "map":
            for s, it2, item in it_next_back(ip, fr, st, v[0], key + "m"):
                if item is None:
                    out.append((s, It("map", it2, v[1]), None))
                else:
                    for s2, r in callf(ip, fr, s, v[1], [item], key + "mf"):
                        out.append((s2, It("map", it2, v[1]), r))
            return out
        if k == "copied":
            for s, it2, item in it_next_back(ip, fr, st, v[0], key):
                if item is not None and isinstance(item, Rf):
                    s = s.copy()
                    item = ip.load(s, item.c, item.p, None, key + ".cp")
                out.append((s, It("copied", it2), item))
            return out
        if k == "rev":
            for s, it2, item in it_next(ip, fr, st, v[0], key):
                out.append((s, It("rev", it2), item))
            return out
        if k == "enum":
            ln = it_len(ip, st, v[0], key)
            for s, n in ln:
                for s2, it2, item in it_next_back(ip, fr, s, v[0], key):
                    out.append((s2, It("enum", it2, v[1]), None if item is None else St(("tuple",), [usz(v[1] + n - 1), item])))
            return out
    out = []
    for s, it2, item in generic(ip, fr, st, it, key + "bk"):
        out.append((s, it, item))
    out.append((st.copy(), it, None))
    return out


def it_adv(ip, st, it, k, key):
    """iterator advanced by k items (k less than what remains)"""
    if isinstance(it, St) and it.k == RANGE:
        a, b = it.v
        return St(RANGE, [I(a.l + k, a.r), b])
    if isinstance(it, It):
        v = it.v
        if it.k in ("slice", "own"):
            return It(it.k, v[0], v[1] + k, v[2])
        if it.k == "enum":
            return It("enum", it_adv(ip, st, v[0], k, key), v[1] + k)
        if it.k == "zip":
            return It("zip", *[it_adv(ip, st, x, k, key) for x in v])
        if it.k in ("map", "filter"):
            return It(it.k, it_adv(ip, st, v[0], k, key), v[1])
        if it.k == "copied":
            return It("copied", it_adv(ip, st, v[0], k, key))
        if it.k == "rangestep":
            return It("rangestep", v[0] + v[2] * k, *v[1:])
        if it.k == "take":
            return It("take", it_adv(ip, st, v[0], k, key), v[1] - k)
        if it.k == "windows":
            return It("windows", v[0], v[1] + k, v[2], v[3])
        if it.k == "chunks":
            return It("chunks", v[0], v[1] + v[2] * k, v[2], v[3])
        if it.k in ("rows", "rowpix"):
            return It(it.k, v[0], v[1] + k)
        if it.k == "rev":
            w = v[0]
            if isinstance(w, St) and w.k == RANGE:
                a, b = w.v
                return It("rev", St(RANGE, [a, I(b.l - k, b.r)]))
            if isinstance(w, It) and w.k in ("slice", "own"):
                return It("rev", It(w.k, w.v[0], w.v[1], w.v[2] - k))
    return it


def generic(ip, fr, st, it, key):
    """[(state, iterator', item)] for an arbitrary remaining item"""
    st = st.copy()
    if isinstance(it, It) and it.k == "successors":
        s = st
        if isinstance(it.v[0], En):
            pl = it.v[0].alts.get(1)
            return [(s, it, ip.havoc(s, pl[0], key + ".sg"))] if pl else []
        return [(s, it, Ob(key + ".sg", OTHER))]
    if isinstance(it, St) and it.k[0] == "adt" and it.k != RANGE or (isinstance(it, It) and it.k in ("once", "chain", "peekable", "ref")):
        it2 = ip.havoc(st, it, key + ".hv") if not isinstance(it, It) else it
        return [(s, i2, x) for s, i2, x in it_next(ip, fr, st, it2, key) if x is not None]
    k = V(S.new(key + ".k", 0, MAXLEN))
    it2 = it_adv(ip, st, it, k, key)
    return [(s, i2, x) for s, i2, x in it_next(ip, fr, st, it2, key) if x is not None and not s.dead]


def it_len(ip, st, it, key):
    """[(state, Lin)]; Lin None when unknown"""
    if isinstance(it, St) and it.k == RANGE:
        a, b = it.v
        r = [(s, b.l - a.l) for s in ip.assume(st, cge(b.l - a.l))]
        r += [(s, L(0)) for s in ip.assume(st, cge(a.l - b.l - 1))]
        return r
    if isinstance(it, It):
        v = it.v
        if it.k in ("slice", "own"):
            return [(st, v[2] - v[1])]
        if it.k in ("enum", "map", "copied", "rev"):
            return it_len(ip, st, v[0], key)
        if it.k == "zip":
            cur = it_len(ip, st, v[0], key)
            for x in v[1:]:
                nx = []
                for s, n in cur:
                    for s2, n2 in it_len(ip, s, x, key):
                        if n is None or n2 is None:
                            nx.append((s2, None))
                        elif n == n2:
                            nx.append((s2, n))
                        else:
                            nx += [(s3, n) for s3 in ip.assume(s2, cge(n2 - n))]
                            nx += [(s3, n2) for s3 in ip.assume(s2, cge(n - n2 - 1))]
                cur = nx
            return cur
        if it.k == "rowpix":
            w, h = ip.dims(st, v[0])
            return [(st, w - v[1])]
        if it.k == "rows":
            w, h = ip.dims(st, v[0])
            return [(st, h - v[1])]
        if it.k in ("pix", "enumpix"):
            w, h = ip.dims(st, v[0])
            return [(st, w * h)]
        if it.k == "xy":
            return [(st, v[0] * v[1])]
        if it.k == "windows":
            r = [(s, v[3] - v[1] - v[2] + 1) for s in ip.assume(st, cge(v[3] - v[1] - v[2]))]
            r += [(s, L(0)) for s in ip.assume(st, cge(v[2] + v[1] - v[3] - 1))]
            return r
        if it.k == "chunks":
            if multiple(v[3] - v[1], v[2]):
                out = []
                for t, q, _ in divrem(ip, st, v[3] - v[1], v[2], False, key):
                    out.append((t, q))
                return out
            s = st.copy()
            n = V(S.new(key + ".nch", 0, MAXLEN))
            s.add(n * v[2] - (v[3] - v[1]))
            s.add((v[3] - v[1]) - (n - 1) * v[2] - 1)
            return [(s, n)]
        if it.k == "take":
            r = []
            for s, n in it_len(ip, st, v[0], key):
                if n is None:
                    r.append((s, None))
                else:
                    r += [(s2, v[1]) for s2 in ip.assume(s, cge(n - v[1]))]
                    r += [(s2, n) for s2 in ip.assume(s, cge(v[1] - n - 1))]
            return r
        if it.k == "rangestep":
            s = st.copy()
            a, b, step = v[0], v[1], v[2]
            r = [(x, L(0)) for x in ip.assume(st, cge(a - b))]
            for x in ip.assume(st, cge(b - a - 1)):
                x = x.copy()
                n = V(S.new(key + ".nst", 0, MAXLEN))
                x.add(n * step - (b - a))
                x.add((b - a) - (n - 1) * step - 1)
                r.append((x, n))
            return r
        if it.k == "cart":
            r = []
            for s, a in it_len(ip, st, v[0], key + "a"):
                for s2, b in it_len(ip, s, v[1], key + "b"):
                    r.append((s2, a * b if a is not None and b is not None else None))
            return r
    return [(st, None)]


def it_size(ip, fr, st, it, key):
    r = it_len(ip, st, it, key)
    out = []
    for s, n in r:
        if n is None:
            n = V(S.new(key + ".cnt", 0, MAXLEN))
        out.append((s, n))
    return out


def iterate(ip, fr, st, it, key, body):
    """body(state, item) -> [(state, tag)] with tag None to continue. Returns {None: [states], tag: [...]}"""
    E = st.copy()
    cell = key + "#it"
    E.cells[cell] = it

    def step(H):
        backs, exits = [], {}
        for s, it2, item in it_next(ip, fr, H, H.cells[cell], key + "n"):
            if s.dead:
                continue
            if item is None:
                exits.setdefault(None, []).append(s)
            else:
                s = s.copy()
                s.cells[cell] = it2
                for s2, tag in body(s, item):
                    if s2.dead:
                        continue
                    if tag is None:
                        backs.append(s2)
                    else:
                        exits.setdefault(tag, []).append(s2)
        if len(backs) > 8:
            backs = ip.reduce(ip.dedup(backs), key + "B", 4)
        return backs, exits
    outs = ip.loop_fix(E, key + "@it", step)
    res = {}
    for k, v in outs.items():
        if len(v) > 8:
            v = ip.reduce(ip.dedup(v), f"{key}X{k}", 4)
        for s in v:
            s.cells.pop(cell, None)
        res[k] = v
    return res


def itarg(c, i=0):
    return to_iter(c.ip, c.st, c.args[i], c.key + f".it{i}")


# ---- entry points
@m(ITER + "::next")
def _next(c):
    r = c.args[0]
    if not isinstance(r, Rf):
        r = c.ip.deref_ob(c.st, r) if isinstance(r, Ob) and r.ty[0] == "ref" else newcell(c.st, c.key + ".i", r)
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    while isinstance(v, Rf):
        r = v
        v = c.ip.load(c.st, r.c, r.p, None, c.key)
    if not isinstance(v, It):
        v = to_iter(c.ip, c.st, v, c.key)
    if isinstance(v, It) and v.k == "opaque" and c.dty[0] == "adt" and c.dty[2]:
        v = It("opaque", c.dty[2][0])
    out = []
    for s, it2, item in it_next(c.ip, c.fr, c.st, v, c.key):
        if s.dead:
            continue
        s = s.copy()
        c.ip.store(s, r.c, r.p, it2, c.key)
        if isinstance(item, Ob) and item.ty == OTHER and c.dty[0] == "adt" and c.dty[2]:
            item = c.ip.mk(s, c.dty[2][0], item.id)
        out.append((s, NONE if item is None else some(item)))
    return out


@m("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _next_back(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    out = []
    for s, it2, item in it_next_back(c.ip, c.fr, c.st, v, c.key):
        s = s.copy()
        c.ip.store(s, r.c, r.p, it2, c.key)
        out.append((s, NONE if item is None else some(item)))
    return out


@m("core::iter::traits::collect::IntoIterator::into_iter", "rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut",
   "rayon::iter::IntoParallelIterator::into_par_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
   "alloc::collections::vec_deque::VecDeque::<T, A>::iter", "itertools::Itertools::by_ref", ITER + "::by_ref",
   "core::option::Option::<T>::iter")
def _into_iter(c):
    it = itarg(c)
    if isinstance(it, It) and it.k == "opaque" and c.dty[0] != "adt":
        pass
    return c.ret(it)


def _adapter(kind, *names):
    @m(*names)
    def f(c):
        it = itarg(c)
        return c.ret(It(kind, it, *c.args[1:]))
    return f


_adapter("map", ITER + "::map", "rayon::iter::ParallelIterator::map")
_adapter("filter", ITER + "::filter", "rayon::iter::ParallelIterator::filter")
_adapter("filter_map", ITER + "::filter_map", "rayon::iter::ParallelIterator::filter_map")
_adapter("flatmap", ITER + "::flat_map", "rayon::iter::ParallelIterator::flat_map", "rayon::iter::ParallelIterator::flat_map_iter")
_adapter("rev", ITER + "::rev", "rayon::iter::IndexedParallelIterator::rev")
_adapter("copied", ITER + "::copied", ITER + "::cloned", "rayon::iter::ParallelIterator::copied")
_adapter("skip_while", ITER + "::skip_while")
_adapter("take_while", ITER + "::take_while")


@m(ITER + "::enumerate", "rayon::iter::IndexedParallelIterator::enumerate")
def _enumerate(c):
    return c.ret(It("enum", itarg(c), L(0)))


@m(ITER + "::peekable")
def _peekable(c):
    return c.ret(It("peekable", itarg(c), NONE))


@m("core::iter::adapters::peekable::Peekable::<I>::peek")
def _peek(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    if isinstance(v, It) and v.k == "peekable":
        inner, pk = v.v
        out = []
        if isinstance(pk, En) and 1 in pk.alts and len(pk.alts) == 1:
            for s, vi, pl in opt_split(c.ip, c.st, pk.alts[1][0], c.key):
                out.append((s, some(newcell(s, c.key + ".pk", pl)) if vi == 1 else NONE))
            return out
        for s, it2, item in it_next(c.ip, c.fr, c.st, inner, c.key):
            s = s.copy()
            o = NONE if item is None else some(item)
            c.ip.store(s, r.c, r.p, It("peekable", it2, some(o)), c.key)
            out.append((s, NONE if item is None else some(newcell(s, c.key + ".pk", item))))
        return out
    return c.fresh()


@m(ITER + "::zip", "itertools::Itertools::zip_eq", "rayon::iter::IndexedParallelIterator::zip")
def _zip(c):
    a = itarg(c)
    b = itarg(c, 1)
    if c.p.endswith("zip_eq"):
        for s, n in it_size(c.ip, c.fr, c.st, a, c.key + "za"):
            for s2, n2 in it_size(c.ip, c.fr, s, b, c.key + "zb"):
                c.oblige(s2, "panic", [ceq(n - n2)], "zip_eq")
    return c.ret(It("zip", a, b))


@m("itertools::ziptuple::multizip")
def _multizip(c):
    t = c.args[0]
    if isinstance(t, St):
        return c.ret(It("zip", *[to_iter(c.ip, c.st, x, c.key + f".{i}") for i, x in enumerate(t.v)]))
    return c.ret(It("opaque", OTHER))


@m("itertools::Itertools::cartesian_product")
def _cart(c):
    return c.ret(It("cart", itarg(c), itarg(c, 1)))


@m("itertools::Itertools::tuple_windows")
def _tw(c):
    return c.ret(It("tuplewin", itarg(c), 2))


@m(ITER + "::chain")
def _chain(c):
    return c.ret(It("chain", itarg(c), itarg(c, 1)))


@m(ITER + "::step_by")
def _step_by(c):
    it = itarg(c)
    n = c.args[1]
    if isinstance(n, I):
        c.oblige(c.st, "panic", [cge(n.l - 1)], "step_by")
        sts = c.ip.assume(c.st, cge(n.l - 1))
        if isinstance(it, St) and it.k == RANGE:
            a, b = it.v
            return [(s, It("rangestep", a.l, b.l, n.l, a.r)) for s in sts]
        return [(s, It("opaque", OTHER)) for s in sts]
    return c.ret(It("opaque", OTHER))


@m(ITER + "::skip")
def _skip(c):
    it = itarg(c)
    n = c.args[1]
    out = []
    if isinstance(n, I):
        for s, ln in it_len(c.ip, c.st, it, c.key):
            if ln is None:
                out.append((s, it_adv(c.ip, s, it, n.l, c.key)))
                continue
            for s2 in c.ip.assume(s, cge(ln - n.l)):
                out.append((s2, it_adv(c.ip, s2, it, n.l, c.key)))
            for s2 in c.ip.assume(s, cge(n.l - ln - 1)):
                out.append((s2, it_adv(c.ip, s2, it, ln, c.key)))
        return out
    return c.ret(It("opaque", OTHER))


@m(ITER + "::take")
def _take(c):
    n = c.args[1]
    return c.ret(It("take", itarg(c), n.l if isinstance(n, I) else V(S.new(c.key + ".n", 0, MAXLEN))))


@m("core::iter::sources::successors::successors")
def _succ(c):
    return c.ret(It("successors", c.args[0], c.args[1]))


@m("core::iter::sources::once::once")
def _once(c):
    return c.ret(It("once", some(c.args[0])))


@m(ITER + "::for_each", "rayon::iter::ParallelIterator::for_each")
def _for_each(c):
    it = itarg(c)
    f = c.args[1]
    if not isinstance(f, Rf):
        f = newcell(c.st, c.key + "#f", f)
    outs = iterate(c.ip, c.fr, c.st, it, c.key, lambda s, item: [(s2, None) for s2, _ in callf(c.ip, c.fr, s, f, [item], c.key + "f")])
    return [(s, UNIT) for s in outs.get(None, [])]


@m(ITER + "::fold")
def _fold(c):
    it = itarg(c)
    acc = c.key + "#acc"
    f = newcell(c.st, c.key + "#f", c.args[2]) if not isinstance(c.args[2], Rf) else c.args[2]
    st = c.st.copy()
    st.cells[acc] = c.args[1]

    def body(s, item):
        r = []
        for s2, v in callf(c.ip, c.fr, s, f, [s.cells[acc], item], c.key + "f"):
            s2 = s2.copy()
            s2.cells[acc] = v
            r.append((s2, None))
        return r
    outs = iterate(c.ip, c.fr, st, it, c.key, body)
    return [(s, s.cells.pop(acc, UNIT)) for s in outs.get(None, [])]


@m(ITER + "::reduce")
def _reduce(c):
    it = itarg(c)
    acc = c.key + "#acc"
    f = newcell(c.st, c.key + "#f", c.args[1]) if not isinstance(c.args[1], Rf) else c.args[1]
    out = []
    for s, it2, item in it_next(c.ip, c.fr, c.st, it, c.key + "r0"):
        if item is None:
            out.append((s, NONE))
            continue
        s = s.copy()
        s.cells[acc] = item

        def body(s, item):
            r = []
            for s2, v in callf(c.ip, c.fr, s, f, [s.cells[acc], item], c.key + "f"):
                s2 = s2.copy()
                s2.cells[acc] = v
                r.append((s2, None))
            return r
        outs = iterate(c.ip, c.fr, s, it2, c.key, body)
        out += [(q, some(q.cells.pop(acc, UNIT))) for q in outs.get(None, [])]
    return out


def elemty(t):
    return t[2][0] if t and t[0] == "adt" and t[2] else OTHER


@m(ITER + "::collect", "itertools::Itertools::collect_vec", "rayon::iter::ParallelIterator::collect", "alloc::vec::Vec::<T>::from_iter", "core::iter::traits::collect::FromIterator::from_iter")
def _collect(c):
    it = itarg(c)
    items = []

    def body(s, item):
        items.append((s, item))
        return [(s, None)]
    lens = it_size(c.ip, c.fr, c.st, it, c.key + "L")
    out = []
    for n_, (s0, ln) in enumerate(lens):
        del items[:]
        got = []

        def body(s, item):
            got.append((s, item))
            return [(s, None)]
        # the last fixpoint round leaves its items in `got`
        E = s0.copy()
        marks = []

        def wrapped(s, item):
            return body(s, item)
        outs = iterate_marked(c.ip, c.fr, E, it, f"{c.key}c{n_}", wrapped, got)
        vec = c.dty[0] == "adt" and c.dty[1].split("::")[-1] in ("Vec", "VecDeque")
        for s in outs.get(None, []):
            if vec:
                el, ts, tf = abstract_elems(c.ip, got, f"{c.key}c{n_}e", c.ip.live_syms(s0))
                out.append((s, Sq(ln, el, ts, tf, elemty(c.dty))))
            else:
                out.append((s, c.ip.mk(s, c.dty, c.key + ".col")))
    return out


def iterate_marked(ip, fr, st, it, key, body, got):
    E = st.copy()
    cell = key + "#it"
    E.cells[cell] = it

    def step(H):
        del got[:]
        backs, exits = [], {}
        for s, it2, item in it_next(ip, fr, H, H.cells[cell], key + "n"):
            if s.dead:
                continue
            if item is None:
                exits.setdefault(None, []).append(s)
            else:
                s = s.copy()
                s.cells[cell] = it2
                for s2, tag in body(s, item):
                    if not s2.dead:
                        backs.append(s2)
        if len(backs) > 8:
            backs = ip.reduce(ip.dedup(backs), key + "B", 4)
        return backs, exits
    outs = ip.loop_fix(E, key + "@it", step)
    for v in outs.values():
        for s in v:
            s.cells.pop(cell, None)
    return outs


def _run_through(c, it, tag="x"):
    outs = iterate(c.ip, c.fr, c.st, it, c.key + tag, lambda s, item: [(s, None)])
    return outs.get(None, [])


@m(ITER + "::sum", ITER + "::product", "rayon::iter::ParallelIterator::sum")
def _sum(c):
    it = itarg(c)
    acc = c.key + "#acc"
    t = c.dty
    st = c.st.copy()
    prod = c.p.endswith("product")
    if t[0] in ("int", "uint"):
        from interp import rng
        st.cells[acc] = I(L(1 if prod else 0), rng(t))
    elif t[0] == "float":
        st.cells[acc] = Fl(L(1 if prod else 0), EMPTY, True)
    else:
        st.cells[acc] = Ob(acc, t)

    def body(s, item):
        v = c.ip.deref_all(s, item)
        a = s.cells[acc]
        s = s.copy()
        if isinstance(a, I) and isinstance(v, I):
            l = a.l * v.l if prod else a.l + v.l
            r = []
            if c.ip.mode != "release":
                c.oblige(s, "overflow", [cge(l - a.r[0]), cge(L(a.r[1]) - l)], "sum")
            for s2, x, _ in (wrap_any if prod else wrap_split)(c.ip, s, l, a.r, c.key + "s"):
                s2 = s2.copy()
                s2.cells[acc] = I(x, a.r)
                r.append((s2, None))
            return r
        if isinstance(a, Fl) and isinstance(v, Fl):
            r = []
            for s2, x in float_bin(c.ip, c.fr, s, "Mul" if prod else "Add", a, v, t[1], c.key + "s"):
                s2.cells[acc] = x
                r.append((s2, None))
            return r
        s.cells[acc] = c.ip.havoc(s, a, c.key + ".sh") if isinstance(a, (I, Fl)) else a
        return [(s, None)]
    outs = iterate(c.ip, c.fr, st, it, c.key, body)
    return [(s, s.cells.pop(acc)) for s in outs.get(None, [])]


def expand(ip, st, v, depth=3):
    """a struct of opaque contents as explicit fields, or None if it has other parts than numbers and tuples"""
    if isinstance(v, (I, Fl)):
        return v
    if isinstance(v, St) and v.k[0] in ("tuple", "adt"):
        xs = [expand(ip, st, x, depth) for x in v.v]
        return None if None in xs else St(v.k, xs)
    if isinstance(v, Ob) and v.ty[0] == "adt" and depth and not v.ov:
        ad = ip.prog.adts.get(v.ty[1])
        if not ad or len(ad["vs"]) != 1 or len(v.ty[2]) > 1:
            return None
        env = {n: v.ty[2][0] for n in ("T", "P", "C", "S")} if v.ty[2] else None
        xs = []
        for i, f in enumerate(ad["vs"][0][1]):
            t = ip.prog.rt(f[1], env)
            if t[0] not in ("int", "uint", "float", "adt"):
                return None
            xs.append(expand(ip, st, ip.mk(st, t, ip.ovname(v.id, (0, i))), depth - 1))
        return None if None in xs else St(("adt", v.ty[1]), xs)
    return None


def refine_elems(c, st, it, f, byref, keep):
    """every element of an immutable slice failed (keep False) / passed (keep True) the predicate: the slice with the facts
    that hold of such elements as (reference, value), or None"""
    ip = c.ip
    while isinstance(it, It) and it.k == "ref" and isinstance(it.v[0], Rf):
        it = ip.load(st, it.v[0].c, it.v[0].p, None, c.key)
    if not (isinstance(it, It) and it.k == "slice" and it.v[1] == L(0)):
        return None
    base = it.v[0]
    v = ip.load(st, base.c, base.p, None, c.key)
    if not (isinstance(v, (Ob, Sq)) and is_seq(ip, v)):
        return None
    n = ip.len_of(st, v)
    if n is None or it.v[2] != n:
        return None
    s = st.copy()
    el = expand(ip, s, ip.elem(s, v, None, c.key + ".re"))
    if el is None:
        return None
    arg = newcell(s, c.key + ".rc", el)
    if byref:
        arg = newcell(s, c.key + ".rd", arg)
    pairs = []
    nobl = len(ip.obl)
    for s2, r in callf(ip, c.fr, s, f, [arg], c.key + "rf", ("bool",)):
        cc = r.c if isinstance(r, Bo) else ("unk", c.key + ".c")
        for q in ip.assume(s2, cc, keep):
            if not q.dead and not q.infeasible():
                pairs.append((q, el))
        # a predicate that changes its surroundings says nothing about other elements
        if any(k in s.cells and not (w is s.cells[k] or w == s.cells[k]) for k, w in s2.cells.items()):
            return None
        if len(pairs) > 8:
            return None
    del ip.obl[nobl:]
    if not pairs:
        return None
    g, ts, tf = abstract_elems(ip, pairs, c.key + "re")
    tf = [x for x in tf if all(b in ts or rigid(b) for b in x.bases())]
    if g is None or not tf:
        return None
    return base, Sq(n, g, ts, tf, v.ty if isinstance(v, Sq) else ip.elem_ty(v))


def loop_refinement(ip, fr, head, body, E, H, local):
    """the slice a loop runs over, with what holds of every element for which the body reaches the next round"""
    cell = fr.cell(local)
    if cell not in E.cells or cell not in H.cells:
        return None
    it, wrap = E.cells[cell], []
    while isinstance(it, It) and it.k in ("enum", "copied"):
        it = it.v[0]
    if not (isinstance(it, It) and it.k == "slice" and it.v[1] == L(0)):
        return None
    base = it.v[0]
    key = f"{fr.cs}@R{head}"
    v = ip.load(E, base.c, base.p, None, key)
    if not (isinstance(v, (Ob, Sq)) and is_seq(ip, v)):
        return None
    n = ip.len_of(E, v)
    if n is None or it.v[2] != n:
        return None
    s = H.copy()
    if ip.load(s, base.c, base.p, None, key) != v:
        return None
    el = expand(ip, s, ip.elem(s, v, None, key + ".re"))
    if el is None:
        return None
    arg = newcell(s, key + ".rc", el)

    def sub(w):
        if w.k in ("enum", "copied"):
            return It(w.k, sub(w.v[0]), *w.v[1:])
        return It("once", some(arg))
    s.cells[cell] = sub(H.cells[cell])
    nobl, npan = len(ip.obl), len(ip.panics)
    backs = ip.exec_region(fr, head, [s], (head, body)).get("back", [])
    del ip.obl[nobl:]
    del ip.panics[npan:]
    pairs = [(q, el) for q in ip.dedup(backs) if not q.infeasible()]
    if not pairs or len(pairs) > 8:
        return None
    g, ts, tf = abstract_elems(ip, pairs, key + "re")
    tf = [x for x in tf if all(b in ts or rigid(b) for b in x.bases())]
    if g is None or not tf:
        return None
    return base, Sq(n, g, ts, tf, v.ty if isinstance(v, Sq) else ip.elem_ty(v))


def apply_refined(ip, s, rf):
    if rf is not None:
        s = s.copy()
        ip.store(s, rf[0].c, rf[0].p, rf[1], "~refine")
    return s


@m(ITER + "::all", ITER + "::any")
def _all(c):
    r = c.args[0]
    it = It("ref", r) if isinstance(r, Rf) else itarg(c)
    f = newcell(c.st, c.key + "#f", c.args[1]) if not isinstance(c.args[1], Rf) else c.args[1]
    want = c.p.endswith("all")

    def body(s, item):
        out = []
        for s2, v in callf(c.ip, c.fr, s, f, [item], c.key + "f", ("bool",)):
            cc = v.c if isinstance(v, Bo) else ("unk", c.key + ".c")
            out += [(q, None) for q in c.ip.assume(s2, cc, want)]
            out += [(q, "stop") for q in c.ip.assume(s2, cc, not want)]
        return out
    rf = refine_elems(c, c.st, it, f, False, want)
    outs = iterate(c.ip, c.fr, c.st, it, c.key, body)
    res = [(apply_refined(c.ip, s, rf), Bo(TRUE if want else FALSE)) for s in outs.get(None, [])]
    res += [(s, Bo(FALSE if want else TRUE)) for s in outs.get("stop", [])]
    return res


@m(ITER + "::find", ITER + "::find_map", ITER + "::position")
def _find(c):
    r = c.args[0]
    it = It("ref", r) if isinstance(r, Rf) else itarg(c)
    f = newcell(c.st, c.key + "#f", c.args[1]) if not isinstance(c.args[1], Rf) else c.args[1]
    nm = c.p.split("::")[-1]
    res_cell = c.key + "#res"
    cnt = c.key + "#cnt"
    st = c.st.copy()
    st.cells[cnt] = usz(L(0))

    def body(s, item):
        out = []
        arg = item
        if nm == "find":
            s = s.copy()
            arg = newcell(s, c.key + ".fi", item)
        for s2, v in callf(c.ip, c.fr, s, f, [arg], c.key + "f"):
            if nm == "find_map":
                for s3, vi, pl in opt_split(c.ip, s2, v, c.key):
                    if vi == 1:
                        s3.cells[res_cell] = pl
                        out.append((s3, "stop"))
                    else:
                        out.append((s3, None))
                continue
            cc = v.c if isinstance(v, Bo) else ("unk", c.key + ".c")
            for q in c.ip.assume(s2, cc, True):
                q = q.copy()
                q.cells[res_cell] = item if nm == "find" else q.cells[cnt]
                out.append((q, "stop"))
            for q in c.ip.assume(s2, cc, False):
                q = q.copy()
                q.cells[cnt] = usz(q.cells[cnt].l + 1)
                out.append((q, None))
        return out
    if nm == "position":
        # keep the count below the length
        pass
    rf = refine_elems(c, st, it, f, nm == "find", False) if nm != "find_map" else None
    outs = iterate(c.ip, c.fr, st, it, c.key, body)
    res = [(apply_refined(c.ip, s, rf), NONE) for s in outs.get(None, [])]
    res += [(s, some(s.cells.pop(res_cell))) for s in outs.get("stop", [])]
    return res


@m(ITER + "::count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _count(c):
    it = itarg(c)
    if c.p.endswith("::len"):
        it2 = it
        if isinstance(it, It) and it.k == "ref":
            it2 = c.ip.load(c.st, it.v[0].c, it.v[0].p, None, c.key)
        return [(s, usz(n)) for s, n in it_size(c.ip, c.fr, c.st, it2, c.key)]
    out = []
    for s in _run_through(c, it):
        for s2, n in it_size(c.ip, c.fr, s, it, c.key + "L"):
            out.append((s2, usz(n)))
    return out


@m(ITER + "::max", ITER + "::min", ITER + "::last", ITER + "::max_by", ITER + "::min_by", ITER + "::max_by_key", ITER + "::min_by_key", ITER + "::nth")
def _max(c):
    it = itarg(c)
    out = []
    for s, _, item in generic(c.ip, c.fr, c.st, it, c.key + "g"):
        out.append((s, some(item)))
    ln = it_len(c.ip, c.st, it, c.key + "L")
    for s, n in ln:
        if n is None:
            out.append((s.copy(), NONE))
        else:
            for s2 in c.ip.assume(s, cge(-n)):
                out.append((s2, NONE))
    return out


@m("core::iter::traits::collect::Extend::extend")
def _extend(c):
    r = c.args[0]
    it = itarg(c, 1)
    got = []
    outs = iterate_marked(c.ip, c.fr, c.st, it, c.key, lambda s, i: (got.append((s, i)), [(s, None)])[1], got)
    res = []
    for s in outs.get(None, []):
        s = s.copy()
        v = c.ip.load(s, r.c, r.p, None, c.key)
        n0 = c.ip.len_of(s, v)
        for s2, n in it_size(c.ip, c.fr, s, it, c.key + "L"):
            s2 = s2.copy()
            el = None, EMPTY, ()
            if isinstance(v, Sq) and n0 is not None and n0.const() == 0:
                el = abstract_elems(c.ip, got, c.key + "e", c.ip.live_syms(c.st))
            c.ip.store(s2, r.c, r.p, Sq((n0 if n0 is not None else L(0)) + n, el[0], el[1], el[2], v.ty if isinstance(v, Sq) else c.ip.elem_ty(v)), c.key)
            res.append((s2, UNIT))
    return res


@m("core::slice::<impl [T]>::windows")
def _windows(c):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    n = c.args[1]
    if q and isinstance(n, I):
        c.oblige(c.st, "panic", [cge(n.l - 1)], "windows")
        return [(s, It("windows", q[0], L(0), n.l, c.ip.len_of(s, q[1]) or V(S.new(c.key + ".len", 0, MAXLEN)))) for s in c.ip.assume(c.st, cge(n.l - 1))]
    return c.ret(It("opaque", OTHER))


@m("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_mut", "rayon::slice::ParallelSliceMut::par_chunks_mut", "rayon::slice::ParallelSlice::par_chunks", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks_exact_mut")
def _chunks(c):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    n = c.args[1]
    if q and isinstance(n, I):
        c.oblige(c.st, "panic", [cge(n.l - 1)], "chunks")
        return [(s, It("chunks", q[0], L(0), n.l, c.ip.len_of(s, q[1]) or V(S.new(c.key + ".len", 0, MAXLEN)))) for s in c.ip.assume(c.st, cge(n.l - 1))]
    return c.ret(It("opaque", OTHER))


# ------------------------------------------------------------------ sequences
def subslice(ip, st, base, start, n, key):
    """reference to base[start..start+n]"""
    v = ip.load(st, base.c, base.p, None, key)
    if isinstance(v, Sq):
        w = Sq(n, v.el, v.ts, v.tf, v.ty)
    elif isinstance(v, St) and v.k[0] == "array":
        a, b = start.const(), n.const()
        if a is not None and b is not None and 0 <= a and a + b <= len(v.v):
            w = St(("array",), v.v[a:a + b])
        elif v.v:
            el, ts, tf = abstract_elems(ip, [(st, x) for x in v.v], key + "e") if len(v.v) <= 64 else (None, EMPTY, ())
            w = Sq(n, el, ts, tf)
        else:
            w = Sq(n)
    else:
        w = Sq(n, None, ty=ip.elem_ty(v))
    st.cells[key] = w
    return Rf(key)


def weaken_seq(ip, st, base, key):
    v = ip.load(st, base.c, base.p, None, key)
    if isinstance(v, Sq) and v.el is not None:
        ip.store(st, base.c, base.p, Sq(v.n, None, ty=v.ty or elty_of(ip, v)), key)
    elif isinstance(v, St) and v.k[0] == "array":
        ip.store(st, base.c, base.p, Sq(L(len(v.v))), key)


def elty_of(ip, v):
    e = v.el
    if isinstance(e, I) and e.r:
        return ip.ty_of(e)
    return None


def bounds_of_range(ip, st, ix, n):
    """(start, end) Lin of a range index over length n"""
    if isinstance(ix, St) and ix.k[0] == "adt":
        nm = ix.k[1].split("::")[-1]
        ls = [x.l if isinstance(x, I) else None for x in ix.v]
        if nm == "Range":
            return ls[0], ls[1]
        if nm == "RangeFrom":
            return ls[0], n
        if nm == "RangeTo":
            return L(0), ls[0]
        if nm == "RangeToInclusive":
            return L(0), ls[0] + 1 if ls[0] is not None else None
        if nm == "RangeFull":
            return L(0), n
    if isinstance(ix, It) and ix.k == "rangeinc":
        return ix.v[0], ix.v[1]
    return None


def do_index(c, kind, mut):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    ix = c.args[1]
    if q is None:
        return c.fresh()
    base, v = q
    n = c.ip.len_of(c.st, v)
    if n is None:
        c.ip.unmodelled["len:" + c.rp] = 1
        if isinstance(ix, I):
            return c.ret(elemref(base, ix.l))
        return c.fresh()
    if isinstance(ix, I):
        c.oblige(c.st, kind, [cge(n - ix.l - 1)])
        return [(s, elemref(base, ix.l)) for s in c.ip.assume(c.st, cge(n - ix.l - 1))]
    if isinstance(ix, St) and ix.k == RANGE or bounds_of_range(c.ip, c.st, ix, n) is not None:
        a, b = bounds_of_range(c.ip, c.st, ix, n)
        if a is None or b is None:
            return c.fresh()
        c.oblige(c.st, "slice" if kind == "index" else kind, [cge(b - a), cge(n - b)])
        out = []
        for s in c.ip.assume(c.st, cge(b - a)):
            for s2 in c.ip.assume(s, cge(n - b)):
                s2 = s2.copy()
                r = subslice(c.ip, s2, base, a, b - a, c.key + ".sub")
                if mut:
                    weaken_seq(c.ip, s2, base, c.key)
                out.append((s2, r))
        return out
    if isinstance(ix, It) or isinstance(ix, Ob):
        c.ip.unmodelled["indexrange"] = 1
        return c.fresh()
    return c.fresh()


@m("<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "<alloc::collections::vec_deque::VecDeque<T, A> as core::ops::index::Index<usize>>::index",
   "core::array::<impl core::ops::index::Index<I> for [T; N]>::index")
def _index(c):
    return do_index(c, "index", False)


@m("<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut", "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut")
def _index_mut(c):
    return do_index(c, "index", True)


@m("core::slice::<impl [T]>::get_unchecked")
def _get_unchecked(c):
    return do_index(c, "unsafe", False)


@m("core::slice::<impl [T]>::get_unchecked_mut")
def _get_unchecked_mut(c):
    return do_index(c, "unsafe", True)


@m("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _get(c):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    ix = c.args[1]
    if q is None or not isinstance(ix, I):
        return c.fresh()
    n = c.ip.len_of(c.st, q[1])
    if n is None:
        return c.fresh()
    return b2opt(c.ip, c.st, cge(n - ix.l - 1), elemref(q[0], ix.l))


@m("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len", "alloc::collections::vec_deque::VecDeque::<T, A>::len")
def _len(c):
    v = c.v(0)
    n = c.ip.len_of(c.st, v)
    if n is None:
        return c.fresh()
    return c.ret(usz(n))


@m("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::<T, A>::is_empty")
def _is_empty(c):
    n = c.ip.len_of(c.st, c.v(0))
    if n is None:
        return c.fresh()
    return c.ret(Bo(ceq(n)))


@m("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "<alloc::vec::Vec<T> as core::default::Default>::default")
def _vec_new(c):
    return c.ret(Sq(L(0), None, ty=elemty(c.dty)))


@m("alloc::vec::from_elem")
def _from_elem(c):
    n = c.args[1]
    if not isinstance(n, I):
        return c.fresh()
    el, ts, tf = abstract_elems(c.ip, [(c.st, c.args[0])], c.key + "e")
    return c.ret(Sq(n.l, el, ts, tf, elemty(c.dty)))


@m("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
def _push(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.ip.load(st, r.c, r.p, None, c.key)
    if isinstance(v, Rf):
        r = v
        v = c.ip.load(st, r.c, r.p, None, c.key)
    x = c.args[1]
    if isinstance(v, Sq):
        if v.n.const() == 0:
            el, ts, tf = abstract_elems(c.ip, [(st, x)], c.key + "e")
        elif v.el is None:
            el, ts, tf = None, EMPTY, ()
        else:
            el, ts, tf = c.ip.tmpl_join(st, v, x, c.key)
        nv = Sq(v.n + 1, el, ts, tf, v.ty, v.id)
    else:
        n = c.ip.len_of(st, v)
        nv = Sq((n if n is not None else V(S.new(c.key + ".len", 0, MAXLEN))) + 1, None, ty=c.ip.elem_ty(v) if isinstance(v, (Ob, Im)) else None)
    c.ip.store(st, r.c, r.p, nv, c.key)
    return [(st, UNIT)]


@m("alloc::vec::Vec::<T, A>::pop", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_front", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_back")
def _pop(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    n = c.ip.len_of(c.st, v)
    if n is None:
        return c.fresh()
    out = []
    for s in c.ip.assume(c.st, cge(n - 1)):
        s = s.copy()
        x = c.ip.elem(s, v, n - 1, c.key + ".pop")
        if isinstance(x, Ob) and x.ty == OTHER and c.dty[0] == "adt" and c.dty[2]:
            x = c.ip.mk(s, c.dty[2][0], c.key + ".popv")
        nv = Sq(n - 1, v.el, v.ts, v.tf, v.ty) if isinstance(v, Sq) else Sq(n - 1, None, ty=c.ip.elem_ty(v))
        c.ip.store(s, r.c, r.p, nv, c.key)
        out.append((s, some(x)))
    for s in c.ip.assume(c.st, cge(-n)):
        out.append((s, NONE))
    return out


@m("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def _remove(c):
    r = c.args[0]
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    n = c.ip.len_of(c.st, v)
    ix = c.args[1]
    if n is None or not isinstance(ix, I):
        return c.fresh()
    c.oblige(c.st, "index", [cge(n - ix.l - 1)], "remove")
    out = []
    for s in c.ip.assume(c.st, cge(n - ix.l - 1)):
        s = s.copy()
        x = c.ip.elem(s, v, ix.l, c.key + ".rm")
        nv = Sq(n - 1, v.el, v.ts, v.tf, v.ty) if isinstance(v, Sq) else Sq(n - 1, None, ty=c.ip.elem_ty(v))
        c.ip.store(s, r.c, r.p, nv, c.key)
        out.append((s, x))
    return out


@m("alloc::vec::Vec::<T, A>::clear")
def _clear(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.ip.load(st, r.c, r.p, None, c.key)
    c.ip.store(st, r.c, r.p, Sq(L(0), None, ty=v.ty if isinstance(v, Sq) else None), c.key)
    return [(st, UNIT)]


@m("alloc::vec::Vec::<T, A>::dedup", "alloc::vec::Vec::<T, A>::dedup_by_key", "alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T, A>::truncate")
def _dedup(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.ip.load(st, r.c, r.p, None, c.key)
    n = c.ip.len_of(st, v)
    x = V(S.new(c.key + ".dd", 0, MAXLEN))
    if n is not None:
        st.add(n - x)
        if c.p.endswith("dedup"):
            # non-empty stays non-empty
            outs = []
            for s in c.ip.assume(st, cge(n - 1)):
                s.add(x - 1)
                outs.append(s)
            outs += c.ip.assume(st, cge(-n))
        else:
            outs = [st]
    else:
        outs = [st]
    res = []
    for s in outs:
        c.ip.store(s, r.c, r.p, Sq(x, v.el, v.ts, v.tf, v.ty) if isinstance(v, Sq) else Sq(x), c.key)
        res.append((s, UNIT))
    return res


@m("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
def _extend_from_slice(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.ip.load(st, r.c, r.p, None, c.key)
    w = c.v(1)
    n, k = c.ip.len_of(st, v), c.ip.len_of(st, w)
    if n is None or k is None:
        c.ip.havoc_args(st, [r], None, c.key)
        return [(st, UNIT)]
    el = (None, EMPTY, ())
    if isinstance(v, Sq) and isinstance(w, Sq):
        if n.const() == 0:
            el = (w.el, w.ts, w.tf)
    c.ip.store(st, r.c, r.p, Sq(n + k, *el, v.ty if isinstance(v, Sq) else None), c.key)
    return [(st, UNIT)]


@m("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut", "<[T] as core::convert::AsMut<[T]>>::as_mut",
   "<[T] as core::convert::AsRef<[T]>>::as_ref", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "<alloc::borrow::Cow<'_, B> as core::ops::deref::Deref>::deref",
   "<alloc::borrow::Cow<'_, T> as core::convert::AsRef<T>>::as_ref", "<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref", "<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref",
   "core::borrow::Borrow::borrow", "core::hint::must_use", "core::hint::black_box", "<alloc::collections::vec_deque::VecDeque<T, A> as core::convert::From<alloc::vec::Vec<T, A>>>::from",
   "<I as core::iter::traits::collect::IntoIterator>::into_iter_id")
def _same(c):
    a = c.args[0]
    v = c.ip.deref_all(c.st, a)
    if isinstance(v, Ob) and v.ty[0] == "adt" and v.ty[1].split("::")[-1] == "Cow":
        inner = v.ty[2][-1] if v.ty[2] else OTHER
        if inner[0] == "const":
            inner = OTHER
        x = c.ip.mk(c.st, inner, v.id + ".cow")
        return c.ret(newcell(c.st, "*" + v.id, x))
    if isinstance(v, En) and v.p.endswith("Cow"):
        out = []
        for vi, pl in v.alts.items():
            p = pl[0]
            if vi == 0 and isinstance(p, Rf):
                out.append((c.st.copy(), p))
            else:
                s = c.st.copy()
                out.append((s, newcell(s, c.key + ".cow", p)))
        return out
    if isinstance(v, Ob) and v.ty[0] == "adt" and v.ty[1].split("::")[-1] in ("Arc", "Box", "Rc"):
        cc = "*" + v.id
        if cc not in c.st.cells:
            c.st.cells[cc] = c.ip.mk(c.st, v.ty[2][0] if v.ty[2] else OTHER, v.id + "*")
        return c.ret(Rf(cc))
    return c.ret(a)


@m("core::slice::<impl [T]>::swap")
def _swap_ix(c):
    n = c.ip.len_of(c.st, c.v(0))
    a, b = c.args[1], c.args[2]
    if n is not None and isinstance(a, I) and isinstance(b, I):
        c.oblige(c.st, "index", [cge(n - a.l - 1), cge(n - b.l - 1)], "swap")
    v = c.v(0)
    if isinstance(v, St):
        weaken_seq(c.ip, c.st, c.args[0], c.key)
    return c.ret(UNIT)


@m("core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at")
def _split_at(c):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    n = c.ip.len_of(c.st, q[1]) if q else None
    k = c.args[1]
    if n is None or not isinstance(k, I):
        return c.fresh()
    c.oblige(c.st, "slice", [cge(n - k.l)], "split_at")
    out = []
    for s in c.ip.assume(c.st, cge(n - k.l)):
        s = s.copy()
        a = subslice(c.ip, s, q[0], L(0), k.l, c.key + ".a")
        b = subslice(c.ip, s, q[0], k.l, n - k.l, c.key + ".b")
        if c.p.endswith("mut"):
            weaken_seq(c.ip, s, q[0], c.key)
        out.append((s, St(("tuple",), [a, b])))
    return out


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _copy_from_slice(c):
    n, k = c.ip.len_of(c.st, c.v(0)), c.ip.len_of(c.st, c.v(1))
    if n is not None and k is not None:
        c.oblige(c.st, "slice", [ceq(n - k)], "copy_from_slice")
        out = []
        for s in c.ip.assume(c.st, ceq(n - k)):
            q = seq_ref(c.ip, s, c.args[0], c.key)
            if q:
                weaken_seq(c.ip, s, q[0], c.key)
            out.append((s, UNIT))
        return out
    return c.ret(UNIT)


@m("core::slice::<impl [T]>::fill")
def _fill(c):
    st = c.st.copy()
    q = seq_ref(c.ip, st, c.args[0], c.key)
    if q and isinstance(q[1], (Sq, St)):
        n = c.ip.len_of(st, q[1])
        el, ts, tf = abstract_elems(c.ip, [(st, c.args[1])], c.key + "e")
        c.ip.store(st, q[0].c, q[0].p, Sq(n, el, ts, tf), c.key)
    return [(st, UNIT)]


@m("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut")
def _last(c):
    q = seq_ref(c.ip, c.st, c.args[0], c.key)
    n = c.ip.len_of(c.st, q[1]) if q else None
    if n is None:
        return c.fresh()
    return b2opt(c.ip, c.st, cge(n - 1), elemref(q[0], (n - 1) if "last" in c.p.split("::")[-1] else L(0)))


@m("alloc::slice::<impl [T]>::to_vec", "alloc::borrow::ToOwned::to_owned", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", "core::clone::Clone::clone", "<image::buffer_::ImageBuffer<P, Container> as core::clone::Clone>::clone",
   "<core::option::Option<T> as core::clone::Clone>::clone", "core::clone::impls::<impl core::clone::Clone for &T>::clone", "<core::marker::PhantomData<T> as core::clone::Clone>::clone",
   "core::array::<impl core::clone::Clone for [T; N]>::clone", "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned")
def _clone(c):
    if "&T" in c.rp and isinstance(c.args[0], Rf):
        return c.ret(c.ip.load(c.st, c.args[0].c, c.args[0].p, None, c.key))
    v = c.v(0)
    return c.ret(clone_val(c.ip, c.st, v, c.key, c.dty))


def clone_val(ip, st, v, key, dty=None):
    if isinstance(v, Ob):
        t = v.ty
        if ip_is_img(t):
            w, h = ip.dims(st, v)
            return Im(key + ".cl", w, h, t, v.id)
        if t[0] == "slice":
            return Sq(ip.len_of(st, v), None, ty=t[1])
    if isinstance(v, St) and v.k[0] == "array" and dty and dty[0] == "adt":
        el, ts, tf = abstract_elems(ip, [(st, x) for x in v.v], key + "e") if 0 < len(v.v) <= 64 else (None, EMPTY, ())
        return Sq(L(len(v.v)), el, ts, tf, elemty(dty))
    return v


@m("alloc::slice::<impl [T]>::sort", "alloc::slice::<impl [T]>::sort_by", "alloc::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::sort_unstable_by",
   "core::slice::<impl [T]>::sort_unstable_by_key", "core::slice::<impl [T]>::reverse", "alloc::collections::vec_deque::VecDeque::<T, A>::rotate_left")
def _sort(c):
    st = c.st
    q = seq_ref(c.ip, st, c.args[0], c.key)
    if q and isinstance(q[1], St):
        st = st.copy()
        weaken_seq(c.ip, st, q[0], c.key)
    # call the comparison closure once on arbitrary elements
    if len(c.args) > 1 and q:
        s = st.copy()
        items = [elemref(q[0], V(S.new(f"{c.key}.s{i}", 0, MAXLEN))) for i in range(2)]
        f = c.args[1]
        fn = c.ip.prog.fns.get(f.k[1]) if isinstance(f, St) and f.k[0] == "clo" else None
        if fn:
            callf(c.ip, c.fr, s, f, items[:fn.argc - 1], c.key + "cmp")
    return [(st, UNIT)]


@m("core::mem::swap")
def _swap(c):
    a, b = c.args
    st = c.st.copy()
    if isinstance(a, Rf) and isinstance(b, Rf):
        x = c.ip.load(st, a.c, a.p, None, c.key + "a")
        y = c.ip.load(st, b.c, b.p, None, c.key + "b")
        c.ip.store(st, a.c, a.p, y, c.key)
        c.ip.store(st, b.c, b.p, x, c.key)
    return [(st, UNIT)]


@m("core::mem::replace")
def _replace(c):
    a = c.args[0]
    st = c.st.copy()
    x = c.ip.load(st, a.c, a.p, None, c.key)
    c.ip.store(st, a.c, a.p, c.args[1], c.key)
    return [(st, x)]


@m("core::ptr::copy_nonoverlapping", "core::intrinsics::copy_nonoverlapping")
def _cno(c):
    c.oblige(c.st, "unsafe", [FALSE], "copy_nonoverlapping")
    return c.ret(UNIT)


@m("alloc::boxed::Box::<T>::new_uninit")
def _box_uninit(c):
    return c.ret(newcell(c.st, c.key + ".box", Ob(c.key + ".boxv", OTHER)))


@m("alloc::boxed::Box::<T>::new")
def _box_new(c):
    return c.ret(newcell(c.st, c.key + ".box", c.args[0]))


@m("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec")
def _box_into_vec(c):
    v = c.v(0)
    # vec![..] literal: the boxed array was written through the uninit pointer
    while isinstance(v, (St, Ob)) and not (isinstance(v, St) and v.k[0] == "array"):
        if isinstance(v, St) and len(v.v) >= 1:
            v = v.v[-1]
        elif isinstance(v, Ob) and v.ov:
            v = list(v.ov.values())[-1]
        else:
            break
    if isinstance(v, St) and v.k[0] == "array":
        el, ts, tf = abstract_elems(c.ip, [(c.st, x) for x in v.v], c.key + "e") if 0 < len(v.v) <= 64 else (None, EMPTY, ())
        return c.ret(Sq(L(len(v.v)), el, ts, tf, elemty(c.dty)))
    if isinstance(v, Sq):
        return c.ret(v)
    return c.ret(Sq(V(S.new(c.key + ".len", 0, MAXLEN)), None, ty=elemty(c.dty)))


# ------------------------------------------------------------------ ranges
@m("core::ops::range::RangeInclusive::<Idx>::new")
def _rinc(c):
    a, b = c.args
    if isinstance(a, I) and isinstance(b, I):
        return c.ret(St(RANGE, [a, I(b.l + 1, b.r)]))
    return c.ret(It("opaque", OTHER))


@m("<core::ops::range::RangeInclusive<Idx> as core::clone::Clone>::clone")
def _rclone(c):
    return c.ret(c.v(0))


@m("core::ops::range::Range::<Idx>::contains", "core::ops::range::RangeInclusive::<Idx>::contains")
def _contains(c):
    r, x = c.v(0), c.v(1)
    if isinstance(r, St) and isinstance(x, I) and all(isinstance(y, I) for y in r.v):
        return c.ret(Bo(cand(cge(x.l - r.v[0].l), cge(r.v[1].l - x.l - 1))))
    if isinstance(r, St) and isinstance(x, Fl) and all(isinstance(y, Fl) for y in r.v):
        return c.ret(Bo(cand(fcmp("Ge", x, r.v[0], c.key + "a"), fcmp("Lt", x, r.v[1], c.key + "b"))))
    return c.fresh()


@m("core::iter::traits::exact_size::ExactSizeIterator::is_empty", "core::ops::range::Range::<Idx>::is_empty")
def _risempty(c):
    r = c.v(0)
    if isinstance(r, St) and all(isinstance(y, I) for y in r.v):
        return c.ret(Bo(cge(r.v[0].l - r.v[1].l)))
    return c.fresh()


# ------------------------------------------------------------------ Option / Result
@m("core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect", "core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect")
def _unwrap(c):
    good = 1 if "Option" in c.p else 0
    out = []
    bad = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, OPT if good else RES):
        if vi == good:
            if isinstance(pl, Ob) and pl.ty == OTHER:
                pl = c.ip.mk(s, c.dty, pl.id)
            out.append((s, pl))
        else:
            bad.append(s)
    if bad:
        for s in bad:
            c.oblige(s, "unwrap", [FALSE])
    else:
        c.oblige(c.st, "unwrap", [TRUE])
    return out


@m("core::option::Option::<T>::is_some", "core::option::Option::<T>::is_none", "core::result::Result::<T, E>::is_ok", "core::result::Result::<T, E>::is_err")
def _is_some(c):
    nm = short(c.p)
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.v(0), c.key):
        t = {"is_some": vi == 1, "is_none": vi == 0, "is_ok": vi == 0, "is_err": vi == 1}[nm]
        out.append((s, Bo(TRUE if t else FALSE)))
    return out


@m("core::option::Option::<T>::map", "core::option::Option::<T>::and_then", "core::option::Option::<T>::map_or", "core::option::Option::<T>::map_or_else")
def _omap(c):
    nm = short(c.p)
    out = []
    fi = 1 if nm in ("map", "and_then") else 2
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key):
        if vi == 1:
            for s2, r in callf(c.ip, c.fr, s, c.args[fi], [pl], c.key + "f"):
                out.append((s2, some(r) if nm == "map" else r))
        elif nm in ("map", "and_then"):
            out.append((s, NONE))
        elif nm == "map_or":
            out.append((s, c.args[1]))
        else:
            out += callf(c.ip, c.fr, s, c.args[1], [], c.key + "g")
    return out


@m("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied")
def _ocloned(c):
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key):
        out.append((s, some(c.ip.deref_all(s, pl)) if vi == 1 else NONE))
    return out


@m("core::option::Option::<T>::unwrap_or", "core::result::Result::<T, E>::unwrap_or", "core::option::Option::<T>::unwrap_or_else", "core::result::Result::<T, E>::unwrap_or_else", "core::option::Option::<T>::unwrap_or_default")
def _unwrap_or(c):
    good = 1 if "Option" in c.p else 0
    nm = short(c.p)
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, OPT if good else RES):
        if vi == good:
            out.append((s, pl))
        elif nm == "unwrap_or":
            out.append((s, c.args[1]))
        elif nm == "unwrap_or_else":
            out += callf(c.ip, c.fr, s, c.args[1], [] if good else [pl], c.key + "f", c.dty)
        else:
            out.append((s, c.ip.mk(s, c.dty, c.key + ".def")))
    return out


@m("core::option::Option::<T>::ok_or", "core::option::Option::<T>::ok_or_else")
def _ok_or(c):
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key):
        out.append((s, ok(pl) if vi == 1 else err(c.args[1] if short(c.p) == "ok_or" else Ob(c.key + ".e", OTHER))))
    return out


@m("core::result::Result::<T, E>::ok")
def _res_ok(c):
    return [(s, some(pl) if vi == 0 else NONE) for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, RES)]


@m("core::result::Result::<T, E>::map", "core::result::Result::<T, E>::map_err", "core::result::Result::<T, E>::and_then")
def _res_map(c):
    nm = short(c.p)
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, RES):
        if (vi == 0) == (nm != "map_err"):
            for s2, r in callf(c.ip, c.fr, s, c.args[1], [pl], c.key + "f"):
                out.append((s2, r if nm == "and_then" else ok(r) if nm == "map" else err(r)))
        else:
            out.append((s, ok(pl) if vi == 0 else err(pl)))
    return out


@m("core::ops::try_trait::Try::branch")
def _branch(c):
    CF = "core::ops::control_flow::ControlFlow"
    isopt = "Option" in c.rp
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, OPT if isopt else RES):
        good = (vi == 1) if isopt else (vi == 0)
        out.append((s, En(CF, {0: (pl,)}) if good else En(CF, {1: (NONE if isopt else err(pl),)})))
    return out


@m("core::ops::try_trait::FromResidual::from_residual")
def _from_residual(c):
    if "Option" in c.rp:
        return c.ret(NONE)
    out = []
    for s, vi, pl in opt_split(c.ip, c.st, c.args[0], c.key, RES):
        out.append((s, err(pl)))
    return out


# ------------------------------------------------------------------ panics
@m("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::unreachable_default_msg", "core::panicking::panic_explicit", "core::panicking::panic_str", "std::rt::begin_panic", "core::panicking::panic_display")
def _panic(c):
    c.oblige(c.st, "panic", [FALSE], short(c.p))
    return []


# ------------------------------------------------------------------ numbers
def nums(c, *ix):
    r = []
    for i in ix:
        v = c.v(i)
        r.append(v)
    return r


LAZY = os.environ.get("LAZY", "1") == "1"


def minmax(c, a, b, mx):
    ip, st = c.ip, c.st
    if isinstance(a, I) and isinstance(b, I):
        hi, lo = (a, b) if mx else (b, a)
        d = hi.l - lo.l
        if st.prove(d):
            return [(st, I(a.l, a.r))]
        if st.prove(-d):
            return [(st, I(b.l, a.r))]
        if LAZY:
            st = st.copy()
            x, y = a.l, b.l
            if mx:
                v = split_sym(st, c.key + ".max", a.r[0], a.r[1], [x, y], [], [(x, (x - y,)), (y, (y - x,))])
            else:
                v = split_sym(st, c.key + ".min", a.r[0], a.r[1], [], [x, y], [(x, (y - x,)), (y, (x - y,))])
            return [(st, I(v, a.r))]
        return [(s, I(a.l, a.r)) for s in ip.assume(st, cge(d))] + [(s, I(b.l, a.r)) for s in ip.assume(st, cge(-d - 1))]
    return None


@m("core::cmp::max", "core::cmp::impls::<impl core::cmp::Ord for i32>::max", "core::cmp::impls::<impl core::cmp::Ord for u32>::max", "core::cmp::impls::<impl core::cmp::Ord for usize>::max", "core::cmp::Ord::max")
def _cmax(c):
    r = minmax(c, c.v(0), c.v(1), True)
    return r if r is not None else c.fresh()


@m("core::cmp::min", "core::cmp::impls::<impl core::cmp::Ord for i32>::min", "core::cmp::impls::<impl core::cmp::Ord for u32>::min", "core::cmp::impls::<impl core::cmp::Ord for usize>::min", "core::cmp::Ord::min")
def _cmin(c):
    r = minmax(c, c.v(0), c.v(1), False)
    return r if r is not None else c.fresh()


@m("core::cmp::Ord::clamp", "core::cmp::impls::<impl core::cmp::Ord for i32>::clamp", "core::f32::<impl f32>::clamp", "core::f64::<impl f64>::clamp")
def _clampm(c):
    x, a, b = c.v(0), c.v(1), c.v(2)
    ip, st = c.ip, c.st
    if all(isinstance(t, I) for t in (x, a, b)):
        c.oblige(st, "panic", [cge(b.l - a.l)], "clamp")
        out = []
        if LAZY and x.r:
            for s in ip.assume(st, cge(b.l - a.l)):
                lo, hi = s.prove(x.l - a.l), s.prove(b.l - x.l)
                if lo and hi:
                    out.append((s, I(x.l, x.r)))
                    continue
                s = s.copy()
                alts = [(x.l, (x.l - a.l, b.l - x.l))]
                if not lo:
                    alts.append((a.l, (a.l - x.l,)))
                if not hi:
                    alts.append((b.l, (x.l - b.l,)))
                low = [a.l] + ([x.l] if hi else [])
                up = [b.l] + ([x.l] if lo else [])
                out.append((s, I(split_sym(s, c.key + ".clamp", x.r[0], x.r[1], low, up, alts), x.r)))
            return out
        for s in ip.assume(st, cge(b.l - a.l)):
            out += [(q, a) for q in ip.assume(s, cge(a.l - x.l - 1))]
            for q in ip.assume(s, cge(x.l - a.l)):
                out += [(w, b) for w in ip.assume(q, cge(x.l - b.l - 1))]
                out += [(w, I(x.l, x.r)) for w in ip.assume(q, cge(b.l - x.l))]
        return out
    if all(isinstance(t, Fl) and t.l is not None for t in (x, a, b)):
        st = st.copy()
        # panics when min > max or NaN
        cc = fcmp("Le", a, b, c.key)
        c.oblige(st, "panic", [cc], "clamp")
        out = []
        for s in ip.assume(st, cc):
            r = Fl(V(S.new(c.key + ".cl", -INF, INF, False)), x.nan, a.fin and b.fin)
            s.add(r.l - a.l)
            s.add(b.l - r.l)
            out.append((s, r))
        return out
    return c.fresh()


@m("core::f32::<impl f32>::min", "core::f64::<impl f64>::min", "core::f32::<impl f32>::max", "core::f64::<impl f64>::max")
def _fminmax(c):
    a, b = c.v(0), c.v(1)
    mx = c.p.endswith("max")
    if isinstance(a, Fl) and isinstance(b, Fl) and a.l is not None and b.l is not None:
        out = []
        st = c.st
        r = Fl(V(S.new(c.key + ".mm", -INF, INF, a.l.allint() and b.l.allint())), frozenset([c.key + "?nan"]) if a.nan and b.nan else EMPTY, a.fin and b.fin)
        st = st.copy()
        # NaN operand: the other is returned, so one-sided facts only hold when neither is NaN
        if not a.nan and not b.nan:
            for x in (a, b):
                st.add(r.l - x.l if mx else x.l - r.l)
        elif not b.nan:
            st.add(r.l - b.l if mx else b.l - r.l)
        elif not a.nan:
            st.add(r.l - a.l if mx else a.l - r.l)
        for lo in (L(0),):
            if st.prove(a.l) and st.prove(b.l):
                st.add(r.l)
        return [(st, r)]
    return c.fresh()


@m("core::cmp::impls::<impl core::cmp::Ord for i32>::cmp", "core::cmp::impls::<impl core::cmp::Ord for u8>::cmp", "core::cmp::Ord::cmp", "core::cmp::impls::<impl core::cmp::Ord for u32>::cmp", "core::cmp::impls::<impl core::cmp::Ord for usize>::cmp")
def _cmp(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, I) and isinstance(b, I):
        return cmp_int(c.ip, c.st, a.l, b.l)
    return c.fresh()


@m("core::cmp::PartialOrd::partial_cmp", "core::cmp::impls::<impl core::cmp::PartialOrd for f32>::partial_cmp", "core::cmp::impls::<impl core::cmp::PartialOrd for f64>::partial_cmp")
def _pcmp(c):
    a, b = c.v(0), c.v(1)
    O = "core::cmp::Ordering"
    if isinstance(a, I) and isinstance(b, I):
        return [(s, some(v)) for s, v in cmp_int(c.ip, c.st, a.l, b.l)]
    if isinstance(a, Fl) and isinstance(b, Fl):
        nan = a.nan | b.nan
        out = [(c.st.copy(), some(Ob(c.key + ".ord", ("adt", O, ()))))]
        if nan or a.l is None or b.l is None:
            out.append((c.st.copy(), NONE))
        return out
    return c.fresh()


def _pcmpop(op):
    def f(c):
        a, b = c.v(0), c.v(1)
        from models import binop
        if type(a) is type(b) and isinstance(a, (I, Fl, Bo)):
            return binop(c.ip, c.fr, c.st, op, a, b, OTHER, c.key, c.line)
        if isinstance(a, St) and isinstance(b, St) and len(a.v) == len(b.v) and op in ("Eq", "Ne"):
            r = st_eq(c.ip, c.st, a, b, c.key)
            return c.ret(Bo(r if op == "Eq" else cnot(r)))
        return c.ret(Bo(("unk", c.key)))
    return f


def st_eq(ip, st, a, b, key):
    r = TRUE
    for i, (x, y) in enumerate(zip(a.v, b.v)):
        x, y = ip.deref_all(st, x), ip.deref_all(st, y)
        if isinstance(x, I) and isinstance(y, I):
            r = cand(r, ceq(x.l - y.l))
        elif isinstance(x, St) and isinstance(y, St) and len(x.v) == len(y.v):
            r = cand(r, st_eq(ip, st, x, y, f"{key}.{i}"))
        elif isinstance(x, Fl) and isinstance(y, Fl):
            r = cand(r, fcmp("Eq", x, y, f"{key}.{i}"))
        else:
            r = cand(r, ("unk", f"{key}.{i}"))
    return r


for _nm, _op in (("eq", "Eq"), ("ne", "Ne")):
    m(f"core::cmp::PartialEq::{_nm}")(_pcmpop(_op))
for _nm, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    m(f"core::cmp::PartialOrd::{_nm}")(_pcmpop(_op))


def _intmeth(tys, name, f):
    for t in tys.split():
        m(f"core::num::<impl {t}>::{name}")(f)


ALLI = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize u128 i128"


def _sat(op):
    def f(c):
        from interp import rng
        a, b = c.v(0), c.v(1)
        r = rng(c.dty)
        if isinstance(a, I) and isinstance(b, I) and r:
            l = a.l + b.l if op == "+" else a.l - b.l if op == "-" else a.l * b.l
            out = []
            if LAZY:
                st = c.st
                plo, phi = st.prove(l - r[0]), st.prove(L(r[1]) - l)
                if plo and phi:
                    return [(st, I(l, r))]
                if st.prove(L(r[0]) - l):
                    return [(st, I(L(r[0]), r))]
                if st.prove(l - r[1]):
                    return [(st, I(L(r[1]), r))]
                if plo or phi:
                    st = st.copy()
                    if phi:
                        z = L(r[0])
                        v = split_sym(st, c.key + ".sat", r[0], r[1], [l, z], [], [(l, (l - z,)), (z, (z - l,))])
                    else:
                        z = L(r[1])
                        v = split_sym(st, c.key + ".sat", r[0], r[1], [], [l, z], [(l, (z - l,)), (z, (l - z,))])
                    return [(st, I(v, r))]
            for s in c.ip.assume(c.st, cge(l - r[0])):
                out += [(q, I(l, r)) for q in c.ip.assume(s, cge(L(r[1]) - l))]
                out += [(q, I(L(r[1]), r)) for q in c.ip.assume(s, cge(l - r[1] - 1))]
            out += [(s, I(L(r[0]), r)) for s in c.ip.assume(c.st, cge(L(r[0] - 1) - l))]
            return out
        return c.fresh()
    return f


def _wrapping(op):
    def f(c):
        from interp import rng
        a, b = c.v(0), c.v(1)
        r = rng(c.dty)
        if isinstance(a, I) and isinstance(b, I) and r:
            l = a.l + b.l if op == "+" else a.l - b.l if op == "-" else a.l * b.l
            return [(s, I(x, r)) for s, x, _ in wrap_any(c.ip, c.st, l, r, c.key)]
        return c.fresh()
    return f


def _checked(op):
    def f(c):
        a, b = c.v(0), c.v(1)
        if isinstance(a, I) and isinstance(b, I) and a.r:
            l = a.l + b.l if op == "+" else a.l - b.l if op == "-" else a.l * b.l
            return b2opt(c.ip, c.st, cand(cge(l - a.r[0]), cge(L(a.r[1]) - l)), I(l, a.r))
        return c.fresh()
    return f


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*")):
    _intmeth(ALLI, "saturating_" + _n, _sat(_o))
    _intmeth(ALLI, "wrapping_" + _n, _wrapping(_o))
    _intmeth(ALLI, "checked_" + _n, _checked(_o))


def _abs(c):
    from interp import rng
    a = c.v(0)
    r = rng(c.dty)
    if isinstance(a, I):
        out = [(s, I(a.l, r)) for s in c.ip.assume(c.st, cge(a.l))]
        uns = c.p.endswith("unsigned_abs")
        for s in c.ip.assume(c.st, cge(-a.l - 1)):
            if uns or c.ip.mode == "release":
                if uns:
                    out.append((s, I(-a.l, r)))
                else:
                    out += [(q, I(x, r)) for q, x, _ in wrap_split(c.ip, s, -a.l, r, c.key)]
            else:
                c.oblige(s, "overflow", [cge(L(r[1]) + a.l)], "abs")
                out += [(q, I(-a.l, r)) for q in c.ip.assume(s, cge(L(r[1]) + a.l))]
        return out
    return c.fresh()


_intmeth(ALLI, "abs", _abs)
_intmeth(ALLI, "unsigned_abs", _abs)


def _absdiff(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, I) and isinstance(b, I):
        return [(s, I(a.l - b.l, a.r)) for s in c.ip.assume(c.st, cge(a.l - b.l))] + [(s, I(b.l - a.l, a.r)) for s in c.ip.assume(c.st, cge(b.l - a.l - 1))]
    return c.fresh()


_intmeth("u8 u16 u32 u64 usize", "abs_diff", _absdiff)


def _pow(c):
    from interp import rng
    a, b = c.v(0), c.v(1)
    r = rng(c.dty)
    if isinstance(a, I) and isinstance(b, I) and b.l.const() is not None and 0 <= b.l.const() <= 4:
        l = L(1)
        for _ in range(b.l.const()):
            l = l * a.l
        if "saturating" in c.p:
            out = []
            for s in c.ip.assume(c.st, cge(L(r[1]) - l)):
                out.append((s, I(l, r)))
            for s in c.ip.assume(c.st, cge(l - r[1] - 1)):
                out.append((s, I(L(r[1]), r)))
            return out
        if c.ip.mode != "release":
            c.oblige(c.st, "overflow", [cge(l - r[0]), cge(L(r[1]) - l)], "pow")
        return [(s, I(x, r)) for s, x, _ in wrap_any(c.ip, c.st, l, r, c.key)]
    if c.ip.mode != "release":
        if isinstance(a, I) and isinstance(b, I) and a.l.const() is not None and b.l.const() is not None and 0 <= b.l.const() < 200:
            v = a.l.const() ** b.l.const()
            if r[0] <= v <= r[1]:
                return c.ret(I(L(v), r))
        if "saturating" not in c.p:
            c.oblige(c.st, "overflow", [("unk", c.key + ".powov")], "pow")
    elif isinstance(a, I) and isinstance(b, I) and a.l.const() is not None and b.l.const() is not None and 0 <= b.l.const() < 200:
        v = a.l.const() ** b.l.const()
        if r[0] <= v <= r[1]:
            return c.ret(I(L(v), r))
    return c.fresh()


_intmeth(ALLI, "pow", _pow)
_intmeth(ALLI, "saturating_pow", _pow)


def _count_ones(c):
    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
    import re
    t = re.search(r"<impl (\w+)>", c.p)
    return c.ret(fresh(c.key + ".ones", (0, w.get(t.group(1), 128))))


_intmeth("u8 u16 u32 u64 usize u128", "count_ones", _count_ones)
_intmeth("u8 u16 u32 u64 usize u128", "count_zeros", _count_ones)
_intmeth("u8 u16 u32 u64 usize u128", "leading_zeros", _count_ones)
_intmeth("u8 u16 u32 u64 usize u128", "trailing_zeros", _count_ones)


def _rem_euclid(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, I) and isinstance(b, I):
        c.oblige(c.st, "div", [cnot(ceq(b.l))], "rem_euclid")
        st = c.st.copy()
        v = fresh(c.key + ".re", (0, a.r[1] if a.r else INF))
        if st.prove(b.l - 1):
            st.add(b.l - 1 - v.l)
        return [(st, v)]
    return c.fresh()


_intmeth(ALLI, "rem_euclid", _rem_euclid)


@m(*[f"core::convert::num::<impl core::convert::From<{a}> for {b}>::from" for a in "u8 u16 u32 i8 i16 i32 u64 i64".split() for b in "u16 u32 u64 usize i16 i32 i64 isize f32 f64 u128 i128".split()])
def _from_num(c):
    v = c.v(0)
    if isinstance(v, I) and c.dty[0] in ("int", "uint"):
        from interp import rng
        return c.ret(I(v.l, rng(c.dty)))
    if isinstance(v, I) and c.dty[0] == "float":
        st = c.st.copy()
        f = fround(c.ip, st, v.l, EMPTY, c.dty[1], c.key)
        return [(st, Fl(f.l, EMPTY, True))]
    return c.fresh()


@m("core::convert::From::from", "<T as core::convert::Into<U>>::into", "core::convert::Into::into", "<T as core::convert::From<T>>::from")
def _into(c):
    v = c.args[0]
    t = c.dty
    if isinstance(v, I) and t[0] in ("int", "uint"):
        from interp import rng
        return c.ret(I(v.l, rng(t)))
    if isinstance(v, I) and t[0] == "float":
        st = c.st.copy()
        f = fround(c.ip, st, v.l, EMPTY, t[1], c.key)
        return [(st, Fl(f.l, EMPTY, True))]
    if isinstance(v, Fl) and t[0] == "float":
        return c.ret(v)
    if t[0] == "adt" and t[1] == "alloc::vec::Vec":
        x = c.v(0)
        if isinstance(x, Sq) or isinstance(x, St) and x.k[0] == "array" or isinstance(x, Ob) and x.ty[0] == "slice":
            return c.ret(clone_val(c.ip, c.st, x, c.key, t))
    # local From impls
    fi = c.ip.find_impl(c.st, {"p": "core::convert::From::from", "trait": "core::convert::From"}, [t, c.atys[0]], c.args)
    if fi is not None:
        return c.ip.inline(c.fr, c.st, fi[0], fi[1], c.args, c.dty, c.key, c.line)
    return c.fresh()


@m("core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<u32> for usize>::try_from")
def _tryfrom(c):
    v = c.v(0)
    if isinstance(v, I):
        return c.ret(ok(usz(v.l)))
    return c.fresh()


@m("<T as core::convert::TryInto<U>>::try_into", "core::convert::TryFrom::try_from")
def _tryinto(c):
    v = c.v(0)
    from interp import rng
    if isinstance(v, I) and c.dty[0] == "adt" and c.dty[2]:
        r = rng(c.dty[2][0])
        if r:
            cond = cand(cge(v.l - r[0]), cge(L(r[1]) - v.l))
            return [(s, ok(I(v.l, r))) for s in c.ip.assume(c.st, cond, True)] + [(s, err(Ob(c.key + ".e", OTHER))) for s in c.ip.assume(c.st, cond, False)]
    # slice -> array reference
    return c.fresh()


@m("num_traits::cast::cast", "num_traits::cast::NumCast::from", "num_traits::cast::ToPrimitive::to_f64", "num_traits::cast::ToPrimitive::to_i16", "num_traits::cast::ToPrimitive::to_i32", "num_traits::cast::ToPrimitive::to_usize", "num_traits::cast::ToPrimitive::to_u32", "num_traits::cast::ToPrimitive::to_f32")
def _ncast(c):
    v = c.v(0)
    from interp import rng
    t = c.dty[2][0] if c.dty[0] == "adt" and c.dty[2] else OTHER
    r = rng(t) if t[0] in ("int", "uint") else None
    if isinstance(v, I) and r:
        return b2opt(c.ip, c.st, cand(cge(v.l - r[0]), cge(L(r[1]) - v.l)), I(v.l, r))
    if isinstance(v, I) and t[0] == "float":
        st = c.st.copy()
        f = fround(c.ip, st, v.l, EMPTY, t[1], c.key)
        return [(st, some(Fl(f.l, EMPTY, True)))]
    if isinstance(v, Fl) and t[0] == "float":
        return c.ret(some(v))
    if isinstance(v, Fl) and r and v.l is not None:
        # truncation; None when out of range or NaN
        out = []
        nan = v.nan
        cond = cand(("fc", ">", v.l - (r[0] - 1), nan), ("fc", ">", L(r[1] + 1) - v.l, nan))
        for s in c.ip.assume(c.st, cond, True):
            for s2, x in float_to_int(c.ip, s, Fl(v.l, EMPTY, True), r, c.key):
                out.append((s2, some(x)))
        for s in c.ip.assume(c.st, cond, False):
            out.append((s, NONE))
        return out
    # generic: success is unknown for type parameters
    s = c.st.copy()
    return [(s, c.ip.mk(s, c.dty, c.key + ".cast"))]


@m("num_traits::identities::Zero::zero", "num_traits::identities::One::one")
def _zero(c):
    one = c.p.endswith("one")
    from interp import rng
    if c.dty[0] in ("int", "uint"):
        return c.ret(I(L(1 if one else 0), rng(c.dty)))
    if c.dty[0] == "float":
        return c.ret(Fl(L(1 if one else 0), EMPTY, True))
    return c.ret(Ob(c.key + ".zero", c.dty))


def _arith(op):
    def f(c):
        a, b = c.v(0), c.v(1)
        from models import binop
        if type(a) is type(b) and isinstance(a, (I, Fl)):
            t = c.dty if c.dty[0] in ("int", "uint", "float") else (c.ip.ty_of(a) or OTHER)
            if isinstance(a, I):
                if op in ("Div", "Rem"):
                    c.oblige(c.st, "div", [cnot(ceq(b.l))], op.lower())
                    return binop(c.ip, c.fr, c.st, op, a, b, t, c.key, c.line)
                if op in ("Add", "Sub", "Mul"):
                    r = binop(c.ip, c.fr, c.st, op + "WithOverflow", a, b, t, c.key, c.line)
                    out = []
                    for s, v in r:
                        if isinstance(v, St):
                            if c.ip.mode != "release":
                                c.oblige(s, "overflow", [cnot(v.v[1].c)], op)
                                out += [(q, v.v[0]) for q in c.ip.assume(s, cnot(v.v[1].c))]
                            else:
                                out.append((s, v.v[0]))
                    return out
            return binop(c.ip, c.fr, c.st, op, a, b, t, c.key, c.line)
        return c.fresh()
    return f


for _o in ("add", "sub", "mul", "div", "rem"):
    m(f"core::ops::arith::{_o.capitalize()}::{_o}")(_arith(_o.capitalize()))


def _arith_assign(op):
    def f(c):
        r = c.args[0]
        a = c.v(0)
        c2 = C(c.ip, c.fr, c.st, c.d, c.p, c.rp, c.rargs, [a, c.v(1)], c.atys, c.ip.ty_of(a) or OTHER, c.key, c.line)
        out = []
        for s, v in _arith(op)(c2):
            s = s.copy()
            if isinstance(r, Rf):
                c.ip.store(s, r.c, r.p, v, c.key)
            out.append((s, UNIT))
        return out
    return f


for _o in ("add", "sub", "mul", "div"):
    m(f"core::ops::arith::{_o.capitalize()}Assign::{_o}_assign")(_arith_assign(_o.capitalize()))


# ---- floats
def _fm(names, f):
    for n in names.split():
        for w in ("f32", "f64"):
            m(f"core::{w}::<impl {w}>::{n}", f"std::{w}::<impl {w}>::{n}", f"core::num::<impl {w}>::{n}")(f)


def _fabs(c):
    a = c.v(0)
    if isinstance(a, Fl) and a.l is not None:
        st = c.st
        if st.prove(a.l):
            return [(st, a)]
        if st.prove(-a.l):
            return [(st, Fl(-a.l, a.nan, a.fin))]
        st = st.copy()
        r = V(S.new(f"fabs({a.l})" if len(a.l.t) < 5 else c.key + ".abs", 0, INF, a.l.allint()))
        st.add(r - a.l)
        st.add(r + a.l)
        lo, hi = st.interval(a.l)
        if lo != -INF and hi != INF:
            st.add(L(int(max(abs(lo), abs(hi)))) - r)
        return [(st, Fl(r, a.nan, a.fin))]
    return c.fresh()


_fm("abs", _fabs)


def _ffloor(c):
    a = c.v(0)
    nm = short(c.p)
    if isinstance(a, Fl) and a.l is not None:
        if a.l.allint():
            if nm == "fract":
                return c.ret(Fl(L(0), a.nan, True))
            return c.ret(a)
        st = c.st.copy()
        l = a.l
        if len(l.t) == 1 and l.c == 0 and list(l.t.values()) == [1] and S.mono[next(iter(l.t))] is None:
            f = V(floor_of(next(iter(l.t))))
        else:
            f = V(S.new(f"floor({l})" if len(l.t) < 5 else c.key + ".flr", -INF, INF))
        lo, hi = st.interval(l)
        if lo != -INF:
            st.add(f - math.floor(lo))
        if hi != INF:
            st.add(L(math.floor(hi)) - f)
        st.add(l - f)
        st.add_strict(f + 1 - l)
        if nm == "floor":
            return [(st, Fl(f, a.nan, a.fin))]
        if nm in ("ceil", "round"):
            r = V(S.new(f"{nm}({l})" if len(l.t) < 5 else c.key + ".cl", -INF, INF))
            st.add(r - f)
            st.add(f + 1 - r)
            if nm == "ceil":
                st.add(r - l)
            else:
                # |r - l| <= 1/2
                st.add((r - l).scale(2) + 1)
                st.add((l - r).scale(2) + 1)
            if lo != -INF:
                st.add(r - (math.ceil(lo) if nm == "ceil" else math.floor(lo + 0.5)))
            if hi != INF:
                st.add(L(math.ceil(hi) if nm == "ceil" else math.floor(hi + 0.5)) - r)
            return [(st, Fl(r, a.nan, a.fin))]
        if nm == "trunc":
            out = []
            for s in c.ip.assume(st, ("fc", ">=", l, EMPTY), True):
                out.append((s, Fl(f, a.nan, a.fin)))
            for s in c.ip.assume(st, ("fc", ">=", l, EMPTY), False):
                r = V(S.new(c.key + ".tr", -INF, 0))
                s.add(r - l)
                s.add(f + 1 - r)
                out.append((s, Fl(r, a.nan, a.fin)))
            return out
        if nm == "fract":
            r = V(S.new(c.key + ".fr", -1, 1, False))
            if st.prove(l):
                st.add(r)
            return [(st, Fl(r, a.nan if a.fin else frozenset([c.key + "?nan"]), True))]
    return c.fresh()


_fm("floor ceil round trunc fract", _ffloor)


def _fbounded(lo, hi):
    def f(c):
        a = c.v(0)
        nan = EMPTY
        if isinstance(a, Fl):
            nan = a.nan if a.fin else frozenset([c.key + "?nan"])
        return c.ret(Fl(V(S.new(c.key + ".tri", lo, hi, False)), nan, True))
    return f


_fm("sin cos tanh", _fbounded(-1, 1))
_fm("atan2 atan asin acos", _fbounded(-4, 4))


def _sincos(c):
    f = _fbounded(-1, 1)
    a = f(c)[0][1]
    b = Fl(V(S.new(c.key + ".cos", -1, 1, False)), a.nan, True)
    return c.ret(St(("tuple",), [a, b]))


_fm("sin_cos", _sincos)


def _sqrt(c):
    a = c.v(0)
    st = c.st.copy()
    nan = frozenset([c.key + "?nan"])
    fin = False
    r = V(S.new(c.key + ".sqrt", 0, INF, False))
    if isinstance(a, Fl):
        fin = a.fin
        if a.l is not None:
            if st.prove(a.l):
                nan = a.nan
            lo, hi = st.interval(a.l)
            if hi != INF and 0 <= hi < 1 << 60:
                st.add(L(math.isqrt(int(hi)) + 1) - r)
            if lo != -INF and lo > 0:
                st.add(r - math.isqrt(int(lo)))
            if lo >= 1:
                st.add(a.l - r)
    return [(st, Fl(r, nan, fin))]


_fm("sqrt", _sqrt)


def _hypot(c):
    a, b = c.v(0), c.v(1)
    st = c.st.copy()
    r = V(S.new(c.key + ".hyp", 0, INF, False))
    nan = (a.nan | b.nan) if isinstance(a, Fl) and isinstance(b, Fl) else frozenset([c.key + "?nan"])
    return [(st, Fl(r, nan, False))]


_fm("hypot", _hypot)


def _exp(c):
    a = c.v(0)
    return c.ret(Fl(V(S.new(c.key + ".exp", 0, INF, False)), a.nan if isinstance(a, Fl) else EMPTY, False))


_fm("exp exp2", _exp)


def _powi(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Fl) and isinstance(b, I) and b.l.const() == 2:
        return float_bin(c.ip, c.fr, c.st, "Mul", a, a, c.dty[1], c.key)
    return c.ret(fresh_f(c.key + ".pw"))


_fm("powi", _powi)
_fm("powf ln log log2 log10 recip to_radians to_degrees", lambda c: c.ret(fresh_f(c.key + ".ff")))


def _mul_add(c):
    return c.ret(fresh_f(c.key + ".ma"))


_fm("mul_add", _mul_add)


def _is_nan(c):
    a = c.v(0)
    if isinstance(a, Fl):
        if not a.nan:
            return c.ret(Bo(FALSE))
    return c.ret(Bo(("unk", c.key)))


_fm("is_nan is_finite is_infinite", _is_nan)


# ------------------------------------------------------------------ functions
@m("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _fncall(c):
    t = c.args[1]
    args = list(t.v) if isinstance(t, St) else [t]
    r = callf(c.ip, c.fr, c.st, c.args[0], args, c.key, c.dty)
    return [(s, c.ip.mk(s, c.dty, v.id) if isinstance(v, Ob) and v.ty == OTHER else v) for s, v in r]


# ------------------------------------------------------------------ formatting, strings
for _n in ("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
           "core::fmt::rt::Argument::<'_>::from_usize", "alloc::fmt::format", "alloc::string::String::new"):
    m(_n)(lambda c: c.ret(Ob(c.key + ".fmt", c.dty)))


# ------------------------------------------------------------------ images
def imgv(c, i=0):
    return c.ip.deref_all(c.st, c.args[i])


def idims(c, i=0):
    v = imgv(c, i)
    d = c.ip.dims(c.st, v)
    if d is None:
        return V(S.new(c.key + ".w", 0, MAXDIM)), V(S.new(c.key + ".h", 0, MAXDIM))
    return d


IB = "image::buffer_::ImageBuffer::<P, Container>::"
IBV = "image::buffer_::ImageBuffer::<P, alloc::vec::Vec<<P as image::traits::Pixel>::Subpixel>>::"
GV = "image::image::GenericImageView::"
GI = "image::image::GenericImage::"
IBG = "<image::buffer_::ImageBuffer<P, Container> as image::image::GenericImageView>::"
IBGI = "<image::buffer_::ImageBuffer<P, Container> as image::image::GenericImage>::"
CAN = "imageproc::drawing::canvas::Canvas::"
PAR = "image::buffer_par::<impl image::buffer_::ImageBuffer<P, Container>>::"
PARV = "image::buffer_par::<impl image::buffer_::ImageBuffer<P, alloc::vec::Vec<<P as image::traits::Pixel>::Subpixel>>>::"


@m(IB + "width", GV + "width", IBG + "width", CAN + "width")
def _width(c):
    return c.ret(I(idims(c)[0], U32))


@m(IB + "height", GV + "height", IBG + "height", CAN + "height")
def _height(c):
    return c.ret(I(idims(c)[1], U32))


@m(IB + "dimensions", GV + "dimensions", IBG + "dimensions", CAN + "dimensions")
def _dimensions(c):
    w, h = idims(c)
    return c.ret(St(("tuple",), [I(w, U32), I(h, U32)]))


@m(GV + "in_bounds", IBG + "in_bounds")
def _in_bounds(c):
    w, h = idims(c)
    x, y = c.args[1], c.args[2]
    if isinstance(x, I) and isinstance(y, I):
        return c.ret(Bo(cand(cge(w - x.l - 1), cge(h - y.l - 1))))
    return c.fresh()


def pixaccess(c, kind, xi=1, yi=2):
    w, h = idims(c)
    x, y = c.args[xi], c.args[yi]
    if not (isinstance(x, I) and isinstance(y, I)):
        c.oblige(c.st, kind, [("unk", c.key + ".xy")])
        return [c.st]
    cs = [cge(w - x.l - 1), cge(h - y.l - 1)]
    if c.oblige(c.st, kind, cs):
        s = c.st.copy()
        for k in cs:
            if k[0] == "ge":
                s.add(k[1])
        return [] if s.dead else [s]
    out = []
    for s in c.ip.assume(c.st, cs[0]):
        out += c.ip.assume(s, cs[1])
    return out


@m(IB + "get_pixel", IB + "get_pixel_mut")
def _get_pixel_ref(c):
    out = []
    for s in pixaccess(c, "pixel"):
        s = s.copy()
        t = c.dty[2] if c.dty[0] == "ref" else OTHER
        out.append((s, newcell(s, c.key + ".pxc", Ob(c.key + ".px", t))))
    return out


@m("<image::buffer_::ImageBuffer<P, Container> as core::ops::index::Index<(u32, u32)>>::index", "<image::buffer_::ImageBuffer<P, Container> as core::ops::index::IndexMut<(u32, u32)>>::index_mut")
def _index_pixel(c):
    t = c.args[1]
    if isinstance(t, St):
        c2 = C(c.ip, c.fr, c.st, c.d, c.p, c.rp, c.rargs, [c.args[0]] + list(t.v), c.atys, c.dty, c.key, c.line)
        return _get_pixel_ref(c2)
    return c.fresh()


@m(GV + "get_pixel", IBG + "get_pixel", CAN + "get_pixel")
def _get_pixel_val(c):
    return [(s, Ob(c.key + ".px", c.dty)) for s in pixaccess(c, "pixel")]


@m(IB + "get_pixel_checked", IB + "get_pixel_mut_checked")
def _get_pixel_checked(c):
    w, h = idims(c)
    x, y = c.args[1], c.args[2]
    if isinstance(x, I) and isinstance(y, I):
        out = []
        cond = cand(cge(w - x.l - 1), cge(h - y.l - 1))
        for s in c.ip.assume(c.st, cond, True):
            s = s.copy()
            out.append((s, some(newcell(s, c.key + ".pxc", Ob(c.key + ".px", OTHER)))))
        for s in c.ip.assume(c.st, cond, False):
            out.append((s, NONE))
        return out
    return c.fresh()


@m(GV + "unsafe_get_pixel", IBG + "unsafe_get_pixel")
def _unsafe_get(c):
    return [(s, Ob(c.key + ".px", c.dty)) for s in pixaccess(c, "unsafe")]


@m(IB + "put_pixel", GI + "put_pixel", IBGI + "put_pixel", CAN + "draw_pixel")
def _put_pixel(c):
    return [(s, UNIT) for s in pixaccess(c, "pixel")]


@m(GI + "unsafe_put_pixel", IBGI + "unsafe_put_pixel")
def _unsafe_put(c):
    return [(s, UNIT) for s in pixaccess(c, "unsafe")]


@m(GI + "blend_pixel", IBGI + "blend_pixel")
def _blend(c):
    return [(s, UNIT) for s in pixaccess(c, "pixel")]


def dimarg(v, key):
    return v.l if isinstance(v, I) else V(S.new(key, 0, MAXDIM))


@m(IBV + "new", IBV + "from_pixel")
def _new(c):
    return c.ret(Im(c.key + ".im", dimarg(c.args[0], c.key + ".nw"), dimarg(c.args[1], c.key + ".nh"), c.dty))


@m(IBV + "from_fn", PARV + "from_par_fn")
def _from_fn(c):
    w, h = dimarg(c.args[0], c.key + ".nw"), dimarg(c.args[1], c.key + ".nh")
    f = newcell(c.st, c.key + "#f", c.args[2]) if not isinstance(c.args[2], Rf) else c.args[2]
    outs = iterate(c.ip, c.fr, c.st, It("xy", w, h), c.key, lambda s, t: [(q, None) for q, _ in callf(c.ip, c.fr, s, f, list(t.v), c.key + "f")])
    return [(s, Im(c.key + ".im", w, h, c.dty)) for s in outs.get(None, [])]


@m(IBV + "from_vec", IB + "from_raw")
def _from_vec(c):
    w, h = dimarg(c.args[0], c.key + ".nw"), dimarg(c.args[1], c.key + ".nh")
    n = c.ip.len_of(c.st, c.v(2))
    t = c.dty[2][0] if c.dty[0] == "adt" and c.dty[2] else OTHER
    im = Im(c.key + ".im", w, h, t)
    if n is None:
        s = c.st.copy()
        return [(s, some(im)), (c.st.copy(), NONE)]
    return b2opt(c.ip, c.st, cge(n - w * h * c.ip.chan(t)), im)


@m(IB + "pixels", IB + "pixels_mut", PAR + "par_pixels", PAR + "par_pixels_mut")
def _pixels(c):
    return c.ret(It("pix", imgv(c)))


@m(GV + "pixels", IBG + "pixels")
def _gpixels(c):
    return c.ret(It("enumpixval", imgv(c)))


@m(IB + "enumerate_pixels", IB + "enumerate_pixels_mut", PAR + "par_enumerate_pixels", PAR + "par_enumerate_pixels_mut")
def _enum_pixels(c):
    return c.ret(It("enumpix", imgv(c)))


@m(IB + "rows", IB + "rows_mut")
def _rows(c):
    return c.ret(It("rows", imgv(c), L(0)))


@m("<image::buffer_::ImageBuffer<P, Container> as core::ops::deref::Deref>::deref", "<image::buffer_::ImageBuffer<P, Container> as core::ops::deref::DerefMut>::deref_mut", IB + "as_raw", IB + "as_flat_samples", IB + "inner_pixels", IB + "as_mut")
def _imderef(c):
    v = imgv(c)
    t = v.ty if isinstance(v, (Im, Ob)) else OTHER
    n = c.ip.len_of(c.st, v)
    if n is None:
        n = V(S.new(c.key + ".len", 0, MAXLEN))
    px = pxty(t)
    return c.ret(newcell(c.st, c.key + ".raw", Sq(n, None, ty=c.ip.subpixel(px))))


@m(IB + "into_raw", IB + "into_vec")
def _into_raw(c):
    v = imgv(c)
    n = c.ip.len_of(c.st, v)
    t = v.ty if isinstance(v, (Im, Ob)) else OTHER
    return c.ret(Sq(n if n is not None else V(S.new(c.key + ".len", 0, MAXLEN)), None, ty=c.ip.subpixel(pxty(t))))


@m(GI + "copy_from", IBGI + "copy_from")
def _copy_from(c):
    w, h = idims(c)
    ow, oh = idims(c, 1)
    x, y = c.args[2], c.args[3]
    if isinstance(x, I) and isinstance(y, I):
        cond = cand(cge(w - ow - x.l), cge(h - oh - y.l))
        return [(s, ok(UNIT)) for s in c.ip.assume(c.st, cond, True)] + [(s, err(Ob(c.key + ".e", OTHER))) for s in c.ip.assume(c.st, cond, False)]
    return c.fresh()


@m(GI + "sub_image", GV + "view", "image::imageops::crop_imm", "image::imageops::crop")
def _sub_image(c):
    w, h = idims(c)
    a = [x.l if isinstance(x, I) else None for x in c.args[1:5]]
    if None in a:
        return c.fresh()
    x, y, sw, sh = a
    cs = [cge(w - x - sw), cge(h - y - sh)]
    c.oblige(c.st, "pixel", cs, "sub_image")
    v = imgv(c)
    out = []
    for s in c.ip.assume(c.st, cs[0]):
        for s2 in c.ip.assume(s, cs[1]):
            out.append((s2, Im(c.key + ".sub", sw, sh, v.ty if isinstance(v, (Im, Ob)) else None)))
    return out


@m("image::image::SubImage::<I>::inner_mut", "image::image::SubImage::<I>::to_image", "image::image::SubImage::<I>::inner")
def _inner(c):
    return c.ret(c.args[0])


@m("image::imageops::sample::resize")
def _resize(c):
    w, h = dimarg(c.args[1], c.key + ".nw"), dimarg(c.args[2], c.key + ".nh")
    return c.ret(Im(c.key + ".im", w, h, c.dty))


@m("image::dynimage::DynamicImage::to_luma32f", "image::dynimage::DynamicImage::to_luma8", "image::dynimage::DynamicImage::to_rgb8")
def _toluma(c):
    return c.ret(Im(c.key + ".im", V(S.new(c.key + ".w", 0, MAXDIM)), V(S.new(c.key + ".h", 0, MAXDIM)), c.dty))


# ---- pixels
def _pix_index(c):
    r = c.args[0]
    ix = c.args[1]
    if isinstance(r, Ob) and r.ty[0] == "ref":
        r = c.ip.deref_ob(c.st, r)
    if not isinstance(r, Rf):
        return c.fresh()
    v = c.ip.load(c.st, r.c, r.p, None, c.key)
    while isinstance(v, Rf):
        r = v
        v = c.ip.load(c.st, r.c, r.p, None, c.key)
    nm = [k for k in ("LumaA", "Luma", "Rgba", "Rgb") if f"::{k}<" in c.rp]
    n = c.ip.CH[nm[0]]
    ty = v.ty if isinstance(v, Ob) else None
    sub = ty[2][0] if ty and ty[0] == "adt" and ty[2] else (c.dty[2] if c.dty[0] == "ref" else OTHER)
    arr = ("array", sub, n)
    if not isinstance(ix, I):
        return c.fresh()
    c.oblige(c.st, "index", [cge(L(n - 1) - ix.l)], "pixel channel")
    return [(s, Rf(r.c, r.p + (("f", 0, arr, 0), ("e", ix.l)))) for s in c.ip.assume(c.st, cge(L(n - 1) - ix.l))]


for _p in ("Luma", "LumaA", "Rgb", "Rgba"):
    m(f"<image::color::{_p}<T> as core::ops::index::Index<usize>>::index", f"<image::color::{_p}<T> as core::ops::index::IndexMut<usize>>::index_mut")(_pix_index)


@m("image::traits::Pixel::channels", "image::traits::Pixel::channels_mut")
def _channels(c):
    st = c.st
    t = c.atys[0]
    t = t[2] if t[0] == "ref" else t
    v = c.v(0)
    pt = v.ty if isinstance(v, Ob) and v.ty != OTHER else t
    if isinstance(v, St) and v.v and isinstance(v.v[0], St) and v.v[0].k[0] == "array":
        r = c.args[0]
        if isinstance(r, Rf):
            return c.ret(Rf(r.c, r.p + (("f", 0, OTHER, 0),)))
    n = c.ip.chan_px(pt)
    sub = c.ip.subpixel(pt)
    return c.ret(newcell(st, c.key + ".ch", Sq(n, None, ty=sub)))


@m("image::traits::Pixel::from_slice", "image::traits::Pixel::from_slice_mut")
def _from_slice(c):
    t = c.dty[2] if c.dty[0] == "ref" else OTHER
    n = c.ip.len_of(c.st, c.v(0))
    ch = c.ip.chan_px(t)
    if n is not None:
        c.oblige(c.st, "slice", [cge(n - ch)], "from_slice")
    return c.ret(newcell(c.st, c.key + ".fs", Ob(c.key + ".fsp", t)))


def _pixfn(c):
    """map-like methods taking closures over subpixels: the closure runs on arbitrary samples"""
    outs = [c.st]
    for i, a in enumerate(c.args):
        if isinstance(a, St) and a.k[0] == "clo":
            fn = c.ip.prog.fns.get(a.k[1])
            nx = []
            for s in outs:
                s = s.copy()
                args = [Ob(f"{c.key}.s{i}{j}", OTHER) for j in range(fn.argc - 1)]
                # typed by the closure's own parameter types
                ar = []
                for j in range(fn.argc - 1):
                    t = c.ip.prog.rt(fn.locals[2 + j][0], c.fr.env if c.fr else None)
                    ar.append(c.ip.mk(s, t, f"{c.key}.s{i}{j}"))
                nx += [q for q, _ in callf(c.ip, c.fr, s, a, ar, c.key + f"f{i}")]
            outs = nx
    return [(s, c.ip.mk(s, c.dty, c.key + ".px")) for s in outs]


for _n in ("map", "map2", "map_without_alpha", "map_with_alpha", "apply", "apply2", "blend", "to_rgb", "to_luma", "to_rgba", "invert", "apply_without_alpha"):
    m("image::traits::Pixel::" + _n)(_pixfn)
m("<image::color::Luma<T> as image::traits::Pixel>::channels")(_channels)


# ---- hash maps: contents opaque
@m("std::collections::hash::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S, A>::get_mut")
def _hget(c):
    s = c.st.copy()
    t = c.dty[2][0] if c.dty[0] == "adt" and c.dty[2] else OTHER
    return [(s, some(c.ip.mk(s, t, c.key + ".hv"))), (c.st.copy(), NONE)]
