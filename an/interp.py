"""Abstract interpreter over dumped MIR (relational, inlining, loop invariants by iterated candidate filtering)."""
import sys
import loops
from lin import *
from vals import *
from ir import *

sys.setrecursionlimit(20000)
MAXDIM = 1 << 24
MAXLEN = (1 << 31) - 1
import os
GCF = os.environ.get("GCF", "1") == "1"
K = 10
SPECIAL_ORD = {0: -1, 1: 0, 2: 1}


class Budget(Exception):
    pass


class Oblig:
    __slots__ = ("kind", "fn", "callee", "line", "goal", "ok", "ctx", "why", "safe")

    def __init__(self, kind, fn, callee, line, goal, ok, ctx, why=""):
        self.kind, self.fn, self.callee, self.line, self.goal, self.ok, self.ctx, self.why = kind, fn, callee, line, goal, ok, ctx, why

    def __repr__(self):
        return f"{'OK ' if self.ok else 'BAD'} {self.kind} {self.fn}:{self.line} {self.callee} {self.goal} {self.why}"


class Frame:
    __slots__ = ("fn", "env", "cs", "depth", "st0")

    def __init__(self, fn, env, cs, depth):
        self.fn, self.env, self.cs, self.depth = fn, env, cs, depth

    def cell(self, i):
        return f"{self.cs}%{i}"


def rng(rt):
    if rt[0] == "uint":
        return (0, (1 << rt[1]) - 1)
    if rt[0] == "int":
        return (-(1 << (rt[1] - 1)), (1 << (rt[1] - 1)) - 1)
    if rt[0] == "bool":
        return (0, 1)
    if rt[0] == "char":
        return (0, 0x10FFFF)
    return None


def is_img(rt):
    return rt[0] == "adt" and rt[1].endswith("ImageBuffer")


def strip_ref(rt):
    while rt[0] in ("ref", "ptr"):
        rt = rt[2]
    return rt


class Interp:
    def __init__(self, prog, mode="release", budget=400000):
        self.prog = prog
        self.mode = mode
        self.obl = []
        self.loopcache = {}
        self.steps = 0
        self.budget = budget
        self.unmodelled = {}
        self.entry = None
        self.fnstack = []
        self.analysed = set()
        self.callsites = 0
        self.truncs = 0
        self.hooks = {}
        self.calls_log = None
        self.panics = []
        self.envs = {}
        self.dimpairs = {}
        self.opaque = frozenset()
        self.frozen = set()
        self.opaque_used = set()
        self.missing = set()    # invariants whose fields were not found
        self.bound = None       # assumed magnitude of integer parameters (None: full range of their types)
        import models
        self.models = models

    # ------------------------------------------------------------ values
    def mk(self, st, rt, name):
        k = rt[0]
        if k in ("int", "uint"):
            lo, hi = rng(rt)
            if self.bound and rt[1] >= 32 and name.startswith("arg:"):
                return I(V(S.new(name, max(lo, -self.bound), min(hi, self.bound))), (lo, hi))
            return I(V(S.new(name, lo, hi)), (lo, hi))
        if k == "bool":
            return Bo(("unk", name))
        if k == "char":
            return I(V(S.new(name, 0, 0x10FFFF)), (0, 0x10FFFF))
        if k == "float":
            s = S.new(name, -INF, INF, False)
            REPR[s] = rt[1]
            return Fl(V(s), frozenset([name]))
        if k == "tuple":
            return St(("tuple",), [self.mk(st, t, f"{name}.{i}") for i, t in enumerate(rt[1])])
        if k == "never":
            return UNIT
        if k == "fndef":
            return Ob(name, rt)
        if k == "alias" and rt[1] in PRIMS:
            return self.mk(st, PRIMS[rt[1]], name)
        ob = Ob(name, rt)
        if k == "adt" and rt[1] in self.models.INVARIANTS:
            self.models.INVARIANTS[rt[1]](self, st, ob)
        return ob

    def len_of(self, st, v):
        """Lin length of a sequence-like value"""
        if isinstance(v, Sq):
            return v.n
        if isinstance(v, St) and v.k[0] == "array":
            return L(len(v.v))
        if isinstance(v, Im):
            return v.w * v.h * self.chan(v.ty)
        if isinstance(v, Ob):
            t = v.ty
            if t[0] == "array":
                if t[2] is not None:
                    return L(t[2])
                return V(S.new(v.id + ".N", 0, MAXLEN))
            if is_img(t):
                w, h = self.dims(st, v)
                return w * h * self.chan(t)
            return V(S.new(v.id + ".len", 0, MAXLEN))
        return None

    CH = {"Luma": 1, "LumaA": 2, "Rgb": 3, "Rgba": 4}

    def chan_px(self, pt):
        if pt and pt[0] == "adt":
            n = pt[1].split("::")[-1]
            if n in self.CH:
                return L(self.CH[n])
        return V(S.new("CH<" + (tstr(pt) if pt else "?") + ">", 1, 255))

    def chan(self, imty):
        if imty and imty[0] == "adt" and imty[2]:
            return self.chan_px(imty[2][0])
        return V(S.new("CH<?>", 1, 255))

    def dims(self, st, v):
        if isinstance(v, Im):
            return v.w, v.h
        if isinstance(v, Ob):
            w, h = S.new(v.id + ".w", 0, MAXDIM), S.new(v.id + ".h", 0, MAXDIM)
            m = S.mono_of((w, h))
            self.dimpairs[(w, h)] = None
            S.hi[m] = min(S.hi[m], MAXLEN)      # modelling assumption: fewer than 2^31 pixels
            return V(w), V(h)
        if isinstance(v, St):
            # wrappers around an image, e.g. Blend(img)
            for x in v.v:
                y = self.deref_all(st, x)
                if isinstance(y, (Im, Ob)):
                    return self.dims(st, y)
        return None

    def deref_all(self, st, v):
        n = 0
        while isinstance(v, Rf) and n < 10:
            v = self.load(st, v.c, v.p, None, "deref")
            n += 1
        while isinstance(v, Ob) and v.ty[0] in ("ref", "ptr") and n < 10:
            v = self.deref_ob(st, v)
            v = st.cells[v.c] if not v.p else self.load(st, v.c, v.p, None, "deref")
            n += 1
        return v

    def deref_ob(self, st, ob):
        c = "*" + ob.id
        if c not in st.cells:
            st.cells[c] = self.mk(st, ob.ty[2], ob.id + "*")
            if ob.ty[0] == "ref" and not ob.ty[1] and ob.id.startswith("arg:"):
                self.frozen.add(c)
        return Rf(c)

    # ------------------------------------------------------------ memory
    def load(self, st, c, path, rt=None, key=""):
        v = st.cells.get(c)
        if v is None:
            v = Ob("uninit:" + c, rt or ("other", "?"))
            st.cells[c] = v
        for n, e in enumerate(path):
            if e[0] == "e" and c in self.frozen and e[1] is not None and isinstance(v, (Ob, Sq)):
                # element of a slice behind a shared reference: the same value at every read
                mk = f"@m{type(v).__name__}{c}{path[:n + 1]}"
                w = st.cells.get(mk)
                if w is None:
                    w = st.cells[mk] = self.proj(st, v, e, f"{key}:{c}{n}")
                v = w
                continue
            v = self.proj(st, v, e, f"{key}:{c}{n}")
        return v

    def proj(self, st, v, e, key):
        k = e[0]
        if k == "f":
            return self.field(st, v, e[1], e[2], e[3] if len(e) > 3 else 0, key)
        if k == "e":
            return self.elem(st, v, e[1], key)
        if k == "v":      # downcast marker is merged into field's variant
            return v
        return Ob(key + "?", ("other", "?"))

    def field(self, st, v, idx, rt, var, key):
        if isinstance(v, St):
            if idx < len(v.v):
                return v.v[idx]
        elif isinstance(v, En):
            a = v.alts.get(var)
            if a is not None and idx < len(a):
                return a[idx]
            return self.mk(st, rt, key + f".dead{var}.{idx}") if rt else Ob(key, ("other", "?"))
        elif isinstance(v, Ob):
            o = v.ov.get((var, idx))
            if o is not None:
                return o
            return self.mk(st, rt, self.ovname(v.id, (var, idx))) if rt else Ob(f"{v.id}.{idx}", ("other", "?"))
        elif isinstance(v, (Im, Sq, It)):
            r = self.models.field_of_model(self, st, v, idx, rt, key)
            if r is not None:
                return r
        return self.mk(st, rt, key + f".f{idx}") if rt else Ob(key, ("other", "?"))

    def elem(self, st, v, ix, key):
        """generic or exact element read; ix: Lin or None"""
        if isinstance(v, St) and v.k[0] == "array":
            c = ix.const() if ix is not None else None
            if c is not None and 0 <= c < len(v.v):
                return v.v[c]
            if not v.v:
                return Ob(key, ("other", "?"))
            r = v.v[0]
            for x in v.v[1:]:
                if x != r:
                    return self.generic_of(st, v.v, key, ix)
            return r
        if isinstance(v, Sq):
            return self.inst(st, v, key)
        ety = self.elem_ty(v)
        if isinstance(v, Ob) and ix is not None and ix.const() is not None and v.ty[0] == "array" and v.ty[2] is not None and 0 <= ix.const() < v.ty[2] <= 64:
            c = ix.const()
            o = v.ov.get(("e", c))
            return o if o is not None else self.mk(st, ety, self.ovname(v.id, ("e", c)))
        if self.bound and isinstance(v, Ob) and v.id.startswith("arg:"):
            return self.mk(st, ety, "arg:@" + key + ".el")
        return self.mk(st, ety, key + ".el")

    @staticmethod
    def ovname(i, k):
        if k[0] == "e":
            return f"{i}[{k[1]}]"
        return f"{i}.{'' if not k[0] else 'v%d.' % k[0]}{k[1]}"

    def generic_of(self, st, vals, key, ix=None):
        """A value over-approximating every value in vals (pointwise hull of ints)."""
        v0 = vals[0]
        if all(isinstance(x, I) for x in vals):
            los, his = [], []
            for x in vals:
                lo, hi = st.interval(x.l)
                los.append(lo)
                his.append(hi)
            s = S.new(key + ".any", min(los), max(his))
            V0 = V(s)
            for x in vals:
                if all(y is x or st.prove(y.l - x.l) for y in vals):
                    st.add(V0 - x.l)
                if all(y is x or st.prove(x.l - y.l) for y in vals):
                    st.add(x.l - V0)
            if ix is not None and all(x.l.const() is not None for x in vals):
                pass
            return I(V0, v0.r)
        if all(isinstance(x, St) and x.k == v0.k and len(x.v) == len(v0.v) for x in vals):
            return St(v0.k, [self.generic_of(st, [x.v[i] for x in vals], f"{key}.{i}") for i in range(len(v0.v))])
        if all(isinstance(x, Fl) for x in vals):
            nan = frozenset().union(*[x.nan for x in vals])
            return Fl(V(S.new(key + ".anyf", -INF, INF, False)), nan, all(x.fin for x in vals))
        if all(isinstance(x, Bo) for x in vals):
            return Bo(("unk", key + ".anyb"))
        if all(x == v0 for x in vals):
            return v0
        if all(isinstance(x, En) for x in vals):
            alts = {}
            for vi in set().union(*[x.alts for x in vals]):
                ps = [x.alts[vi] for x in vals if vi in x.alts]
                if all(len(p) == len(ps[0]) for p in ps):
                    alts[vi] = tuple(self.generic_of(st, [p[i] for p in ps], f"{key}.{vi}.{i}") for i in range(len(ps[0])))
            if self.unit_enum(v0.p, alts):
                return Ob(key + ".any", ("adt", v0.p, ()))
            return En(v0.p, alts)
        return Ob(key + ".any", ("other", "?"))

    def unit_enum(self, p, alts):
        return p in self.prog.adts and not any(alts.values()) and (self.nvariants(("adt", p, ())) or 0) > 1

    def inst(self, st, sq, key):
        """instantiate the element template of a Sq"""
        if sq.el is None:
            return self.mk(st, sq.ty or ("other", "?"), key + ".el")
        if not sq.ts:
            return sq.el
        m = {}
        for s in sq.ts:
            m[s] = V(S.new(f"{key}<{S.name[s]}", S.lo[s], S.hi[s], S.isint[s]))
        for f in sq.tf:
            st.add(f.subst(m))
        return self.substv(sq.el, m, key)

    def substv(self, v, m, key=""):
        if isinstance(v, I):
            return I(v.l.subst(m), v.r)
        if isinstance(v, Fl):
            return Fl(v.l.subst(m) if v.l else v.l, frozenset(f"{key}<{x}" for x in v.nan), v.fin)
        if isinstance(v, Bo):
            return Bo(self.substc(v.c, m, key))
        if isinstance(v, St):
            return St(v.k, [self.substv(x, m, key) for x in v.v])
        if isinstance(v, En):
            return En(v.p, {k: tuple(self.substv(x, m, key) for x in a) for k, a in v.alts.items()}, {k: self.substc(c, m, key) for k, c in v.g.items()})
        if isinstance(v, Sq):
            return Sq(v.n.subst(m), self.substv(v.el, m, key) if v.el is not None else None, v.ts, [f.subst(m) for f in v.tf], v.ty, v.id)
        if isinstance(v, Im):
            return Im(v.id, v.w.subst(m), v.h.subst(m), v.ty, v.src)
        if isinstance(v, It):
            return It(v.k, *[self.substv(x, m, key) if not isinstance(x, Lin) else x.subst(m) for x in v.v])
        if isinstance(v, Ob):
            return Ob(f"{key}<{v.id}", v.ty, {k: self.substv(x, m, key) for k, x in v.ov.items()})
        return v

    def substc(self, c, m, key=""):
        k = c[0]
        if k in ("ge", "eq"):
            return (k, c[1].subst(m))
        if k == "not":
            return ("not", self.substc(c[1], m, key))
        if k in ("and", "or"):
            return (k, self.substc(c[1], m, key), self.substc(c[2], m, key))
        if k == "fc":
            return ("fc", c[1], c[2].subst(m), frozenset(f"{key}<{x}" for x in c[3]))
        if k == "unk":
            return ("unk", f"{key}<{c[1]}")
        return c

    def elem_ty(self, v):
        t = v.ty if isinstance(v, (Ob, Im)) else None
        if t is None:
            return ("other", "?")
        if t[0] in ("slice", "array"):
            return t[1]
        if t[0] == "adt":
            n = t[1].split("::")[-1]
            if n in ("Vec", "VecDeque", "HashSet") and t[2]:
                return t[2][0]
            if n == "ImageBuffer":
                return self.subpixel(t[2][0])
            if n in self.CH and t[2]:
                return t[2][0]
        return ("other", f"elem<{tstr(t)}>")

    def subpixel(self, px):
        if px[0] == "adt" and px[1].split("::")[-1] in self.CH and px[2]:
            return px[2][0]
        return ("alias", f"<{tstr(px)} as Pixel>::Subpixel")

    def store(self, st, c, path, val, key=""):
        if not path:
            st.cells[c] = val
            return
        v = st.cells.get(c)
        if v is None:
            v = Ob("uninit:" + c, ("other", "?"))
        st.cells[c] = self.upd(st, v, path, val, key)

    def upd(self, st, v, path, val, key):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "f":
            idx, var = e[1], (e[3] if len(e) > 3 else 0)
            old = self.field(st, v, idx, e[2], var, key + ".u")
            new = self.upd(st, old, path[1:], val, key)
            if isinstance(v, St):
                l = list(v.v)
                if idx < len(l):
                    l[idx] = new
                    return St(v.k, l)
                return v
            if isinstance(v, En):
                a = list(v.alts.get(var, ()))
                while len(a) <= idx:
                    a.append(Ob(key, ("other", "?")))
                a[idx] = new
                return En(v.p, {var: tuple(a)})
            if isinstance(v, Ob):
                ov = dict(v.ov)
                ov[(var, idx)] = new
                return Ob(v.id, v.ty, ov)
            return Ob(key + ".upd", ("other", "?"))
        if k == "e":
            if isinstance(v, St) and v.k[0] == "array":
                ix = e[1]
                c = ix.const() if ix is not None else None
                if c is not None and 0 <= c < len(v.v):
                    l = list(v.v)
                    l[c] = self.upd(st, l[c], path[1:], val, key)
                    return St(v.k, l)
                if len(v.v) <= 16:
                    new = [self.weak(st, x, self.upd(st, x, path[1:], val, key), f"{key}.w{i}") for i, x in enumerate(v.v)]
                    return St(v.k, new)
                return Sq(L(len(v.v)), None, ty=None)
            if isinstance(v, Sq):
                if v.el is None:
                    return v
                old = self.inst(st, v, key + ".ie")
                new = self.upd(st, old, path[1:], val, key)
                return self.sq_weak(st, v, new, key)
            if isinstance(v, Ob) and v.ty[0] == "array" and v.ty[2] is not None and v.ty[2] <= 64:
                ix = e[1]
                c = ix.const() if ix is not None else None
                if c is not None:
                    ov = dict(v.ov)
                    ov[("e", c)] = self.upd(st, self.elem(st, v, ix, key), path[1:], val, key)
                    return Ob(v.id, v.ty, ov)
                return Ob(key + ".wk", v.ty)
            return v
        return v

    def weak(self, st, a, b, key):
        if a == b:
            return a
        return self.generic_of(st, [a, b], key)

    def sq_weak(self, st, sq, new, key):
        """join a newly written element into the template"""
        if sq.el is None:
            return sq
        if sq.el == new:
            return sq
        el, ts, tf = self.tmpl_join(st, sq, new, key)
        return Sq(sq.n, el, ts, tf, sq.ty, sq.id)

    def tmpl_join(self, st, sq, new, key):
        # leaves of ints: candidate facts = tf rewritten, bounds
        old = sq.el
        pairs = []

        def gen(a, b, p):
            if isinstance(a, I) and isinstance(b, I):
                if a.l == b.l and not (set(a.l.t) & sq.ts):
                    return a
                r = a.r or b.r or (-INF, INF)
                s = S.new(f"{key}.t{p}", r[0], r[1])
                pairs.append((s, a.l, b.l))
                return I(V(s), a.r or b.r)
            if isinstance(a, St) and isinstance(b, St) and a.k == b.k and len(a.v) == len(b.v):
                return St(a.k, [gen(x, y, f"{p}.{i}") for i, (x, y) in enumerate(zip(a.v, b.v))])
            if isinstance(a, Fl) and isinstance(b, Fl):
                if a == b and not (a.l and set(a.l.t) & sq.ts):
                    return a
                return Fl(V(S.new(f"{key}.tf{p}", -INF, INF, False)), frozenset([f"{key}.tn{p}"]) if (a.nan or b.nan) else EMPTY, a.fin and b.fin)
            if isinstance(a, Bo):
                return Bo(("unk", f"{key}.tb{p}"))
            if a == b and isinstance(a, (Fd, Rf)):
                return a
            return Ob(f"{key}.to{p}", a.ty if isinstance(a, Ob) else ("other", "?"))
        el = gen(old, new, "")
        so = st.copy()
        for f in sq.tf:
            so.add(f)
        tf = []
        cands = []
        for f in sq.tf:
            # rewrite old template symbols to new ones where the leaf is a plain template symbol
            m = {}
            for s, a, b in pairs:
                if len(a.t) == 1 and a.c == 0 and list(a.t.values()) == [1]:
                    m[next(iter(a.t))] = V(s)
            cands.append(f.subst(m))
        for s, a, b in pairs:
            la, ha = so.interval(a)
            lb, hb = st.interval(b)
            lo, hi = min(la, lb), max(ha, hb)
            if lo != -INF:
                tf.append(V(s) - lo)
            if hi != INF:
                tf.append(L(hi) - V(s))
            cands += [V(s) - b, b - V(s), V(s) - a if not (set(a.t) & sq.ts) else None, a - V(s) if not (set(a.t) & sq.ts) else None]
        mo = {s: a for s, a, b in pairs}
        mn = {s: b for s, a, b in pairs}
        new_ts = set(s for s, _, _ in pairs)
        for c in cands:
            if c is None:
                continue
            c = norm(c)
            if set(c.t) & (sq.ts - new_ts):
                continue
            if so.prove(c.subst(mo)) and st.prove(c.subst(mn)) and c not in tf:
                tf.append(c)
        # opaque floats etc. become template via names only; they have no facts
        return el, frozenset(new_ts), tuple(tf)

    # ------------------------------------------------------------ conditions
    def assume(self, st, c, truth=True):
        """returns list of states (disjuncts)"""
        k = c[0]
        if k == "t" or k == "f":
            return [st] if (k == "t") == truth else []
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "ge":
            f = c[1] if truth else None
            if truth:
                if st.prove(-c[1] - 1) if c[1].allint() else False:
                    return []
                s = st.copy()
                s.add(c[1])
            else:
                if st.prove(c[1]):
                    return []
                s = st.copy()
                if c[1].allint():
                    s.add(-c[1] - 1)
                else:
                    s.add_strict(-c[1])
            return [] if s.dead else [s]
        if k == "eq":
            if truth:
                if st.is_ne(c[1]):
                    return []
                s = st.copy()
                s.add(c[1])
                s.add(-c[1])
                return [] if s.dead else [s]
            if st.prove(c[1]) and st.prove(-c[1]):
                return []
            s = st.copy()
            s.add_ne(c[1])
            return [] if s.dead else [s]
        if k == "unk":
            if c[1] in st.unk:
                return [st] if st.unk[c[1]] == truth else []
            s = st.copy()
            s.unk[c[1]] = truth
            return [s]
        if k == "and" or k == "or":
            if (k == "and") == truth:
                r = []
                for s in self.assume(st, c[1], truth):
                    r += self.assume(s, c[2], truth)
                return r
            r = list(self.assume(st, c[1], truth))
            for s in self.assume(st, c[1], not truth):
                r += self.assume(s, c[2], truth)
            return r
        if k == "fc":
            op, l, nan = c[1], c[2], c[3]
            r = []
            nonan = [st]
            nanst = []
            if nan:
                nonan = []
                s = st
                cur = [st]
                # all roots false
                s2 = st.copy()
                ok = True
                for x in nan:
                    if s2.unk.get(x) is True:
                        ok = False
                    s2.unk[x] = False
                if ok:
                    nonan = [s2]
                if any(st.unk.get(x) is True for x in nan):
                    nanst = [st]
                elif not all(st.unk.get(x) is False for x in nan):
                    s3 = st.copy()
                    if len(nan) == 1:
                        s3.unk[next(iter(nan))] = True
                    else:
                        s3.unk["|".join(sorted(nan))] = True
                    nanst = [s3]
            for s in nonan:
                if l is None:
                    r.append(s.copy())
                    continue
                s = s.copy()
                if op == ">=":
                    s.add(l) if truth else s.add_strict(-l)
                elif op == ">":
                    s.add_strict(l) if truth else s.add(-l)
                elif op == "==":
                    if truth:
                        s.add(l)
                        s.add(-l)
                elif op == "rd":     # no information (rounded)
                    pass
                if op != "rd" and not s.dead:
                    self.resolve_rnd(s, l)
                if not s.dead:
                    r.append(s)
            if not truth:
                r += nanst
            return r
        return [st.copy()]

    def resolve_rnd(self, st, l, depth=0):
        """a rounded integer below 2^24 (2^53) equals the integer that was rounded"""
        for t in list(l.t):
            if t in RND and depth < 4:
                E, w = RND[t]
                if ("rnd", t) in st.unk:
                    continue
                x = Lin(0, {t: 1})
                b = 1 << (24 if w == 32 else 53)
                if st.prove(L(b - 1) - x) and st.prove(x + (b - 1)):
                    st.unk[("rnd", t)] = True
                    st.add(x - E)
                    st.add(E - x)
                    self.resolve_rnd(st, E, depth + 1)

    def entails(self, st, c):
        k = c[0]
        if k == "t":
            return True
        if k == "f":
            return st.dead
        if k == "ge":
            return st.prove(c[1])
        if k == "eq":
            return st.prove(c[1]) and st.prove(-c[1])
        if k == "and":
            return self.entails(st, c[1]) and self.entails(st, c[2])
        if k == "or":
            if self.entails(st, c[1]) or self.entails(st, c[2]):
                return True
            r = self.assume(st, c[1], False)
            return all(self.entails(s, c[2]) for s in r)
        if k == "unk":
            return st.unk.get(c[1]) is True
        if k == "not":
            x = c[1]
            if x[0] == "unk":
                return st.unk.get(x[1]) is False
            if x[0] == "eq":
                return st.is_ne(x[1])
            if x[0] == "ge":
                return st.prove(-x[1] - 1)
            if x[0] == "and":
                return self.entails(st, ("or", ("not", x[1]), ("not", x[2])))
            if x[0] == "or":
                return self.entails(st, ("not", x[1])) and self.entails(st, ("not", x[2]))
            if x[0] == "not":
                return self.entails(st, x[1])
            if x[0] in ("t", "f"):
                return self.entails(st, FALSE if x[0] == "t" else TRUE)
        return False

    # ------------------------------------------------------------ obligations
    def oblige(self, st, fr, kind, callee, line, conds, fnp=None, why=""):
        """conds: list of conditions that must hold"""
        bad = []
        for c in conds:
            if not self.entails(st, c):
                bad.append(cstr(c))
        ok = not bad
        if not ok and (st.dead or st.infeasible()):
            ok = True
        o = Oblig(kind, fnp or fr.fn.p, callee, line, " && ".join(cstr(c) for c in conds) if ok else " && ".join(bad), ok, tuple(self.fnstack), why)
        self.obl.append(o)
        if not ok and self.hooks.get("debug"):
            self.badconds = [c for c in conds if cstr(c) in bad]
            self.hooks["debug"](o, st)
        return ok

    # ------------------------------------------------------------ execution
    def run_fn(self, fn, args, st, cs, env, depth):
        """Inline fn; returns list of (state, retval)."""
        prepare(fn)
        self.analysed.add(fn.p)
        fr = Frame(fn, env, cs, depth)
        self.envs[fn.p] = env
        st = st.copy()
        if fn.d.get("spread") and len(args) >= 1:
            pass
        for i, a in enumerate(args):
            st.cells[fr.cell(i + 1)] = a
        self.fnstack.append(fn.p)
        outs = self.exec_region(fr, 0, [st], None)
        self.fnstack.pop()
        res = []
        pre = cs + "%"
        rets = outs.get("ret", [])
        for s in rets:
            rv = s.cells.get(fr.cell(0), UNIT)
            # drop frame cells unless referenced
            live = set()
            self.collect_refs(rv, s, live)
            self.gc(s, pre, live)
            if GCF:
                self.gc_facts(s, cs, rv)
            res.append((s, rv))
        if len(res) > K:
            res = self.merge_results(res, cs + "#ret")
        return res

    def collect_refs(self, v, st, out):
        stack = [v]
        while stack:
            v = stack.pop()
            if isinstance(v, Rf):
                if v.c not in out:
                    out.add(v.c)
                    if v.c in st.cells:
                        stack.append(st.cells[v.c])
                for e in v.p:
                    pass
            elif isinstance(v, (St, It)):
                stack.extend(v.v)
            elif isinstance(v, En):
                for a in v.alts.values():
                    stack.extend(a)
            elif isinstance(v, Ob):
                stack.extend(v.ov.values())
            elif isinstance(v, Sq) and v.el is not None:
                stack.append(v.el)
            elif isinstance(v, Di):
                out.add(v.c)

    def gc(self, st, pre, live):
        dead = [c for c in st.cells if c.startswith(pre) and c not in live]
        if not dead:
            return
        # cells outside the frame may point into it
        dset = set(dead)
        out = set()
        for c, v in st.cells.items():
            if c not in dset:
                self.collect_refs(v, st, out)
        for c in dead:
            if c not in out:
                del st.cells[c]

    def ob_ids(self, v, r):
        if isinstance(v, (St, It)):
            for x in v.v:
                self.ob_ids(x, r)
        elif isinstance(v, En):
            for a in v.alts.values():
                for x in a:
                    self.ob_ids(x, r)
        elif isinstance(v, Sq):
            if v.id:
                r.add(v.id)
            if v.el is not None:
                self.ob_ids(v.el, r)
        elif isinstance(v, Ob):
            r.add(v.id)
            for x in v.ov.values():
                self.ob_ids(x, r)

    def gc_facts(self, st, cs, rv):
        """projects out the symbols of a finished call that no value refers to any more"""
        occ = {}
        inmono = set()
        n = len(cs)
        for f in st.facts:
            for s in f.t:
                m = S.mono[s]
                if m:
                    inmono.update(m)
                    continue
                if s not in occ:
                    nm = S.name[s]
                    occ[s] = [] if nm.startswith(cs) and nm[n:n + 1] in "@%:>#." else None
                if occ[s] is not None:
                    occ[s].append(f)
        cand = {s for s, fs in occ.items() if fs is not None and s not in inmono}
        cand |= {s for s in st.bnd if s not in occ and s not in inmono and not S.mono[s] and S.name[s].startswith(cs) and S.name[s][n:n + 1] in "@%:>#."}
        if not cand:
            return
        live = set()
        ids = set()
        for v in st.cells.values():
            self.vsyms(v, live)
            self.ob_ids(v, ids)
        self.vsyms(rv, live)
        self.ob_ids(rv, ids)
        for l in st.ne:
            live.update(l.bases())
        pre = tuple(i for i in ids if i.startswith(cs))
        dead = {s for s in cand if s not in live and not S.name[s].startswith(pre)} if pre else cand - live
        for k in [k for k in st.unk if type(k) is tuple and k[0] == "split"]:
            b, alts = k[1], st.unk[k]
            syms = set()
            for alt in alts:
                for f in alt:
                    syms.update(f.bases())
            if b in dead or b not in occ and S.name[b].startswith(cs) and b not in live:
                # a distinction about a value that is gone; kept while something that lives on depends on it
                if any(x not in dead and x not in syms for f in occ.get(b) or () for x in f.t):
                    dead -= syms
                else:
                    del st.unk[k]
            else:
                dead -= syms
        if not dead:
            return
        facts = st.facts
        changed = False
        todo = sorted(dead, key=lambda s: len(occ.get(s) or ()))
        for s in todo:
            fs = [f for f in facts if s in f.t]
            if not fs:
                if s in st.bnd:
                    del st.bnd[s]
                    changed = True
                continue
            pos = [f for f in fs if f.t[s] > 0]
            neg = [f for f in fs if f.t[s] < 0]
            lo, hi = st.slo(s), st.shi(s)
            if lo != -INF:
                pos.append(Lin(-lo, {s: 1}))
            if hi != INF:
                neg.append(Lin(hi, {s: -1}))
            if len(pos) * len(neg) > max(6, len(pos) + len(neg)) or any(len(f.t) > 5 for f in fs):
                continue
            new = []
            for a in pos:
                ka = a.t[s]
                for b in neg:
                    kb = -b.t[s]
                    r = norm(a * kb + b * ka)
                    if r.t and r not in facts:
                        new.append(r)
                    elif not r.t and r.c < 0:
                        st.dead = True
                        return
            for f in fs:
                facts.pop(f, None)
            st.adj = None
            st.bnd.pop(s, None)
            changed = True
            for r in new:
                if st.interval(r)[0] < 0:
                    st.add(r)
                    if st.dead:
                        return
            facts = st.facts
        if changed:
            # fewer facts: what was provable stays true, what was not stays unprovable; models of the larger system remain models
            st.cache = {k: v for k, v in st.cache.items() if type(v) is not Case}

    def merge_results(self, res, key):
        sts = []
        for s, v in res:
            s = s.copy()
            s.cells["%rv"] = v
            sts.append(s)
        j = self.reduce(sts, key, K // 2)
        out = []
        for s in j:
            v = s.cells.pop("%rv")
            out.append((s, v))
        return out

    def exec_region(self, fr, start, states, loop):
        """Execute from block `start`; if loop is given (head, body) edges to head are 'back', edges outside are exits.
        Returns dict: 'ret' -> states, 'back' -> states, ('exit', b) -> states."""
        fn = fr.fn
        pending = {start: list(states)}
        out = {}
        head, body = loop if loop else (None, None)
        first = True
        for b in fn.rpo:
            if body is not None and b not in body:
                continue
            sts = pending.pop(b, None)
            if not sts:
                continue
            if b in fn.loops and not (b == start and loop):
                # inner loop
                res = self.run_loop(fr, b, sts)
                for k, v in res.items():
                    if k == "ret":
                        out.setdefault("ret", []).extend(v)
                    elif k[0] == "exit":
                        t = k[1]
                        if body is not None and t not in body:
                            out.setdefault(("exit", t), []).extend(v)
                        elif t == head:
                            out.setdefault("back", []).extend(v)
                        else:
                            pending.setdefault(t, []).extend(v)
                continue
            if len(sts) > 1:
                sts = self.dedup(sts)
                if len(sts) > K:
                    sts = self.reduce(sts, f"{fr.cs}@{b}", max(2, K // 2))
            for s in sts:
                for t, s2 in self.exec_block(fr, b, s):
                    if s2.dead:
                        continue
                    if t == "ret":
                        out.setdefault("ret", []).append(s2)
                    elif t == head and loop:
                        out.setdefault("back", []).append(s2)
                    elif body is not None and t not in body:
                        out.setdefault(("exit", t), []).append(s2)
                    else:
                        pending.setdefault(t, []).append(s2)
        return out

    def dedup(self, sts):
        r = []
        for s in sts:
            if s.dead:
                continue
            dup = False
            for q in r:
                if q.facts.keys() == s.facts.keys() and q.bnd == s.bnd and q.unk == s.unk and q.cells == s.cells:
                    dup = True
                    break
            if not dup:
                r.append(s)
        return r

    def reduce(self, sts, key, k):
        """Merge states down to at most k, preferring merges of states that differ least."""
        sts = [s for s in sts if not s.dead]
        if len(sts) <= k:
            return sts
        # group by signature of enum variants / bools known
        groups = {}
        for s in sts:
            groups.setdefault(self.sig(s), []).append(s)
        n = 0
        out = []
        gl = list(groups.values())
        if len(gl) > k:
            gl = [sum(gl, [])]
        for g in gl:
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append(self.join(g, f"{key}J{n}"))
            n += 1
        return out

    def sig(self, s):
        r = []
        for c in sorted(s.cells):
            v = s.cells[c]
            if isinstance(v, En) and len(v.alts) == 1:
                r.append((c, tuple(v.alts)))
            elif isinstance(v, Bo) and v.c in (TRUE, FALSE):
                r.append((c, v.c))
        return tuple(r)

    # ------------------------------------------------------------ join / loops
    def gen_value(self, a, b, path, ctr):
        """Generalise: value with fresh phi leaves where a and b differ."""
        if type(a) is type(b) and a == b:
            return a
        key = ctr["key"]
        if isinstance(a, I) and isinstance(b, I):
            r = a.r or b.r or (-INF, INF)
            s = S.new(f"{key}|{path}", r[0], r[1])
            ctr["phis"].add(s)
            return I(V(s), a.r or b.r)
        if isinstance(a, Fl) and isinstance(b, Fl):
            ii = a.l is not None and b.l is not None and a.l.allint() and b.l.allint()
            s = S.new(f"{key}|{path}", -INF, INF, ii)
            ctr["phis"].add(s)
            nan = EMPTY
            if a.nan or b.nan:
                nan = frozenset([f"{key}|{path}?nan"])
                if a.nan == b.nan:
                    nan = a.nan
            return Fl(V(s), nan, a.fin and b.fin)
        if isinstance(a, Bo) and isinstance(b, Bo):
            return Bo(("unk", f"{key}|{path}"))
        if isinstance(a, St) and isinstance(b, St) and a.k == b.k and len(a.v) == len(b.v):
            return St(a.k, [self.gen_value(x, y, f"{path}.{i}", ctr) for i, (x, y) in enumerate(zip(a.v, b.v))])
        if isinstance(a, En) and isinstance(b, En) and a.p == b.p:
            alts = {}
            for vi in set(a.alts) | set(b.alts):
                x, y = a.alts.get(vi), b.alts.get(vi)
                if x is None or y is None:
                    alts[vi] = x if y is None else y
                elif len(x) == len(y):
                    alts[vi] = tuple(self.gen_value(p, q, f"{path}.{vi}.{i}", ctr) for i, (p, q) in enumerate(zip(x, y)))
                else:
                    alts[vi] = x if len(x) > len(y) else y
            if len(alts) > 1 and self.unit_enum(a.p, alts) and not a.g and not b.g:
                # copies of a joined value of a fieldless enum share the name of its discriminant
                return Ob(f"{key}|{path}", ("adt", a.p, ()))
            return En(a.p, alts)
        if isinstance(a, Sq) and isinstance(b, Sq):
            n = a.n
            if a.n != b.n:
                s = S.new(f"{key}|{path}.n", 0, MAXLEN * 4)
                ctr["phis"].add(s)
                n = V(s)
            el, ts, tf = a.el, a.ts, a.tf
            stb = ctr.get("stable")
            if not (a.el == b.el and a.ts == b.ts and set(a.tf) == set(b.tf)):
                ea, eb = ctr.get("empty", (None, None)) if False else (None, None)
                if a.n.const() == 0:
                    el, ts, tf = b.el, b.ts, b.tf
                elif b.n.const() == 0:
                    pass
                else:
                    el, ts, tf = self.join_tmpl(a, b, f"{key}|{path}", ctr)
                if stb is not None:
                    wk = (key, path)
                    wc = ctr.setdefault("wid", {})
                    wc[wk] = wc.get(wk, 0) + 1
                    if wc[wk] > 2:
                        old = set(a.tf)
                        tf = tuple(f for f in tf if f in old)
                    tf = tuple(f for f in tf if all(x in ts or x in stb for x in f.bases()))
                    if el is not None:
                        q = set()
                        self.vsyms(el, q)
                        if not all(x in ts or x in stb for x in q):
                            p2 = set()
                            el2 = self.models.tmplify(self, el, f"{key}|{path}.re", "t", p2)
                            el, ts, tf = el2, frozenset(p2), ()
            return Sq(n, el, ts, tf, a.ty or b.ty, a.id)
        if isinstance(a, Im) and isinstance(b, Im):
            def d(x, y, nm):
                if x == y:
                    return x
                s = S.new(f"{key}|{path}.{nm}", 0, MAXDIM * 2)
                ctr["phis"].add(s)
                return V(s)
            return Im(a.id, d(a.w, b.w, "w"), d(a.h, b.h, "h"), a.ty or b.ty)
        if isinstance(a, It) and isinstance(b, It) and a.k == b.k and len(a.v) == len(b.v):
            vs = []
            for i, (x, y) in enumerate(zip(a.v, b.v)):
                if isinstance(x, Lin) and isinstance(y, Lin):
                    if x == y:
                        vs.append(x)
                    else:
                        s = S.new(f"{key}|{path}.{i}", -INF, INF)
                        ctr["phis"].add(s)
                        vs.append(V(s))
                elif isinstance(x, Lin) or isinstance(y, Lin):
                    vs.append(Ob(f"{key}|{path}.{i}", ("other", "?")))
                elif not isinstance(x, (I, Fl, Bo, St, En, Sq, Im, It, Rf, Ob, Fd)):
                    vs.append(x)
                else:
                    vs.append(self.gen_value(x, y, f"{path}.{i}", ctr))
            return It(a.k, *vs)
        if isinstance(a, Ob) and isinstance(b, Ob) and a.id == b.id and a.ty == b.ty:
            ov = {}
            for k in set(a.ov) | set(b.ov):
                x, y = a.ov.get(k), b.ov.get(k)
                if x is None or y is None:
                    z = y if x is None else x
                    # other side has the lazily created field
                    t = self.ty_of(z)
                    w = self.mk(ctr["st"], t, self.ovname(a.id, k)) if t else None
                    if w is None:
                        ov[k] = Ob(f"{key}|{path}.{k}", ("other", "?"))
                    else:
                        ov[k] = self.gen_value(w, z, f"{path}.{k}", ctr)
                else:
                    ov[k] = self.gen_value(x, y, f"{path}.{k}", ctr)
            return Ob(a.id, a.ty, ov)
        if isinstance(a, Rf) and isinstance(b, Rf) and a.c == b.c and len(a.p) == len(b.p) and a.p and a.p[:-1] == b.p[:-1] and a.p[-1][0] == "e" and b.p[-1][0] == "e":
            return Rf(a.c, a.p[:-1] + (("e", None),))
        if isinstance(a, Rf) and isinstance(b, Rf):
            va = ctr["load"](a)
            vb = ctr["load"](b)
            if va is not None and vb is not None and va == vb:
                return a
        t = self.ty_of(a) or self.ty_of(b)
        return Ob(f"{key}|{path}", t or ("other", "?"))

    def join_tmpl(self, a, b, key, ctr):
        if a.el is None or b.el is None:
            return None, EMPTY, ()
        st = ctr["st"]
        sb = st
        # treat b's template instance as the 'new' element
        s2 = st.copy()
        for f in b.tf:
            s2.add(f)
        el, ts, tf = self.tmpl_join(s2, Sq(a.n, a.el, a.ts, a.tf), b.el, key + ".e")
        return el, ts, tf

    def ty_of(self, v):
        if isinstance(v, I):
            for t in PRIMS.values():
                if t[0] in ("int", "uint") and rng(t) == v.r:
                    return t
        if isinstance(v, (Ob, Im)):
            return v.ty
        if isinstance(v, Bo):
            return ("bool",)
        if isinstance(v, Fl):
            return ("float", 32)
        return None

    def match(self, g, a, m, phis, st):
        """g generalised value, a actual: fill m: phi -> Lin.  False when g does not cover a."""
        if isinstance(g, I):
            if not isinstance(a, I):
                return False
            if len(g.l.t) == 1 and next(iter(g.l.t)) in phis and g.l.c == 0:
                m[next(iter(g.l.t))] = a.l
                return True
            return g.l == a.l
        if isinstance(g, Fl):
            if not isinstance(a, Fl):
                return False
            if g.l is not None and len(g.l.t) == 1 and next(iter(g.l.t)) in phis:
                s = next(iter(g.l.t))
                if a.l is None or (S.isint[s] and not a.l.allint()):
                    return False
                if not g.nan and a.nan:
                    return False
                if g.fin and not a.fin:
                    return False
                if g.nan and a.nan and g.nan != a.nan and not any("?nan" in x for x in g.nan):
                    return False
                m[s] = a.l
                return True
            return g == a
        if isinstance(g, Bo):
            if not isinstance(a, Bo):
                return False
            return g == a or (g.c[0] == "unk" and "|" in g.c[1] and g.c[1].startswith(m.get("%key", "\0")))
        if type(g) is not type(a):
            return isinstance(g, Ob) and g.id.startswith(m.get("%key", "\0") + "|")
        if isinstance(g, St):
            return g.k == a.k and len(g.v) == len(a.v) and all(self.match(x, y, m, phis, st) for x, y in zip(g.v, a.v))
        if isinstance(g, En):
            if g.p != a.p:
                return False
            for vi, p in a.alts.items():
                if vi not in g.alts or len(g.alts[vi]) != len(p):
                    return False
                for x, y in zip(g.alts[vi], p):
                    if not self.match(x, y, m, phis, st):
                        return False
            if g.g and g.g != a.g:
                return False
            return True
        if isinstance(g, Sq):
            if len(g.n.t) == 1 and g.n.c == 0 and next(iter(g.n.t)) in phis:
                m[next(iter(g.n.t))] = a.n
            elif g.n != a.n:
                return False
            if g.el is None:
                return True
            if a.n.const() == 0:
                return True
            if g.el == a.el and g.ts == a.ts:
                if set(g.tf) == set(a.tf):
                    return True
                if set(g.tf) <= set(a.tf):
                    return True
                s2 = st.copy()
                for f in a.tf:
                    s2.add(f)
                return all(s2.prove(f) for f in g.tf)
            # subsumption: match element structure, then facts
            if a.el is None:
                return False
            mm = {}
            if not self.match(g.el, a.el, mm, g.ts, st):
                return False
            s2 = st.copy()
            for f in a.tf:
                s2.add(f)
            return all(s2.prove(f.subst(mm)) for f in g.tf)
        if isinstance(g, Im):
            for x, y in ((g.w, a.w), (g.h, a.h)):
                if len(x.t) == 1 and x.c == 0 and next(iter(x.t)) in phis:
                    m[next(iter(x.t))] = y
                elif x != y:
                    return False
            return True
        if isinstance(g, It):
            if g.k != a.k or len(g.v) != len(a.v):
                return False
            for x, y in zip(g.v, a.v):
                if isinstance(x, Lin):
                    if not isinstance(y, Lin):
                        return False
                    if len(x.t) == 1 and x.c == 0 and next(iter(x.t)) in phis:
                        m[next(iter(x.t))] = y
                    elif x != y:
                        return False
                elif isinstance(x, (I, Fl, Bo, St, En, Sq, Im, It, Rf, Ob, Fd)):
                    if not self.match(x, y, m, phis, st):
                        return False
                elif x != y:
                    return False
            return True
        if isinstance(g, Ob):
            if g.id.startswith(m.get("%key", "\0") + "|"):
                return True
            if g.id != a.id:
                return False
            for k in set(g.ov) | set(a.ov):
                x, y = g.ov.get(k), a.ov.get(k)
                if x is None:
                    return False
                if y is None:
                    t = self.ty_of(x)
                    if t is None:
                        return False
                    y = self.mk(st, t, self.ovname(a.id, k))
                if not self.match(x, y, m, phis, st):
                    return False
            return True
        if isinstance(g, Rf):
            if g == a:
                return True
            if g.c == a.c and len(g.p) == len(a.p) and g.p and g.p[-1] == ("e", None) and a.p[-1][0] == "e" and g.p[:-1] == a.p[:-1]:
                return True
            return False
        return g == a

    def solve_cands(self, st, m, stable, limit=400):
        """Facts of st expressed over phis (m: phi -> Lin over st's symbols) and stable symbols."""
        m = {k: v for k, v in m.items() if not isinstance(k, str)}
        sub = {}
        tmp = {}
        # prime names for new phi
        for phi, e in m.items():
            e2 = e.subst(sub) if sub else e
            piv = None
            for t, k in e2.t.items():
                if k in (1, -1) and S.mono[t] is None and t not in stable and t not in tmp.values():
                    piv = t
                    break
            p = S.new(S.name[phi] + "'", S.lo[phi], S.hi[phi], S.isint[phi])
            tmp[phi] = p
            if piv is None:
                continue
            k = e2.t[piv]
            rest = e2 - Lin(0, {piv: k})
            sol = (V(p) - rest) if k == 1 else (rest - V(p))
            one = {piv: sol}
            sub = {x: y.subst(one) for x, y in sub.items()}
            sub[piv] = sol
        prim = set(tmp.values())
        back = {p: V(phi) for phi, p in tmp.items()}
        res = {}
        locs = {}

        def ok(f):
            return all((s in prim or s in stable) if S.mono[s] is None else all(b in prim or b in stable for b in S.mono[s]) for s in f.t)
        facts = list(st.facts)
        for s, (lo, hi) in st.bnd.items():
            if lo != -INF:
                facts.append(V(s) - lo)
            if hi != INF:
                facts.append(L(hi) - V(s))
        pool = []
        for f in facts:
            g = f.subst(sub) if sub else f
            if not g.t:
                continue
            if ok(g):
                if any(b in prim for s in g.t for b in S.base(s)):
                    res[norm(g.subst(back))] = None
            else:
                pool.append(g)
        # one elimination step for remaining local symbols
        elim = {}
        for g in pool:
            bad = [s for s in g.t if not (s in prim or s in stable)]
            if len(bad) == 1 and S.mono[bad[0]] is None:
                elim.setdefault(bad[0], []).append(g)
        for s, gs in elim.items():
            lo, hi = st.mlo(s)
            pos = [g for g in gs if g.t[s] > 0]
            neg = [g for g in gs if g.t[s] < 0]
            if lo != -INF:
                pos.append(V(s) - lo)
            if hi != INF:
                neg.append(L(hi) - V(s))
            for x in pos[:10]:
                for y in neg[:10]:
                    g = x.scale(-y.t[s]) + y.scale(x.t[s])
                    if g.t and ok(g) and any(b in prim for q in g.t for b in S.base(q)):
                        res[norm(g.subst(back))] = None
                        if len(res) > limit:
                            return list(res)
        # constant expressions: direct bounds
        for phi, e in m.items():
            lo, hi = st.interval(e)
            if lo != -INF and lo > S.lo[phi]:
                res[V(phi) - lo] = None
            if hi != INF and hi < S.hi[phi]:
                res[L(hi) - V(phi)] = None
            if all((s in stable) if S.mono[s] is None else all(b in stable for b in S.mono[s]) for s in e.t):
                res[norm(V(phi) - e)] = None
                res[norm(e - V(phi))] = None
        return list(res)

    def swap_cands(self, st, m, stable, limit=150):
        """order relations between a phi and the symbols of its value, and facts on such a symbol carried over to the phi"""
        res = {}
        for phi, e in m.items():
            if isinstance(phi, str):
                continue
            if e.t:
                if S.lo[phi] < 0:
                    res[V(phi)] = None
                res[V(phi) - 1] = None
            for t, k in e.t.items():
                if k != 1 or t not in stable or len(e.t) > 4:
                    continue
                d = V(phi) - V(t)
                res[d] = None
                res[-d] = None
                if S.mono[t] is not None:
                    continue
                n = 0
                if 1 < len(e.t) <= 3:
                    de = V(phi) - e
                    for f in st.facts:
                        if t in f.t and len(f.t) <= 4 and abs(f.t[t]) == 1 and all(x in stable for x in f.t):
                            g = f + de.scale(f.t[t])
                            if len(g.t) < len(f.t):
                                res[norm(g)] = None
                                n += 1
                                if n > 6:
                                    break
                n = 0
                for f in st.facts:
                    if t in f.t and len(f.t) <= 3 and abs(f.t[t]) == 1 and all(x in stable for x in f.t):
                        res[norm(f + d.scale(f.t[t]))] = None
                        n += 1
                        if n > 12:
                            break
            if len(res) > limit:
                break
        return res

    def pair_cands(self, m):
        items = [(k, v) for k, v in m.items() if not isinstance(k, str)]
        res = []
        if len(items) > 10:
            items = items[:10]
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                for sg in (1, -1):
                    d = items[i][1] - items[j][1].scale(sg)
                    if len(d.t) <= 3:
                        e = V(items[i][0]) - V(items[j][0]).scale(sg) - d
                        res.append(norm(e))
                        res.append(norm(-e))
        return res

    def live_syms(self, st):
        r = set()
        for f in st.facts:
            for s in f.t:
                r.update(S.base(s))
        r.update(st.bnd)
        for v in st.cells.values():
            self.vsyms(v, r)
        return r

    def vsyms(self, v, r):
        if isinstance(v, I):
            r.update(v.l.bases())
        elif isinstance(v, Fl):
            if v.l is not None:
                r.update(v.l.bases())
        elif isinstance(v, Bo):
            self.csyms(v.c, r)
        elif isinstance(v, St):
            for x in v.v:
                self.vsyms(x, r)
        elif isinstance(v, It):
            for x in v.v:
                if isinstance(x, Lin):
                    r.update(x.bases())
                else:
                    self.vsyms(x, r)
        elif isinstance(v, En):
            for a in v.alts.values():
                for x in a:
                    self.vsyms(x, r)
            for c in v.g.values():
                self.csyms(c, r)
        elif isinstance(v, Sq):
            r.update(v.n.bases())
            q = set()
            if v.el is not None:
                self.vsyms(v.el, q)
            for f in v.tf:
                q.update(f.bases())
            r.update(q - v.ts)
        elif isinstance(v, Im):
            r.update(v.w.bases())
            r.update(v.h.bases())
        elif isinstance(v, Ob):
            for x in v.ov.values():
                self.vsyms(x, r)

    def csyms(self, c, r):
        k = c[0]
        if k in ("ge", "eq"):
            r.update(c[1].bases())
        elif k == "not":
            self.csyms(c[1], r)
        elif k in ("and", "or"):
            self.csyms(c[1], r)
            self.csyms(c[2], r)
        elif k == "fc" and c[2] is not None:
            r.update(c[2].bases())

    def join(self, sts, key):
        """Join of states (no loop)."""
        sts = self.dedup(sts)
        if len(sts) == 1:
            return sts[0]
        G = {}
        base = sts[0]
        J = State()
        common = set(sts[0].facts)
        for s in sts[1:]:
            common &= set(s.facts)
        for f in sts[0].facts:
            if f in common:
                J.facts[f] = None
        for s0, b in sts[0].bnd.items():
            lo, hi = b
            for s in sts[1:]:
                b2 = s.bnd.get(s0, (-INF, INF))
                lo, hi = min(lo, b2[0]), max(hi, b2[1])
            if lo != -INF or hi != INF:
                J.bnd[s0] = (lo, hi)
        for u, t in sts[0].unk.items():
            if all(s.unk.get(u) == t for s in sts[1:]):
                J.unk[u] = t
        for n in sts[0].ne:
            if all(s.is_ne(n) for s in sts[1:]):
                J.ne[n] = None
        ctr = {"key": key, "phis": set(), "st": J, "load": lambda r: None}
        cells = set(sts[0].cells)
        for s in sts[1:]:
            cells &= set(s.cells)
        for c in sts[0].cells:
            if c not in cells:
                continue
            g = sts[0].cells[c]
            for s in sts[1:]:
                g = self.gen_value(g, s.cells[c], c, ctr)
            G[c] = g
        J.cells = G
        phis = ctr["phis"]
        ms = []
        for s in sts:
            m = {"%key": key}
            for c, g in G.items():
                if not self.match(g, s.cells[c], m, phis, s):
                    # imprecise: degrade
                    J.cells[c] = Ob(f"{key}|{c}", self.ty_of(s.cells[c]) or ("other", "?"))
            ms.append(m)
        # facts common syntactically were kept; candidates from each
        stable = None
        for s in sts:
            ls = self.live_syms(s)
            stable = ls if stable is None else (stable & ls)
        stable -= phis
        cands = {}
        allphis = set()
        for s, m in zip(sts, ms):
            for c in self.solve_cands(s, m, stable, 120):
                cands[c] = None
            for c in self.swap_cands(s, m, stable):
                cands[c] = None
            for f in s.facts:
                if f not in J.facts:
                    cands[f] = None
            for s0, (lo, hi) in s.bnd.items():
                pass
        for m in ms:
            for c in self.pair_cands(m):
                cands[c] = None
        sm = [(s, {k: v for k, v in m.items() if not isinstance(k, str)}) for s, m in zip(sts, ms)]
        WEAK[0] = True
        try:
            for c in cands:
                if J.interval(c)[0] >= 0:
                    continue
                if all(s.prove(c.subst(m2)) for s, m2 in sm):
                    J.add(c)
        finally:
            WEAK[0] = False
        return J

    def run_loop(self, fr, head, sts):
        body = fr.fn.loops[head]

        def step(H):
            o = self.exec_region(fr, head, [H], (head, body))
            backs = o.pop("back", [])
            return backs, o
        if len(sts) > 1:
            sts = self.dedup(sts)
        # keep entry disjuncts separate only when few
        if len(sts) > 2:
            sts = self.reduce(sts, f"{fr.cs}@L{head}", 2)
        out = {}
        if fr.fn.iterloops is None:
            fr.fn.iterloops = loops.iterator_loops(fr.fn, self.prog)
        src = fr.fn.iterloops.get(head)
        for n, s in enumerate(sts):
            o = self.unroll(fr, head, body, s, src[1]) if src else None
            if o is None:
                self.lastH = None
                o = self.loop_fix(s, f"{fr.cs}@L{head}" + (f"~{n}" if n else ""), step, (fr, head))
                if src and src[2] is not None and self.lastH is not None and len(o) > 1:
                    o = self.refine_loop(fr, head, body, s, self.lastH, o, src)
            for k, v in o.items():
                out.setdefault(k, []).extend(v)
        for k in list(out):
            if len(out[k]) > K:
                out[k] = self.reduce(out[k], f"{fr.cs}@X{head}{k}", K // 2)
        return out

    def unroll(self, fr, head, body, s, src):
        """a loop over the elements of a short array that are all known one by one: one round per element"""
        it = s.cells.get(fr.cell(src))
        w = it
        while isinstance(w, It) and w.k in ("enum", "copied", "rev"):
            w = w.v[0]
        if not (isinstance(w, It) and w.k in ("slice", "own") and w.v[1] == Lin(0) and w.v[2] is not None):
            return None
        n = w.v[2].const()
        if n is None or n > 6:
            return None
        v = w.v[0] if w.k == "own" else self.load(s, w.v[0].c, w.v[0].p, None, fr.cs)
        if not (isinstance(v, St) and v.k[0] == "array" and len(v.v) == n):
            return None
        out = {}
        sts = [s]
        for k in range(int(n) + 1):
            o = self.exec_region(fr, head, sts, (head, body))
            sts = [b for b in self.dedup(o.pop("back", [])) if not b.infeasible()]
            if len(sts) > K:
                sts = self.reduce(sts, f"{fr.cs}@U{head}.{k}", K // 2)
            for x, y in o.items():
                out.setdefault(x, []).extend(y)
            if not sts:
                break
        else:
            return None
        self.progress(fr, head, [])
        return out

    def refine_loop(self, fr, head, body, E, H, exits, src):
        """a loop over a shared slice that is left early for some elements: when it runs out, every element has what the
        repeated rounds have in common"""
        local, none = src[1], src[2]
        if "Mut" in src[0] or none in body or ("exit", none) not in exits or len(set(fr.fn.preds[none])) != 1:
            return exits
        r = self.models.loop_refinement(self, fr, head, body, E, H, local)
        if r is None:
            return exits
        exits = dict(exits)
        res = []
        for s in exits[("exit", none)]:
            s = s.copy()
            self.store(s, r[0].c, r[0].p, r[1], "~refine")
            res.append(s)
        exits[("exit", none)] = res
        return exits

    def progress(self, fr, head, bm):
        """obligation: some bounded integer quantity strictly moves in one direction on every iteration of the loop"""
        ok, why = head in fr.fn.iterloops, "driven by a finite iterator"
        if not ok:
            live = [(b, m) for b, m in bm if not b.dead and not b.infeasible()]
            if not live:
                ok, why = True, "never repeats"
            else:
                ph = sorted({p for b, m in live for p in m if S.isint[p] and all(p in m2 for _, m2 in live)})
                fin = lambda x: abs(x) != INF
                cands = [V(p) for p in ph if fin(S.lo[p])] + [-V(p) for p in ph if fin(S.hi[p])]
                if len(ph) <= 12:
                    cands += [V(p) - V(q) for p in ph for q in ph if p != q and fin(S.lo[p]) and fin(S.hi[q])]
                for e in cands:
                    if all(b.prove(e - e.subst(m) - Lin(1)) for b, m in live):
                        ok, why = True, f"{e} decreases"
                        break
        line = fr.fn.blocks[head].get("ln", 0)
        o = Oblig("term", fr.fn.p, "loop", line, why if ok else "no quantity was found that moves on every iteration", ok, tuple(self.fnstack))
        self.obl.append(o)

    def loop_fix(self, E, key, step, site=None):
        cache = self.loopcache.get(key)
        phis = set()
        G = {}
        cands = {}
        stable = self.live_syms(E)
        ctr = {"key": key, "phis": phis, "st": E, "load": lambda r: None, "stable": stable}
        if cache:
            # warm start: generalise the same leaves
            for c, g in cache["G"].items():
                if c in E.cells:
                    G2 = self.gen_value(g, E.cells[c], c, ctr)
                    # every leaf generalised earlier stays generalised
                    G[c] = self.regen(g, E.cells[c], c, ctr, cache["phis"])
            m0 = {"%key": key}
            if self.try_match(G, E, m0, phis):
                m0n = {k: v for k, v in m0.items() if not isinstance(k, str)}
                for f in cache["cands"]:
                    if E.prove(f.subst(m0n)):
                        cands[f] = None
            else:
                G = {}
                phis.clear()
        rounds = 0
        dropping = False
        drops = {}
        while True:
            rounds += 1
            if rounds > 14:
                dropping = True
            H = E.copy()
            H.cells.update(G)
            for f in cands:
                H.add(f)
            mark = len(self.obl)
            pmark = len(self.panics)
            if H.dead:
                return {}
            backs, exits = step(H)
            backs = [b for b in backs if not b.dead]
            # structural coverage
            changed = False
            for b in backs:
                for c, v in E.cells.items():
                    if c not in b.cells:
                        continue
                    g = G.get(c, v)
                    m = {"%key": key}
                    if not self.match(g, b.cells[c], m, phis, b):
                        ctr["st"] = E
                        ng = self.gen_value(g, b.cells[c], c, ctr)
                        m = {"%key": key}
                        if not self.match(ng, b.cells[c], m, phis, b) or not self.match(ng, v, {"%key": key}, phis, E):
                            ng = Ob(f"{key}|{c}", self.ty_of(v) or self.ty_of(b.cells[c]) or ("other", "?"))
                        if ng != g:
                            G[c] = ng
                            changed = True
            m0 = {"%key": key}
            okm = self.try_match(G, E, m0, phis)
            m0n = {k: v for k, v in m0.items() if not isinstance(k, str)}
            if changed:
                if self.hooks.get("trace"):
                    self.hooks["trace"](key, rounds, changed, len(cands), 0, 0, [], [], G)
                if rounds > 30:
                    raise Budget("loop structure " + key)
                del self.obl[mark:]
                del self.panics[pmark:]
                new = {}
                for phi, e in m0n.items():
                    if phi in stable:
                        continue
                    for c in (V(phi) - e, e - V(phi)):
                        new[norm(c)] = None
                for c in self.pair_cands(m0n):
                    new[c] = None
                for f in cands:
                    if E.prove(f.subst(m0n)):
                        new[f] = None
                cands = new
                continue
            keep = {}
            bm = []
            for b in backs:
                m = {"%key": key}
                for c, g in G.items():
                    if c in b.cells:
                        self.match(g, b.cells[c], m, phis, b)
                bm.append((b, {k: v for k, v in m.items() if not isinstance(k, str)}))
            for f in cands:
                if all(b.prove(f.subst(m)) for b, m in bm):
                    keep[f] = None
                else:
                    tk = frozenset(f.t.items())
                    drops[tk] = drops.get(tk, 0) + 1
            best = {}
            for f in keep:
                tk = frozenset(f.t.items())
                if tk not in best or f.c < best[tk].c:
                    best[tk] = f
            dropped = len(keep) < len(cands)
            if len(best) < len(keep):
                keep = {f: None for f in best.values()}
            added = 0
            if not dropping and G:
                newc = {}
                for b, m in bm:
                    for c in self.solve_cands(b, m, stable - phis):
                        if c not in keep and c not in newc and c not in cands:
                            newc[c] = None
                for c in sorted(newc, key=lambda c: c.c if c.t else 0):
                    tk = frozenset(c.t.items())
                    if drops.get(tk, 0) >= 2 or (tk in best and best[tk].c <= c.c):
                        continue
                    if len(keep) > 30 and len(c.t) > 1 and max(abs(k) for k in c.t.values()) > 2:
                        continue
                    if E.prove(c.subst(m0n)) and all(b.prove(c.subst(m)) for b, m in bm):
                        # skip if implied already
                        if H.interval(c)[0] >= 0 or H.prove(c):
                            if not dropped:
                                continue
                        keep[c] = None
                        if tk in best:
                            keep.pop(best[tk], None)
                        best[tk] = c
                        added += 1
            if self.hooks.get("trace"):
                self.hooks["trace"](key, rounds, changed, len(cands), len(keep), added, [x for x in cands if x not in keep], [x for x in keep if x not in cands], G)
            if not dropped and not added:
                if site:
                    self.progress(site[0], site[1], bm)
                self.loopcache[key] = {"G": dict(G), "cands": list(cands), "phis": set(phis)}
                self.lastH = H
                return exits
            cands = keep
            del self.obl[mark:]
            del self.panics[pmark:]
            if rounds > 40:
                raise Budget("loop " + key)

    def try_match(self, G, E, m, phis):
        for c, g in G.items():
            if c in E.cells and not self.match(g, E.cells[c], m, phis, E):
                return False
        return True

    def regen(self, g, e, path, ctr, oldphis):
        """value like e but with leaves that were phi in g kept phi"""
        if isinstance(g, I) and isinstance(e, I):
            if len(g.l.t) == 1 and next(iter(g.l.t)) in oldphis:
                ctr["phis"].add(next(iter(g.l.t)))
                return g
            return e
        if isinstance(g, Fl) and isinstance(e, Fl):
            if g.l is not None and len(g.l.t) == 1 and next(iter(g.l.t)) in oldphis:
                ctr["phis"].add(next(iter(g.l.t)))
                return g
            return e
        if isinstance(g, Bo) and isinstance(e, Bo):
            return g
        if isinstance(g, St) and isinstance(e, St) and g.k == e.k and len(g.v) == len(e.v):
            return St(g.k, [self.regen(x, y, path, ctr, oldphis) for x, y in zip(g.v, e.v)])
        if isinstance(g, It) and isinstance(e, It) and g.k == e.k and len(g.v) == len(e.v):
            vs = []
            for x, y in zip(g.v, e.v):
                if isinstance(x, Lin) and isinstance(y, Lin):
                    if len(x.t) == 1 and next(iter(x.t)) in oldphis:
                        ctr["phis"].add(next(iter(x.t)))
                        vs.append(x)
                    else:
                        vs.append(y)
                elif isinstance(x, (St, It, I, Fl, Bo)) and type(x) is type(y):
                    vs.append(self.regen(x, y, path, ctr, oldphis))
                else:
                    vs.append(y)
            return It(g.k, *vs)
        if isinstance(g, (En, Sq, Im, Ob)):
            r = set()
            self.vsyms(g, r)
            for s in r & oldphis:
                ctr["phis"].add(s)
            return g
        return e

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("steps")
        bb = fr.fn.blocks[b]
        st = st.copy()
        sts = [st]
        for i, s in enumerate(bb["st"]):
            nsts = []
            for st in sts:
                nsts += self.exec_stmt(fr, st, s, f"{fr.cs}:{b}.{i}")
            sts = nsts
            if not sts:
                return []
        res = []
        for st in sts:
            res += self.exec_term(fr, st, bb, b)
        return res

    def resolve(self, fr, st, place, key):
        """MIR place -> (cell, path)"""
        c, path = fr.cell(place[0]), ()
        var = 0
        for n, e in enumerate(place[1:]):
            k = e[0]
            if k == "*":
                v = self.load(st, c, path, None, key + f"d{n}")
                if isinstance(v, Rf):
                    c, path = v.c, v.p
                elif isinstance(v, Ob) and v.ty[0] in ("ref", "ptr"):
                    r = self.deref_ob(st, v)
                    c, path = r.c, r.p
                elif isinstance(v, Ob) and v.ty[0] == "adt" and v.ty[1].endswith("Box"):
                    cc = "*" + v.id
                    if cc not in st.cells:
                        st.cells[cc] = self.mk(st, v.ty[2][0], v.id + "*")
                    c, path = cc, ()
                else:
                    cc = f"{key}d{n}*"
                    if cc not in st.cells:
                        st.cells[cc] = Ob(cc, ("other", "?"))
                    c, path = cc, ()
                var = 0
            elif k == "f":
                path = path + (("f", e[1], self.prog.rt(e[2], fr.env), var),)
                var = 0
            elif k == "i":
                iv = st.cells.get(fr.cell(e[1]))
                path = path + (("e", iv.l if isinstance(iv, I) else None),)
            elif k == "c":
                off = e[1]
                if e[3]:
                    v = self.load(st, c, path, None, key)
                    n_ = self.len_of(st, v)
                    path = path + (("e", (n_ - off) if n_ is not None else None),)
                else:
                    path = path + (("e", L(off)),)
            elif k == "d":
                var = e[1]
            elif k == "s":
                v = self.load(st, c, path, None, key)
                n_ = self.len_of(st, v)
                cc = f"{key}sub{n}"
                ln = (n_ - e[1] - e[2]) if e[3] else L(e[2] - e[1])
                st.cells[cc] = Sq(ln, None, ty=self.elem_ty(v) if isinstance(v, (Ob, Im)) else None)
                c, path = cc, ()
            else:
                path = path + (("o",),)
        return c, path

    def place_ty(self, fr, place):
        """resolved type of a MIR place (best effort)"""
        t = self.prog.rt(fr.fn.locals[place[0]][0], fr.env)
        for e in place[1:]:
            k = e[0]
            if k == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
                else:
                    return ("other", "?")
            elif k == "f":
                t = self.prog.rt(e[2], fr.env)
            elif k in ("i", "c"):
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
        return t

    def operand(self, fr, st, o, key):
        if "cp" in o or "mv" in o:
            pl = o.get("cp") or o.get("mv")
            c, p = self.resolve(fr, st, pl, key)
            if not p and c not in st.cells:
                st.cells[c] = self.mk(st, self.place_ty(fr, pl), c)
            v = self.load(st, c, p, None, key)
            if isinstance(v, Ob) and v.ty == ("other", "?"):
                t = self.place_ty(fr, pl)
                if t[0] not in ("other",):
                    nv = self.mk(st, t, v.id + "!")
                    try:
                        self.store(st, c, p, nv, key)
                    except Exception:
                        pass
                    return nv
            return v
        k = o.get("c")
        if k == "int":
            rt = self.prog.rt(o["t"], None)
            return I(L(int(o["v"])), rng(rt))
        if k == "bool":
            return Bo(TRUE if o["v"] == "1" else FALSE)
        if k == "char":
            return I(L(int(o["v"])), (0, 0x10FFFF))
        if k == "float":
            return self.fconst(float(o["v"]))
        if k == "fn":
            return Fd(o, fr.env)
        rt = self.prog.rt(o["t"], fr.env)
        if rt[0] == "fndef":
            return Fd(o, fr.env)
        if rt == ("tuple", ()):
            return UNIT
        if "name" in o:
            r = self.const_value(fr, st, o, rt, key)
            if r is not None:
                return r
        if k == "static":
            r = self.static_value(st, o["p"], rt)
            if r is not None:
                return r
        if rt[0] == "adt" and rt[1] in self.prog.adts and not self.prog.adts[rt[1]]["vs"][0][1] and len(self.prog.adts[rt[1]]["vs"]) == 1:
            return St(("adt", rt[1]), [])
        if rt[0] == "closure":
            return St(("clo", rt[1]), [])
        if rt[0] in ("int", "uint") and o.get("d"):
            # e.g. P::CHANNEL_COUNT
            d = o["d"]
            if "CHANNEL_COUNT" in d:
                return I(self.chan_const(fr, d), rng(rt))
            if d.endswith("::MAX") or d.endswith("::MIN"):
                pass
        if rt[0] in ("int", "uint", "float", "bool"):
            return self.mk(st, rt, "const:" + o.get("d", key) + str(rt))
        return self.mk(st, rt, "const:" + o.get("d", key) + ":" + tstr(rt))

    def chan_const(self, fr, d):
        m = re.search(r"<(.+?) as (?:image::)?(?:traits::)?Pixel>", d)
        t = m.group(1) if m else d.split("::")[0]
        if fr.env and t in fr.env:
            return self.chan_px(fr.env[t])
        m2 = re.match(r"(?:image::)?(?:color::)?(\w+)<", t)
        if m2 and m2.group(1) in self.CH:
            return L(self.CH[m2.group(1)])
        if fr.env:
            def sub(mm):
                return tstr(fr.env[mm.group(0)]) if mm.group(0) in fr.env else mm.group(0)
            t = re.sub(r"\b[A-Z]\w*\b", sub, t)
        return V(S.new(f"CH<{t}>", 1, 255))

    def fconst(self, v):
        import math
        if math.isnan(v):
            return Fl(None, frozenset(["NAN"]))
        if math.isinf(v):
            s = S.new(f"const{v}", -INF, INF, False)
            return Fl(V(s), EMPTY, False)
        if v == int(v) and abs(v) < 1 << 60:
            return Fl(L(int(v)), EMPTY, True)
        if abs(v) >= 1 << 60:
            return Fl(V(S.new(f"const{v}", -INF, INF, False)), EMPTY, True)
        s = S.new(f"const{v}", math.floor(v), math.ceil(v), False)
        fl = floor_of(s)
        S.lo[fl] = S.hi[fl] = math.floor(v)
        return Fl(V(s), EMPTY, True)

    def const_value(self, fr, st, o, rt, key):
        """evaluate named consts / promoteds of the local crate by interpreting their MIR"""
        name = o["name"]
        if "promoted" in o:
            p = f"{name}::promoted[{o['promoted']}]"
        else:
            p = name
        fn = self.prog.fns.get(p)
        if fn is None or not fn.blocks:
            return None
        cs = f"const({p})"
        cell = cs + "%val"
        if cell in st.cells:
            return st.cells[cell]
        if p in self.fnstack:
            return None
        if len(fn.blocks) == 1 and len(fn.blocks[0]["st"]) > 300:
            return None
        mark = len(self.obl)
        try:
            r = self.run_fn(fn, [], st, cs, fr.env, 0)
        except Budget:
            raise
        del self.obl[mark:]
        if len(r) == 1:
            s2, v = r[0]
            for c, x in s2.cells.items():
                if c not in st.cells:
                    st.cells[c] = x
            for f in s2.facts:
                if f not in st.facts:
                    st.add(f)
            st.cells[cell] = v
            return v
        return None

    def static_value(self, st, p, rt):
        c = "static:" + p
        if c not in st.cells:
            inner = rt[2] if rt[0] in ("ref", "ptr") else rt
            st.cells[c] = self.mk(st, inner, c)
        return Rf(c)

    def exec_stmt(self, fr, st, s, key):
        if s[0] == "=":
            c, p = None, None
            rv = s[2]
            res = self.rvalue(fr, st, rv, key, s[3], s[1])
            out = []
            for s2, v in res:
                c, p = self.resolve(fr, s2, s[1], key + "L")
                self.store(s2, c, p, v, key)
                out.append(s2)
            return out
        if s[0] == "sd":
            c, p = self.resolve(fr, st, s[1], key)
            v = self.load(st, c, p, None, key)
            if isinstance(v, En):
                self.store(st, c, p, En(v.p, {s[2]: v.alts.get(s[2], ())}), key)
            else:
                t = self.place_ty(fr, s[1])
                pl = ()
                if isinstance(v, Ob):
                    n = [k[1] for k in v.ov if k[0] == s[2]]
                    if n:
                        pl = tuple(v.ov.get((s[2], i), Ob(key, ("other", "?"))) for i in range(max(n) + 1))
                self.store(st, c, p, En(t[1] if t[0] == "adt" else "?", {s[2]: pl}), key)
            return [st]
        return [st]

    def rvalue(self, fr, st, rv, key, line, dst):
        k = rv[0]
        if k == "use":
            return [(st, self.operand(fr, st, rv[1], key))]
        if k == "ref" or k == "raw":
            pl = rv[2]
            c, p = self.resolve(fr, st, pl, key)
            if not p and c not in st.cells:
                st.cells[c] = self.mk(st, self.place_ty(fr, pl), c)
            return [(st, Rf(c, p))]
        if k == "bin":
            return self.models.binop(self, fr, st, rv[1], self.operand(fr, st, rv[2], key + "a"), self.operand(fr, st, rv[3], key + "b"), self.prog.rt(rv[4], fr.env), key, line)
        if k == "un":
            return self.models.unop(self, fr, st, rv[1], self.operand(fr, st, rv[2], key), self.prog.rt(rv[3], fr.env), key, line)
        if k == "cast":
            return self.models.cast(self, fr, st, rv[1], self.operand(fr, st, rv[2], key), self.prog.rt(rv[3], fr.env), self.prog.rt(rv[4], fr.env), key, line)
        if k == "discr":
            c, p = self.resolve(fr, st, rv[1], key)
            v = self.load(st, c, p, None, key)
            t = self.place_ty(fr, rv[1])
            if isinstance(v, En):
                if len(v.alts) == 1:
                    vi = next(iter(v.alts))
                    return [(st, I(L(self.discr(v.p, vi))))]
                return [(st, Di(c, p, v))]
            if isinstance(v, Ob):
                n = self.nvariants(v.ty if v.ty[0] == "adt" else t)
                if n is not None and not v.ov:
                    sid = v.id + ".discr"
                    lo, hi = 0, n - 1
                    if v.ty[0] == "adt" and v.ty[1].endswith("cmp::Ordering"):
                        lo, hi = -1, 1
                    return [(st, I(V(S.new(sid, lo, hi))))]
                return [(st, I(V(S.new(v.id + ".discr" + (key if v.ov else ""), -1, 64))))]
            return [(st, I(V(S.new(key + ".discr", -1, 64))))]
        if k == "agg":
            ak = rv[1]
            vs = [self.operand(fr, st, o, f"{key}.{i}") for i, o in enumerate(rv[2])]
            if ak[0] == "tuple":
                return [(st, St(("tuple",), vs))]
            if ak[0] == "array":
                if len(vs) > 64:
                    if all(isinstance(x, I) and x.l.const() is not None for x in vs):
                        return [(st, St(("array",), vs))]
                    return [(st, Sq(L(len(vs)), self.generic_of(st, vs, key)))]
                return [(st, St(("array",), vs))]
            if ak[0] == "closure":
                return [(st, St(("clo", ak[1]), vs))]
            if ak[0] == "adt":
                h = self.models.on_aggregate(self, fr, st, ak, vs, key, line, self.place_ty(fr, dst))
                if h is not None:
                    return [(st, h)]
                ad = self.prog.adts.get(ak[1])
                t = self.place_ty(fr, dst)
                if self.nvariants(t) not in (None, 1) or (ad and len(ad["vs"]) > 1) or ak[1].endswith(("option::Option", "result::Result", "cmp::Ordering", "ControlFlow", "borrow::Cow")):
                    return [(st, En(ak[1], {ak[2]: tuple(vs)}))]
                return [(st, St(("adt", ak[1]), vs))]
            return [(st, Ob(key, self.place_ty(fr, dst)))]
        if k == "repeat":
            v = self.operand(fr, st, rv[1], key)
            n = rv[2]
            if n is not None and n <= 16:
                return [(st, St(("array",), [v] * n))]
            ln = L(n) if n is not None else V(S.new(key + ".rep", 0, MAXLEN))
            return [(st, Sq(ln, v))]
        # other
        return [(st, self.mk(st, self.place_ty(fr, dst), key + ".rv"))]

    def nvariants(self, t):
        if t[0] != "adt":
            return None
        ad = self.prog.adts.get(t[1])
        if ad:
            return len(ad["vs"])
        for tt in self.prog.types:
            if tt.get("k") == "adt" and tt["p"] == t[1]:
                return len(tt["vs"]) if tt["ak"] == "enum" else 1
        return None

    def discr(self, p, vi):
        if p.endswith("cmp::Ordering"):
            return SPECIAL_ORD[vi]
        return vi

    def undiscr(self, p, d):
        if p.endswith("cmp::Ordering"):
            return {-1: 0, 255: 0, 0: 1, 1: 2}.get(d)
        return d

    def exec_term(self, fr, st, bb, b):
        t = bb["t"]
        k = t[0]
        line = bb["ln"]
        key = f"{fr.cs}:{b}.T"
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k in ("unreach", "resume", "abort", "otherterm"):
            return []
        if k == "switch":
            v = self.operand(fr, st, t[1], key)
            res = []
            if isinstance(v, Bo):
                # values: "0" -> false
                zero = None
                for val, tg in t[3]:
                    if val == "0":
                        zero = tg
                if zero is None:
                    # only "1" listed
                    one = t[3][0][1]
                    for s in self.assume(st, v.c, True):
                        res.append((one, s))
                    for s in self.assume(st, v.c, False):
                        res.append((t[4], s))
                    return res
                for s in self.assume(st, v.c, False):
                    res.append((zero, s))
                for s in self.assume(st, v.c, True):
                    res.append((t[4], s))
                return res
            if isinstance(v, Di):
                listed = {}
                for val, tg in t[3]:
                    listed[self.undiscr(v.en.p, int(val))] = tg
                for vi, pl in v.en.alts.items():
                    tg = listed.get(vi, t[4])
                    g = v.en.g.get(vi)
                    base = [st.copy()] if g is None else self.assume(st, g, True)
                    for s in base:
                        cur = self.load(s, v.c, v.p, None, key)
                        if isinstance(cur, En) and vi in cur.alts:
                            self.store(s, v.c, v.p, En(cur.p, {vi: cur.alts[vi]}), key)
                        res.append((tg, s))
                return res
            if isinstance(v, I):
                others = [st.copy()]
                for val, tg in t[3]:
                    n = int(val)
                    for s in self.assume(st, ceq(v.l - n), True):
                        res.append((tg, s))
                    nx = []
                    for s in others:
                        nx += self.assume(s, ceq(v.l - n), False)
                    others = nx
                for s in others:
                    res.append((t[4], s))
                return res
            tg = [x[1] for x in t[3]] + [t[4]]
            return [(x, st.copy()) for x in dict.fromkeys(tg)]
        if k == "assert":
            cond = self.operand(fr, st, t[1], key)
            ak = t[3]
            if ak == "bounds":
                ln = self.operand(fr, st, t[4][0], key + "l")
                ix = self.operand(fr, st, t[4][1], key + "i")
                if isinstance(ln, I) and isinstance(ix, I):
                    self.oblige(st, fr, "index", "index", line, [cge(ln.l - ix.l - 1)])
                    return [(t[-1], s) for s in self.assume(st, cge(ln.l - ix.l - 1))]
                return [(t[-1], st)]
            if ak.startswith("overflow"):
                if self.mode == "release":
                    return [(t[-1], st)]
                c = cond.c if isinstance(cond, Bo) else ("unk", key)
                want = c if t[2] else cnot(c)
                self.oblige(st, fr, "overflow", ak, line, [want])
                return [(t[-1], s) for s in self.assume(st, want)]
            if ak in ("divzero", "remzero"):
                c = cond.c if isinstance(cond, Bo) else ("unk", key)
                want = c if t[2] else cnot(c)
                self.oblige(st, fr, "div", ak, line, [want])
                return [(t[-1], s) for s in self.assume(st, want)]
            c = cond.c if isinstance(cond, Bo) else ("unk", key)
            want = c if t[2] else cnot(c)
            return [(t[-1], s) for s in self.assume(st, want)]
        if k == "call":
            fv = self.operand(fr, st, t[1], key)
            args = [self.operand(fr, st, a, f"{key}.{i}") for i, a in enumerate(t[2])]
            atys = [self.optype(fr, a) for a in t[2]]
            self.callsites += 1
            dty = self.place_ty(fr, t[3])
            rs = self.call(fr, st, fv, args, atys, dty, key, line)
            if t[4] is None:
                return []
            out = []
            for s, v in rs:
                if s.dead:
                    continue
                c, p = self.resolve(fr, s, t[3], key + "D")
                self.store(s, c, p, v, key)
                out.append((t[4], s))
            return out
        raise Exception("term " + k)

    def optype(self, fr, o):
        if "cp" in o or "mv" in o:
            return self.place_ty(fr, o.get("cp") or o.get("mv"))
        if "t" in o:
            return self.prog.rt(o["t"], fr.env)
        return ("other", "?")

    # ------------------------------------------------------------ calls
    def call(self, fr, st, fv, args, atys, dty, key, line):
        if isinstance(fv, Fd):
            d = fv.d
            env = fv.env
            return self.call_fd(fr, st, d, env, args, atys, dty, key, line)
        if isinstance(fv, St) and fv.k[0] == "clo":
            return self.call_closure(fr, st, fv, args, key)
        if isinstance(fv, Rf):
            return self.call(fr, st, self.load(st, fv.c, fv.p, None, key), args, atys, dty, key, line)
        return [(st, self.mk(st, dty, key + ".r"))]

    def call_fd(self, fr, st, d, env, args, atys, dty, key, line):
        prog = self.prog
        p = d["p"]
        rp = d.get("rp", p)
        # resolved generic args
        rargs = [prog.rt(a, env) if isinstance(a, int) else ("const", a) for a in d.get("rargs", d["args"])]
        h = self.hooks.get("call")
        if h:
            h(self, fr, st, d, args, line)
        if rp in self.opaque and rp != self.entry and self.requires(fr, st, rp, args, line):
            return self.opaque_call(fr, st, rp, args, atys, dty, key)
        # models take precedence
        r = self.models.dispatch(self, fr, st, d, p, rp, rargs, args, atys, dty, key, line)
        if r is not None:
            return r
        fn = prog.fns.get(rp)
        if fn is not None and fn.blocks and not ("trait" in d and "rp" not in d and fn.d.get("in_trait") and self.find_impl(st, d, rargs, args)):
            return self.inline(fr, st, fn, dict(zip(fn.generics, rargs)), args, dty, key, line)
        if "trait" in d:
            fi = self.find_impl(st, d, rargs, args)
            if fi is not None:
                fn, genv = fi
                return self.inline(fr, st, fn, genv, args, dty, key, line)
        r = self.models.dispatch_trait(self, fr, st, d, p, rp, rargs, args, atys, dty, key, line)
        if r is not None:
            return r
        return self.unknown_call(fr, st, rp, args, atys, dty, key)

    def find_impl(self, st, d, rargs, args):
        name = d["p"].split("::")[-1]
        cands = self.prog.impls.get((d["trait"], name))
        if not cands:
            return None
        selft = rargs[0] if rargs else None
        hits = []
        for fn in cands:
            env = {}
            sp = self.prog.rt(fn.d["self_ty"], None)
            if sp[0] == "param":
                continue
            if self.unify(sp, selft, env):
                ta = fn.d.get("trait_args", [])
                ok = True
                for i, a in enumerate(ta[1:]):
                    if isinstance(a, int) and i + 1 < len(rargs):
                        if not self.unify(self.prog.rt(a, None), rargs[i + 1], env):
                            ok = False
                if ok:
                    hits.append((fn, env))
        if len(hits) == 1:
            return hits[0]
        if not hits and args and selft is not None and selft[0] in ("alias", "param", "other"):
            # receiver type known from the value only (projection of an associated type)
            v = self.deref_all(st, args[0])
            path = v.ty[1] if isinstance(v, Ob) and v.ty[0] == "adt" else v.k[1] if isinstance(v, St) and v.k[0] == "adt" else None
            c = [fn for fn in cands if self.prog.rt(fn.d["self_ty"], None)[:2] == ("adt", path)]
            if path is not None and len(c) == 1 and not c[0].generics:
                return c[0], {}
        return None

    def unify(self, pat, t, env):
        if t is None:
            return False
        if pat[0] == "param":
            if pat[1] in env:
                return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(a, b, env) for a, b in zip(pat[2], t[2]))
        if pat[0] in ("ref", "ptr"):
            return self.unify(pat[2], t[2], env)
        if pat[0] == "slice":
            return self.unify(pat[1], t[1], env)
        if pat[0] == "array":
            return self.unify(pat[1], t[1], env)
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, env) for a, b in zip(pat[1], t[1]))
        return pat == t

    def inline(self, fr, st, fn, env, args, dty, key, line):
        if self.fnstack.count(fn.p) >= 2 or len(self.fnstack) > 24:
            self.truncs += 1
            self.havoc_args(st, args, None, key)
            return [(st, self.mk(st, dty, key + ".rec"))]
        short = fn.p.split("::")[-1]
        r = self.run_fn(fn, args, st, f"{key}>{short}", env, (fr.depth if fr else 0) + 1)
        return r

    def call_closure(self, fr, st, clo, args, key, selfref=None):
        """args: list of values passed to the closure (already untupled)"""
        if isinstance(clo, Rf):
            selfref = clo
            clo = self.load(st, clo.c, clo.p, None, key)
            while isinstance(clo, Rf):
                selfref = clo
                clo = self.load(st, clo.c, clo.p, None, key)
        if isinstance(clo, Fd):
            d = clo.d
            return self.call_fd(fr, st, d, clo.env, args, [("other", "?")] * len(args), self.ret_ty(d, clo.env), key, 0)
        if not (isinstance(clo, St) and clo.k[0] == "clo"):
            return None
        fn = self.prog.fns.get(clo.k[1])
        if fn is None:
            return None
        if self.fnstack.count(fn.p) >= 2:
            return None
        # self argument: by ref or by value
        t1 = self.prog.rt(fn.locals[1][0], None)
        st = st.copy()
        if t1[0] == "ref":
            if selfref is None:
                c = f"{key}>clo"
                st.cells[c] = clo
                selfref = Rf(c)
            sa = selfref
        else:
            sa = clo
        env = self.clo_env.get(id(clo), None) if hasattr(self, "clo_env") else None
        env = fr.env if fr is not None else {}
        # environment of the defining function if it is on the stack
        env = self.env_for(fn, fr)
        args2 = [sa] + list(args)
        if fn.argc == 2 and len(args) > 1:
            args2 = [sa, St(("tuple",), args)]
        elif fn.argc != len(args2):
            # tuple spreading
            if len(args) == 1 and isinstance(args[0], St) and fn.argc == len(args[0].v) + 1:
                args2 = [sa] + list(args[0].v)
        short = "{c" + str(abs(hash(fn.p)) % 1000) + "}"
        short = "{" + fn.p.split("::")[-2] + "#" + fn.p.split("#")[-1] + "}"
        return self.run_fn(fn, args2, st, f"{key}>{short}", env, 0)

    def env_for(self, fn, fr):
        par = fn.d.get("parent")
        e = getattr(self, "envstack", {})
        f = fr
        if fr is not None and (fr.fn.p == par or par is None):
            return fr.env
        if par in self.envs:
            return self.envs[par]
        return fr.env if fr is not None else {}

    def ret_ty(self, d, env):
        fn = self.prog.fns.get(d.get("rp", d["p"]))
        if fn is not None:
            rargs = [self.prog.rt(a, env) if isinstance(a, int) else ("const", a) for a in d.get("rargs", d["args"])]
            return self.prog.rt(fn.locals[0][0], dict(zip(fn.generics, rargs)))
        return ("other", "?")

    def havoc_args(self, st, args, atys, key):
        for i, a in enumerate(args):
            if isinstance(a, Rf):
                mut = True
                if atys is not None:
                    t = atys[i]
                    mut = t[0] in ("ref", "ptr") and t[1]
                if mut:
                    v = self.load(st, a.c, a.p, None, key)
                    self.store(st, a.c, a.p, self.havoc(st, v, f"{key}.h{i}"), key)

    def havoc(self, st, v, key):
        if isinstance(v, I):
            r = v.r or (-INF, INF)
            return I(V(S.new(key, r[0], r[1])), v.r)
        if isinstance(v, Fl):
            return Fl(V(S.new(key, -INF, INF, False)), frozenset([key]))
        if isinstance(v, Bo):
            return Bo(("unk", key))
        if isinstance(v, St):
            if v.k[0] in ("clo",):
                return v
            return St(v.k, [self.havoc(st, x, f"{key}.{i}") for i, x in enumerate(v.v)])
        if isinstance(v, Sq):
            return Sq(V(S.new(key + ".len", 0, MAXLEN)), None, ty=v.ty)
        if isinstance(v, (Im, Rf)):
            return v
        if isinstance(v, En):
            return En(v.p, {vi: tuple(self.havoc(st, x, f"{key}.{vi}.{i}") for i, x in enumerate(p)) for vi, p in v.alts.items()}) if len(v.alts) > 1 else Ob(key, ("adt", v.p, ()))
        if isinstance(v, Ob):
            if is_img(v.ty) or v.ty[0] in ("param", "alias"):
                return v
            return Ob(key, v.ty)
        if isinstance(v, It):
            return Ob(key, ("other", "iter"))
        return v

    def requires(self, fr, st, rp, args, line):
        """precondition under which an opaque function was analysed: an obligation of the caller"""
        import specs
        f = specs.REQUIRES.get(rp.replace("imageproc::", "", 1))
        if f is None:
            return True
        try:
            ls = f(specs.E(self, st, args))
        except Exception:
            return False        # not of the reviewed shape: analysed in place
        self.oblige(st, fr, "unsafe", rp.split("::")[-1], line, [cge(l) for l in ls], why="precondition of the function called")
        return True

    def opaque_call(self, fr, st, rp, args, atys, dty, key):
        """call of a function that is analysed on its own for every argument: any result, anything stored through &mut;
        closures passed to it may be called with anything"""
        import specs
        self.opaque_used.add(rp)
        todo = [a for a in args]
        n = 0
        while todo:
            a = todo.pop()
            while isinstance(a, Rf):
                a = self.load(st, a.c, a.p, None, key)
            if isinstance(a, St) and a.k[0] == "clo" and a.k[1] in self.prog.fns:
                cf = self.prog.fns[a.k[1]]
                env = self.env_for(cf, fr)
                s2 = st.copy()
                # captured &mut places hold anything between calls
                for x in a.v:
                    if isinstance(x, Rf) and x.c in s2.cells:
                        v = self.load(s2, x.c, x.p, None, key)
                        self.store(s2, x.c, x.p, self.havoc(s2, v, f"{key}.o{n}"), key)
                        n += 1
                xs = [self.mk(s2, self.prog.rt(l[0], env), f"{key}.oc{n}.{i}") for i, l in enumerate(cf.locals[2:1 + cf.argc])]
                self.call_closure(fr, s2, a, xs, f"{key}.oc{n}")
                n += 1
                for x in a.v:
                    if isinstance(x, Rf) and x.c in st.cells and self.mutcap(cf, a, x):
                        v = self.load(st, x.c, x.p, None, key)
                        self.store(st, x.c, x.p, self.havoc(st, v, f"{key}.oh{n}"), key)
                        n += 1
        r = None
        if is_img(dty):
            w = specs.SIZES.get(rp.replace("imageproc::", "", 1), specs.SAME)
            if w is not None:
                try:
                    wh = w(specs.E(self, st, args))
                    r = Im(key + ".om", wh[0], wh[1], dty)
                except Exception:
                    r = None
        self.havoc_args(st, args, atys, key)
        return [(st, self.mk(st, dty, key + ".r") if r is None else r)]

    def mutcap(self, cf, a, x):
        return True

    def unknown_call(self, fr, st, p, args, atys, dty, key):
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        self.havoc_args(st, args, atys, key)
        return [(st, self.mk(st, dty, key + ".r"))]

