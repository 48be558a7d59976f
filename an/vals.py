"""Abstract values and states."""
from lin import *

EMPTY = frozenset()


class I:
    __slots__ = ("l", "r")

    def __init__(self, l, r=None):
        self.l = l
        self.r = r  # (lo, hi) of the type

    def __eq__(s, o): return type(o) is I and s.l == o.l
    def __hash__(s): return hash(s.l)
    def __repr__(s): return f"I({s.l})"


class Bo:
    __slots__ = ("c",)

    def __init__(self, c): self.c = c
    def __eq__(s, o): return type(o) is Bo and s.c == o.c
    def __hash__(s): return hash(s.c)
    def __repr__(s): return f"B({cstr(s.c)})"


class Fl:
    """float: l = Lin equal to the (real) value, or None; nan = set of root names (NaN iff any root true); fin: known finite"""
    __slots__ = ("l", "nan", "fin")

    def __init__(self, l, nan=EMPTY, fin=False):
        self.l, self.nan, self.fin = l, nan, fin

    def __eq__(s, o): return type(o) is Fl and s.l == o.l and s.nan == o.nan and s.fin == o.fin
    def __hash__(s): return hash(s.l)
    def __repr__(s): return f"F({s.l}{'~nan' if s.nan else ''})"


class St:
    """tuple / struct / closure env / fixed array with exact values. k: ('tuple',) | ('adt', path) | ('clo', path) | ('array',)"""
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, tuple(v)

    def __eq__(s, o): return type(o) is St and s.k == o.k and s.v == o.v
    def __hash__(s): return hash((s.k, len(s.v)))
    def __repr__(s): return f"{s.k[-1].split('::')[-1]}{s.v}"


class En:
    """enum value: alts {variant index: tuple of payload values}; tag: None or unk id used for correlation"""
    __slots__ = ("p", "alts", "g")

    def __init__(self, p, alts, g=None):
        self.p, self.alts, self.g = p, alts, g or {}

    def __eq__(s, o): return type(o) is En and s.p == o.p and s.alts == o.alts and s.g == o.g
    def __hash__(s): return hash((s.p, tuple(s.alts)))
    def __repr__(s): return f"{s.p.split('::')[-1]}{s.alts}"


class Rf:
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c, self.p = c, p

    def __eq__(s, o): return type(o) is Rf and s.c == o.c and s.p == o.p
    def __hash__(s): return hash((s.c, s.p))
    def __repr__(s): return f"&{s.c}{list(s.p) if s.p else ''}"


class Sq:
    """sequence: len; el: element template value or None (opaque of elty); ts: template symbols; tf: facts on them"""
    __slots__ = ("n", "el", "ts", "tf", "ty", "id")

    def __init__(self, n, el=None, ts=EMPTY, tf=(), ty=None, id=None):
        self.n, self.el, self.ts, self.tf, self.ty, self.id = n, el, ts, tuple(tf), ty, id

    def __eq__(s, o): return type(o) is Sq and s.n == o.n and s.el == o.el and s.ts == o.ts and set(s.tf) == set(o.tf)
    def __hash__(s): return hash(s.n)
    def __repr__(s): return f"Seq[{s.n}; {s.el} {list(s.tf) if s.tf else ''}]"


class Im:
    """owned image with known dims"""
    __slots__ = ("id", "w", "h", "ty", "src")

    def __init__(self, id, w, h, ty=None, src=None):
        self.id, self.w, self.h, self.ty, self.src = id, w, h, ty, src

    def __eq__(s, o): return type(o) is Im and s.w == o.w and s.h == o.h and s.ty == o.ty
    def __hash__(s): return hash((s.w, s.h))
    def __repr__(s): return f"Im<{s.w} x {s.h}>"


class Ob:
    """opaque value of a resolved type, identified by name; ov: overrides {(variant, idx): value}"""
    __slots__ = ("id", "ty", "ov")

    def __init__(self, id, ty, ov=None):
        self.id, self.ty, self.ov = id, ty, ov or {}

    def __eq__(s, o): return type(o) is Ob and s.id == o.id and s.ov == o.ov
    def __hash__(s): return hash(s.id)
    def __repr__(s): return f"<{s.id}{'+' if s.ov else ''}>"


class It:
    """iterator model: k kind, v tuple of component values / Lins"""
    __slots__ = ("k", "v")

    def __init__(self, k, *v):
        self.k, self.v = k, tuple(v)

    def __eq__(s, o): return type(o) is It and s.k == o.k and s.v == o.v
    def __hash__(s): return hash(s.k)
    def __repr__(s): return f"It.{s.k}{s.v}"


class Fd:
    """function item"""
    __slots__ = ("d", "env")

    def __init__(self, d, env): self.d, self.env = d, env
    def __eq__(s, o): return type(o) is Fd and s.d["p"] == o.d["p"] and s.d.get("rp") == o.d.get("rp")
    def __hash__(s): return hash(s.d["p"])
    def __repr__(s): return f"fn {s.d['p']}"


class Di:
    """discriminant of a place"""
    __slots__ = ("c", "p", "en")

    def __init__(self, c, p, en): self.c, self.p, self.en = c, p, en
    def __eq__(s, o): return type(o) is Di and s.c == o.c and s.p == o.p and s.en == o.en
    def __hash__(s): return hash((s.c, s.p))


UNIT = St(("tuple",), ())

# ---- conditions
# ('t',) ('f',) ('ge', Lin)  lin>=0 ; ('eq', Lin) ; ('not', c) ; ('and', a, b) ; ('or', a, b) ; ('unk', id)
# ('fc', op, Lin, nan)  float comparison lin op 0, op in '>','>=','==' ; false if NaN
TRUE, FALSE = ("t",), ("f",)


def cnot(c):
    if c == TRUE: return FALSE
    if c == FALSE: return TRUE
    if c[0] == "not": return c[1]
    if c[0] == "ge": return ("ge", -c[1] - 1) if c[1].allint() else ("not", c)
    return ("not", c)


def cand(a, b):
    if a == FALSE or b == FALSE: return FALSE
    if a == TRUE: return b
    if b == TRUE: return a
    return ("and", a, b)


def cor(a, b):
    if a == TRUE or b == TRUE: return TRUE
    if a == FALSE: return b
    if b == FALSE: return a
    return ("or", a, b)


def cge(l):
    if not l.t:
        return TRUE if l.c >= 0 else FALSE
    return ("ge", l)


def ceq(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    return ("eq", l)


def cstr(c):
    k = c[0]
    if k == "t": return "true"
    if k == "f": return "false"
    if k == "ge": return f"{c[1]} >= 0"
    if k == "eq": return f"{c[1]} == 0"
    if k == "not": return f"!({cstr(c[1])})"
    if k in ("and", "or"): return f"({cstr(c[1])} {k} {cstr(c[2])})"
    if k == "fc": return f"{c[2]} {c[1]} 0.0"
    return str(c)


class Case:
    """cached case of a state; false, so that it is dropped from the cache with the negative answers"""
    __slots__ = ("s",)

    def __init__(self, s): self.s = s
    def __bool__(self): return False


class No:
    """failed proof with a solution of the linear relaxation"""
    __slots__ = ("pt",)

    def __init__(self, pt): self.pt = pt
    def __bool__(self): return False


_bf = {}
# candidates for joins: a rational solution of the facts is enough to give a candidate up
WEAK = [False]


class State:
    __slots__ = ("cells", "facts", "bnd", "unk", "ne", "cache", "dead", "pts", "adj")

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.bnd = {}
        self.unk = {}
        self.ne = {}
        self.cache = {}
        self.dead = False
        self.adj = None
        self.pts = ()       # solutions of the relaxed constraint system (used only to refute quickly)

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.bnd = dict(self.bnd)
        s.unk = dict(self.unk)
        s.ne = dict(self.ne)
        s.cache = dict(self.cache)
        s.dead = self.dead
        s.pts = self.pts
        s.adj = self.adj
        return s

    def pt_filter(self, f):
        """drop the points that do not survive the new fact f >= 0"""
        fs = f.t.keys()
        keep = []
        for P, mb in self.pts:
            if not (fs & P.keys()):
                keep.append((P, mb))
                continue
            if fs & mb or not (fs <= P.keys()):
                continue
            e = f.c
            for s, k in f.t.items():
                e += k * P[s]
            if e >= 0:
                keep.append((P, mb))
        self.pts = tuple(keep)

    # ---- bounds
    def slo(self, s):
        b = self.bnd.get(s)
        return b[0] if b and b[0] > S.lo[s] else S.lo[s]

    def shi(self, s):
        b = self.bnd.get(s)
        return b[1] if b and b[1] < S.hi[s] else S.hi[s]

    def mlo(self, s):
        m = S.mono[s]
        if m is None:
            return self.slo(s), self.shi(s)
        lo, hi = self.slo(m[0]), self.shi(m[0])
        for b in m[1:]:
            lo, hi = imul(lo, hi, self.slo(b), self.shi(b))
        bl = self.bnd.get(s)
        if bl:
            lo, hi = max(lo, bl[0]), min(hi, bl[1])
        return max(lo, S.lo[s]), min(hi, S.hi[s])

    def interval(self, l):
        lo = hi = l.c
        for s, k in l.t.items():
            a, b = self.mlo(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def prove(self, g, depth=0):
        """facts |- g >= 0, distinguishing the cases of minima, maxima and saturated values where the counterexample of
        the linear relaxation satisfies none of them"""
        if not g.t:
            return g.c >= 0 or self.dead
        r = self.prove0(g)
        if r:
            return True
        if not SPLITTERS or depth >= 3:
            return False
        g = norm(g)
        x = self.split_of(g, r)
        if x is None:
            return False
        k = ("split", g.key(), depth)
        r = self.cache.get(k)
        if r is not None:
            return r
        r = True
        for alt in x[1]:
            s = self.case(x[0], alt)
            if not s.prove(g, depth + 1):
                q = s.prove0(g)
                if type(q) is No and x[0] in q.pt or not self.impossible(s, x[0], alt):
                    r = False
                    break
        self.cache[k] = r
        return r

    def split_of(self, g, no):
        if type(no) is No:
            P = no.pt
            best = None
            for b in P:
                if b in SPLITTERS:
                    alts = self.unk.get(("split", b))
                    if not alts:
                        continue
                    worst = INF
                    for alt in alts:
                        v = 0
                        for f in alt:
                            e = f.c
                            for s, c in f.t.items():
                                if s not in P:
                                    break
                                e += c * P[s]
                            else:
                                if e < 0:
                                    v = max(v, -e)
                        worst = min(worst, v)
                    near = b in g.t or any(x in g.t for alt in alts for f in alt for x in f.t)
                    if worst > 1e-5 and (best is None or (near, worst) > best[2]):
                        best = (b, alts, (near, worst))
            if best is not None:
                return best
        for s in g.t:
            for b in S.mono[s] or (s,):
                if b in SPLITTERS:
                    alts = self.unk.get(("split", b))
                    if alts:
                        return b, alts
        for k, alts in self.unk.items():
            if type(k) is tuple and k[0] == "split" and any(x in g.t for alt in alts for f in alt for x in f.t):
                return k[1], alts
        return None

    def case(self, b, alt):
        ck = ("case", b, alt)
        x = self.cache.get(ck)
        if x is None:
            s = self.copy()
            del s.unk[("split", b)]
            for f in alt:
                s.add(f)
            x = self.cache[ck] = Case(s)
        return x.s

    def impossible(self, s, b, alt):
        if s.dead:
            return True
        k = ("imposs", b, alt)
        r = self.cache.get(k)
        if r is None:
            r = s._lp(None, alt)
            if r:
                s.dead = True
            self.cache[k] = r
        return r

    def prove0(self, g):
        """facts |- g >= 0, without case distinctions"""
        if not g.t:
            return g.c >= 0 or self.dead
        if self.dead:
            return True
        stats["prove"] += 1
        g = norm(g)
        if g in self.facts:
            return True
        lo, hi = self.interval(g)
        if lo >= 0:
            return True
        if hi < 0:
            # can only hold if the state is infeasible
            return False
        k = g.key()
        r = self.cache.get(k)
        if r is not None:
            return r
        for P, mb in self.pts:
            if g.t.keys() <= P.keys():
                e = g.c
                a = abs(e)
                for s, c in g.t.items():
                    x = c * P[s]
                    e += x
                    a += abs(x)
                if WEAK[0] and e < -1e-9 * a - 1e-7:
                    stats["quick"] += 1
                    return No(P)
                if e <= -1 + 1e-9 * a + 1e-7 if g.allint() else e < -1e-9 * a - 1e-7:
                    stats["quick"] += 1
                    r = self.cache[k] = No(P)
                    return r
        pt = {}
        r = self._lp(g, pt=pt)
        if not r and pt:
            mb = set()
            for s in pt:
                if S.mono[s]:
                    mb.update(S.mono[s])
                    mb.add(s)
            self.pts = ((pt, mb),) + self.pts[:7]
            r = No(pt)
        if r or not WEAK[0]:
            self.cache[k] = r
        return r

    def true_model(self, rows, q):
        """q, with products recomputed from their factors, satisfies the rows"""
        for r in rows:
            e = r.c
            a = abs(e)
            for s, c in r.t.items():
                m = S.mono[s]
                if m:
                    v = 1.0
                    for b in m:
                        if b not in q:
                            lo, hi = self.mlo(b)
                            q[b] = float(lo) if lo != -INF else float(hi) if hi != INF else 0.0
                        v *= q[b]
                    q[s] = v
                elif s in q:
                    v = q[s]
                else:
                    lo, hi = self.mlo(s)
                    v = q[s] = float(lo) if lo != -INF else float(hi) if hi != INF else 0.0
                x = c * v
                e += x
                a += abs(x)
            if e < -1e-9 * a - 1e-7:
                return False
        return True

    def bound_facts(self, s):
        lo, hi = self.mlo(s)
        k = (s, lo, hi)
        r = _bf.get(k)
        if r is not None:
            return r
        r = []
        if lo > S.lo[s] and lo != -INF:
            r.append(Lin(-lo, {s: 1}))
        if hi != INF:
            r.append(Lin(hi, {s: -1}))
        _bf[k] = r
        return r

    def _lp(self, g, extra=(), pt=None):
        rows = []
        seen = set()
        if g is not None:
            if g.allint():
                neg = -g - 1
            else:
                # reals: assume g <= -eps is not expressible; use g <= -1 only when integral, else strictness lost
                neg = -g - 0
                # refute g < 0 : need strict; approximate with companion handling (sound: prove g>=0 iff g<0 infeasible;
                # we refute g <= 0, which is stronger)
            rows.append(neg)
            want = set(neg.t)
        else:
            want = set()
            for e in extra:
                rows.append(e)
                want |= set(e.t)
        adj = self.adj
        if adj is None:
            adj = self.adj = {}
            mono = S.mono
            for f in self.facts:
                for s in f.t:
                    if s in adj:
                        adj[s].append(f)
                    else:
                        adj[s] = [f]
                    m = mono[s]
                    if m:
                        for b in m:
                            adj.setdefault(b, []).append(f)
        if g is None and not extra:
            want = set(adj)
        done = set()
        frontier = list(want)
        used = []
        usedset = set()
        monos = set()
        while frontier and len(used) < 70:
            nf = []
            for s in frontier:
                if s in done:
                    continue
                done.add(s)
                if S.mono[s]:
                    monos.add(s)
                    for b in S.mono[s]:
                        if b not in done:
                            nf.append(b)
                for f in adj.get(s, ()):
                    if f not in usedset:
                        usedset.add(f)
                        used.append(f)
                        for x in f.t:
                            if x not in done:
                                nf.append(x)
            frontier = nf
        rows += used
        big = 1 << 40
        if rows and abs(rows[0].c) >= 1 << 38:
            big = INF
        # products
        if monos:
            base = list(rows)
            bs = set()
            for r in base:
                bs.update(r.t)
            for s in bs:
                base += [f for f in self.bound_facts(s) if abs(f.c) < big]
            base = [r for r in base if r.t or r.c < 0]
            if g is not None:
                # a solution that gives every product the product of its factors' values refutes the goal
                lin = [r for r in base if not any(S.mono[s] for s in r.t)]
                for part in (lin, base) if len(lin) < len(base) else (base,):
                    q = {}
                    if lp_infeasible(part, q):
                        return True
                    if q and self.true_model(base, q):
                        if pt is not None:
                            pt.update(q)
                        return False
            elif lp_infeasible(base):
                return True
            if WEAK[0]:
                return False
            byterm = {}
            allf = list(used)
            for s in done:
                allf += self.bound_facts(s)
                if S.lo[s] != -INF:
                    allf.append(Lin(-S.lo[s], {s: 1}))
            for f in allf:
                if abs(f.c) <= 1 << 25:
                    for s in f.t:
                        byterm.setdefault(s, []).append(f)

            def mults(m):
                b = S.mono[m]
                for i in range(len(b)):
                    p = b[i]
                    q = b[:i] + b[i + 1:]
                    for (pp, qq) in ((p, S.mono_of(q)), (S.mono_of(q), p)) if len(b) > 2 else ((p, S.mono_of(q)),):
                        qlo, qhi = self.mlo(qq)
                        cands = [f for f in byterm.get(pp, ()) if len(f.t) <= 4][:24]
                        for f in cands:
                            if qlo >= 0 and qlo != -INF:
                                yield product(f, Lin(-qlo if abs(qlo) < 1 << 40 else 0, {qq: 1}))
                            elif qhi <= 0:
                                yield product(f, Lin(0, {qq: -1}))
                        for f in cands:
                            if S.mono[qq] is None and S.mono[pp] is None:
                                for g2 in byterm.get(qq, ())[:10]:
                                    if len(f.t) * len(g2.t) <= 9:
                                        yield product(f, g2)
            # products that introduce no new monomial first
            closed = {}
            for m in monos:
                if S.mono[m]:
                    for pr in mults(m):
                        if pr.t and pr not in closed and all(x in monos or S.mono[x] is None for x in pr.t):
                            closed[pr] = 1
                            if len(closed) >= 120:
                                break
            if closed:
                r2 = base + list(closed)
                cs = set()
                for p in closed:
                    cs.update(p.t)
                for s in cs - bs:
                    r2 += [f for f in self.bound_facts(s) if abs(f.c) < big]
                if lp_infeasible([r for r in r2 if r.t or r.c < 0]):
                    return True
            prods = dict(closed)
            todo = list(monos)
            seenm = set()
            while todo and len(prods) < 160:
                m = todo.pop(0)
                if m in seenm:
                    continue
                seenm.add(m)
                if not S.mono[m]:
                    continue
                for pr in mults(m):
                    if pr.t and pr not in prods and pr.degree() <= 4:
                        prods[pr] = 1
                        for s in pr.t:
                            if S.mono[s] and s not in seenm:
                                todo.append(s)
                        if len(prods) >= 160:
                            break
            rows += list(prods)
            for p in prods:
                for s in p.t:
                    done.add(s)
        allsyms = set()
        for r in rows:
            allsyms.update(r.t)
        for s in allsyms:
            rows += [f for f in self.bound_facts(s) if abs(f.c) < big]
        rows = [r for r in rows if r.t or r.c < 0]
        return lp_infeasible(rows, pt)

    def add(self, f):
        """assume f >= 0"""
        f = norm(f)
        if not f.t:
            if f.c < 0:
                self.dead = True
            return
        if self.dead or f in self.facts:
            return
        if len(f.t) == 1:
            (s, k), = f.t.items()
            if k == 1 or k == -1:
                lo, hi = self.mlo(s)
                if k == 1:
                    if -f.c <= lo:
                        return
                    b = self.bnd.get(s, (-INF, INF))
                    self.bnd[s] = (max(b[0], -f.c), b[1])
                    if -f.c > hi:
                        self.dead = True
                else:
                    if f.c >= hi:
                        return
                    b = self.bnd.get(s, (-INF, INF))
                    self.bnd[s] = (b[0], min(b[1], f.c))
                    if f.c < lo:
                        self.dead = True
                if self.pts:
                    self.pt_filter(f)
                self.cache = {k2: v for k2, v in self.cache.items() if v}
                self._ne_refresh(s)
                return
        lo, hi = self.interval(f)
        if lo >= 0:
            return
        if hi < 0:
            self.dead = True
            return
        self.facts[f] = None
        self.adj = None
        if self.pts:
            self.pt_filter(f)
        self.cache = {k2: v for k2, v in self.cache.items() if v}
        # non-integer companion
        if not f.allint():
            nis = [s for s in f.t if not S.isint[s]]
            if len(nis) == 1 and f.t[nis[0]] in (1, -1) and S.mono[nis[0]] is None:
                s = nis[0]
                fl = floor_of(s)
                rest = f - Lin(0, {s: f.t[s]})
                if rest.allint():
                    if f.t[s] == 1:
                        self.add(rest + V(fl))          # x >= E -> floor x >= E
                    else:
                        self.add(rest - V(fl))          # x <= E -> floor x <= E

    def add_strict(self, f):
        """assume f > 0 (reals)"""
        if f.allint():
            self.add(f - 1)
            return
        self.add(f)
        nis = [s for s in f.t if not S.isint[s]]
        if len(nis) == 1 and f.t[nis[0]] == -1 and S.mono[nis[0]] is None:
            s = nis[0]
            rest = f - Lin(0, {s: -1})
            if rest.allint():
                self.add(rest - V(floor_of(s)) - 1)     # x < E -> floor x <= E-1

    def _ne_refresh(self, s):
        for l in list(self.ne):
            if s in l.t:
                self.add_ne(l)

    def add_ne(self, l):
        if not l.t:
            if l.c == 0:
                self.dead = True
            return
        lo, hi = self.interval(l)
        if lo == 0:
            self.ne.pop(l, None)
            self.add(l - 1)
        elif hi == 0:
            self.ne.pop(l, None)
            self.add(-l - 1)
        elif self.prove(l):
            self.ne.pop(l, None)
            self.add(l - 1)
        elif self.prove(-l):
            self.ne.pop(l, None)
            self.add(-l - 1)
        elif len(self.ne) < 30:
            self.ne[l] = None

    def is_ne(self, l):
        return l in self.ne or (-l) in self.ne or self.prove(l - 1) or self.prove(-l - 1)

    def infeasible(self, g=None):
        if self.dead:
            return True
        if self._lp(None, (g,) if g is not None else ()):
            self.dead = True
            return True
        return False


SPLITTERS = set()     # symbols that may have a case split recorded in a state (unk[("split", symbol)])


def split_sym(st, name, lo, hi, lower, upper, alts):
    """symbol with facts sym >= each of lower, sym <= each of upper, and a deferred case distinction"""
    b = S.new(name, lo, hi)
    st.unk.pop(("split", b), None)
    v = V(b)
    for l in lower:
        st.add(v - l)
    for l in upper:
        st.add(l - v)
    ls = [st.interval(x) for x, _ in alts]
    blo = max([min(i[0] for i in ls)] + [st.interval(x)[0] for x in lower])
    bhi = min([max(i[1] for i in ls)] + [st.interval(x)[1] for x in upper])
    if blo != -INF:
        st.add(v - blo)
    if bhi != INF:
        st.add(-(v - bhi))
    st.unk[("split", b)] = tuple(tuple([v - e, e - v] + list(c)) for e, c in alts)
    SPLITTERS.add(b)
    return v


RND = {}      # rounded value: (integer expression, width)
REPR = {}     # float-valued symbols: width in which they are exactly representable


def floor_of(s):
    n = S.name[s] + ".fl"
    i = S.byname.get(n)
    if i is None:
        import math
        lo = S.lo[s] if S.lo[s] == -INF else math.floor(S.lo[s])
        hi = S.hi[s] if S.hi[s] == INF else math.floor(S.hi[s])
        i = S.new(n, lo, hi, True)
        if s in REPR:
            REPR[i] = REPR[s]
    return i
