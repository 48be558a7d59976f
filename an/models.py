"""Models: primitive operations, standard library, image crate."""
import re
from lin import *
from vals import *
from ir import PRIMS, tstr

MAXDIM = 1 << 24
MAXLEN = (1 << 31) - 1
EXACT = {32: 1 << 24, 64: 1 << 53}
OTHER = ("other", "?")
OPT = "core::option::Option"
RES = "core::result::Result"
U64 = (0, (1 << 64) - 1)
U32 = (0, (1 << 32) - 1)
RANGE = ("adt", "core::ops::range::Range")


def some(v): return En(OPT, {1: (v,)})


NONE = En(OPT, {0: ()})


def ok(v): return En(RES, {0: (v,)})


def err(v): return En(RES, {1: (v,)})


def usz(l): return I(l, U64)


# ------------------------------------------------------------------ scalars
def split(ip, st, c):
    """[(state, truth)]"""
    r = [(s, True) for s in ip.assume(st, c, True)]
    r += [(s, False) for s in ip.assume(st, c, False)]
    return r


def fresh(key, r):
    return I(V(S.new(key, r[0], r[1])), r)


def in_range(ip, st, l, r):
    return st.prove(l - r[0]) and st.prove(L(r[1]) - l)


def wrap_split(ip, st, l, r, key):
    """(state, Lin, overflowed) disjuncts of the wrapping result of the exact value l in range r (|error| <= one modulus)"""
    a, b = st.prove(l - r[0]), st.prove(L(r[1]) - l)
    if a and b:
        return [(st, l, False)]
    mod = r[1] - r[0] + 1
    out = []
    mid = [st]
    if not a:
        lo = ip.assume(st, cge(L(r[0] - 1) - l))
        mid = ip.assume(st, cge(l - r[0]))
        out += [(s, l + mod, True) for s in lo]
    if not b:
        m2 = []
        for s in mid:
            m2 += ip.assume(s, cge(L(r[1]) - l))
            out += [(h, l - mod, True) for h in ip.assume(s, cge(l - r[1] - 1))]
        mid = m2
    return [(s, l, False) for s in mid] + out


def wrap_any(ip, st, l, r, key):
    """like wrap_split but the error may be several moduli"""
    if in_range(ip, st, l, r):
        return [(st, l, False)]
    out = []
    mid = []
    for s in ip.assume(st, cge(l - r[0])):
        mid += ip.assume(s, cge(L(r[1]) - l))
    out += [(s, l, False) for s in mid]
    bad = ip.assume(st, cge(L(r[0] - 1) - l)) + ip.assume(st, cge(l - r[1] - 1))
    if bad:
        out += [(s, V(S.new(key + ".wrap", r[0], r[1])), True) for s in bad]
    return out


def mul_bound(ip, st, a, b, l, r):
    """a <= w and b <= h for the dimensions of some input image bounds the product by its number of pixels"""
    if not a.t or not b.t or st.interval(l)[1] <= r[1]:
        return st
    for w, h in ip.dimpairs:
        for x, y in ((a, b), (b, a)):
            if st.prove(V(w) - x) and st.prove(V(h) - y) and st.prove(a) and st.prove(b):
                st = st.copy()
                st.add(L(MAXLEN) - l)
                return st
    return st


def divrem(ip, st, a, b, signed, key):
    """list of (state, quotient, remainder) for b != 0 (caller has checked)"""
    if b.const() is None:
        lo, hi = st.interval(b)
        if lo == hi:
            b = L(lo)
    if b.const() is not None and a.const() is None:
        lo, hi = st.interval(a)
        if lo == hi:
            a = L(lo)
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        if (ca < 0) != (cb < 0):
            q = -q
        return [(st, L(q), L(ca - q * cb))]
    res = []
    parts = [(st, 1)]
    if signed and not st.prove(a):
        parts = [(s, 1) for s in ip.assume(st, cge(a))] + [(s, -1) for s in ip.assume(st, cge(-a - 1))]
    for s, sg in parts:
        x = a if sg == 1 else -a
        bs = [(s, 1)]
        if signed and cb is None and not s.prove(b - 1):
            bs = [(t, 1) for t in ip.assume(s, cge(b - 1))] + [(t, -1) for t in ip.assume(s, cge(-b - 1))]
        elif cb is not None and cb < 0:
            bs = [(s, -1)]
        for t, sb in bs:
            y = b if sb == 1 else -b
            # exact division by a constant
            cy = y.const()
            t = t.copy()
            if cy is not None and cy > 0 and x.c % cy == 0 and all(v % cy == 0 for v in x.t.values()):
                q = Lin(x.c // cy, {k: v // cy for k, v in x.t.items()})
                r = L(0)
            else:
                # x = y*q exactly, as a product?
                q = None
                if cy is None and len(y.t) == 1 and y.c == 0 and x.c == 0 and list(y.t.values()) == [1]:
                    ys = next(iter(y.t))
                    qq = {}
                    okq = True
                    for k, v in x.t.items():
                        m = list(S.base(k))
                        if ys in m:
                            m.remove(ys)
                            if m:
                                mm = S.mono_of(tuple(m))
                                qq[mm] = qq.get(mm, 0) + v
                            else:
                                okq = False
                                break
                        else:
                            okq = False
                            break
                    if okq:
                        q = Lin(0, qq)
                        r = L(0)
                if q is None and cy is None and t.prove(y - x - 1):
                    q, r = L(0), x
                if q is None:
                    lo, hi = t.interval(x)
                    qs = S.new(f"div({x},{y})", 0, INF)
                    q = V(qs)
                    t.add(x - q)
                    if hi != INF:
                        t.add(L(hi if cy is None else hi // cy) - q)
                    if cy is not None:
                        t.add(x - q.scale(cy))
                        t.add(q.scale(cy) + (cy - 1) - x)
                        r = x - q.scale(cy)
                    else:
                        p = q * y
                        t.add(x - p)
                        t.add(p + y - 1 - x)
                        # q*y is bounded by x: keep remainder as its own symbol
                        rs = S.new(f"rem({x},{y})", 0, INF)
                        r = V(rs)
                        t.add(x - r)
                        t.add(y - 1 - r)
                        t.add(x - p - r)
                        t.add(p + r - x)
            if t.dead:
                continue
            Q = q if sg == sb else -q
            R = r if sg == 1 else -r
            res.append((t, Q, R))
    return res


def fresh_f(key, nan=True):
    return Fl(V(S.new(key, -INF, INF, False)), frozenset([key + "?nan"]) if nan else EMPTY)


def flo(v):
    """Lin or fresh? None"""
    return v.l


def fround(ip, st, E, nan, w, key, fin=False):
    """float of width w nearest to the real E"""
    if E is None:
        s = S.new(key + ".f", -INF, INF, False)
        REPR[s] = w
        return Fl(V(s), nan, False)
    lo, hi = st.interval(E)
    if E.allint() and lo >= -EXACT[w] and hi <= EXACT[w]:
        return Fl(E, nan, True)
    isint = E.allint()
    s = S.new(f"rnd{w}({E})" if len(E.t) <= 6 else key + ".rnd", -INF, INF, isint)
    REPR[s] = w
    if isint and len(E.t) <= 6:
        RND[s] = (E, w)
    import math
    v = V(s)
    if lo != -INF and abs(lo) < 1 << 60:
        l2 = math.floor(lo)
        if abs(l2) > EXACT[w]:
            l2 = l2 - abs(l2) // EXACT[w] - 1
        st.add(v - l2)
    if hi != INF and abs(hi) < 1 << 60:
        h2 = math.ceil(hi)
        if abs(h2) > EXACT[w]:
            h2 = h2 + abs(h2) // EXACT[w] + 1
        st.add(L(h2) - v)
    # sign
    if lo == -INF and st.prove(E):
        st.add(v)
    if hi == INF and st.prove(-E):
        st.add(-v)
    # monotone wrt each single term (its value is representable)
    for t, k in E.t.items():
        if abs(k) == 1 and S.mono[t] is None and (REPR.get(t, 99 if S.isint[t] else w) <= w or S.isint[t] and st.slo(t) >= -EXACT[w] and st.shi(t) <= EXACT[w]):
            x = Lin(0, {t: k})
            rest = E - x
            if st.prove(rest):
                st.add(v - x)
            if st.prove(-rest):
                st.add(x - v)
    # integer parts: integers up to 2^24 are representable
    return Fl(v, nan, fin)


def fplus(a, b, sub=False):
    if a is None or b is None:
        return None
    return a - b if sub else a + b


def fl_of(ip, st, v, key):
    if isinstance(v, Fl):
        return v
    return fresh_f(key)


def float_bin(ip, fr, st, op, a, b, w, key):
    nan = a.nan | b.nan
    if not (a.fin and b.fin):
        nan = nan | frozenset([key + "?nan"]) if op in ("Add", "Sub", "Mul", "Div", "Rem") and not (a.fin or b.fin) else nan
    st = st.copy()
    la, lb = a.l, b.l
    if op in ("Add", "Sub"):
        return [(st, fround(ip, st, fplus(la, lb, op == "Sub"), nan, w, key))]
    if op == "Mul":
        if la is not None and lb is not None:
            for x, y in ((la, lb), (lb, la)):
                c = x.const()
                if c is not None:
                    if c == 0 and not (a.fin and b.fin):
                        return [(st, Fl(L(0), nan | frozenset([key + "?nan"]), True))]
                    return [(st, fround(ip, st, y.scale(c), nan, w, key))]
            if la == lb:
                E = la * lb
                r = fround(ip, st, None, nan, w, key)
                st.add(r.l)
                if la.allint() and E.degree() <= 3:
                    r = fround(ip, st, E, nan, w, key)
                return [(st, r)]
            if la.allint() and lb.allint() and (la * lb).degree() <= 4:
                return [(st, fround(ip, st, la * lb, nan, w, key))]
            # sign and |b| <= 1 scaling
            r = fround(ip, st, None, nan, w, key)
            if not (a.fin and b.fin):
                r = Fl(r.l, nan | frozenset([key + "?nan"]), False)
            for x, y in ((la, lb), (lb, la)):
                sx = 1 if st.prove(x) else -1 if st.prove(-x) else 0
                sy = 1 if st.prove(y) else -1 if st.prove(-y) else 0
                if sx * sy > 0:
                    st.add(r.l)
                elif sx * sy < 0:
                    st.add(-r.l)
                # 0 <= y <= 1: |r| <= |x|
                if sy > 0 and st.prove(L(1) - y):
                    if sx > 0:
                        st.add(x - r.l)
                    elif sx < 0:
                        st.add(r.l - x)
            lo1, hi1 = st.interval(la)
            lo2, hi2 = st.interval(lb)
            if -INF not in (lo1, lo2) and INF not in (hi1, hi2):
                lo, hi = imul(lo1, hi1, lo2, hi2)
                if abs(lo) < EXACT[w]:
                    st.add(r.l - lo)
                if abs(hi) < EXACT[w]:
                    st.add(L(hi) - r.l)
            return [(st, r)]
    if op == "Div":
        r = fround(ip, st, None, nan, w, key)
        zero = True
        if lb is not None:
            if (lb.const() or 0) != 0 or st.prove(lb - 1) or st.prove(-lb - 1):
                zero = False
        r = Fl(r.l, nan | (frozenset([key + "?nan"]) if zero or not a.fin else EMPTY), not zero and a.fin)
        if la is not None and lb is not None:
            sx = 1 if st.prove(la) else -1 if st.prove(-la) else 0
            sy = 1 if st.prove(lb) else -1 if st.prove(-lb) else 0
            if sx * sy > 0:
                st.add(r.l)
            elif sx * sy < 0:
                st.add(-r.l)
            if sy > 0 and not zero:
                if st.prove(lb - 1):
                    if sx > 0:
                        st.add(la - r.l)
                    elif sx < 0:
                        st.add(r.l - la)
                c = lb.const()
                if c is not None and c > 0:
                    lo, hi = st.interval(la)
                    import math
                    if lo != -INF and abs(lo) < EXACT[w]:
                        st.add(r.l - math.floor(lo / c))
                    if hi != INF and abs(hi) < EXACT[w]:
                        st.add(L(math.ceil(hi / c)) - r.l)
                    # real relation with one unit of slack: c*r within [la - c, la + c]
                    if c <= EXACT[w]:
                        st.add(r.l.scale(c) - la + c)
                        st.add(la + c - r.l.scale(c))
                if st.prove(lb - la):
                    st.add(L(1) - r.l)
                if st.prove(la + lb):
                    st.add(r.l + 1)
        return [(st, r)]
    r = fround(ip, st, None, nan | frozenset([key + "?nan"]), w, key)
    return [(st, r)]


def binop(ip, fr, st, op, a, b, rt, key, line):
    a = scal(ip, st, a, rt, key + "a")
    b = b if isinstance(b, (I, Fl, Bo)) else scal(ip, st, b, rt, key + "b")
    if op.endswith("WithOverflow"):
        if not (isinstance(a, I) and isinstance(b, I)):
            return [(st, St(("tuple",), [ip.mk(st, rt, key + ".o"), Bo(("unk", key + ".ov"))]))]
        from interp import rng
        r = rng(rt) or a.r or b.r
        o = op[:3]
        l = a.l + b.l if o == "Add" else a.l - b.l if o == "Sub" else a.l * b.l
        if l.degree() > 6:
            l = V(S.new(key + ".prod", -INF, INF))
        if o == "Mul":
            st = mul_bound(ip, st, a.l, b.l, l, r)
        if ip.mode != "release":
            c = cnot(cand(cge(l - r[0]), cge(L(r[1]) - l)))
            return [(st, St(("tuple",), [I(l, r), Bo(c)]))]
        res = wrap_any(ip, st, l, r, key) if o == "Mul" else wrap_split(ip, st, l, r, key)
        return [(s, St(("tuple",), [I(x, r), Bo(FALSE)])) for s, x, _ in res]
    if isinstance(a, I) and isinstance(b, I):
        if op == "Eq":
            return [(st, Bo(ceq(a.l - b.l)))]
        if op == "Ne":
            return [(st, Bo(cnot(ceq(a.l - b.l))))]
        if op == "Lt":
            return [(st, Bo(cge(b.l - a.l - 1)))]
        if op == "Le":
            return [(st, Bo(cge(b.l - a.l)))]
        if op == "Gt":
            return [(st, Bo(cge(a.l - b.l - 1)))]
        if op == "Ge":
            return [(st, Bo(cge(a.l - b.l)))]
        if op == "Cmp":
            return cmp_int(ip, st, a.l, b.l)
        from interp import rng
        r = rng(rt) or a.r or (-INF, INF)
        if op in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            l = a.l + b.l if op.startswith("Add") else a.l - b.l
            return [(s, I(x, r)) for s, x, _ in wrap_split(ip, st, l, r, key)]
        if op in ("Mul", "MulUnchecked"):
            l = a.l * b.l
            st = mul_bound(ip, st, a.l, b.l, l, r)
            return [(s, I(x, r)) for s, x, _ in wrap_any(ip, st, l, r, key)]
        if op in ("Div", "Rem"):
            signed = r[0] < 0
            out = []
            for s in ip.assume(st, cnot(ceq(b.l))):
                for t, q, m in divrem(ip, s, a.l, b.l, signed, key):
                    out.append((t, I(q if op == "Div" else m, r)))
            return out
        c = b.l.const()
        if op in ("Shl", "ShlUnchecked") and c is not None:
            return [(s, I(x, r)) for s, x, _ in wrap_any(ip, st, a.l.scale(1 << c), r, key)]
        if op in ("Shr", "ShrUnchecked") and c is not None and r[0] == 0:
            return [(t, I(q, r)) for t, q, m in divrem(ip, st, a.l, L(1 << c), False, key)]
        if op == "Shr" and r[0] == 0:
            st = st.copy()
            v = fresh(key + ".shr", r)
            st.add(a.l - v.l)
            return [(st, v)]
        if op == "BitAnd" and r[0] == 0:
            st = st.copy()
            cc = a.l.const()
            if c is not None and cc is not None:
                return [(st, I(L(c & cc), r))]
            v = fresh(f"and({a.l},{b.l})", r)
            st.add(a.l - v.l)
            st.add(b.l - v.l)
            if c == 1 or cc == 1:
                # parity of the other operand
                x = a.l if c == 1 else b.l
                for t, q, m in divrem(ip, st, x, L(2), False, key):
                    return [(t, I(m, r))]
            return [(st, v)]
        if op in ("BitOr", "BitXor") and r[0] == 0:
            st = st.copy()
            cc = a.l.const()
            if c is not None and cc is not None:
                return [(st, I(L(c | cc if op == "BitOr" else c ^ cc), r))]
            v = fresh(f"{op}({a.l},{b.l})", r)
            hi = max(st.interval(a.l)[1], st.interval(b.l)[1])
            if hi < INF:
                st.add(L((1 << int(hi).bit_length()) - 1) - v.l)
            if op == "BitOr":
                st.add(v.l - a.l)
                st.add(v.l - b.l)
            st.add(a.l + b.l - v.l)
            return [(st, v)]
        return [(st, fresh(key + "." + op, r))]
    if isinstance(a, Bo) and isinstance(b, Bo):
        if op == "BitAnd":
            return [(st, Bo(cand(a.c, b.c)))]
        if op == "BitOr":
            return [(st, Bo(cor(a.c, b.c)))]
        if op in ("Eq", "Ne", "BitXor"):
            eq = cor(cand(a.c, b.c), cand(cnot(a.c), cnot(b.c)))
            return [(st, Bo(eq if op == "Eq" else cnot(eq)))]
        return [(st, Bo(("unk", key)))]
    if isinstance(a, Fl) and isinstance(b, Fl):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return [(st, Bo(fcmp(op, a, b, key)))]
        return float_bin(ip, fr, st, op, a, b, rt[1] if rt[0] == "float" else 64, key)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return [(st, Bo(("unk", key)))]
    return [(st, ip.mk(st, rt, key + ".b"))]


def fcmp(op, a, b, key):
    nan = a.nan | b.nan
    if a.l is None or b.l is None:
        if op == "Ne":
            return cnot(("fc", "rd", None, nan))
        return ("fc", "rdd:" + key, None, nan) if False else ("unk", key)
    d = a.l - b.l
    if op == "Gt":
        return ("fc", ">", d, nan)
    if op == "Ge":
        return ("fc", ">=", d, nan)
    if op == "Lt":
        return ("fc", ">", -d, nan)
    if op == "Le":
        return ("fc", ">=", -d, nan)
    if op == "Eq":
        return ("fc", "==", d, nan)
    return cnot(("fc", "==", d, nan))


def cmp_int(ip, st, a, b):
    O = "core::cmp::Ordering"
    out = []
    for s in ip.assume(st, cge(b - a - 1)):
        out.append((s, En(O, {0: ()})))
    for s in ip.assume(st, ceq(a - b)):
        out.append((s, En(O, {1: ()})))
    for s in ip.assume(st, cge(a - b - 1)):
        out.append((s, En(O, {2: ()})))
    return out


def scal(ip, st, v, rt, key):
    if isinstance(v, (I, Fl, Bo)):
        return v
    if isinstance(v, Di):
        return I(V(S.new(key + ".discr", -1, 64)))
    if isinstance(v, Rf):
        w = ip.deref_all(st, v)
        if isinstance(w, (I, Fl, Bo)) and rt[0] not in ("ref", "ptr"):
            return w
        return v
    if rt[0] in ("int", "uint", "float", "bool", "char"):
        return ip.mk(st, rt, (v.id if isinstance(v, Ob) else key) + "!s")
    return v


def unop(ip, fr, st, op, a, rt, key, line):
    if op == "Not":
        if isinstance(a, Bo):
            return [(st, Bo(cnot(a.c)))]
        if isinstance(a, I) and a.r and a.r[0] == 0:
            return [(st, I(L(a.r[1]) - a.l, a.r))]
    if op == "Neg":
        if isinstance(a, Fl):
            return [(st, Fl(-a.l if a.l is not None else None, a.nan, a.fin))]
        if isinstance(a, I):
            r = a.r or (-INF, INF)
            if r[0] == -INF:
                return [(st, I(-a.l, r))]
            return [(s, I(x, r)) for s, x, _ in wrap_split(ip, st, -a.l, r, key)]
    if op == "PtrMetadata":
        v = ip.deref_all(st, a)
        n = ip.len_of(st, v)
        if n is not None:
            return [(st, usz(n))]
        return [(st, usz(V(S.new(key + ".meta", 0, MAXLEN))))]
    return [(st, ip.mk(st, rt, key + ".u"))]


def cast(ip, fr, st, kind, v, fty, tty, key, line):
    from interp import rng
    if kind == "IntToInt":
        if isinstance(v, Bo):
            out = []
            for s, t in split(ip, st, v.c):
                out.append((s, I(L(1 if t else 0), rng(tty))))
            return out
        if isinstance(v, Di):
            out = []
            for vi in v.en.alts:
                out.append((st.copy(), I(L(ip.discr(v.en.p, vi)), rng(tty))))
            return out
        v = scal(ip, st, v, fty, key)
        if not isinstance(v, I):
            return [(st, ip.mk(st, tty, key + ".c"))]
        r = rng(tty)
        if r is None:
            return [(st, v)]
        fr_ = rng(fty) or v.r
        if fr_ and fr_[0] >= r[0] and fr_[1] <= r[1]:
            return [(st, I(v.l, r))]
        # at most one modulus away when widths are equal or widening
        span = r[1] - r[0] + 1
        if fr_ and fr_[1] - r[1] <= span and r[0] - fr_[0] <= span:
            return [(s, I(x, r)) for s, x, _ in wrap_split(ip, st, v.l, r, key)]
        return [(s, I(x, r)) for s, x, _ in wrap_any(ip, st, v.l, r, key)]
    if kind == "IntToFloat":
        v = scal(ip, st, v, fty, key)
        if isinstance(v, I):
            st = st.copy()
            f = fround(ip, st, v.l, EMPTY, tty[1], key)
            return [(st, Fl(f.l, EMPTY, True))]
        return [(st, ip.mk(st, tty, key + ".c"))]
    if kind == "FloatToFloat":
        v = scal(ip, st, v, fty, key)
        if isinstance(v, Fl):
            if tty[1] >= fty[1]:
                return [(st, v)]
            st = st.copy()
            f = fround(ip, st, v.l, v.nan, tty[1], key)
            return [(st, f)]
        return [(st, ip.mk(st, tty, key + ".c"))]
    if kind == "FloatToInt":
        v = scal(ip, st, v, fty, key)
        r = rng(tty)
        if isinstance(v, Fl):
            return float_to_int(ip, st, v, r, key)
        return [(st, ip.mk(st, tty, key + ".c"))]
    if kind.startswith("PointerCoercion") or kind in ("Transmute", "BoxDerefTransmute", "PtrToPtr"):
        if kind == "Transmute" and not isinstance(v, Rf):
            ip.unmodelled["transmute"] = ip.unmodelled.get("transmute", 0) + 1
            return [(st, ip.mk(st, tty, key + ".tm"))]
        return [(st, v)]
    return [(st, v if type(v) in (Rf, Fd) else ip.mk(st, tty, key + ".c"))]


def float_to_int(ip, st, v, r, key):
    out = []
    sts = [st]
    if v.nan:
        sts = []
        for s in ip.assume(st, ("fc", "rd", None, v.nan), True):
            sts.append(s)
        for s in ip.assume(st, ("fc", "nan", None, v.nan), False):
            # NaN states: those in which a root is true
            if any(s.unk.get(x) is True for x in v.nan) or s.unk.get("|".join(sorted(v.nan))) is True:
                out.append((s, I(L(0), r)))
    for s in sts:
        if v.l is None:
            out.append((s, fresh(key + ".fti", r)))
            continue
        l = v.l
        if l.allint():
            a, b = s.prove(l - r[0]), s.prove(L(r[1]) - l)
            mid = [s]
            if not a:
                for t in ip.assume(s, cge(L(r[0] - 1) - l)):
                    out.append((t, I(L(r[0]), r)))
                mid = ip.assume(s, cge(l - r[0]))
            for m in mid:
                if not b:
                    for t in ip.assume(m, cge(l - r[1] - 1)):
                        out.append((t, I(L(r[1]), r)))
                    for t in ip.assume(m, cge(L(r[1]) - l)):
                        out.append((t, I(l, r)))
                else:
                    out.append((m, I(l, r)))
            continue
        # l < 0
        neg = [] if s.prove(l) else ip.assume(s, ("fc", ">", -l, EMPTY), True)
        pos = [s] if not neg else ip.assume(s, ("fc", ">=", l, EMPTY), True)
        for t in neg:
            if r[0] == 0:
                out.append((t, I(L(0), r)))
            else:
                t = t.copy()
                x = fresh(f"trunc({l})" if len(l.t) < 5 else key + ".tr", (r[0], 0))
                t.add(x.l - l)              # toward zero (saturation only raises it further)
                # x < l + 1 unless saturated
                if t.prove(l - r[0]):
                    t.add_strict(l + 1 - x.l)
                out.append((t, I(x.l, r)))
        for t in pos:
            t = t.copy()
            lo, hi = t.interval(l)
            if len(l.t) == 1 and l.c == 0 and list(l.t.values()) == [1] and S.mono[next(iter(l.t))] is None:
                fs = floor_of(next(iter(l.t)))
                f = V(fs)
                t.add(f)
            else:
                f = V(S.new(f"floor({l})" if len(l.t) < 5 else key + ".fl", 0, INF))
            t.add(l - f)
            t.add_strict(f + 1 - l)
            if hi <= r[1] or t.prove(L(r[1]) - f):
                out.append((t, I(f, r)))
            else:
                for u in ip.assume(t, cge(L(r[1]) - f)):
                    out.append((u, I(f, r)))
                for u in ip.assume(t, cge(f - r[1] - 1)):
                    out.append((u, I(L(r[1]), r)))
    return out


# ------------------------------------------------------------------ registry
TABLE = {}


class C:
    __slots__ = ("ip", "fr", "st", "d", "p", "rp", "rargs", "args", "atys", "dty", "key", "line")

    def __init__(s, *a):
        (s.ip, s.fr, s.st, s.d, s.p, s.rp, s.rargs, s.args, s.atys, s.dty, s.key, s.line) = a

    def v(s, i):
        return s.ip.deref_all(s.st, s.args[i])

    def ret(s, v, st=None):
        return [(st or s.st, v)]

    def fresh(s, suffix=".r"):
        return [(s.st, s.ip.mk(s.st, s.dty, s.key + suffix))]

    def oblige(s, st, kind, conds, name=None, why=""):
        return s.ip.oblige(st, s.fr, kind, name or short(s.p), s.line, conds, why=why)


def short(p):
    return re.sub(r"<[^<>]*>", "", p).split("::")[-1]


def m(*names):
    def w(f):
        for n in names:
            TABLE[n] = f
        return f
    return w


CALLS = ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")


def dispatch(ip, fr, st, d, p, rp, rargs, args, atys, dty, key, line):
    if p in CALLS and (rp == p or "{closure#" in rp):
        f = TABLE[p]
    elif d.get("rlocal") or (d.get("local") and rp in ip.prog.fns and ip.prog.fns[rp].blocks and not d.get("trait")):
        f = LOCAL.get(rp)
        if f is None:
            return None
    else:
        f = TABLE.get(rp) or TABLE.get(p)
    if f is None:
        return None
    if d.get("trait") and not d.get("rlocal"):
        # a trait method on a type implemented in this crate
        if ip.prog.impls.get((d["trait"], p.split("::")[-1])):
            fi = ip.find_impl(st, d, rargs if p == rp else [ip.prog.rt(a, fr.env if fr else None) if isinstance(a, int) else ("const", a) for a in d["args"]], args)
            if fi is not None:
                return None
    return f(C(ip, fr, st, d, p, rp, rargs, args, atys, dty, key, line))


def dispatch_trait(ip, fr, st, d, p, rp, rargs, args, atys, dty, key, line):
    return None


LOCAL = {}
INVARIANTS = {}


def on_aggregate(ip, fr, st, ak, vs, key, line, ty):
    f = AGG.get(ak[1])
    if f:
        return f(ip, fr, st, ak, vs, key, line, ty)
    return None


AGG = {}


def field_of_model(ip, st, v, idx, rt, key):
    return None


import models_std   # noqa: E402,F401  (registers itself)
tmplify = models_std.tmplify
loop_refinement = models_std.loop_refinement
import invariants  # noqa: E402,F401
