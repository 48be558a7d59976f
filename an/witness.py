"""Refutation of alleged differences: two arithmetic terms over the same leaves are only reported as different when some
assignment of values to the leaves distinguishes them (so re-associated, commuted or otherwise rewritten arithmetic is not)."""
import math
import random
import zlib


class No(Exception):
    pass


SC = ("lin", "prod", "bin", "un", "cast", "int", "float")
CALLS = {"cmp::min", "cmp::max"}
cache = {}


OPS = {"Mul::mul": "*", "Add::add": "+", "Sub::sub": "-"}


# methods of the integers (and of the floats)
INTFN = {"saturating_sub": 2, "saturating_add": 2, "wrapping_add": 2, "wrapping_sub": 2, "abs_diff": 2, "abs": 1, "unsigned_abs": 1, "is_positive": 1}


def intfn(t):
    if t.k != "call" or not isinstance(t.a[0], str):
        return None
    h = t.a[0].split("::")
    f = h[-1]
    return f if INTFN.get(f) == len(t.a) - 1 and f in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "abs") and not t.a[0].startswith("imageproc::") else None


def scalar(t):
    return t.k in SC or t.k == "call" and (t.a[0] in CALLS or t.a[0] in OPS and len(t.a) == 3 or intfn(t) is not None)


def leafkey(t):
    return f"{t.k}{t.id}"


def pick(t, ty, n):
    r = random.Random(zlib.crc32(f"{leafkey(t)}/{n}".encode()))
    if ty is None:
        raise No
    if ty[0] in ("int", "uint"):
        lo, hi = (0, (1 << ty[1]) - 1) if ty[0] == "uint" else (-(1 << ty[1] - 1), (1 << ty[1] - 1) - 1)
        m = n % 4
        if m == 0:
            return max(lo, min(hi, r.randint(-3, 6)))
        if m == 1:
            return max(lo, min(hi, r.randint(0, 300)))
        if m == 2:
            return r.choice((lo, hi, lo + 1, hi - 1, 0, 1))
        return r.randint(lo, hi)
    if ty[0] == "float":
        m = n % 4
        return r.uniform(-2, 2) if m < 2 else r.uniform(0, 300) if m == 2 else float(r.randint(-4, 4)) + r.choice((0.0, 0.5, 0.25))
    if ty == ("bool",):
        return r.random() < .5
    raise No


def wrap(c, ty):
    m = 1 << ty[1]
    c %= m
    return c - m if ty[0] == "int" and c >= m // 2 else c


def ev(t, ty, n, memo):
    k = (t.id, ty)
    if k in memo:
        return memo[k]
    r = ev1(t, ty, n, memo)
    memo[k] = r
    return r


def ev1(t, ty, n, memo):
    env = getattr(memo, "env", None)
    if env is not None and not inner(t):
        return env.leaf(t, ty, memo.side)
    if t.k == "int":
        return t.a[0]
    if t.k == "float":
        return float(str(t.a[0]).replace("_", "").rstrip("f3264") if not _f(t.a[0]) else t.a[0])
    if t.k == "bool":
        return t.a[0]
    if t.k == "lin":
        ty = t.a[0]
        return wrap(t.a[1] + sum(ev(x, ty, n, memo) * c for x, c in zip(t.a[2::2], t.a[3::2])), ty)
    if t.k == "prod":
        ty = t.a[0]
        v = 1
        for x in t.a[1:]:
            v *= ev(x, ty, n, memo)
        return wrap(v, ty)
    if t.k == "cast":
        src, to, x = t.a
        v = ev(x, src, n, memo)
        if to[0] in ("int", "uint"):
            if isinstance(v, float):
                lo, hi = (0, (1 << to[1]) - 1) if to[0] == "uint" else (-(1 << to[1] - 1), (1 << to[1] - 1) - 1)
                if v != v:
                    return 0
                return max(lo, min(hi, int(v) if abs(v) != math.inf else (hi if v > 0 else lo)))
            return wrap(int(v), to)
        if to[0] == "float":
            return float(v)
        raise No
    if t.k == "bin":
        op, ty, x, y = t.a
        if op in ("Shl", "Shr"):
            raise No
        a, b = ev(x, ty, n, memo), ev(y, ty, n, memo)
        if ty[0] == "float":
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mul":
                return a * b
            if op == "Div":
                return a / b if b else math.nan
            raise No
        if ty[0] in ("int", "uint"):
            if op in ("Div", "Rem"):
                if b == 0:
                    raise No
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return wrap(q, ty) if op == "Div" else wrap(a - q * b, ty)
            if op == "BitAnd":
                return wrap(a & b, ty)
            if op == "BitOr":
                return wrap(a | b, ty)
            if op == "BitXor":
                return wrap(a ^ b, ty)
        raise No
    if t.k == "un":
        op, x = t.a
        if op == "Neg":
            v = ev(x, ty, n, memo)
            return -v if isinstance(v, float) else wrap(-v, ty)
        raise No
    if t.k == "call" and t.a[0] in CALLS and len(t.a) == 3:
        a, b = ev(t.a[1], ty, n, memo), ev(t.a[2], ty, n, memo)
        return min(a, b) if t.a[0] == "cmp::min" else max(a, b)
    f = intfn(t)
    if f is not None:
        if ty is None or ty[0] not in ("int", "uint") and f != "abs":
            raise No
        a = ev(t.a[1], ty, n, memo)
        if f == "abs":
            return abs(a)
        b = ev(t.a[2], ty, n, memo)
        v = a + b if f.endswith("add") else a - b
        if f.startswith("wrapping"):
            return wrap(v, ty)
        lo, hi = (0, (1 << ty[1]) - 1) if ty[0] == "uint" else (-(1 << ty[1] - 1), (1 << ty[1] - 1) - 1)
        return max(lo, min(hi, v))
    if t.k == "call" and t.a[0] in OPS and len(t.a) == 3:
        ty = ty or ("float", 64)
        a, b = ev(t.a[1], ty, n, memo), ev(t.a[2], ty, n, memo)
        v = a * b if t.a[0] == "Mul::mul" else a + b if t.a[0] == "Add::add" else a - b
        return v if isinstance(v, float) else wrap(v, ty)
    return pick(t, ty, n)


def _f(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


def tyof(t):
    if t.k in ("lin", "prod"):
        return t.a[0]
    if t.k == "bin":
        return t.a[1]
    if t.k == "cast":
        return t.a[1]
    if t.k == "int":
        return t.a[1]
    if t.k == "float":
        return t.a[1]
    if t.k == "un":
        return tyof(t.a[1])
    if t.k == "call" and t.a[0] in CALLS:
        return tyof(t.a[1]) or tyof(t.a[2])
    if intfn(t) is not None:
        return tyof(t.a[1]) or (tyof(t.a[2]) if len(t.a) > 2 else None)
    if t.k == "call" and t.a[0] in OPS and len(t.a) == 3:
        return tyof(t.a[1]) or tyof(t.a[2]) or ("float", 64)
    return None


def cond(t):
    return t.k in ("ge", "fcmp", "not", "eq", "bool")


def truth(t, n):
    if t.k == "bool":
        return bool(t.a[0])
    if t.k == "not":
        return not truth(t.a[0], n)
    if t.k == "ge":
        return ev(t.a[1], t.a[0], n, {}) >= ev(t.a[2], t.a[0], n, {})
    if t.k in ("eq", "fcmp"):
        x, y = t.a[-2:]
        ty = tyof(x) or tyof(y)
        v, w = ev(x, ty, n, {}), ev(y, ty, n, {})
        return v == w if t.k == "eq" else v < w if t.a[0] == "Lt" else v <= w
    if t.k == "bin" and t.a[0] in ("BitAnd", "BitOr") and t.a[1] == ("bool",):
        x, y = truth(t.a[2], n), truth(t.a[3], n)
        return x and y if t.a[0] == "BitAnd" else x or y
    raise No


def agree(a, b):
    """both terms have the same value for every sampled assignment of their leaves; False when one tells them apart or it is not known"""
    k = (a.id, b.id)
    if k in cache:
        return cache[k]
    r = False
    if cond(a) and cond(b):
        r = True
        got = 0
        for i in range(3000):
            n = 4 * i + i % 2       # small values: no arithmetic wraps around
            try:
                if truth(a, n) != truth(b, n):
                    r = False
                    break
                got += 1
            except (No, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
                if i > 50 and not got:
                    break
        r = r and got >= 100
    elif scalar(a) or scalar(b):
        ty = tyof(a) or tyof(b)
        if ty is not None and a.sz < 4000 and b.sz < 4000:
            r = True
            got = 0
            for n in range(40):
                try:
                    if not close(ev(a, ty, n, {}), ev(b, ty, n, {})):
                        r = False
                        break
                    got += 1
                except (No, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
                    continue
            r = r and got >= 10
    cache[k] = r
    return r


# ---------------------------------------------------------------- terms with corresponding uninterpreted parts
def inner(t):
    return scalar(t) or t.k in ("ge", "fcmp", "not", "eq", "bool")


def kids(t):
    return [x for x in t.a if hasattr(x, "k")]


def leaves(t, out, seen):
    if t.id in seen:
        return
    seen.add(t.id)
    if not inner(t):
        out.append(t)
        return
    for x in kids(t):
        leaves(x, out, seen)


def rng(t):
    """the bounds of an element of an integer range"""
    if t.k == "proj" and t.a[0].k == "call" and t.a[0].a[0] == "iter::next" and t.a[0].a[1].k == "mut":
        r = t.a[0].a[1].a[0]
        if r.k == "agg" and str(r.a[0]).split("::")[-1] == "Range" and len(r.a) == 4:
            lo = r.a[2]
            if lo.k == "phi":
                L, (c, p) = lo.a[2], lo.a[1]
                x = L.init.get(c)
                for i in p:
                    x = x.a[2 + i] if x is not None and x.k == "agg" else None
                lo = x
            return lo, r.a[3]
    if t.k == "item":
        return t.a
    return None


def size(t):
    """the side of an image and what the image was before the loops that write to it"""
    if not (t.k == "call" and t.a[0] in ("image::width", "image::height") and len(t.a) == 2):
        return None
    x = t.a[1]
    while x.k == "phi" and x.a[1][1] == ():
        x = x.a[2].init.get(x.a[1][0])
        if x is None:
            return None
    return t.a[0], x.id


class Env:
    """values of leaves: corresponding leaves of both sides have the same value"""

    def __init__(self, rep, n, near=()):
        self.rep, self.n, self.vals, self.near = rep, n, {}, near

    def leaf(self, t, ty, side):
        k = size(t) or self.rep.get((side, t.id), t.id)
        if k in self.vals:
            return self.vals[k]
        r = rng(t)
        v = None
        if r is not None and ty is not None and ty[0] in ("int", "uint") and r[0] is not None:
            self.vals[k] = 0
            lo, hi = self.ev(r[0], ty, side), self.ev(r[1], ty, side)
            if lo >= hi:
                raise No
            v = lo + zlib.crc32(f"{k}/{self.n}".encode()) % (hi - lo)
        if v is None:
            v = pick_key(f"k{k}", ty, self.n, self.near)
        self.vals[k] = v
        return v

    def ev(self, t, ty, side):
        return ev1(t, ty, self.n, Memo(self, side))

    def truth(self, t, side):
        if t.k == "bool":
            return bool(t.a[0])
        if t.k == "not":
            return not self.truth(t.a[0], side)
        if t.k == "ge":
            return self.ev(t.a[1], t.a[0], side) >= self.ev(t.a[2], t.a[0], side)
        if t.k in ("eq", "fcmp"):
            x, y = t.a[-2:]
            ty = tyof(x) or tyof(y)
            v, w = self.ev(x, ty, side), self.ev(y, ty, side)
            return v == w if t.k == "eq" else v < w if t.a[0] == "Lt" else v <= w
        if t.k == "bin" and t.a[0] in ("BitAnd", "BitOr") and t.a[1] == ("bool",):
            x, y = self.truth(t.a[2], side), self.truth(t.a[3], side)
            return x and y if t.a[0] == "BitAnd" else x or y
        raise No


class Memo(dict):
    """memo of ev1 that answers for leaves"""

    def __init__(self, env, side):
        self.env, self.side = env, side


def consts(t, out, seen):
    if t.id in seen:
        return
    seen.add(t.id)
    if inner(t):
        for x in t.a:
            if isinstance(x, int) and not isinstance(x, bool) and 1 < abs(x) < 1 << 31:
                out.add(x)
    for x in kids(t):
        consts(x, out, seen)


def pick_key(key, ty, n, near=()):
    r = random.Random(zlib.crc32(f"{key}/{n}".encode()))
    if ty is None:
        raise No
    if near and n % 5 == 4 and ty[0] in ("int", "uint") and r.random() < .6:
        v = r.choice(near) * r.choice((1, 1, 1, -1, 2)) + r.randint(-2, 2)
        if (0 if ty[0] == "uint" else -(1 << ty[1] - 1)) <= v < 1 << ty[1] - (ty[0] == "int"):
            return v
    if ty[0] in ("int", "uint"):
        lo, hi = (0, (1 << ty[1]) - 1) if ty[0] == "uint" else (-(1 << ty[1] - 1), (1 << ty[1] - 1) - 1)
        return max(lo, min(hi, r.randint(-3, 6) if n % 2 else r.randint(0, 300)))
    if ty[0] == "float":
        return r.uniform(-2, 2) if n % 2 else float(r.randint(-4, 4)) + r.choice((0.0, 0.5, 0.25))
    if ty == ("bool",):
        return r.random() < .5
    raise No


def judge(a, b, cmp, known):
    """"distinct": some values of the corresponding parts, allowed by what is known, tell the terms apart; "agree": none of many do"""
    if not (inner(a) and inner(b)) and not (inner(a) or inner(b)) or a.sz > 4000 or b.sz > 4000:
        return None
    snap = dict(cmp.rel)
    try:
        return judge1(a, b, cmp, known)
    finally:
        cmp.rel = snap


def judge1(a, b, cmp, known):
    import term
    la, lb = [], []
    leaves(a, la, set())
    leaves(b, lb, set())
    rep = {}
    for x in la:
        rep[(0, x.id)] = x.id
    ma = set()
    for y in lb:
        for x in la:
            if x is y and not term.hasphi(x) or size(x) is not None and size(x) == size(y) or cmp.rel.get(x) is y or x.k == y.k and x.k != "phi" and cmp.leafsame(x, y):
                rep[(1, y.id)] = x.id
                ma.add(x.id)
                break
        else:
            if not term.interpreted(y) or term.hasphi(y):
                return None
            rep[(1, y.id)] = y.id
    if any(x.id not in ma and (not term.interpreted(x) or term.hasphi(x)) for x in la):
        return None
    isc = cond(a) and cond(b)
    ty = None if isc else tyof(a) or tyof(b)
    if not isc and (ty is None or cond(a) or cond(b)):
        return None
    got = 0
    eqs = [0, 0]
    near = set()
    consts(a, near, set())
    consts(b, near, set())
    near = sorted(near)[:40]
    kn = [(c, s, v) for (c, s), v in known.items() if cond(c) and c.sz < 400 and isinstance(v, bool)]
    skip = set()
    for n in range(1500):
        e = Env(rep, n, near)
        try:
            x, y = (e.truth(a, 0), e.truth(b, 1)) if isc else (e.ev(a, ty, 0), e.ev(b, ty, 1))
            ok = True
            for i, (c, s, v) in enumerate(kn):
                if i in skip:
                    continue
                try:
                    if e.truth(c, s) != v:
                        ok = False
                        break
                except (No, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
                    skip.add(i)
            if not ok:
                continue
            if isc:
                # a condition and its negation only swap the branches
                eqs[x == y] += 1
                if min(eqs):
                    return "distinct"
            elif not close(x, y):
                return "distinct"
            got += 1
            if not isc and got >= 300:
                break
        except (No, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
            if n > 40 and not got:
                return None
    return "agree" if got >= 100 else None
