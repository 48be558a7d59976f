"""Linear expressions over symbols (and interned monomials), and an exact entailment procedure.

A symbol is a small int with global immutable attributes (name, const bounds, integrality).
A monomial of degree >= 2 is interned as a symbol of its own (attribute `mono`).
A Lin is  c + sum(coef * sym)  with integer coefficients.
A fact is a Lin f meaning f >= 0.
"""
from math import gcd
from fractions import Fraction
import ctypes, os, subprocess, hashlib
from array import array

INF = float("inf")


class Syms:
    def __init__(self):
        self.name = []
        self.lo = []
        self.hi = []
        self.isint = []
        self.mono = []      # None or tuple of base syms (sorted)
        self.byname = {}
        self.monos = {}
        self.taint = []

    def new(self, name, lo=-INF, hi=INF, isint=True, taint=None):
        """Deterministic by name: the same name yields the same symbol."""
        i = self.byname.get(name)
        if i is not None:
            if self.lo[i] != lo or self.hi[i] != hi:
                # differing bounds under one name: distinguish
                return self.new(f"{name}[{lo},{hi}]", lo, hi, isint, taint) if not name.endswith("]") else self._raw(name + "'", lo, hi, isint, taint)
            return i
        return self._raw(name, lo, hi, isint, taint)

    def _raw(self, name, lo, hi, isint, taint):
        i = len(self.name)
        self.name.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        self.isint.append(isint)
        self.mono.append(None)
        self.taint.append(taint)
        self.byname[name] = i
        return i

    def mono_of(self, base):
        base = tuple(sorted(base))
        if len(base) == 1:
            return base[0]
        i = self.monos.get(base)
        if i is None:
            i = len(self.name)
            self.name.append("*".join(self.name[b] for b in base))
            lo, hi = self.lo[base[0]], self.hi[base[0]]
            for b in base[1:]:
                lo, hi = imul(lo, hi, self.lo[b], self.hi[b])
            if len(base) == 2 and base[0] == base[1]:
                lo = max(lo, 0)
            self.lo.append(lo)
            self.hi.append(hi)
            self.isint.append(all(self.isint[b] for b in base))
            self.mono.append(base)
            self.taint.append(next((self.taint[b] for b in base if self.taint[b]), None))
            self.monos[base] = i
        return i

    def base(self, s):
        return self.mono[s] or (s,)


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def imul(a, b, c, d):
    p = [_m(a, c), _m(a, d), _m(b, c), _m(b, d)]
    return min(p), max(p)


S = Syms()


class Lin:
    __slots__ = ("c", "t", "_h", "_hh")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}
        self._h = None
        self._hh = None

    def key(self):
        if self._h is None:
            self._h = (self.c, tuple(sorted(self.t.items())))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __hash__(self):
        if self._hh is None:
            self._hh = hash((self.c, frozenset(self.t.items())))
        return self._hh

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {s: v * k for s, v in self.t.items()})

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        r = {}
        c = self.c * o.c
        for a, x in self.t.items():
            if o.c:
                r[a] = r.get(a, 0) + x * o.c
        for b, y in o.t.items():
            if self.c:
                r[b] = r.get(b, 0) + y * self.c
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = S.mono_of(S.base(a) + S.base(b))
                r[m] = r.get(m, 0) + x * y
        return Lin(c, {k: v for k, v in r.items() if v})

    def const(self):
        return self.c if not self.t else None

    def degree(self):
        d = 0
        for s in self.t:
            d = max(d, len(S.mono[s]) if S.mono[s] else 1)
        return d

    def syms(self):
        return self.t.keys()

    def bases(self):
        r = set()
        for s in self.t:
            r.update(S.base(s))
        return r

    def subst(self, m):
        """m: base sym -> Lin"""
        if not self.t:
            return self
        hit = False
        for s in self.t:
            b = S.mono[s]
            if b is None:
                if s in m:
                    hit = True
                    break
            elif any(x in m for x in b):
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c)
        keep = {}
        for s, k in self.t.items():
            b = S.mono[s]
            if b is None:
                if s in m:
                    r = r + m[s].scale(k)
                else:
                    keep[s] = keep.get(s, 0) + k
            elif any(x in m for x in b):
                p = Lin(k)
                for x in b:
                    p = p * (m[x] if x in m else Lin(0, {x: 1}))
                r = r + p
            else:
                keep[s] = keep.get(s, 0) + k
        return r + Lin(0, keep)

    def allint(self):
        return all(S.isint[s] for s in self.t)

    def __repr__(self):
        if not self.t:
            return str(self.c)
        parts = []
        for s, k in sorted(self.t.items()):
            n = S.name[s]
            if k == 1:
                parts.append("+" + n)
            elif k == -1:
                parts.append("-" + n)
            else:
                parts.append(f"{k:+d}*{n}")
        r = "".join(parts)
        if self.c:
            r += f"{self.c:+d}"
        return r.lstrip("+")


def L(c):
    return Lin(c)


def V(s):
    return Lin(0, {s: 1})


def norm(f):
    """Normalise fact f>=0 (integers: divide by gcd, floor the constant)."""
    if not f.t:
        return f
    g = 0
    for v in f.t.values():
        g = gcd(g, v)
    if g <= 1:
        return f
    if f.allint():
        return Lin(f.c // g, {k: v // g for k, v in f.t.items()})
    if f.c % g == 0:
        return Lin(f.c // g, {k: v // g for k, v in f.t.items()})
    return f


_prod = {}


def product(f, g):
    """f*g (cached)"""
    k = (f, g)
    r = _prod.get(k)
    if r is None:
        if len(_prod) > 400000:
            _prod.clear()
        r = _prod[k] = f * g
    return r


# ---------------------------------------------------------------- LP (exact, C++)
_SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lp.cpp")


def _load():
    src = open(_SRC, "rb").read()
    h = hashlib.sha256(src + b"O3").hexdigest()[:12]
    cache = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache")
    os.makedirs(cache, exist_ok=True)
    so = os.path.join(cache, f"lp-{h}.so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}.tmp"
        subprocess.check_call(["g++", "-O3", "-shared", "-fPIC", "-o", tmp, _SRC])
        os.rename(tmp, so)
    lib = ctypes.CDLL(so)
    lib.lp_sparse.restype = ctypes.c_int
    lib.lp_sparse.argtypes = [ctypes.c_int] * 3 + [ctypes.c_void_p] * 6
    return lib


_lib = None
stats = {"lp": 0, "lp_unsat": 0, "quick": 0, "prove": 0}


def lp_infeasible(rows, point=None):
    """point: a dict that receives a solution when the system is found feasible.
    rows: list of Lin (each >= 0) over free/bounded syms.  True iff the rational system is infeasible.
    Column bounds (S.lo) are used to shift variables to be >= 0."""
    global _lib
    if _lib is None:
        _lib = _load()
    stats["lp"] += 1
    cols = {}
    fidx = []
    los = []
    ptr, idx, val, cst = [0], [], [], []
    LIM = 1 << 61
    SLO = S.lo
    for r in rows:
        c = r.c
        for s, k in r.t.items():
            j = cols.get(s)
            if j is None:
                j = cols[s] = len(cols)
                lo = SLO[s]
                if lo == -INF or abs(lo) > (1 << 62):
                    fidx.append(0)
                    lo = 0
                else:
                    fidx.append(-1)
                los.append(lo)
            idx.append(j)
            val.append(k)
            lo = los[j]
            if lo:
                c += k * lo
        # a larger constant only weakens a row, so this is sound
        if c > LIM or max(r.t.values(), default=0) > LIM or min(r.t.values(), default=0) < -LIM:
            del idx[ptr[-1]:], val[ptr[-1]:]
            continue
        ptr.append(len(idx))
        cst.append(c if c >= -LIM else -LIM)
    n = len(cols)
    free = [j for j in range(n) if fidx[j] == 0]
    for i, j in enumerate(free):
        fidx[j] = n + i
    N = n + len(free)
    out = array("d", bytes(8 * N))
    A = [array("i", ptr), array("i", idx), array("q", val), array("q", cst), array("i", fidx), out]
    r = _lib.lp_sparse(len(cst), n, len(free), *[x.buffer_info()[0] for x in A])
    if r == 1:
        stats["lp_unsat"] += 1
    elif r == 2 and point is not None:
        for s, j in cols.items():
            point[s] = out[j] - out[fidx[j]] if fidx[j] >= 0 else out[j] + los[j]
    return r == 1
