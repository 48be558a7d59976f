"""Exact rational functions over named symbols: numerator and denominator are polynomials with rational coefficients."""
from fractions import Fraction


def pmul(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mono(m, n)
            v = r.get(k, 0) + x * y
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce_trig(r)


def mono(m, n):
    d = dict(m)
    for s, e in n:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e))


def padd(a, b, k=1):
    r = dict(a)
    for m, x in b.items():
        v = r.get(m, 0) + k * x
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def reduce_trig(p):
    """cos(t)^2 = 1 - sin(t)^2; symbols of sine and cosine are ('sin', t) and ('cos', t)"""
    while True:
        hit = next((m for m in p if any(s[0] == "cos" and e >= 2 for s, e in m)), None)
        if hit is None:
            return p
        p = dict(p)
        x = p.pop(hit)
        d = dict(hit)
        s = next(s for s, e in hit if s[0] == "cos" and e >= 2)
        d[s] -= 2
        low = tuple(sorted((k, e) for k, e in d.items() if e))
        sn = ("sin", s[1])
        p = padd(p, {low: x})
        p = padd(p, {mono(low, ((sn, 2),)): x}, -1)


ONE = {(): Fraction(1)}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or ONE
        if not self.n:
            self.d = ONE
        elif self.d is not ONE:
            self.cancel()

    def cancel(self):
        # common monomial factor and coefficient of the denominator
        g = None
        for p in (self.n, self.d):
            for m in p:
                dm = dict(m)
                g = dm if g is None else {s: min(e, dm[s]) for s, e in g.items() if s in dm}
                if not g:
                    break
            if not g:
                break
        if g:
            f = lambda p: {tuple(sorted((s, e - g.get(s, 0)) for s, e in m if e - g.get(s, 0))): x for m, x in p.items()}
            self.n, self.d = f(self.n), f(self.d)
        if len(self.d) == 1:
            (m, x), = self.d.items()
            if not m:
                self.n, self.d = {k: v / x for k, v in self.n.items()}, ONE
        if self.n == self.d:
            self.n = self.d = ONE

    def zero(self):
        return not self.n

    def const(self):
        """the constant value, or None"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and self.d is ONE and () in self.n:
            return self.n[()]
        return None

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        if len(self.d) == 1 and len(o.d) == 1:
            (a, x), = self.d.items()
            (b, y), = o.d.items()
            da, db = dict(a), dict(b)
            l = {s: max(da.get(s, 0), db.get(s, 0)) for s in {*da, *db}}
            up = lambda q: {tuple(sorted((s, e - q.get(s, 0)) for s, e in l.items() if e - q.get(s, 0))): Fraction(1)}
            return Rat(padd({m: v / x for m, v in pmul(self.n, up(da)).items()}, {m: v / y for m, v in pmul(o.n, up(db)).items()}), {tuple(sorted(l.items())): Fraction(1)})
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -x for m, x in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.n == o.d:
            return Rat(o.n, self.d)
        if o.n == self.d:
            return Rat(self.n, o.d)
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * o.inv()

    def __eq__(self, o):
        return (self - o).zero()

    def __str__(self):
        f = lambda p: " + ".join((str(x) if x != 1 or not m else "") + "*".join(f"{s[-1] if isinstance(s, tuple) else s}" + (f"^{e}" if e > 1 else "") for s, e in m) for m, x in sorted(p.items(), key=str)) or "0"
        return f(self.n) if self.d is ONE else f"({f(self.n)})/({f(self.d)})"


def num(x):
    x = Fraction(x)
    return Rat({(): x} if x else {})


def sym(s):
    return Rat({((s, 1),): Fraction(1)})


def subst(r, env):
    """replace symbols by rational functions"""
    if not env or not any(s in env for p in (r.n, r.d) for m in p for s, e in m):
        return r
    def one(p):
        t = num(0)
        for m, x in p.items():
            q = num(x)
            for s, e in m:
                b = env.get(s)
                b = sym(s) if b is None else b
                for _ in range(e):
                    q = q * b
            t = t + q
        return t
    return one(r.n) / one(r.d)
