"""Interval-partition abstract evaluation of small scalar functions of one numeric argument.

Abstract state: the argument x ranges over one interval of the extended rationals (floats: open or closed ends, NaN excluded);
values are constants, a*x+b, trunc(x)+b, floor/round forms ('other'), booleans or aggregates.  Comparisons split the interval
exactly, so the result is a finite partition of the argument's domain with one closed form per part."""
import re, struct
from fractions import Fraction as Q
from ir import PRIMS

INF = float("inf")


class Undecided(Exception):
    pass


class PanicPath(Exception):
    pass


def f32(v):
    return struct.unpack("<f", struct.pack("<f", float(v)))[0]


class Iv:
    """interval with open/closed ends"""
    __slots__ = ("lo", "lc", "hi", "hc", "isint")

    def __init__(s, lo, lc, hi, hc, isint):
        s.lo, s.lc, s.hi, s.hc, s.isint = lo, lc, hi, hc, isint
        if isint:
            if lo != -INF:
                s.lo = -((-lo) // 1) if lc else lo // 1 + 1
                s.lc = True
            if hi != INF:
                s.hi = hi // 1 if hc else -((-hi) // 1) - 1
                s.hc = True

    def empty(s):
        return s.lo > s.hi or (s.lo == s.hi and not (s.lc and s.hc))

    def cut(s, c, side, closed):
        """side '<': part below c; '>': part above"""
        if side == "<":
            if c < s.hi or (c == s.hi and s.hc and not closed):
                return Iv(s.lo, s.lc, c, closed, s.isint)
            return s
        if c > s.lo or (c == s.lo and s.lc and not closed):
            return Iv(c, closed, s.hi, s.hc, s.isint)
        return s

    def __repr__(s):
        return f"{'[' if s.lc else '('}{float(s.lo) if not s.isint else s.lo}, {float(s.hi) if not s.isint else s.hi}{']' if s.hc else ')'}"


# values: ("c", Q or float inf) ; ("x", a, b) = a*x+b ; ("t", b) = trunc(x)+b ; ("b", bool) ; ("cmp", op, v, const)...; ("s", path, [vals]) ; ("en", variant, [vals]) ; ("r", cellref)


class Eval:
    def __init__(self, prog, depth=12):
        self.prog = prog
        self.maxsteps = 4000
        self.steps = 0

    def run(self, fn, args, iv, env=None, depth=0):
        """list of (interval, value)"""
        if depth > 8:
            raise Undecided("depth")
        res = []
        work = [(0, iv, {i + 1: a for i, a in enumerate(args)})]
        while work:
            b, iv, L = work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Undecided("steps")
            bb = fn.blocks[b]
            branches = [(iv, dict(L))]
            for s in bb["st"]:
                nb = []
                for iv1, L1 in branches:
                    if s[0] != "=":
                        raise Undecided("stmt " + s[0])
                    for iv2, v in self.rvalue(fn, env, iv1, L1, s[2], depth):
                        L2 = dict(L1)
                        self.write(fn, L2, s[1], v)
                        nb.append((iv2, L2))
                branches = nb
            for iv1, L1 in branches:
                t = bb["t"]
                k = t[0]
                if k == "ret":
                    res.append((iv1, L1.get(0)))
                elif k == "goto":
                    work.append((t[1], iv1, L1))
                elif k == "drop":
                    work.append((t[2], iv1, L1))
                elif k == "switch":
                    v = self.operand(fn, env, L1, t[1])
                    rest = iv1
                    done = False
                    if v[0] == "b":
                        val = int(v[1])
                        tg = next((g for x, g in t[3] if int(x) == val), t[4])
                        work.append((tg, iv1, L1))
                        continue
                    if v[0] == "c":
                        tg = next((g for x, g in t[3] if int(x) == v[1]), t[4])
                        work.append((tg, iv1, L1))
                        continue
                    if v[0] == "x" and abs(v[1]) == 1:
                        parts = [iv1]
                        for xv, tg in t[3]:
                            p0 = (Q(int(xv)) - v[2]) / v[1]
                            np = []
                            for p in parts:
                                mid = p.cut(p0, "<", True).cut(p0, ">", True)
                                if not mid.empty():
                                    work.append((tg, mid, L1))
                                for z in (p.cut(p0, "<", False), p.cut(p0, ">", False)):
                                    if not z.empty():
                                        np.append(z)
                            parts = np
                        for p in parts:
                            work.append((t[4], p, L1))
                        continue
                    raise Undecided("switch on " + str(v))
                elif k == "assert":
                    v = self.operand(fn, env, L1, t[1])
                    if v[0] == "b":
                        if v[1] == t[2]:
                            work.append((t[-1], iv1, L1))
                        else:
                            res.append((iv1, ("panic", t[3])))
                        continue
                    raise Undecided("assert")
                elif k == "call":
                    if t[1].get("c") != "fn":
                        raise Undecided("indirect call")
                    a = [self.operand(fn, env, L1, o) for o in t[2]]
                    for iv2, v in self.call(fn, env, iv1, L1, t[1], a, depth):
                        if v[0] == "panic":
                            res.append((iv2, v))
                            continue
                        L2 = dict(L1)
                        self.write(fn, L2, t[3], v)
                        if t[4] is not None:
                            work.append((t[4], iv2, L2))
                elif k == "unreach":
                    pass
                else:
                    raise Undecided("term " + k)
        return res

    # places
    def read(self, L, pl):
        v = L.get(pl[0])
        if v is None:
            raise Undecided("uninit")
        for e in pl[1:]:
            k = e[0]
            if k == "*":
                if v[0] != "r":
                    raise Undecided("deref")
                v = v[1]
            elif k == "f":
                if v[0] in ("s", "en"):
                    v = v[2][e[1]]
                else:
                    raise Undecided("field")
            elif k == "d":
                if v[0] == "en" and v[1] != e[1]:
                    raise Undecided("downcast")
            elif k == "c" and v[0] == "s":
                v = v[2][e[1]]
            elif k == "i" and v[0] == "s":
                ix = L.get(e[1])
                if ix and ix[0] == "c" and 0 <= ix[1] < len(v[2]):
                    v = v[2][int(ix[1])]
                else:
                    raise Undecided("index")
            else:
                raise Undecided("proj")
        return v

    def write(self, fn, L, pl, v):
        if len(pl) == 1:
            L[pl[0]] = v
            return

        def up(cur, es):
            if not es:
                return v
            e = es[0]
            if e[0] in ("f", "c") and cur and cur[0] == "s":
                l = list(cur[2])
                l[e[1]] = up(l[e[1]], es[1:])
                return ("s", cur[1], l)
            if e[0] == "i" and cur and cur[0] == "s":
                ix = L.get(e[1])
                if ix and ix[0] == "c":
                    l = list(cur[2])
                    l[int(ix[1])] = up(l[int(ix[1])], es[1:])
                    return ("s", cur[1], l)
            raise Undecided("write")
        L[pl[0]] = up(L.get(pl[0]), pl[1:])

    def cj(self, j):
        """evaluated constant (driver JSON) -> value"""
        if isinstance(j, list):
            return ("s", "array", [self.cj(x) for x in j])
        if "ref" in j:
            return ("r", self.cj(j["ref"]))
        if "s" in j:
            return ("s", j["s"], [self.cj(x) for x in j["v"]])
        return self.scalar(j)

    def scalar(self, o):
        k = o["c"]
        if k == "int" or k == "char":
            return ("c", Q(int(o["v"])))
        if k == "bool":
            return ("b", o["v"] == "1")
        if k == "float":
            v = float(o["v"])
            if v != v:
                raise Undecided("nan constant")
            return ("c", Q(v) if abs(v) != INF else v)
        raise Undecided("const " + k)

    def operand(self, fn, env, L, o):
        if "cp" in o or "mv" in o:
            return self.read(L, o.get("cp") or o.get("mv"))
        k = o.get("c")
        if k in ("int", "bool", "float", "char"):
            return self.scalar(o)
        if k == "fn":
            return ("fn", o)
        if "promoted" in o:
            f = self.prog.fns.get(f"{o['name']}::promoted[{o['promoted']}]")
            r = self.run(f, [], Iv(Q(0), True, Q(0), True, True), env, 1)
            return r[0][1]
        if "name" in o and o["name"] in self.prog.fns:
            f = self.prog.fns[o["name"]]
            if f.d.get("cval"):
                return self.cj(f.d["cval"])
            r = self.run(f, [], Iv(Q(0), True, Q(0), True, True), env, 1)
            if len(r) == 1:
                return r[0][1]
        t = self.prog.types[o["t"]]
        if t.get("k") == "tuple" and not t.get("ts"):
            return ("s", "tuple", [])
        raise Undecided("operand " + str(o)[:80])

    def rt(self, tid, env):
        return self.prog.rt(tid, env)

    def rvalue(self, fn, env, iv, L, rv, depth):
        k = rv[0]
        if k == "use":
            return [(iv, self.operand(fn, env, L, rv[1]))]
        if k in ("ref", "raw"):
            return [(iv, ("r", self.read(L, rv[2])))]
        if k == "bin":
            return self.bin(iv, rv[1], self.operand(fn, env, L, rv[2]), self.operand(fn, env, L, rv[3]), self.rt(rv[4], env))
        if k == "un":
            v = self.operand(fn, env, L, rv[2])
            if rv[1] == "Not" and v[0] == "b":
                return [(iv, ("b", not v[1]))]
            if rv[1] == "Neg" and v[0] in ("c", "x"):
                return [(iv, ("c", -v[1]) if v[0] == "c" else ("x", -v[1], -v[2]))]
            raise Undecided("un " + rv[1])
        if k == "cast":
            return self.cast(iv, self.operand(fn, env, L, rv[2]), self.rt(rv[3], env), self.rt(rv[4], env))
        if k == "agg":
            vs = [self.operand(fn, env, L, o) for o in rv[2]]
            a = rv[1]
            if a[0] in ("tuple", "array"):
                return [(iv, ("s", a[0], vs))]
            if a[0] == "adt":
                if a[1].endswith(("option::Option", "result::Result", "cmp::Ordering")):
                    return [(iv, ("en", a[2], vs))]
                return [(iv, ("s", a[1], vs))]
            if a[0] == "closure":
                return [(iv, ("clo", a[1], vs))]
        if k == "repeat":
            v = self.operand(fn, env, L, rv[1])
            if rv[2] is not None and rv[2] <= 4096:
                return [(iv, ("s", "array", [v] * rv[2]))]
        if k == "discr":
            v = self.read(L, rv[1])
            if v[0] == "en":
                return [(iv, ("c", Q(v[1])))]
        raise Undecided("rvalue " + k)

    def rng(self, v, iv):
        """interval of a value"""
        if v[0] == "c":
            return v[1], v[1]
        if v[0] == "x":
            if v[1] == 0:
                return v[2], v[2]
            a, b = (iv.lo, iv.hi) if v[1] > 0 else (iv.hi, iv.lo)
            f = lambda z: z if z in (INF, -INF) and v[1] > 0 else (-z if z in (INF, -INF) else v[1] * z + v[2])
            return f(a), f(b)
        raise Undecided("range")

    def compare(self, iv, op, v, c):
        """v op c, v = a*x+b or trunc(x)+b"""
        if c in (INF, -INF):
            raise Undecided("inf compare")
        if v[0] == "x":
            a, b = v[1], v[2]
            if a == 0:
                return [(iv, ("b", cmpq(op, b, c)))]
            p = (c - b) / a
            if a < 0:
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        else:
            # trunc(x)+b op c  <=> trunc(x) op c-b
            k = c - v[1]
            if op in ("Eq", "Ne"):
                raise Undecided("trunc eq")
            import math
            # trunc(x) < k  <=> x < ceil k (k>0) ; for k<=0: x <= ceil(k)-1
            ck = -((-k) // 1)
            fk = k // 1
            if op == "Lt":
                p, op2 = (ck, "Lt") if ck > 0 else (ck - 1, "Le")
            elif op == "Ge":
                p, op2 = (ck, "Ge") if ck > 0 else (ck - 1, "Gt")
            elif op == "Gt":
                p, op2 = (fk, "Gt") if False else ((fk + 1, "Ge") if fk + 1 > 0 else (fk, "Gt"))
            else:  # Le
                p, op2 = (fk + 1, "Lt") if fk + 1 > 0 else (fk, "Le")
            op = op2
        out = []
        if op in ("Lt", "Ge"):
            tt, ff = iv.cut(p, "<", False), iv.cut(p, ">", True)
            if op == "Ge":
                tt, ff = ff, tt
        elif op in ("Le", "Gt"):
            tt, ff = iv.cut(p, "<", True), iv.cut(p, ">", False)
            if op == "Gt":
                tt, ff = ff, tt
        else:
            mid = iv.cut(p, "<", True).cut(p, ">", True)
            out = []
            if not mid.empty():
                out.append((mid, ("b", op == "Eq")))
            for z in (iv.cut(p, "<", False), iv.cut(p, ">", False)):
                if not z.empty():
                    out.append((z, ("b", op != "Eq")))
            return out
        if not tt.empty():
            out.append((tt, ("b", True)))
        if not ff.empty():
            out.append((ff, ("b", False)))
        return out

    def bin(self, iv, op, a, b, t):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if a[0] == "other" or b[0] == "other":
                return [(iv, ("b", True)), (iv, ("b", False))]
            if a[0] == "c" and b[0] == "c":
                return [(iv, ("b", cmpq(op, a[1], b[1])))]
            if a[0] == "b" and b[0] == "b" and op in ("Eq", "Ne"):
                return [(iv, ("b", (a[1] == b[1]) == (op == "Eq")))]
            if a[0] in ("x", "t") and b[0] == "c":
                return self.compare(iv, op, a, b[1])
            if b[0] in ("x", "t") and a[0] == "c":
                return self.compare(iv, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a[1])
            if a[0] == "x" and b[0] == "x":
                return self.compare(iv, op, ("x", a[1] - b[1], a[2] - b[2]), Q(0))
            raise Undecided("cmp")
        if a[0] == "b" and b[0] == "b":
            return [(iv, ("b", {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1]}[op]))]
        over = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if t[0] in ("int", "uint"):
            r = self.arith(base, a, b)
            lo, hi = trange(t)
            out = []
            l, h = self.rng(r, iv)
            if l >= lo and h <= hi:
                return [(iv, ("s", "tuple", [r, ("b", False)]) if over else r)]
            if r[0] == "c":
                w = ("c", (r[1] - lo) % (hi - lo + 1) + lo)
                return [(iv, ("s", "tuple", [w, ("b", True)]) if over else w)]
            for iv2, ok in self.compare(iv, "Ge", r, lo):
                if not ok[1]:
                    # one wrap
                    w = ("x", r[1], r[2] + (hi - lo + 1))
                    l2, h2 = self.rng(w, iv2)
                    if l2 < lo:
                        raise Undecided("wrap")
                    out.append((iv2, ("s", "tuple", [w, ("b", True)]) if over else w))
                    continue
                for iv3, ok2 in self.compare(iv2, "Le", r, hi):
                    if ok2[1]:
                        out.append((iv3, ("s", "tuple", [r, ("b", False)]) if over else r))
                    else:
                        w = ("x", r[1], r[2] - (hi - lo + 1))
                        l2, h2 = self.rng(w, iv3)
                        if h2 > hi:
                            raise Undecided("wrap")
                        out.append((iv3, ("s", "tuple", [w, ("b", True)]) if over else w))
            return out
        if t[0] == "float" and a[0] == "c" and b[0] == "c":
            r = self.arith(base, a, b)
            return [(iv, ("c", Q(f32(r[1])) if t[1] == 32 else Q(float(r[1]))))]
        if t[0] == "float":
            return [(iv, ("other", f"float {base.lower()}"))]
        raise Undecided("float arithmetic")

    def arith(self, op, a, b):
        if op in ("Add", "Sub"):
            s = 1 if op == "Add" else -1
            if a[0] == "c" and b[0] == "c":
                return ("c", a[1] + s * b[1])
            A = a if a[0] == "x" else ("x", Q(0), a[1]) if a[0] == "c" else None
            B = b if b[0] == "x" else ("x", Q(0), b[1]) if b[0] == "c" else None
            if A and B:
                return ("x", A[1] + s * B[1], A[2] + s * B[2])
        if op == "Mul":
            if a[0] == "c" and b[0] == "c":
                return ("c", a[1] * b[1])
            if a[0] == "x" and b[0] == "c":
                return ("x", a[1] * b[1], a[2] * b[1])
            if b[0] == "x" and a[0] == "c":
                return ("x", b[1] * a[1], b[2] * a[1])
        if a[0] == "c" and b[0] == "c":
            x, y = int(a[1]), int(b[1])
            if op == "Div" and y:
                q = abs(x) // abs(y)
                return ("c", Q(q if (x < 0) == (y < 0) else -q))
            if op == "Rem" and y:
                q = abs(x) % abs(y)
                return ("c", Q(q if x >= 0 else -q))
            if op == "Shl":
                return ("c", Q(x << y))
            if op == "Shr":
                return ("c", Q(x >> y))
            if op == "BitAnd":
                return ("c", Q(x & y))
            if op == "BitOr":
                return ("c", Q(x | y))
            if op == "BitXor":
                return ("c", Q(x ^ y))
        raise Undecided("arith " + op)

    def cast(self, iv, v, fr, to):
        if fr == to or v[0] == "other":
            return [(iv, v)]
        if v[0] == "r" or to[0] in ("ref", "ptr"):
            return [(iv, v)]
        if v[0] == "b" and to[0] in ("int", "uint"):
            return [(iv, ("c", Q(int(v[1]))))]
        if fr[0] in ("int", "uint") and to[0] in ("int", "uint"):
            lo, hi = trange(to)
            w = hi - lo + 1
            if v[0] == "c":
                return [(iv, ("c", (v[1] - lo) % w + lo))]
            if v[0] == "x":
                out = []
                for iv2, ok in self.compare(iv, "Ge", v, lo):
                    if ok[1]:
                        for iv3, ok2 in self.compare(iv2, "Le", v, hi):
                            if ok2[1]:
                                out.append((iv3, v))
                            else:
                                sh = ("x", v[1], v[2] - w)
                                l, h = self.rng(sh, iv3)
                                out.append((iv3, sh if h <= hi else ("wrapped",)))
                    else:
                        sh = ("x", v[1], v[2] + w)
                        l, h = self.rng(sh, iv2)
                        out.append((iv2, sh if l >= lo else ("wrapped",)))
                return out
            if v[0] == "t":
                l, h = self.trange_t(v, iv)
                if l >= lo and h <= hi:
                    return [(iv, v)]
                out = []
                for iv2, ok in self.compare(iv, "Ge", v, lo):
                    for iv3, ok2 in self.compare(iv2, "Le", v, hi):
                        out.append((iv3, v if ok[1] and ok2[1] else ("wrapped",)))
                return out
        if fr[0] in ("int", "uint") and to[0] == "float":
            mant = 1 << (24 if to[1] == 32 else 53)
            if v[0] == "c":
                return [(iv, ("c", Q(f32(v[1])) if to[1] == 32 else Q(float(v[1]))))]
            l, h = self.rng(v, iv)
            if l >= -mant and h <= mant:
                return [(iv, v)]
            raise Undecided("inexact int to float")
        if fr[0] == "float" and to[0] in ("int", "uint"):
            lo, hi = trange(to)
            if v[0] == "c":
                x = v[1]
                if x in (INF, -INF):
                    return [(iv, ("c", Q(hi if x > 0 else lo)))]
                tr = x // 1 if x >= 0 else -((-x) // 1)
                return [(iv, ("c", Q(min(max(tr, lo), hi))))]
            if v[0] == "x" and v[1] == 1 and v[2] == 0:
                out = []
                # saturating
                for iv2, ok in self.compare(iv, "Ge", ("x", Q(1), Q(0)), Q(lo)):
                    if not ok[1]:
                        if lo == 0:
                            out.append((iv2, ("c", Q(0))))
                        else:
                            for iv3, o3 in self.compare(iv2, "Gt", ("x", Q(1), Q(0)), Q(lo - 1)):
                                out.append((iv3, ("t", Q(0)) if o3[1] else ("c", Q(lo))))
                        continue
                    for iv3, ok2 in self.compare(iv2, "Lt", ("x", Q(1), Q(0)), Q(hi + 1)):
                        out.append((iv3, ("t", Q(0)) if ok2[1] else ("c", Q(hi))))
                return out
        if fr[0] == "float" and to[0] == "float":
            if v[0] == "c":
                return [(iv, ("c", Q(f32(v[1])) if to[1] == 32 else v[1]))]
            if to[1] > fr[1]:
                return [(iv, v)]
        raise Undecided(f"cast {fr} {to}")

    def trange_t(self, v, iv):
        def tr(x):
            if x in (INF, -INF):
                return x
            return x // 1 if x >= 0 else -((-x) // 1)
        return tr(iv.lo) + v[1] if iv.lo != -INF else -INF, tr(iv.hi) + v[1] if iv.hi != INF else INF

    def minmax(self, iv, a, b, ismax):
        out = []
        for iv2, c in self.bin(iv, "Ge", a, b, ("bool",)):
            out.append((iv2, a if c[1] == ismax else b))
        return out

    def call(self, fn, env, iv, L, d, args, depth):
        p, rp = d["p"], d.get("rp", d["p"])
        f = self.prog.fns.get(rp)
        rargs = [self.prog.rt(a, env) if isinstance(a, int) else ("const", a) for a in d.get("rargs", d["args"])]
        if f is not None and f.blocks:
            return self.run(f, args, iv, dict(zip(f.generics, rargs)), depth + 1)
        n = p.split("::")[-1]
        m = re.search(r"<impl (\w+)>::", rp) or re.match(r"^<(\w+) as ", rp)
        ty = PRIMS.get(m.group(1)) if m else None
        if ty is None and rargs and rargs[0][0] in ("int", "uint", "float"):
            ty = rargs[0]
        if n in ("max", "min") and len(args) == 2:
            return self.minmax(iv, args[0], args[1], n == "max")
        if n == "clamp" and len(args) == 3:
            out = []
            for iv2, v in self.minmax(iv, args[0], args[1], True):
                out += self.minmax(iv2, v, args[2], False)
            return out
        if n in ("min_value", "max_value") and ty:
            lo, hi = trange(ty)
            return [(iv, ("c", Q(lo if n == "min_value" else hi)))]
        if n in ("into", "from", "as_") and len(args) == 1:
            to = self.prog.rt(d["args"][0], env) if n == "from" else (self.prog.rt(d["args"][1], env) if len(d["args"]) > 1 else None)
            src = (self.prog.rt(d["args"][1], env) if n == "from" and len(d["args"]) > 1 else self.prog.rt(d["args"][0], env))
            if to and src:
                if to[0] == "adt" and args[0][0] == "s":
                    return [(iv, ("s", to[1], [args[0]]))]
                return self.cast(iv, args[0], src, to)
        if n in ("try_from", "try_into") and len(args) == 1:
            ts = [self.prog.rt(a, env) for a in d["args"] if isinstance(a, int)]
            to = ts[0] if n == "try_from" else ts[1]
            lo, hi = trange(to)
            out = []
            for iv2, ok in self.bin(iv, "Ge", args[0], ("c", Q(lo)), ("bool",)):
                for iv3, ok2 in self.bin(iv2, "Le", args[0], ("c", Q(hi)), ("bool",)):
                    out.append((iv3, ("en", 0, [args[0]]) if ok[1] and ok2[1] else ("en", 1, [("s", "err", [])])))
            return out
        if n == "unwrap_or" and args[0][0] == "en":
            okv = 0 if "result" in p else 1
            return [(iv, args[0][2][0] if args[0][1] == okv else args[1])]
        if n in ("saturating_sub", "saturating_add") and ty:
            r = self.arith("Sub" if "sub" in n else "Add", args[0], args[1])
            lo, hi = trange(ty)
            out = []
            for iv2, v in self.minmax(iv, r, ("c", Q(lo)), True):
                out += self.minmax(iv2, v, ("c", Q(hi)), False)
            return out
        if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(args) == 2:
            a, b = [x[1] if x[0] == "r" else x for x in args]
            return self.bin(iv, n.capitalize(), a, b, ("bool",))
        if n in ("clone", "borrow", "deref") and args and args[0][0] == "r":
            return [(iv, args[0][1])]
        if n in ("round", "ceil", "round_ties_even", "abs", "mul_add", "powi", "sqrt", "fract", "rem_euclid") and ty and ty[0] == "float":
            return [(iv, ("other", n))]
        if n == "floor" and args[0][0] == "x" and args[0][1:] == (1, 0):
            return [(iv2, ("t", Q(0)) if c[1] else ("other", "floor")) for iv2, c in self.compare(iv, "Ge", args[0], Q(0))]
        if n == "trunc" and args[0][0] == "x" and args[0][1:] == (1, 0):
            return [(iv, ("t", Q(0)))]
        raise Undecided("call " + rp)


def cmpq(op, a, b):
    return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op]


def trange(t):
    if t[0] == "uint":
        return 0, (1 << t[1]) - 1
    if t[0] == "int":
        return -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1
    raise Undecided("range of " + str(t))


def domain(t):
    if t[0] in ("int", "uint"):
        lo, hi = trange(t)
        return Iv(Q(lo), True, Q(hi), True, True)
    return Iv(-INF, True, INF, True, False)
