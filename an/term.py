"""Symbolic execution of MIR to behaviour trees over hash-consed terms, and comparison of two behaviour trees.

A function becomes a tree: branches on conditions over terms, loop heads (with one term per generalised memory cell), back edges,
and leaves (returned value, final values of &mut arguments, ordered writes through pointers, or a panic). Calls of functions
that are not inlined are uninterpreted functions of the values of their arguments. Two trees are compared by a product
construction: branch conditions of either side split both sides, loops are compared by bisimulation (generalised cells are
paired lazily; equal at entry and after every iteration). Cloning and borrowing are the identity on values.
"""
import re
from ir import prepare, term_succs, Fn
import interp as _interp
import witness

MAXNODES = 6000


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


class T:
    __slots__ = ("k", "a", "id", "sz")
    table = {}

    def __repr__(s):
        return show(s)


def mk(k, *a):
    key = (k,) + tuple(x.id if isinstance(x, T) else ("#", x) for x in a)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id = k, a, len(T.table)
        t.sz = 1 + sum(x.sz for x in a if isinstance(x, T))
        T.table[key] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t).split("::")[-1] if isinstance(t, str) else str(t)
    if d > 7:
        return "…"
    k, a = t.k, t.a
    if k == "int":
        return str(a[0])
    if k == "prm":
        return f"arg{a[0]}"
    if k == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(x, d + 1) for x, c in zip(a[2::2], a[3::2]))
        return f"({s} + {a[1]})" if a[1] else f"({s})"
    if k == "call":
        return f"{short(a[0])}({', '.join(show(x, d + 1) for x in a[1:])})"
    if k == "phi":
        return f"loop{a[0]}.{a[1]}"
    if k == "agg":
        return f"{short(str(a[0]))}{{{', '.join(show(x, d + 1) for x in a[2:])}}}"
    if k == "proj":
        return f"{show(a[0], d + 1)}.{a[2] if a[1] in (0, None) else f'{a[1]}.{a[2]}'}"
    if k == "mut":
        return f"&mut {show(a[0], d + 1)}"
    if k == "out":
        return f"{show(a[0], d + 1)}'{a[1]}"
    return f"{k}({', '.join(show(x, d + 1) for x in a)})"


def short(p):
    return re.sub(r"<.*>::|<.*>", "", p).split("::")[-1] or p


# ---------------------------------------------------------------- terms
def num(v, ty):
    return mk("int", v, ty)


def lin(ty, c, parts):
    """parts: dict term -> coefficient"""
    w = ty[1] if ty[0] in ("int", "uint") else 64
    ps = [(t, k) for t, k in parts.items() if k]
    c = wrap(c, ty)
    if not ps:
        return num(c, ty)
    if len(ps) == 1 and ps[0][1] == 1 and c == 0:
        return ps[0][0]
    ps.sort(key=lambda x: x[0].id)
    return mk("lin", ty, c, *[y for x in ps for y in x])


def wrap(c, ty):
    if ty[0] not in ("int", "uint"):
        return c
    m = 1 << ty[1]
    c %= m
    if ty[0] == "int" and c >= m // 2:
        c -= m
    return c


def parts(t, ty):
    if t.k == "int":
        return t.a[0], {}
    if t.k == "lin":
        return t.a[1], dict(zip(t.a[2::2], t.a[3::2]))
    return 0, {t: 1}


def add(a, b, ty, s=1):
    ca, pa = parts(a, ty)
    cb, pb = parts(b, ty)
    r = dict(pa)
    for t, k in pb.items():
        r[t] = r.get(t, 0) + s * k
    return lin(ty, ca + s * cb, r)


def mul(a, b, ty):
    for x, y in ((a, b), (b, a)):
        if x.k == "int":
            c, p = parts(y, ty)
            return lin(ty, c * x.a[0], {t: k * x.a[0] for t, k in p.items()})
    fs = []
    for x in (a, b):
        fs += list(x.a[1:]) if x.k == "prod" else [x]
    fs.sort(key=lambda t: t.id)
    return mk("prod", ty, *fs)


TRUE, FALSE = mk("bool", True), mk("bool", False)
def is_range(v):
    return v.k == "agg" and str(v.a[0]).split("::")[-1] == "Range" and len(v.a) == 4


UNDEF = mk("undef")
UNIT = mk("agg", "tuple", 0)
NILTR = mk("nil")


def tnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.k == "not":
        return c.a[0]
    return mk("not", c)


def ge0(t, ty):
    """t >= 0 as mathematical integers: differences of values of one type; kept as an (opaque) comparison of two sides"""
    return mk("ge0", ty, t)


def cmp(op, a, b, ty):
    if ty[0] in ("int", "uint", "char"):
        if op == "Lt":
            return tnot(cmp("Ge", a, b, ty))
        if op == "Gt":
            return tnot(cmp("Ge", b, a, ty))
        if op == "Le":
            return cmp("Ge", b, a, ty)
        if op == "Ge":
            if a is b:
                return TRUE
            if a.k == "int" and b.k == "int":
                return TRUE if a.a[0] >= b.a[0] else FALSE
            # a >= n+1  is  a > n ; strict comparison with a constant is made non-strict in one direction
            if a.k == "int":
                # n >= b  <=>  not (b >= n+1)
                if ty[0] == "uint" and a.a[0] == (1 << ty[1]) - 1:
                    return TRUE
                return tnot(mk("ge", ty, b, num(a.a[0] + 1, ty)))
            if b.k == "int" and ty[0] == "uint" and b.a[0] == 0:
                return TRUE
            return mk("ge", ty, a, b)
        if op == "Ne":
            return tnot(cmp("Eq", a, b, ty))
        if op == "Eq":
            if a is b:
                return TRUE
            if a.k == "int" and b.k == "int":
                return FALSE
            if ty[0] == "uint" and b.k == "int" and b.a[0] == 0:
                return tnot(mk("ge", ty, a, num(1, ty)))
            if ty[0] == "uint" and a.k == "int" and a.a[0] == 0:
                return tnot(mk("ge", ty, b, num(1, ty)))
            if a.id > b.id:
                a, b = b, a
            return mk("eq", a, b)
    if op == "Gt":
        return mk("fcmp", "Lt", b, a)
    if op == "Ge":
        return mk("fcmp", "Le", b, a)
    if op == "Ne":
        return tnot(cmp("Eq", a, b, ty))
    if op == "Eq":
        if ty[0] == "bool":
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            if a is FALSE:
                return tnot(b)
            if b is FALSE:
                return tnot(a)
        if a.id > b.id:
            a, b = b, a
        return mk("eq", a, b)
    return mk("fcmp", op, a, b)


def getp(v, e):
    k = v.k
    if e[0] == "f":
        _, var, ix = e
        if k == "agg":
            if ix + 2 < len(v.a):
                return v.a[ix + 2]
            return UNDEF
        if k == "upd":
            e2 = v.a[1]
            if e2 == e:
                return v.a[2]
            if e2[0] == "f":
                return getp(v.a[0], e)
        return mk("proj", v, var, ix)
    if e[0] == "i":
        i = e[1]
        if k == "agg" and v.a[0] == "array" and i.k == "int" and 0 <= i.a[0] < len(v.a) - 2:
            return v.a[2 + i.a[0]]
        if k == "rep":
            return v.a[0]
        if k == "upd" and v.a[1][0] == "i":
            j = v.a[1][1]
            if j is i:
                return v.a[2]
            if j.k == "int" and i.k == "int":
                return getp(v.a[0], e)
        return mk("idx", v, i)
    return mk("sub", v, *e[1:])


def setp(v, path, val):
    if not path:
        return val
    e = path[0]
    if e[0] == "f" and v.k == "agg" and e[2] + 2 < len(v.a):
        a = list(v.a)
        a[e[2] + 2] = setp(a[e[2] + 2], path[1:], val)
        return mk("agg", *a)
    if e[0] == "i" and v.k == "agg" and v.a[0] == "array" and e[1].k == "int" and e[1].a[0] + 2 < len(v.a):
        a = list(v.a)
        a[e[1].a[0] + 2] = setp(a[e[1].a[0] + 2], path[1:], val)
        return mk("agg", *a)
    new = setp(getp(v, e), path[1:], val)
    if v.k == "upd" and v.a[1] == e:
        v = v.a[0]
    return mkupd(v, e, new)


def mkupd(v, e, new):
    key = ("upd", v.id, tuple(x.id if isinstance(x, T) else x for x in e), new.id)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id, t.sz = "upd", (v, e, new), len(T.table), 1 + v.sz + new.sz
        T.table[key] = t
    return t


# ---------------------------------------------------------------- heads of external calls
IDENT = {"clone", "to_owned", "borrow", "borrow_mut", "as_ref", "as_mut", "deref", "deref_mut", "cloned", "copied", "by_ref", "from_ref"}
PAR = {"par_iter": "iter", "par_iter_mut": "iter_mut", "into_par_iter": "into_iter", "par_pixels": "pixels", "par_pixels_mut": "pixels_mut",
       "par_enumerate_pixels": "enumerate_pixels", "par_enumerate_pixels_mut": "enumerate_pixels_mut", "par_chunks": "chunks", "par_chunks_mut": "chunks_mut",
       "par_chunks_exact": "chunks_exact", "par_chunks_exact_mut": "chunks_exact_mut", "from_par_fn": "from_fn", "flat_map_iter": "flat_map", "par_rows": "rows", "par_rows_mut": "rows_mut"}
COMM = {"min", "max", "wrapping_add", "wrapping_mul", "saturating_add", "saturating_mul"}
PANIC = re.compile(r"^(core|std)::(panicking|rt)::|^(core|std)::(option|result)::(unwrap_failed|expect_failed)|panic")


class Node:
    __slots__ = ("k", "a")

    def __init__(s, k, *a):
        s.k, s.a = k, a


class Loop:
    n = 0

    def __init__(s):
        Loop.n += 1
        s.id = Loop.n
        s.init = {}
        s.cells = {}


class Fr:
    __slots__ = ("fn", "id", "env", "ret", "dest", "up", "depth")


class S_:
    __slots__ = ("cells", "known", "fr", "active", "fcount")

    def copy(s):
        r = S_()
        r.cells, r.known, r.fr, r.active, r.fcount = dict(s.cells), dict(s.known), s.fr, dict(s.active), s.fcount
        return r


class Exec:
    """opaque(fn) decides which functions of the crate are not inlined; rename maps heads of opaque calls"""

    copies = {}         # foo -> foo_mut: calls of foo are written as foo_mut on a copy

    def __init__(self, prog, opaque, rename=None, maxnodes=MAXNODES):
        self.prog = prog
        self.ip = _interp.Interp(prog)
        self.opaque = opaque
        self.rename = rename or {}
        self.nodes = 0
        self.max = maxnodes
        self.fns = set()
        self.trees = {}

    # ---- entry
    def tree(self, fn, args=None, env=None):
        """behaviour tree of fn on symbolic arguments; returns (node)"""
        prepare(fn)
        st = S_()
        st.cells, st.known, st.active, st.fcount = {"%tr": NILTR}, {}, {}, 0
        fr = self.frame(fn, env or {}, None, None, None, st)
        st.fr = fr
        outs = []
        for i in range(fn.argc):
            t = self.prog.rt(fn.locals[i + 1][0], env)
            v = args[i] if args is not None else mk("prm", i)
            if t[0] in ("ref", "ptr"):
                c = ("P", i)
                st.cells[c] = v
                if t[1]:
                    outs.append(c)
                v = mk("ref", c, (), bool(t[1]))
            st.cells[(fr.id, i + 1)] = v
        self.outcells = outs
        return self.run(st, 0)

    def clo_tree(self, clo, muts, cps):
        """behaviour tree of a closure value (captures by value) on parameters cps; mutable captures are outputs"""
        fn = self.prog.fns[clo.a[0].split("@")[0]]
        prepare(fn)
        st = S_()
        st.cells, st.known, st.active, st.fcount = {"%tr": NILTR}, {}, {}, 0
        outs = []
        caps = []
        shared = set()
        for _, pl in fn.d.get("dbg", ()):
            if pl and pl[0] == 1:
                q = [e for e in pl[1:] if e[0] != "*"]
                if q and q[0][0] == "f" and self.prog.rt(q[0][2], None)[:2] == ("ref", False):
                    shared.add(q[0][1])
        for i, c in enumerate(clo.a[1:]):
            if c.k == "mut":
                cell = ("C", i)
                st.cells[cell] = c.a[0]
                outs.append(cell)
                caps.append(mk("ref", cell, (), True))
            elif i in shared and c.k != "ref":
                # captured by shared reference: the body cannot change it
                st.cells[("CS", i)] = c
                caps.append(mk("ref", ("CS", i), (), False))
            else:
                caps.append(c)
        env = self.envs.get(clo.a[0], {}) if hasattr(self, "envs") else {}
        v = mk("agg", "clo:" + clo.a[0], 0, *caps)
        fr = self.frame(fn, env, None, None, None, st)
        st.fr = fr
        t1 = self.prog.rt(fn.locals[1][0], None)
        if t1[0] == "ref":
            st.cells[("CE",)] = v
            v = mk("ref", ("CE",), (), bool(t1[1]))
        st.cells[(fr.id, 1)] = v
        n = fn.argc
        for i in range(1, n):
            p = cps[i - 1]
            t = self.prog.rt(fn.locals[i + 1][0], env)
            if t[0] == "ref":
                c = ("CP", i)
                st.cells[c] = p
                if t[1]:
                    outs.append(c)
                p = mk("ref", c, (), bool(t[1]))
            elif t[0] == "tuple" and any(x[0] == "ref" for x in t[1]):
                xs = []
                for j, x in enumerate(t[1]):
                    v = mk("proj", p, 0, j)
                    if x[0] == "ref":
                        c = ("CP", i, j)
                        st.cells[c] = v
                        if x[1]:
                            outs.append(c)
                        v = mk("ref", c, (), bool(x[1]))
                    xs.append(v)
                p = mk("agg", "tuple", 0, *xs)
            st.cells[(fr.id, i + 1)] = p
        save = getattr(self, "outcells", None)
        self.outcells = outs
        try:
            return self.run(st, 0)
        finally:
            self.outcells = save

    def cloname(self, path, env):
        """the name of a closure; with the type arguments where those are known, as they select what the body calls"""
        self.envs = getattr(self, "envs", {})
        conc = sorted(f"{k}={v}" for k, v in (env or {}).items() if isinstance(v, tuple) and v[0] not in ("param", "closure", "region", "const"))
        if conc:
            path += "@" + ",".join(conc)
        self.envs[path] = env
        return path

    def frame(self, fn, env, ret, dest, up, st):
        f = Fr()
        f.fn, f.env, f.ret, f.dest, f.up = fn, env, ret, dest, up
        f.depth = up.depth + 1 if up else 0
        st.fcount += 1
        f.id = (st.fcount, fn.p)
        self.fns.add(fn.p)
        return f

    def count(self):
        self.nodes += 1
        if self.nodes > self.max:
            raise TooBig()

    # ---- memory
    def load(self, st, c, path):
        v = st.cells.get(c)
        if v is None:
            v = c[1] if c[0] == "*" else UNDEF
        for e in path:
            v = getp(v, e)
        return v

    def store(self, st, c, path, val):
        if c[0] == "*":
            st.cells["%tr"] = mk("tr", st.cells["%tr"], c[1], mk("path", *[x for e in path for x in e]), val)
        v = st.cells.get(c)
        if v is None:
            v = c[1] if c[0] == "*" else UNDEF
        st.cells[c] = setp(v, path, val)

    def place(self, st, fr, pl):
        c, path = (fr.id, pl[0]), ()
        var = 0
        for e in pl[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, c, path)
                if v.k == "ref":
                    c, path = v.a[0], v.a[1]
                else:
                    c, path = ("*", v), ()
                var = 0
            elif k == "f":
                path += (("f", var, e[1]),)
                var = 0
            elif k == "i":
                path += (("i", self.load(st, (fr.id, e[1]), ())),)
            elif k == "c":
                path += (("i", num(e[1], ("uint", 64, "usize"))),) if not e[3] else (("e", e[1]),)
            elif k == "d":
                var = e[1]
            elif k == "s":
                path += (("s", e[1], e[2], bool(e[3])),)
            else:
                path += (("o", k),)
        return c, path

    def conv(self, st, v, muts):
        """value of an argument: shared references by value; mutable ones are recorded as outputs"""
        if v.k == "ref":
            c, p, m = v.a
            x = self.conv(st, self.load(st, c, p), [])
            if m:
                muts.append((c, p))
                return mk("mut", x)
            return x
        if v.k == "agg" and any(x.k in ("ref", "agg") for x in v.a[2:]):
            xs = [self.conv(st, x, muts) for x in v.a[2:]]
            if isinstance(v.a[0], str) and v.a[0].startswith("clo:"):
                return mk("clo", v.a[0][4:], *xs)
            return mk("agg", v.a[0], v.a[1], *xs)
        if v.k == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("clo:"):
            return mk("clo", v.a[0][4:], *v.a[2:])
        return v

    # ---- operands
    def operand(self, st, fr, o):
        if "cp" in o or "mv" in o:
            c, p = self.place(st, fr, o.get("cp") or o.get("mv"))
            return self.load(st, c, p)
        k = o.get("c")
        if k == "int":
            return num(int(o["v"]), self.prog.rt(o["t"], None))
        if k == "bool":
            return TRUE if o["v"] == "1" else FALSE
        if k == "char":
            return num(int(o["v"]), ("char",))
        if k == "float":
            return mk("float", str(o["v"]), self.prog.rt(o["t"], None))
        if k == "fn":
            return self.fnval(o, fr.env)
        rt = self.prog.rt(o["t"], fr.env) if "t" in o else ("other", "?")
        if rt == ("tuple", ()):
            return UNIT
        if rt[0] == "fndef":
            return self.fnval(o, fr.env)
        if rt[0] == "closure":
            return mk("agg", "clo:" + self.cloname(rt[1], fr.env), 0)
        if "promoted" in o:
            fn = self.prog.fns.get(f"{o['name']}::promoted[{o['promoted']}]")
            if fn is not None and fn.blocks and len(fn.blocks) < 40:
                r = self.const_fn(fn, fr.env)
                if r is not None:
                    return r
        if o.get("name") and k not in ("static",):
            fn = self.prog.fns.get(o["name"])
            if fn is not None and fn.blocks and len(fn.blocks) < 40 and not any(len(b["st"]) > 60 for b in fn.blocks):
                r = self.const_fn(fn, fr.env)
                if r is not None:
                    return r
            return mk("const", self.subst(o["name"] if not o.get("d") else o["d"], fr.env), tystr(rt))
        if k == "static":
            return mk("static", o["p"])
        if "str" in o:
            return mk("str", o["str"])
        return mk("const", self.subst(o.get("d", "?"), fr.env), tystr(rt))

    def subst(self, s, env):
        if not env:
            return s
        return re.sub(r"\b[A-Z]\w*\b", lambda m: tystr(env[m.group(0)]) if m.group(0) in env else m.group(0), s)

    def const_fn(self, fn, env):
        if not hasattr(self, "consts"):
            self.consts = {}
        if fn.p in self.consts:
            return self.consts[fn.p]
        self.consts[fn.p] = None
        save = getattr(self, "outcells", None)
        n = self.nodes
        self.outcells = []
        opq = self.opaque
        self.opaque = lambda f: True
        try:
            prepare(fn)
            st = S_()
            st.cells, st.known, st.active, st.fcount = {"%tr": NILTR}, {}, {}, 0
            st.fr = self.frame(fn, env, None, None, None, st)
            nd = self.run(st, 0)
            if nd.k == "leaf":
                self.consts[fn.p] = nd.a[0]
        except (TooBig, Unsupported):
            pass
        finally:
            self.outcells = save
            self.opaque = opq
            self.nodes = n
        return self.consts[fn.p]

    def fnval(self, o, env):
        self.fnd = getattr(self, "fnd", {})
        t = mk("fn", o.get("rp", o["p"]), self.subst(",".join(tystr(self.prog.rt(a, env)) if isinstance(a, int) else str(a) for a in o.get("rargs", o.get("args", []))), env))
        self.fnd[t] = (o, env)
        return t

    # ---- execution
    def run(self, st, b):
        while True:
            fr = st.fr
            key = (fr.id, b)
            if key in st.active:
                self.count()
                L = st.active[key]
                return Node("back", L, {c: self.final(st, st.cells.get(c, UNDEF)) for c in L.init})
            fn = fr.fn
            # leaving loops
            for k in [k for k in st.active if k[0] == fr.id and b not in fn.loops[k[1]]]:
                del st.active[k]
            if b in fn.loops:
                self.count()
                L = self.loop_head(st, fr, b)
                st.active[key] = L
                r = self.block(st, fr, b)
                sub = r if isinstance(r, Node) else self.run(st, r)
                return Node("loop", L, sub)
            r = self.block(st, fr, b)
            if isinstance(r, Node):
                return r
            b = r

    def final(self, st, v):
        return self.conv(st, v, [])

    def loop_head(self, st, fr, b):
        L = Loop()
        body = fr.fn.loops[b]
        mod = set()
        for x in body:
            blk = fr.fn.blocks[x]
            for s in blk["st"]:
                if s[0] in ("=", "sd") and not (len(s[1]) > 1 and s[1][1][0] == "*"):
                    mod.add((fr.id, s[1][0]))
                if s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][1]:
                    # borrowed mutably inside of the loop
                    pl = s[2][2]
                    c = (fr.id, pl[0])
                    if not any(e[0] == "*" for e in pl[1:]):
                        mod.add(c)
                    else:
                        v = st.cells.get(c, UNDEF)
                        for e in pl[1:]:
                            if e[0] == "*":
                                if v.k != "ref":
                                    break
                                c = v.a[0]
                                mod.add(c)
                                v = self.load(st, v.a[0], v.a[1])
                            elif e[0] == "f":
                                v = getp(v, ("f", 0, e[1]))
                            else:
                                break
            t = blk["t"]
            if t[0] == "call" and not (len(t[3]) > 1 and t[3][1][0] == "*"):
                mod.add((fr.id, t[3][0]))
        seen = set()

        def refs(v, n=0):
            if v.k == "ref":
                if v.a[2]:
                    mod.add(v.a[0])
                if v.a[0] in st.cells and (v.a[0], v.a[2]) not in seen:
                    seen.add((v.a[0], v.a[2]))
                    refs(st.cells[v.a[0]])
            elif v.k == "agg" and n < 6:
                for x in v.a[2:]:
                    refs(x, n + 1)
        for v in list(st.cells.values()):
            refs(v)
        mod.add("%tr")
        for c in list(st.cells):
            if c[0] == "*":
                mod.add(c)
        for c in sorted(mod, key=str):
            v = st.cells.get(c, UNDEF)
            if c not in st.cells and c[0] not in ("*",) and c != "%tr":
                # first assigned inside of the loop
                L.init[c] = UNDEF
                continue
            L.init[c] = self.final(st, v)
            L.cells[c] = v
            st.cells[c] = self.gener(L, c, v, ())
        return L

    def gener(self, L, c, v, path):
        if v.k in ("ref", "fn"):
            return v
        if v.k == "agg" and is_range(v):
            # only the start of a range moves
            return mk("agg", v.a[0], v.a[1], mk("phi", L.id, (c, path + (0,)), L), *v.a[3:])
        if v.k == "agg" and (any(x.k in ("ref", "agg") for x in v.a[2:]) or str(v.a[0]).startswith("clo:") or v.a[0] in ("tuple",)):
            return mk("agg", v.a[0], v.a[1], *[self.gener(L, c, x, path + (i,)) for i, x in enumerate(v.a[2:])])
        return mk("phi", L.id, (c, path), L)

    def block(self, st, fr, b):
        """executes a block; returns the next block or a node"""
        blk = fr.fn.blocks[b]
        for s in blk["st"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], s[1])
                c, p = self.place(st, fr, s[1])
                self.store(st, c, p, v)
            elif s[0] == "sd":
                c, p = self.place(st, fr, s[1])
                v = self.load(st, c, p)
                t = self.ip.place_ty(_F(fr), s[1])
                self.store(st, c, p, mk("agg", t[1] if t[0] == "adt" else "?", s[2], *(v.a[2:] if v.k == "agg" else ())))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return t[1]
        if k == "drop":
            return t[2]
        if k == "assert":
            return t[-1]
        if k == "ret":
            v = self.load(st, (fr.id, 0), ())
            if fr.up is None:
                self.count()
                rmuts = []
                return Node("leaf", self.conv(st, v, rmuts), {c: self.final(st, st.cells.get(c, UNDEF)) for c in self.outcells}, st.cells["%tr"])
            st.fr = fr.up
            for kk in [kk for kk in st.active if kk[0] == fr.id]:
                del st.active[kk]
            c, p = self.place(st, fr.up, fr.dest)
            self.store(st, c, p, v)
            if fr.ret is None:
                self.count()
                return Node("panic")
            return fr.ret
        if k in ("unreach", "resume", "abort", "otherterm"):
            self.count()
            return Node("unreach")
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(st, fr, t)
        raise Unsupported(k)

    def cond(self, st, c):
        """known truth value of a condition"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.k == "not":
            r = self.cond(st, c.a[0])
            return None if r is None else not r
        return st.known.get(c)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        rt = self.prog.rt(t[2], fr.env) if isinstance(t[2], int) else None
        if rt == ("bool",) or v.k in ("bool", "not", "ge", "eq", "fcmp"):
            zero = one = None
            for val, tg in t[3]:
                if val == "0":
                    zero = tg
                else:
                    one = tg
            zero = t[4] if zero is None else zero
            one = t[4] if one is None else one
            neg = v.k == "not"
            c = v.a[0] if neg else v
            r = self.cond(st, v)
            if r is not None:
                return one if r else zero
            if neg:
                zero, one = one, zero
            self.count()
            s0, s1 = st.copy(), st
            s0.known[c] = False
            s1.known[c] = True
            return Node("br", c, self.run(s1, one), self.run(s0, zero))
        if v.k == "int":
            for val, tg in t[3]:
                if int(val) == v.a[0] or wrap(int(val), v.a[1]) == v.a[0]:
                    return tg
            return t[4]
        kn = st.known.get(v)
        if isinstance(kn, str):
            for val, tg in t[3]:
                if val == kn:
                    return tg
            return t[4]
        self.count()
        ch = {}
        excl = st.known.get(("not", v), frozenset())
        for val, tg in t[3]:
            if val in excl:
                continue
            s = st.copy()
            s.known[v] = val
            ch[val] = self.run(s, tg)
        vals = frozenset(val for val, _ in t[3]) | excl
        d = None
        if not (fr.fn.blocks[t[4]]["t"][0] == "unreach"):
            st.known[("not", v)] = vals
            d = self.run(st, t[4])
        return Node("sw", v, ch, d)

    def rvalue(self, st, fr, rv, dst):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "raw"):
            c, p = self.place(st, fr, rv[2])
            if c[0] == "*" and not p and c not in st.cells:
                return c[1]         # reborrow of an opaque pointer
            if c[0] == "*":
                # reference into the pointee of an opaque pointer
                return mk("ref", c, p, bool(rv[1]))
            return mk("ref", c, p, bool(rv[1]))
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(rv[1], a, b, self.prog.rt(rv[4], fr.env))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            ty = self.prog.rt(rv[3], fr.env)
            if rv[1] == "Not" and ty == ("bool",):
                return tnot(a)
            if rv[1] == "Neg" and ty[0] == "int":
                return add(num(0, ty), a, ty, -1)
            if a.k == "ref":
                a = self.conv(st, a, [])
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            fr_, to = self.prog.rt(rv[3], fr.env), self.prog.rt(rv[4], fr.env)
            if a.k == "ref" or fr_[0] in ("ref", "fndef", "closure") or to[0] in ("ref", "ptr"):
                return a        # unsizing, pointer casts
            return cast(a, fr_, to)
        if k == "discr":
            c, p = self.place(st, fr, rv[1])
            v = self.load(st, c, p)
            if v.k == "agg":
                ty = v.a[0]
                return num(self.ip.discr(str(ty), v.a[1]), ("int", 64, "isize"))
            return mk("discr", v)
        if k == "agg":
            ak = rv[1]
            vs = [self.operand(st, fr, o) for o in rv[2]]
            if ak[0] == "tuple":
                return mk("agg", "tuple", 0, *vs)
            if ak[0] == "array":
                return mk("agg", "array", 0, *vs)
            if ak[0] == "closure":
                return mk("agg", "clo:" + self.cloname(ak[1], fr.env), 0, *vs)
            if ak[0] == "adt":
                return mk("agg", ak[1], ak[2], *vs)
            return mk("agg", str(ak), 0, *vs)
        if k == "repeat":
            return mk("rep", self.operand(st, fr, rv[1]), rv[2] if not isinstance(rv[2], (list, dict)) else str(rv[2]))
        if k == "len":
            c, p = self.place(st, fr, rv[1])
            return mk("call", "len", self.conv(st, self.load(st, c, p), []))
        return mk("rv", k, str(rv[1:])[:200])

    def binop(self, op, a, b, ty):
        if op.endswith("WithOverflow"):
            return mk("agg", "tuple", 0, self.binop(op[:-12], a, b, ty), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return cmp(op, a, b, ty)
        if ty[0] in ("int", "uint"):
            if op == "Add":
                return add(a, b, ty)
            if op == "Sub":
                return add(a, b, ty, -1)
            if op == "Mul":
                return mul(a, b, ty)
            if op == "Div" and a.k == b.k == "int" and b.a[0]:
                q = abs(a.a[0]) // abs(b.a[0])
                return num(q if (a.a[0] < 0) == (b.a[0] < 0) else -q, ty)
            if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
                a, b = b, a
            return mk("bin", op, ty, a, b)
        if ty == ("bool",):
            if op == "BitAnd":
                if a is TRUE: return b
                if b is TRUE: return a
                if a is FALSE or b is FALSE: return FALSE
            if op == "BitOr":
                if a is FALSE: return b
                if b is FALSE: return a
                if a is TRUE or b is TRUE: return TRUE
            if op == "BitXor":
                if a is TRUE: return tnot(b)
                if b is TRUE: return tnot(a)
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.id > b.id:
            a, b = b, a
        return mk("bin", op, ty, a, b)

    # ---- calls
    def call(self, st, fr, t):
        d = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if "c" in d and (d.get("c") == "fn" or "p" in d):
            fd, env = d, fr.env
        else:
            f = self.operand(st, fr, d)
            if f.k == "fn":
                fd, env = self.fnd[f]
            else:
                return self.opaque_call(st, fr, t, "apply", [f] + args)
        return self.call_fd(st, fr, t, fd, env, args)

    def call_fd(self, st, fr, t, d, env, args):
        prog = self.prog
        p = d["p"]
        rp = d.get("rp", p)
        rargs = [prog.rt(a, env) if isinstance(a, int) else ("const", a) for a in d.get("rargs", d.get("args", []))]
        name = p.split("::")[-1]
        if t[4] is None and (PANIC.search(p) or d.get("krate") in ("core", "std", "alloc")):
            self.count()
            return Node("panic")
        # calls of closures and function values
        if name in ("call", "call_mut", "call_once") and ("ops::Fn" in p or "ops::function" in p):
            f = args[0]
            fv, cell = f, None
            while fv.k == "ref":
                cell = fv
                fv = self.load(st, fv.a[0], fv.a[1])
            tup = args[1]
            xs = list(tup.a[2:]) if tup.k == "agg" else None
            if fv.k == "agg" and str(fv.a[0]).startswith("clo:") and xs is not None:
                return self.enter_clo(st, fr, t, fv, cell, xs)
            if fv.k == "fn" and xs is not None:
                o, e = self.fnd[fv]
                return self.call_fd(st, fr, t, o, e, xs)
            return self.opaque_call(st, fr, t, "apply", [f] + (xs if xs is not None else [tup]))
        fn = prog.fns.get(rp)
        genv = dict(zip(fn.generics, rargs)) if fn is not None else None
        if "trait" in d and (fn is None or not fn.blocks or ("rp" not in d and fn.d.get("in_trait"))):
            fi = self.ip.find_impl(None, d, rargs, args)
            if fi is None and args and rargs and rargs[0][0] in ("alias", "param", "other"):
                # the type of the receiver is known from its value only
                v = args[0]
                while v.k == "ref":
                    v = self.load(st, v.a[0], v.a[1])
                c = [x for x in prog.impls.get((d["trait"], name), ()) if v.k == "agg" and prog.rt(x.d["self_ty"], None)[:2] == ("adt", v.a[0])]
                if len(c) == 1 and not c[0].generics:
                    fi = c[0], {}
            if fi is not None:
                fn, genv = fi
        if fn is not None and fn.blocks and not self.is_opaque(fn, fr):
            return self.enter(st, fr, t, fn, genv, args)
        r = self.model(st, fr, t, d, p, rp, fn.p if fn is not None else rp, name, rargs, args, env)
        if r is not None:
            return r
        head = fn.p if fn is not None else head_of(d, rp, name)
        extra = ()
        if fn is None and name in ("from", "into", "try_from", "try_into", "parse", "sum", "product", "default", "zero", "one", "max_value", "min_value", "cast", "from_f32", "from_f64"):
            extra = (mk("ty", ",".join(tystr(a) for a in rargs)),)
        elif fn is not None and fn.d.get("in_trait") and rargs and rargs[0][0] == "adt":
            # a provided method of a trait of the crate: the implementing type selects the methods it calls
            extra = (mk("selfty", rargs[0][1]),)
        return self.opaque_call(st, fr, t, self.rename.get(head, head), list(extra) + args)

    def is_opaque(self, fn, fr):
        n = 0
        f = fr
        while f is not None:
            if f.fn.p == fn.p:
                return True
            n += 1
            f = f.up
        return n > 14 or self.opaque(fn)

    def enter(self, st, fr, t, fn, env, args):
        prepare(fn)
        nf = self.frame(fn, env or {}, t[4], t[3], fr, st)
        st.fr = nf
        for i, a in enumerate(args):
            st.cells[(nf.id, i + 1)] = a
        return 0

    def enter_clo(self, st, fr, t, clo, cell, xs):
        fn = self.prog.fns.get(clo.a[0][4:].split("@")[0])
        if fn is None:
            raise Unsupported("closure without body")
        prepare(fn)
        env = getattr(self, "envs", {}).get(clo.a[0][4:], fr.env)
        nf = self.frame(fn, env, t[4], t[3], fr, st)
        st.fr = nf
        t1 = self.prog.rt(fn.locals[1][0], None)
        if t1[0] == "ref":
            if cell is None:
                c = ("K", nf.id)
                st.cells[c] = clo
                cell = mk("ref", c, (), bool(t1[1]))
            st.cells[(nf.id, 1)] = cell
        else:
            st.cells[(nf.id, 1)] = clo
        for i, x in enumerate(xs):
            st.cells[(nf.id, i + 2)] = x
        return 0

    def ret(self, st, fr, t, v):
        if t[4] is None:
            self.count()
            return Node("panic")
        c, p = self.place(st, fr, t[3])
        self.store(st, c, p, v)
        return t[4]

    def model(self, st, fr, t, d, p, rp, fp, name, rargs, args, env):
        local = d.get("local") or d.get("krate") == "imageproc"
        if local:
            return None
        name = PAR.get(name, name)
        if name in IDENT and len(args) == 1:
            a = args[0]
            if name in ("clone", "to_owned", "cloned", "copied"):
                if name in ("cloned", "copied") and not (rp.startswith("core::option") or rp.startswith("std::option")):
                    a = self.conv(st, a, [])
                    return self.ret(st, fr, t, a)
                return self.ret(st, fr, t, self.conv(st, a, []))
            if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref"):
                return self.ret(st, fr, t, a)
        if name == "into_iter" and len(args) == 1 and args[0].k in ("agg", "phi") and "Range" in str(args[0].a[0]):
            return self.ret(st, fr, t, args[0])
        if name == "dimensions" and len(args) == 1 and ("ImageBuffer" in rp or "GenericImage" in p):
            x = self.conv(st, args[0], [])
            return self.ret(st, fr, t, mk("agg", "tuple", 0, mk("call", "image::width", x), mk("call", "image::height", x)))
        if name == "copy_from" and len(args) == 4 and "GenericImage" in p and args[0].k == "ref":
            dst = self.load(st, args[0].a[0], args[0].a[1])
            src = self.conv(st, args[1], [])
            if dst.k == "call" and dst.a[0] == "image::new" and dst.a[-2:] == (mk("call", "image::width", src), mk("call", "image::height", src)) \
                    and all(x.k == "int" and x.a[0] == 0 for x in args[2:]):
                # an image of the same size filled from src is a copy of src
                self.store(st, args[0].a[0], args[0].a[1], src)
                return self.ret(st, fr, t, mk("agg", "core::result::Result", 0, UNIT))
        if name == "clone_from" and len(args) == 2 and args[0].k == "ref" and "Clone" in p:
            self.store(st, args[0].a[0], args[0].a[1], self.conv(st, args[1], []))
            return self.ret(st, fr, t, UNIT)
        if name == "clamp" and len(args) == 3 and rargs and rargs[0][0] in ("int", "uint"):
            return self.ret(st, fr, t, commute("cmp::min", args[2], commute("cmp::max", args[1], args[0])))
        if name in ("unwrap", "expect") and args and args[0].k == "agg" and len(args[0].a) == 3 and (args[0].a[0], args[0].a[1]) in (("core::result::Result", 0), ("core::option::Option", 1)):
            return self.ret(st, fr, t, args[0].a[2])
        if name in ("get_unchecked", "get_unchecked_mut") and len(args) == 2 and args[0].k == "ref" and args[1].k != "agg" and "slice" in p:
            c, q, m = args[0].a
            return self.ret(st, fr, t, mk("ref", c, q + (("i", args[1]),), m))
        if name == "ne" and len(args) == 2 and "PartialEq" in p:
            return self.ret(st, fr, t, tnot(mk("call", head_of(d, rp, name)[:-2] + "eq", self.conv(st, args[0], []), self.conv(st, args[1], []))))
        if name in ("black_box", "identity", "must_use", "likely") and len(args) == 1:
            return self.ret(st, fr, t, args[0])
        if name in ("from", "into") and len(args) == 1 and len(rargs) < 2 and "trait" in d and len(d.get("args", ())) == 2:
            rargs = [self.prog.rt(a, env) if isinstance(a, int) else ("const", a) for a in d["args"]]
        if name in ("from", "into") and len(args) == 1 and len(rargs) >= 2 and rargs[0] == rargs[1]:
            return self.ret(st, fr, t, args[0])
        if name in ("from", "into") and len(args) == 1 and len(rargs) >= 2:
            src, dst = (rargs[1], rargs[0]) if name == "from" else (rargs[0], rargs[1])
            if src[0] in ("int", "uint", "float") and dst[0] in ("int", "uint", "float"):
                return self.ret(st, fr, t, cast(args[0], src, dst))
        if name in ("index", "index_mut") and len(args) == 2 and name == "index":
            base = args[0]
            while base.k == "ref":
                base = self.load(st, base.a[0], base.a[1])
            r = self.gen_at(st, fr, base, args[1])
            if r is not None:
                clo, x = r
                # value of a collected map at an index
                tt = list(t)
                return self.enter_clo(st, fr, tt, clo, None, [x]) if not isinstance(clo, tuple) else None
        if name == "collect" and len(args) == 1:
            a = args[0]
            # range(0..n).map(f).collect()
            if a.k == "call" and a.a[0] == "iter::map" and len(a.a) == 3:
                rg, f = a.a[1], a.a[2]
                if rg.k == "agg" and str(rg.a[0]).split("::")[-1] == "Range" and rg.a[2].k == "int" and rg.a[2].a[0] == 0 and f.k == "clo" and not any(c.k == "mut" for c in f.a[1:]):
                    return self.ret(st, fr, t, mk("gen", rg.a[3], f, rg.a[2].a[1]))
        if name in ("new", "with_capacity") and rp.startswith(("alloc::vec::Vec", "std::vec::Vec")):
            return self.ret(st, fr, t, mk("call", "vec::empty"))
        return None

    def gen_at(self, st, fr, base, ix):
        if base.k != "gen":
            return None
        n, f, ty = base.a
        x = cast(ix, ("uint", 64, "usize"), ty)
        return mk("agg", "clo:" + f.a[0], 0, *f.a[1:]), x

    def opaque_call(self, st, fr, t, head, args):
        muts = []
        xs = [self.conv(st, a, muts) for a in args]
        if head in self.copies and xs:
            # foo(img, ..) is foo_mut(&mut copy of img, ..)
            v = mk("out", mk("call", self.copies[head], mk("mut", xs[0]), *xs[1:]), 0)
            for cell, path in muts:
                raise Unsupported("copying variant with &mut argument")
            return self.ret(st, fr, t, v)
        if head in COMMHEAD and len(xs) == 2 and xs[0].id > xs[1].id:
            xs.reverse()
        if len(xs) == 2 and xs[1].k == "str" and head.endswith("::expect"):
            # the message of a panic is not part of the behaviour
            xs.pop()
            head = head[:-6] + "unwrap"
        c = mk("call", head, *xs)
        for i, (cell, path) in enumerate(muts):
            self.store(st, cell, path, mk("out", c, i))
        if t[4] is not None and self.ip.place_ty(_F(fr), t[3]) == ("tuple", ()):
            if not muts or head.startswith("iter::"):
                st.cells["%tr"] = mk("tr", st.cells["%tr"], c)
            c = UNIT
        return self.ret(st, fr, t, c)


COMMHEAD = {"cmp::min", "cmp::max"}


def commute(head, a, b):
    return mk("call", head, *sorted((a, b), key=lambda t: t.id))


# the access without a check is the access, wherever it is defined (P01 decides that)
CHECKED = {"unsafe_get_pixel": "get_pixel", "unsafe_put_pixel": "put_pixel"}


def head_of(d, rp, name):
    name = PAR.get(name, name)
    name = CHECKED.get(name, name)
    if "ParallelSlice" in d["p"]:
        return "slice::" + name
    if rp.startswith("rayon::") or "iter::" in d["p"] or "::iter" in rp or d["p"].startswith("itertools::"):
        return "iter::" + name
    if "ImageBuffer" in rp or "GenericImage" in d["p"]:
        return "image::" + name
    q = re.sub(r"<.*?>", "", d["p"]).split("::")
    if name in ("min", "max") and ("cmp" in q):
        return "cmp::" + name
    if d["p"].startswith("core::slice") or d["p"].startswith("alloc::slice") or "slice::" in d["p"]:
        return "slice::" + name
    return "::".join(q[-2:]) if len(q) > 1 else name


def cast(a, src, to):
    if src == to:
        return a
    if a.k == "int" and to[0] in ("int", "uint"):
        return num(wrap(a.a[0], to), to)
    if src[0] in ("int", "uint") and to[0] in ("int", "uint"):
        # widening and narrowing back
        if a.k == "cast" and a.a[0] == to and a.a[1][0] in ("int", "uint") and fits(to, src):
            return a.a[2]
        if a.k == "cast" and a.a[1] == src and a.a[0][0] in ("int", "uint") and fits(a.a[0], src):
            return cast(a.a[2], a.a[0], to)
    return mk("cast", src, to, a)


def fits(s, t):
    """every value of s is a value of t"""
    if s[0] == t[0]:
        return s[1] <= t[1]
    return s[0] == "uint" and t[0] == "int" and s[1] < t[1]


def tystr(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] in ("int", "uint"):
        return t[2]
    if t[0] == "float":
        return f"f{t[1]}"
    if t[0] == "adt":
        return t[1].split("::")[-1] + ("<" + ",".join(tystr(x) for x in t[2]) + ">" if t[2] else "")
    if t[0] == "param":
        return t[1]
    if t[0] == "closure":
        return "closure"
    return t[0] + "(" + ",".join(tystr(x) for x in t[1:]) + ")"


class _F:
    def __init__(s, fr): s.fn, s.env = fr.fn, fr.env


# ---------------------------------------------------------------- comparison
class Differ(Exception):
    """a, b: what differs; definite: the difference is between interpreted things in corresponding positions"""

    def __init__(self, a, b, definite, what):
        self.a, self.b, self.definite, self.what = a, b, definite, what
        self.levels = []        # the enclosing terms, from the inside out


class Compare:
    extra_panics = False    # the second side may panic where the first does not

    def __init__(self, ex1, ex2, rename=None, budget=60000):
        self.ex = (ex1, ex2)
        self.pair = {}          # loop id 1 -> loop id 2
        self.rel = {}           # phi 1 -> phi 2
        self.backs = {}         # loop id 1 -> [(cells1, cells2)]
        self.loops = {}
        self.memo = {}
        self.budget = budget
        self.ncmp = 0
        self.unm = [0, 0]
        self.rename = rename or {}
        self.closed = {}

    def tick(self):
        self.ncmp += 1
        if self.ncmp > self.budget:
            raise TooBig()

    # ---- terms
    def eq(self, a, b):
        """raises Differ"""
        if a is b and not hasphi(a):
            return
        k = (a.id, b.id)
        if k in self.memo:
            return
        self.tick()
        try:
            self.eq1(a, b)
        except Differ as e:
            if isinstance(a, T) and isinstance(b, T) and len(e.levels) < 12:
                e.levels.append((a, b))
            if e.definite and isinstance(a, T) and isinstance(b, T) and not hasphi(a) and not hasphi(b) and witness.agree(a, b):
                f = Differ(e.a, e.b, False, "written differently: " + e.what)
                f.levels = e.levels
                raise f
            raise
        self.memo[k] = True

    def settle(self, e, known):
        """whether the difference is definite, from values that tell the enclosing terms apart (or never do)"""
        d = e.definite
        for a, b in e.levels:
            j = witness.judge(a, b, self, known)
            if j is not None:
                d = j == "distinct"
        return d

    def leafsame(self, a, b):
        """equal without new assumptions about variables of loops"""
        snap = (dict(self.rel), {k: list(v) for k, v in self.backs.items()}, dict(self.memo))
        try:
            self.eq(a, b)
            # new ones only about what is iterated over or indexed
            t = a
            while t.k == "proj":
                t = t.a[0]
            if len(self.rel) == len(snap[0]) or t.k != "phi":
                return True
        except Differ:
            pass
        self.rel, self.backs, self.memo = snap
        return False

    def same(self, a, b):
        snap = (dict(self.rel), {k: list(v) for k, v in self.backs.items()}, dict(self.memo))
        try:
            self.eq(a, b)
            return True
        except Differ:
            self.rel, self.backs, self.memo = snap
            return False

    def eq1(self, a, b):
        if a.k == "phi" and b.k == "phi":
            return self.phi(a, b)
        if a.k != b.k:
            raise Differ(a, b, definite(a, b), "value")
        if a.k == "phi":
            raise Differ(a, b, False, "value")
        if a.k == "selfty":
            if a.a[0] != b.a[0]:
                raise Differ(a, b, True, "implementing type")
            return
        if a.k == "lin":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
                raise Differ(a, b, True, "arithmetic")
            self.multiset(list(zip(a.a[2::2], a.a[3::2])), list(zip(b.a[2::2], b.a[3::2])), a, b)
            return
        if a.k == "prod":
            if len(a.a) != len(b.a) or a.a[0] != b.a[0]:
                raise Differ(a, b, True, "arithmetic")
            self.multiset([(x, 1) for x in a.a[1:]], [(x, 1) for x in b.a[1:]], a, b)
            return
        if a.k == "clo":
            return self.clo(a, b)
        if a.k == "call":
            ha, hb = self.rename.get(a.a[0], a.a[0]), self.rename.get(b.a[0], b.a[0])
            if ha != hb:
                for x, y in ((a, b), (b, a)):
                    # one side leaves out elements of what the other side visits
                    if x.a[0] in LEAVEOUT and len(x.a) == 3 and constval(x.a[2]) is not None and y.a[0].startswith(("iter::", "slice::", "image::")) and \
                            (self.same(x.a[1], y) if x is a else self.same(y, x.a[1])):
                        n = constval(x.a[2])
                        raise Differ(a, b, n >= LEAVEOUT[x.a[0]], "elements left out")
                fa, fb = (h in FLOATFN and len(x.a) > 1 for h, x in ((ha, a), (hb, b)))
                if (fa and fb and self.same(a.a[1], b.a[1])) or (fa and self.same(a.a[1], b)) or (fb and self.same(a, b.a[1])):
                    raise Differ(a, b, True, "function applied")
                raise Differ(a, b, definite(a, b), "call")
            if len(a.a) != len(b.a):
                raise Differ(a, b, False, "call")
            if ha in COMMHEAD:
                return self.multiset([(x, 1) for x in a.a[1:]], [(x, 1) for x in b.a[1:]], a, b)
            for x, y in zip(a.a[1:], b.a[1:]):
                self.eq(x, y)
            return
        if a.k == "eq" or a.k == "bin" and a.a[0] in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            xa, xb = [x for x in a.a if isinstance(x, T)], [x for x in b.a if isinstance(x, T)]
            if [x for x in a.a if not isinstance(x, T)] != [x for x in b.a if not isinstance(x, T)]:
                raise Differ(a, b, True, "operation")
            return self.multiset([(x, 1) for x in xa], [(x, 1) for x in xb], a, b)
        if len(a.a) != len(b.a):
            raise Differ(a, b, False, "value")
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) != isinstance(y, T):
                raise Differ(a, b, False, "value")
            if isinstance(x, T):
                self.eq(x, y)
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for u, v in zip(x, y):
                    if isinstance(u, T) and isinstance(v, T):
                        self.eq(u, v)
                    elif u != v and not (isinstance(u, tuple) or isinstance(v, tuple)):
                        raise Differ(a, b, True, "value")
                    elif u != v:
                        raise Differ(a, b, True, "value")
            elif x != y:
                raise Differ(a, b, a.k in ("int", "prm", "proj", "cast", "bin", "un", "bool", "float", "fcmp", "const", "rep", "agg", "out", "ty", "fn", "path", "ge"), "value")

    def multiset(self, xs, ys, a, b):
        ys = list(ys)
        left = []
        for x, k in xs:
            for i, (y, k2) in enumerate(ys):
                if k == k2 and (x is y and not hasphi(x)):
                    del ys[i]
                    break
            else:
                left.append((x, k))
        for j, (x, k) in enumerate(left):
            if len(ys) == 1:
                if k != ys[0][1]:
                    raise Differ(a, b, True, "arithmetic")
                self.eq(x, ys[0][0])
                return
            for i, (y, k2) in enumerate(ys):
                if k == k2 and self.same(x, y):
                    del ys[i]
                    break
            else:
                raise Differ(a, b, not any(hasphi(t) for t, _ in xs) or all(interpreted(t) for t, _ in left + ys), "arithmetic")

    def phi(self, a, b):
        if self.pair.get(a.a[0]) != b.a[0]:
            if a.a[0] == b.a[0] and a is b and a.a[0] not in self.pair:
                return
            raise Differ(a, b, False, "loop variable")
        if a in self.rel:
            if self.rel[a] is not b:
                # another cell that must carry the same values
                k = (a.id, b.id, "rel2")
                if k in self.memo:
                    return
                self.memo[k] = True
                self.phi2(a, b)
            return
        self.rel[a] = b
        self.phi2(a, b)

    def phi2(self, a, b):
        La, Lb = a.a[2], b.a[2]
        (ca, pa), (cb, pb) = a.a[1], b.a[1]
        self.eq(*backvals(La.init, ca, pa, Lb.init, cb, pb))
        for m1, m2 in self.backs.get(La.id, []):
            self.eq(*backvals(m1, ca, pa, m2, cb, pb))
        self.phis = getattr(self, "phis", {})
        self.phis.setdefault(La.id, []).append((a, b))

    def back(self, La, Lb, m1, m2):
        self.backs.setdefault(La.id, []).append((m1, m2))
        for a, b in list(getattr(self, "phis", {}).get(La.id, [])):
            (ca, pa), (cb, pb) = a.a[1], b.a[1]
            self.eq(*backvals(m1, ca, pa, m2, cb, pb))

    def clo(self, a, b):
        if a.a[0] == b.a[0] and len(a.a) == len(b.a):
            for x, y in zip(a.a[1:], b.a[1:]):
                self.eq(x, y)
            return
        f1, f2 = self.ex[0].prog.fns.get(a.a[0].split("@")[0]), self.ex[1].prog.fns.get(b.a[0].split("@")[0])
        if f1 is None or f2 is None:
            raise Differ(a, b, False, "closure")
        if f1.argc != f2.argc:
            raise Differ(a, b, False, "closure parameters")
        Compare.depth = getattr(Compare, "depth", 0) + 1
        cps = [mk("cp", Compare.depth, i) for i in range(f1.argc)]
        try:
            t1 = self.ex[0].clo_tree(a, True, cps)
            t2 = self.ex[1].clo_tree(b, True, cps)
        finally:
            Compare.depth -= 1
        self.node(t1, t2, {}, {})

    # ---- trees
    def lookup(self, known, c, first):
        """truth of condition c of one side under what is known (conditions of both sides)"""
        for d, v in known.items():
            if d is c and not hasphi(c):
                return v
        for (d, side), v in known.items():
            if side == first and d is c:
                return v
            if side != first and d.k == c.k:
                if self.same(*((c, d) if first == 0 else (d, c))):
                    return v
        return None

    def node(self, n1, n2, known, ctx):
        """ctx: number of conditions of either side that were not conditions of the other"""
        self.tick()
        for first, n in ((0, n1), (1, n2)):
            if n.k == "br" or n.k == "sw":
                c = n.a[0]
                other = n2 if first == 0 else n1
                v = self.find(known, c, first)
                if v is not None:
                    nn = self.child(n, v)
                    if nn is None:
                        continue
                    if self.found is not None:
                        o = 1 - first
                        ctx = dict(ctx)
                        ctx[o] = tuple(x for x in ctx.get(o, ()) if x is not self.found)
                    return self.node(nn, n2, known, ctx) if first == 0 else self.node(n1, nn, known, ctx)
                un = 1
                if other.k == n.k:
                    if n.k == "br" and self.same(*((c, other.a[0]) if first == 0 else (other.a[0], c))):
                        un = 0
                    elif n.k == "sw" and self.same(*((c, other.a[0]) if first == 0 else (other.a[0], c))):
                        un = 0
                k2 = dict(ctx)
                if un:
                    k2[first] = k2.get(first, ()) + (c,)
                outs = (True, False) if n.k == "br" else list(n.a[1]) + ["else"]
                for v in outs:
                    nn = self.child(n, v)
                    if nn is None:
                        continue
                    kn = dict(known)
                    kn[(c, first)] = v
                    if first == 0:
                        self.node(nn, n2, kn, k2)
                    else:
                        self.node(n1, nn, kn, k2)
                return
        if n1.k == "unreach" or n2.k == "unreach":
            return
        if self.extra_panics and n2.k == "panic":
            return
        soft = bool(ctx.get(0) and ctx.get(1))

        def bad(a, b, d, w, x=None):
            if soft:
                # both sides test something the other does not
                c0, c1 = ctx[0][0], ctx[1][0]
                before = {(c, s): v for (c, s), v in known.items() if not any(c is x for x in ctx[s])}
                try:
                    self.eq(c0, c1)
                except Differ as e:
                    one = len(ctx[0]) == len(ctx[1]) == 1
                    r = self.rangeend(c0, c1)
                    if r is not None:
                        one = r == "start" or one and r == "end"
                    raise Differ(e.a, e.b, one and (e.definite and simple(e.a) and simple(e.b) or self.settle(e, before)), "condition")
                raise Differ(c0, c1, False, "condition")
            if x is not None:
                d = self.settle(x, known)
            raise Differ(a, b, d, w)
        if n1.k != n2.k:
            if "panic" in (n1.k, n2.k):
                bad(n1, n2, False, "panic")
            bad(n1, n2, False, "shape")
        if n1.k == "panic":
            return
        if n1.k == "leaf":
            try:
                self.eq(n1.a[0], n2.a[0])
                if len(n1.a[1]) != len(n2.a[1]):
                    raise Differ(n1, n2, False, "outputs")
                for x, y in zip(n1.a[1].values(), n2.a[1].values()):
                    self.eq(x, y)
                self.trace(n1.a[2], n2.a[2])
            except Differ as e:
                bad(e.a, e.b, e.definite, e.what, e)
            return
        if n1.k == "loop":
            La, Lb = n1.a[0], n2.a[0]
            self.pair[La.id] = Lb.id
            self.loops[La.id] = (La, Lb)
            return self.node(n1.a[1], n2.a[1], known, ctx)
        if n1.k == "back":
            La, Lb = n1.a[0], n2.a[0]
            if self.pair.get(La.id) != Lb.id:
                bad(n1, n2, False, "loop structure")
            try:
                self.trace_back(La, Lb, n1.a[1]["%tr"], n2.a[1]["%tr"])
                self.back(La, Lb, n1.a[1], n2.a[1])
            except Differ as e:
                bad(e.a, e.b, e.definite, e.what, e)

    def rangeend(self, c0, c1):
        """of the conditions of two corresponding loops over ranges: "start": they differ in their first element only and the loops
        are entered in the same state; "end": they have the same first element; "other"; None for other conditions"""
        xs = []
        for c in (c0, c1):
            if not (c.k == "discr" and c.a[0].k == "call" and c.a[0].a[0] == "iter::next" and c.a[0].a[1].k == "mut"):
                return None
            r = c.a[0].a[1].a[0]
            if not (is_range(r) and r.a[2].k == "phi"):
                return None
            xs.append((r.a[2].a[2], r.a[2].a[1], r.a[3]))
        (La, (ca, pa), ha), (Lb, (cb, pb), hb) = xs
        if self.pair.get(La.id) != Lb.id:
            return "other"
        try:
            if self.leafsame(pick(La.init[ca], pa), pick(Lb.init[cb], pb)):
                return "end"
        except KeyError:
            return "other"
        if not self.leafsame(ha, hb):
            return "other"
        xs, ys = [v for c, v in La.init.items() if c != ca], [v for c, v in Lb.init.items() if c != cb]
        ids = {v.id for v in ys}
        return "start" if all(x.id in ids or any(self.leafsame(x, y) for y in ys) for x in xs) else "other"

    def trace(self, a, b):
        self.eq(a, b)

    def trace_back(self, La, Lb, a, b):
        self.eq(a, b)

    def find(self, known, c, first):
        """truth of a condition under what is known; self.found: the condition of the other side that it equals"""
        self.found = None
        for (d, side), v in known.items():
            if side == first and d is c:
                return v
        for (d, side), v in known.items():
            if d is c and not hasphi(c):
                if side != first:
                    self.found = d
                return v
        for (d, side), v in known.items():
            if side != first and d.k == c.k and self.same(*((c, d) if first == 0 else (d, c))):
                self.found = d
                return v
        return None

    def child(self, n, v):
        if n.k == "br":
            return n.a[1] if v is True else n.a[2] if v is False else None
        if v == "else":
            return n.a[2]
        if v in n.a[1]:
            return n.a[1][v]
        return n.a[2]


def pick(v, path):
    for i in path:
        if v.k == "agg":
            v = v.a[2 + i]
        elif v.k == "clo":
            v = v.a[1 + i]
        elif v.k == "mut":
            v = pick(v.a[0], (i,))
        else:
            v = mk("proj", v, 0, i)
    return v


def backvals(m1, ca, pa, m2, cb, pb):
    if ca not in m1 or cb not in m2:
        raise Differ(mk("bool", ca in m1), mk("bool", cb in m2), False, "variable of the loop")
    return pick(m1[ca], pa), pick(m2[cb], pb)


_hp = {}


def hasphi(t):
    r = _hp.get(t.id)
    if r is None:
        r = t.k in ("phi", "clo") or any(hasphi(x) for x in t.a if isinstance(x, T)) or any(hasphi(y) for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, T))
        _hp[t.id] = r
    return r


def interpreted(t, d=0):
    """built from arguments, constants and arithmetic"""
    if t.k in ("int", "prm", "bool", "float", "cp"):
        return True
    if t.k == "item":
        return all(interpreted(x, d + 1) for x in t.a)
    if t.k in ("lin", "prod", "bin", "un", "cast", "proj", "ge", "eq", "fcmp", "not"):
        return all(interpreted(x, d + 1) for x in t.a if isinstance(x, T))
    if t.k == "call" and t.a[0] in ("image::width", "image::height", "image::dimensions", "cmp::min", "cmp::max", "len"):
        return all(interpreted(x) or x.k == "phi" and t.a[0].startswith("image::") for x in t.a[1:])
    return False


simple = interpreted


MAYCOPY = ("clone_from", "copy_from", "copy_from_slice", "clone_from_slice", "replace", "swap", "take", "extend", "extend_from_slice", "fill", "fill_with", "write", "insert", "push", "append", "collect",
           "from_fn", "from_iter", "from_raw", "from_vec", "to_vec", "into_vec", "into_raw", "swap_with_slice", "map", "for_each", "fold", "try_from", "try_into", "unwrap_or", "unwrap_or_default", "then", "then_some")


def maycopy(t):
    while t.k == "out":
        t = t.a[0]
    return t.k == "call" and not t.a[0].startswith("imageproc::") and t.a[0].split("::")[-1] in MAYCOPY


# functions of a float that are told apart by some argument (pow, floor, trunc, round are left out: often interchangeable)
FLOATFN = {f"{m}::{f}" for m in ("", "f32", "f64", "num") for f in ("abs", "max", "min", "sqrt", "exp", "ln", "neg", "signum", "sin", "cos", "tan", "atan", "cbrt", "recip")}


def constval(t):
    if t.k == "int":
        return t.a[0]
    if t.k == "bin" and t.a[0] == "Shl" and all(isinstance(x, T) and x.k == "int" for x in t.a[2:]):
        return t.a[2].a[0] << min(t.a[3].a[0], 64)
    return None


LEAVEOUT = {"iter::take": 0, "iter::skip": 1, "iter::step_by": 2}


def definite(a, b):
    if maycopy(a) or maycopy(b):
        return False
    if interpreted(a) and interpreted(b):
        return True
    for x, y in ((a, b), (b, a)):
        if x.k in ("prm", "int", "bool", "float") and y.k in ("call", "out", "prm", "int", "bool", "float", "lin", "bin", "cast", "un"):
            if y.k in ("call",) and y.a[0].startswith(("iter::", "slice::")):
                continue
            return True
    if a.k == b.k == "call":
        return a.a[0].startswith("imageproc::") and b.a[0].startswith("imageproc::") or (a.a[0] in COMMHEAD and b.a[0] in COMMHEAD)
    if {a.k, b.k} <= {"lin", "prod", "bin", "cast", "un", "int", "float", "proj"}:
        # what a function returns may be the other value
        return unres(a) == unres(b)
    return False


def unres(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "call" and isinstance(x.a[0], str) and not witness.scalar(x):
            out.add(x.a[0])
        st += [y for y in x.a if isinstance(y, T)]
    return out
