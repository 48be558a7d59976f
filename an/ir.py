"""Loading of the MIR dump; resolved types."""
import json, re


class Fn:
    __slots__ = ("p", "d", "blocks", "locals", "argc", "kind", "pub", "unsafe", "generics", "rpo", "preds", "loops", "file", "line", "name", "exits", "iterloops")

    def __init__(self, d):
        self.d = d
        self.p = d["p"]
        self.blocks = d.get("blocks", [])
        self.locals = d.get("locals", [])
        self.argc = d.get("argc", 0)
        self.kind = d["kind"]
        self.pub = d["pub"]
        self.unsafe = d.get("unsafe", False)
        self.generics = d.get("generics", [])
        self.file = d.get("file")
        self.line = d.get("line")
        self.name = d.get("name")
        self.rpo = None
        self.iterloops = None


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5 - 1 + 0]] if False else [t[4 + 1 - 0]] if len(t) > 5 else [t[-1]]
    if k == "drop":
        return [t[2]]
    return []


def term_succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = []
        for x in t[3]:
            if x[1] not in r:
                r.append(x[1])
        if t[4] not in r:
            r.append(t[4])
        return r
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[-1]]
    if k == "drop":
        return [t[2]]
    return []


TYPE_BASE = 7_100_000_000_000
_CLO = re.compile(r"@src/[^\s}]*?:\d+:\d+(: \d+:\d+)?")


def untype(x, names, out):
    """type numbers become indices into the type table; out collects a form of x in which types stand for themselves"""
    if isinstance(x, list):
        strip = len(x) == 4 and x[0] == "="
        out.append("[")
        r = [untype(v, names, [] if strip and i == 3 else out) for i, v in enumerate(x)]
        out.append("]")
        return r
    if isinstance(x, dict):
        out.append("{")
        r = {}
        for k, v in x.items():
            if k in ("ln", "line", "doc", "vis"):
                r[k] = untype(v, names, [])
            else:
                out.append(k + ":")
                r[k] = untype(v, names, out)
        out.append("}")
        return r
    if type(x) is int and x >= TYPE_BASE and x - TYPE_BASE < len(names):
        out.append("T<" + names[x - TYPE_BASE] + ">")
        return x - TYPE_BASE
    out.append(_CLO.sub("@", x) if isinstance(x, str) and "@src" in x else repr(x))
    out.append(",")
    return x


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        names = [_CLO.sub("@", t["s"]) for t in d["types"]]
        d["types"] = [untype(t, names, []) for t in d["types"]]
        o = []
        d["adts"] = [untype(a, names, o) for a in sorted(d["adts"], key=lambda a: a["p"])]
        self.adts_text = "".join(o)
        fs = []
        for f in d["fns"]:
            o = []
            g = untype(f, names, o)
            g["%text"] = "".join(o)
            fs.append(g)
        d["fns"] = fs
        self.types = d["types"]
        self.fns = {}
        self.order = []
        for f in d["fns"]:
            fn = Fn(f)
            p = fn.p
            if p in self.fns:
                i = 2
                while f"{p}#{i}" in self.fns:
                    i += 1
                fn.p = p = f"{p}#{i}"
            self.fns[p] = fn
            self.order.append(p)
        self.adts = {a["p"]: a for a in d["adts"]}
        # promoteds as pseudo functions
        for p in list(self.order):
            fn = self.fns[p]
            for i, b in enumerate(fn.d.get("promoted", [])):
                bb = dict(b)
                bb.update({"p": f"{p}::promoted[{i}]", "kind": "Promoted", "pub": False})
                self.fns[bb["p"]] = Fn(bb)
        # impl index: (trait method path) -> list of impl fns
        self.impls = {}
        self.traitdefaults = {}
        for p in self.order:
            fn = self.fns[p]
            if fn.d.get("impl_trait"):
                self.impls.setdefault((fn.d["impl_trait"], fn.name), []).append(fn)
        self.rtcache = {}

    # ---- resolved types: hashable tuples
    def rt(self, tid, env):
        key = (tid, id(env)) if env else (tid, 0)
        t = self.types[tid]
        k = t.get("k")
        if k == "param":
            return env.get(t["n"], ("param", t["n"])) if env else ("param", t["n"])
        if k in ("int", "uint"):
            return (k, t["w"], t["n"])
        if k == "float":
            return (k, t["w"])
        if k in ("bool", "char", "str", "never"):
            return (k,)
        if k == "ref":
            return ("ref", t["mut"], self.rt(t["t"], env))
        if k == "ptr":
            return ("ptr", t["mut"], self.rt(t["t"], env))
        if k == "slice":
            return ("slice", self.rt(t["t"], env))
        if k == "array":
            return ("array", self.rt(t["t"], env), t["len"])
        if k == "tuple":
            return ("tuple", tuple(self.rt(x, env) for x in t["ts"]))
        if k == "adt":
            if not env and key in self.rtcache:
                return self.rtcache[key]
            r = ("adt", t["p"], tuple(self.rt(x, env) if isinstance(x, int) else ("const", x) for x in t["args"]))
            if not env:
                self.rtcache[key] = r
            return r
        if k == "closure":
            return ("closure", t["p"])
        if k == "fndef":
            return ("fndef", t["p"], tuple(self.rt(x, env) if isinstance(x, int) else ("const", x) for x in t["args"]))
        s = t["s"]
        if env:
            def sub(m):
                n = m.group(0)
                if n in env:
                    return tstr(env[n])
                return n
            s = re.sub(r"\b[A-Z]\w*\b", sub, s)
        m = re.match(r"^<image::(?:color::)?(\w+)<(.+)> as image::traits::Pixel>::Subpixel$", s)
        if m:
            return parse_prim(m.group(2)) or ("alias", s)
        return (k or "other", s)

    def adt_fields(self, rt, variant=0):
        """Resolved field types of a resolved ADT type; needs a types-table entry for some instantiation."""
        p = rt[1]
        for i, t in enumerate(self.types):
            if t.get("k") == "adt" and t["p"] == p:
                # find generic instantiation identical?
                pass
        return None


PRIMS = {"u8": ("uint", 8, "u8"), "u16": ("uint", 16, "u16"), "u32": ("uint", 32, "u32"), "u64": ("uint", 64, "u64"),
         "usize": ("uint", 64, "usize"), "u128": ("uint", 128, "u128"), "i8": ("int", 8, "i8"), "i16": ("int", 16, "i16"),
         "i32": ("int", 32, "i32"), "i64": ("int", 64, "i64"), "isize": ("int", 64, "isize"), "i128": ("int", 128, "i128"),
         "f32": ("float", 32), "f64": ("float", 64), "bool": ("bool",)}


def parse_prim(s):
    return PRIMS.get(s)


def tstr(t):
    k = t[0]
    if k in ("int", "uint"):
        return t[2]
    if k == "float":
        return f"f{t[1]}"
    if k in ("bool", "char", "str", "never"):
        return {"never": "!"}.get(k, k)
    if k in ("param", "const"):
        return t[1]
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + tstr(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + tstr(t[2])
    if k == "slice":
        return f"[{tstr(t[1])}]"
    if k == "array":
        return f"[{tstr(t[1])}; {t[2]}]"
    if k == "tuple":
        return "(" + ", ".join(tstr(x) for x in t[1]) + ")"
    if k == "adt":
        return t[1] + ("<" + ", ".join(tstr(x) for x in t[2]) + ">" if t[2] else "")
    if k in ("closure",):
        return "{" + t[1] + "}"
    if k == "fndef":
        return "fn{" + t[1] + "}"
    return str(t[1]) if len(t) > 1 else k


def prepare(fn):
    """RPO, dominators, natural loops."""
    if fn.rpo is not None:
        return
    n = len(fn.blocks)
    sc = [term_succs(b["t"]) if not b["cl"] else [] for b in fn.blocks]
    # constant-false/true asserts etc. are left to the interpreter
    order = []
    seen = [0] * n
    stack = [(0, iter(sc[0]))]
    seen[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = 1
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in sc[b]:
            if s in idx and b not in preds[s]:
                preds[s].append(b)
    # dominators
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom[b]:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in sc[b]:
            if s in idx and idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Exception(f"irreducible {fn.p}")
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.rpo = order
    fn.preds = preds
    fn.loops = loops
