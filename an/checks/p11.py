"""P11: built-in tables and kernels satisfy their defining relations (data as evaluated by the compiler, compared entry by entry)."""
import load
from graph import uses, target
from pw import Eval, Undecided, Iv, Q

LEVEL = "proof"
TECHNIQUE = ("comparison of every table and kernel constant, as evaluated by the compiler and read from its constant allocations, with its definition "
             "at every entry; constant kernels built inside functions are recovered by constant propagation on their MIR")
TRUSTED = ["rustc nightly (constant evaluation)", "driver/ (reading constant allocations)", "the definitions written out in an/checks/p11.py"]
ASSUMPTIONS = []


def rotr(b, k):
    return ((b >> k) | (b << (8 - k))) & 255


def min_shift(b):
    return min(rotr(b, k) for k in range(8))


def transitions(b):
    return bin(b ^ rotr(b, 1)).count("1")


def ints(j):
    return [int(x["v"]) for x in j]


def kern(j):
    data, w, h = j["v"]
    return ints(data["ref"]), int(w["v"]), int(h["v"])


def outer(c, r):
    return [a * b for a in c for b in r]


# definitional values (rows top to bottom; positive towards larger coordinates)
SMOOTH = {"SOBEL": [1, 2, 1], "SCHARR": [3, 10, 3], "PREWITT": [1, 1, 1]}
D = [-1, 0, 1]
KERNELS = {}
for n, sm in SMOOTH.items():
    KERNELS[n + "_HORIZONTAL_3X3"] = (outer(sm, D), 3, 3, f"outer product of the smoothing column {sm} and the difference row {D}")
    KERNELS[n + "_VERTICAL_3X3"] = (outer(D, sm), 3, 3, f"transpose of {n}_HORIZONTAL_3X3")
KERNELS["ROBERTS_HORIZONTAL_2X2"] = ([1, 0, 0, -1], 2, 2, "difference along the main diagonal")
KERNELS["ROBERTS_VERTICAL_2X2"] = ([0, 1, -1, 0], 2, 2, "difference along the anti-diagonal")
KERNELS["FOUR_LAPLACIAN_3X3"] = ([0, 1, 0, 1, -4, 1, 0, 1, 0], 3, 3, "sum over the 4-neighbours minus 4 times the centre")
KERNELS["EIGHT_LAPLACIAN_3X3"] = ([1, 1, 1, 1, -8, 1, 1, 1, 1], 3, 3, "sum over the 8-neighbours minus 8 times the centre")


def run(ctx):
    prog = load.program()
    byname = {}
    for p in prog.order:
        fn = prog.fns[p]
        if fn.d.get("cval") is not None:
            byname.setdefault(p.split("::")[-1], []).append(fn)
    # lookup tables
    nt = 0
    for name, f in (("MIN_SHIFT", min_shift), ("UNIFORM_REPRESENTATIVE_2", lambda b: min_shift(b) if transitions(b) <= 2 else 0b10101010)):
        for fn in byname.get(name, []):
            v = ints(fn.d["cval"])
            nt += 1
            ctx.decide(len(v) == 256, f"{fn.p}|len", f"{fn.file}:{fn.line} {name} has {len(v)} entries, expected 256")
            for b in range(min(256, len(v))):
                ctx.decide(v[b] == f(b), f"{fn.p}|{b}", f"{fn.file}:{fn.line} {name}[{b}] (0b{b:08b}) is {v[b]}, the definition gives {f(b)}",
                           sample={"table": name, "index": b, "value": v[b]} if b in (0b10110100, 5) else None)
    ctx.floor("lookup tables", nt, 2)
    # kernels
    nk = 0
    for name, fns in byname.items():
        for fn in fns:
            c = fn.d["cval"]
            if not (isinstance(c, dict) and c.get("s", "").endswith("::Kernel")):
                continue
            data, w, h = kern(c)
            nk += 1
            at = f"{fn.file}:{fn.line} {name}"
            ctx.decide(w > 0 and h > 0 and w * h == len(data), f"{fn.p}|size", f"{at}: declared {w}x{h} but holds {len(data)} values",
                       sample={"kernel": name, "width": w, "height": h, "data": data})
            if name in KERNELS:
                ed, ew, eh, why = KERNELS[name]
                ctx.decide((w, h) == (ew, eh), f"{fn.p}|dims", f"{at}: is {w}x{h}, expected {ew}x{eh}")
                for i, (a, b) in enumerate(zip(data, ed)):
                    ctx.decide(a == b, f"{fn.p}|{i}", f"{at}: entry ({i % ew},{i // ew}) is {a}, expected {b} ({why})")
                ctx.decide(sum(data) == 0, f"{fn.p}|sum", f"{at}: entries sum to {sum(data)}, not 0")
    ctx.floor("kernel constants", nk, 10)
    for n in KERNELS:
        ctx.decide(n in byname, f"missing|{n}", f"kernel constant {n} no longer exists")
    # kernels built from constants inside functions
    nb = 0
    for p in prog.order:
        fn = prog.fns[p]
        for bi, how, d, t in uses(fn):
            if how != "call" or not target(d).endswith("kernel::Kernel::<'a, K>::new") or fn.kind not in ("Fn", "AssocFn", "Closure"):
                continue
            r = const_call(prog, fn, bi, t)
            if r is None:
                ctx.excluded.append(f"{p}: kernel not constant")
                continue
            data, w, h = r
            nb += 1
            ctx.decide(w > 0 and h > 0 and w * h == len(data), f"{p}|size", f"{fn.file}:{fn.blocks[bi]['ln']} {p}: kernel declared {w}x{h} with {len(data)} values",
                       sample={"fn": p, "kernel": [str(x) for x in data], "width": int(w), "height": int(h)})
            if "::sharpen3x3" in p:
                want = [(1 if i == 4 else 0) - KERNELS["FOUR_LAPLACIAN_3X3"][0][i] for i in range(9)]
                ctx.decide(list(data) == want, f"{p}|sharpen", f"{fn.file}:{fn.blocks[bi]['ln']} {p}: kernel {[str(x) for x in data]} is not identity minus the 4-neighbour Laplacian {want}")
    ctx.cov["constant_kernels_in_functions"] = nb
    ctx.cov["kernel_constants"] = nk
    ctx.cov["lookup_tables"] = nt


def const_call(prog, fn, bi, t):
    """constant arguments of a Kernel::new call (backwards constant propagation through single definitions)"""
    ev = Eval(prog)

    def val(o, depth=0):
        if depth > 12:
            return None
        if not ("cp" in o or "mv" in o):
            try:
                return ev.operand(fn, None, {}, o)
            except Undecided:
                return None
        pl = o.get("cp") or o.get("mv")
        defs = [s[2] for b in fn.blocks for s in b["st"] if s[0] == "=" and s[1] == [pl[0]]]
        if len(defs) != 1:
            return None
        rv = defs[0]
        if rv[0] == "use":
            v = val(rv[1], depth + 1)
        elif rv[0] == "cast":
            v = val(rv[2], depth + 1)
        elif rv[0] == "ref":
            base = rv[2]
            v = val({"cp": base}, depth + 1) if base[1:] in ([], [["*"]]) else None
            if v is not None and base[1:] == []:
                v = ("r", v)
            elif v is not None:
                v = ("r", v)
        elif rv[0] == "agg" and rv[1][0] == "array":
            vs = [val(x, depth + 1) for x in rv[2]]
            v = ("s", "array", vs) if None not in vs else None
        else:
            v = None
        for e in pl[1:]:
            if v is None:
                return None
            if e[0] == "*":
                v = v[1] if v[0] == "r" else None
            else:
                return None
        return v
    a = [val(x) for x in t[2]]
    if None in a:
        return None
    d = a[0]
    while d[0] == "r":
        d = d[1]
    if d[0] != "s" or any(x[0] != "c" for x in d[2]) or a[1][0] != "c" or a[2][0] != "c":
        return None
    return [x[1] for x in d[2]], a[1][1], a[2][1]
