"""P10: Clamp saturation and black/white constants."""
import load
from fractions import Fraction as Q
from pw import Eval, Undecided, domain, trange, INF, Iv
from ir import tstr

LEVEL = "proof"
TECHNIQUE = ("abstract interpretation of every Clamp implementation's MIR over the exact partition of the source type's whole range into intervals "
             "(each part carries one closed form of the result: a constant, x, or trunc x), compared with the saturating conversion on every part; "
             "constant propagation for HasBlack/HasWhite")
TRUSTED = ["rustc nightly (type checking, MIR)", "driver/", "an/pw.py (transfer functions of comparisons, casts, arithmetic and core min/max/clamp)"]
ASSUMPTIONS = ["NaN sources are excluded (documented as not handled)", "in-range fractional values are truncated toward zero, as `as` does"]


def check_clamp(ctx, prog, fn):
    ta = [prog.rt(a, None) for a in fn.d["trait_args"]]
    to, frm = ta[0], ta[1]
    key = f"Clamp<{tstr(frm)}> for {tstr(to)}"
    try:
        parts = Eval(prog).run(fn, [("x", Q(1), Q(0))], domain(frm))
    except Undecided as e:
        ctx.excluded.append(f"{key}: {e}")
        return None
    ok = True
    for iv, v in parts:
        good, why = part_ok(iv, v, frm, to)
        ctx.decide(good, f"{key}", f"{fn.file}:{fn.line} {key}: for x in {iv} the result is {show(v)}, expected {why}",
                   data={"interval": repr(iv), "value": show(v)}, sample={"impl": key, "interval": repr(iv), "value": show(v)})
        ok = ok and good
    return ok


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "c":
        return str(v[1])
    if v[0] == "x":
        return "x" if v[1:] == (1, 0) else f"{v[1]}*x+{v[2]}"
    if v[0] == "t":
        return "trunc(x)" if v[1] == 0 else f"trunc(x)+{v[1]}"
    return str(v[0])


def part_ok(iv, v, frm, to):
    if to[0] == "float":
        return v == ("x", 1, 0), "x"
    lo, hi = trange(to)

    def exp(x):
        return lo if x <= lo else hi if x >= hi else None
    if v[0] == "c":
        c = v[1]
        if c == lo and iv.hi < lo + 1 or (c == lo and iv.hi == lo + 1 and not iv.hc and not iv.isint):
            return True, ""
        if c == hi and iv.lo >= hi:
            return True, ""
        if iv.isint and iv.lo == iv.hi == c:
            return True, ""
        # constant on a fractional part with constant truncation
        if not iv.isint and iv.lo >= lo and iv.hi <= hi + 1:
            if c >= 0 and iv.lo >= c and (iv.hi < c + 1 or (iv.hi == c + 1 and not iv.hc)):
                return True, ""
        return False, f"x clamped to [{lo}, {hi}]"
    if v == ("x", 1, 0) and iv.isint:
        return (iv.lo >= lo and iv.hi <= hi), f"x clamped to [{lo}, {hi}]"
    if v[0] == "x" and iv.isint and iv.lo == iv.hi:
        x = iv.lo
        return v[1] * x + v[2] == min(max(x, lo), hi), f"{min(max(x, lo), hi)}"
    if v == ("t", 0):
        l = iv.lo > lo - 1 or (iv.lo == lo - 1 and not iv.lc)
        h = iv.hi < hi + 1 or (iv.hi == hi + 1 and not iv.hc)
        return l and h, f"trunc(x) clamped to [{lo}, {hi}]"
    return False, f"x clamped to [{lo}, {hi}]"


def leaves(v):
    if v[0] == "s":
        r = []
        for x in v[2]:
            r += leaves(x)
        return r
    return [v]


def check_bw(ctx, prog, fn, white):
    st = prog.rt(fn.d["self_ty"], None)
    n = st[1].split("::")[-1]
    nch = {"Luma": 1, "LumaA": 2, "Rgb": 3, "Rgba": 4}.get(n)
    sub = st[2][0]
    key = f"{'HasWhite' if white else 'HasBlack'} for {tstr(st)}"
    if nch is None or sub[0] not in ("uint", "int"):
        ctx.excluded.append(key)
        return
    try:
        r = Eval(prog).run(fn, [], Iv(Q(0), True, Q(0), True, True))
    except Undecided as e:
        ctx.excluded.append(f"{key}: {e}")
        return
    lo, hi = trange(sub)
    want = [hi if white else lo] * nch
    if n in ("LumaA", "Rgba"):
        want[-1] = hi
    for _, v in r:
        got = [x[1] if x[0] == "c" else None for x in leaves(v)]
        ctx.decide(got == want, key, f"{fn.file}:{fn.line} {key} is {[str(g) for g in got]}, expected {want}", sample={"impl": key, "value": want})


def run(ctx):
    prog = load.program()
    nc = nb = 0
    for p in prog.order:
        fn = prog.fns[p]
        tr = fn.d.get("impl_trait", "")
        if tr.endswith("definitions::Clamp") and fn.name == "clamp":
            nc += 1
            check_clamp(ctx, prog, fn)
        elif tr.endswith(("definitions::HasBlack", "definitions::HasWhite")) and fn.name in ("black", "white"):
            nb += 1
            check_bw(ctx, prog, fn, fn.name == "white")
    ctx.cov["clamp_impls"] = nc
    ctx.cov["black_white_impls"] = nb
    ctx.floor("Clamp implementations", nc, 20)
    ctx.floor("HasBlack/HasWhite implementations", nb, 16)
