"""P15: convenience operations are the documented compositions."""
import re
import load, pairs
from checks import p03

LEVEL = "proof"
TECHNIQUE = ("symbolic-term comparison of the type-checked MIR: every derived public operation against a reference definition (an/ref.rs) that states its documentation in terms of the crate's general operations; "
             "the reference definitions are type-checked as one more module of a copy of the current tree, both bodies become behaviour trees, crate functions stay uninterpreted on both sides and are inlined "
             "where the trees differ, and the trees must be equal")
TRUSTED = ["rustc MIR construction", "an/term.py (behaviour trees, term equality)", "an/ref.rs states the documentation"]
ASSUMPTIONS = ["user-supplied closures are pure functions of their arguments"]


def entries(pid="P15"):
    """(target, documentation, path of the reference definition)"""
    out = []
    for m, (src, _) in load.REFS.items():
        mod = "::".join(m[4:-3].split("/"))
        for x in re.finditer(r"(?m)^//@(P\d\d)? (\S+) \| (.*)\n(?:(?!pub fn).*\n)*?pub fn (\w+)", open(src).read()):
            if (x.group(1) or "P15") == pid:
                out.append((x.group(2), x.group(3), f"imageproc::{mod}::{x.group(4)}"))
    return out


def run(ctx, pid="P15", floor=40):
    prog = load.program("ref")
    es = entries(pid)
    cop = {}
    for p in prog.order:
        if p.endswith("_mut") and "{" not in p and p[:-4] in prog.fns and prog.fns[p].pub and prog.fns[p[:-4]].pub and "verif_ref" not in p:
            cop[p[:-4]] = p
    for tgt, doc, r in es:
        t = "imageproc::" + tgt
        if t not in prog.fns or r not in prog.fns:
            ctx.excluded.append({"what": tgt, "why": "target not found" if t not in prog.fns else "the reference definition does not compile against the current tree"})
            continue
        f, g = prog.fns[t], prog.fns[r]
        if f.argc != g.argc:
            ctx.excluded.append({"what": tgt, "why": "different parameters"})
            continue
        others = {k: v for k, v in cop.items() if k != t}
        x = pairs.compare(pairs.Side(prog, f, copies=others), pairs.Side(prog, g, copies=others))
        if x[0] != "equal":
            y = pairs.compare(pairs.Side(prog, f), pairs.Side(prog, g))
            if y[0] == "equal" or (x[0] == "undecided" and y[0] == "differs"):
                x = y
        if x[0] == "undecided":
            # without looking into the functions that the definition itself names
            side = pairs.Side(prog, g)
            try:
                named = {h for h in pairs.heads(side.build()) if h in prog.fns}
            except Exception:
                named = set()
            y = pairs.compare(pairs.Side(prog, f), pairs.Side(prog, g), keep=named)
            if y[0] == "equal" or y[0] == "differs" and y[2].get("plain"):
                x = y
        p03.judge(ctx, tgt, x, {"function": t, "definition": doc})
    ctx.cov["rule"] = "the operation and its reference definition in an/ref.rs have equal behaviour trees"
    ctx.floor("operations with a reference definition", len(es), floor)
