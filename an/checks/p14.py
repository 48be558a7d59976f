"""P14: behaviour does not depend on the build configuration."""
import load, pairs, term
from checks import p03

LEVEL = "proof"
TECHNIQUE = ("comparison of the type-checked MIR of every function across three builds of the current source (default, debug assertions on, no rayon feature): bodies must be identical up to type "
             "numbering, and where they differ their behaviour trees must be equal, except that a build with debug assertions may panic on additional conditions; "
             "configuration-dependent expressions (cfg!, #[cfg]) anywhere in the crate show up as differences")
TRUSTED = p03.TRUSTED
ASSUMPTIONS = ["configurations compared: {default, debug assertions on, without the rayon feature}; overflow checks only add panics (language semantics)"]


def run(ctx):
    def judge(ctx, name, r, data):
        out, det, stats = r
        if out == "undecided" and "[default / dbg]" in name and not det.startswith(("unsupported", "behaviour tree too large")):
            # same source text compiled twice: what the debug build adds is not a pure condition
            out = "differs"
        p03.judge(ctx, name, (out, det, stats), data)
    D = p03.feature_pairs(ctx, ["dbg", "norayon"], judge)
    for c in ("dbg", "norayon"):
        n = ctx.cov["identical_functions"][c]
        for _ in range(n):
            ctx.decide(True, "", "")
    nr = load.program("norayon")
    # a function must not exist in a configuration only, except the multi-threaded variants
    for p in D.order:
        if "{" in p or p in nr.fns or "promoted" in p or "_parallel" in p:
            continue
        f = D.fns[p]
        if f.pub:
            ctx.decide(False, f"{p}:missing", f"{p} does not exist without the rayon feature", {"function": p})
    ctx.cov["rule"] = "same behaviour tree in every configuration"
    ctx.floor("functions compared between configurations", sum(ctx.cov["identical_functions"].values()), 1300)
