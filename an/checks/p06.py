"""P06: inputs that the documentation rejects never complete normally."""
import load, specs, verdict
from checks.p01 import TRUSTED, ASSUMPTIONS

LEVEL = "proof"
TECHNIQUE = ("abstract interpretation of the type-checked MIR under the negated precondition: the documented rejection condition is assumed as linear constraints on the symbolic "
             "arguments, and every path of the function (calls inlined, loops generalised) on which it could still return normally is an unproved obligation; "
             "functions documented to report an error or nothing must return that variant on every path that remains")


def run(ctx):
    prog = verdict.prog = load.program("default")
    S = specs.build(prog)
    verdict.SPECS.update(S)
    jobs = [(p, s["mode"], s["tier"], v) for (p, v), s in sorted(S.items()) if v.startswith("rejects")]
    verdict.judge(ctx, jobs, set(), floors=100, posts=True)
    ctx.cov["rejection_conditions"] = len(jobs)
    ctx.cov["rule"] = "condition assumed at entry => no feasible normal return (or only the error / nothing variant)"
