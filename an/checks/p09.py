"""P09: checked pixel accesses, indices and slices never fail on accepted inputs."""
import load, verdict
from checks.p01 import select, TRUSTED, ASSUMPTIONS

LEVEL = "proof"
KINDS = {"pixel", "index", "slice", "unsafe"}
TECHNIQUE = ("abstract interpretation of the type-checked MIR (relational linear constraints over symbolic dimensions, lengths and loop counters, decided by exact "
             "Farkas certificates; calls inlined, loops by inductive candidate filtering, wrapping arithmetic): every pixel access, slice index, sub-slice and table lookup "
             "reached from a public function yields the obligation that it is in range, on every path from the entry that passes the entry's own rejections")


def run(ctx):
    prog = verdict.prog = load.program("default")
    jobs = select(prog, KINDS)
    verdict.judge(ctx, jobs, KINDS, floors=250)
    ctx.cov["rule"] = "an obligation per pixel access / index / slice and calling context; see excluded sites under not_decided"
