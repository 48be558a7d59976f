"""P05: drawing only touches pixels inside the canvas."""
import load, verdict
from checks.p01 import select, TRUSTED, ASSUMPTIONS

LEVEL = "proof"
KINDS = {"pixel", "index", "slice", "unsafe"}
TECHNIQUE = ("abstract interpretation of the type-checked MIR (relational linear constraints over symbolic canvas sizes, coordinates and loop counters, decided by exact "
             "Farkas certificates; calls inlined, loops by inductive candidate filtering, wrapping arithmetic): every pixel read or written by a function of the drawing module, "
             "for any position, size and canvas (including empty ones), yields the obligation that it lies inside the canvas")


def run(ctx):
    prog = verdict.prog = load.program("default")
    jobs = select(prog, KINDS, lambda p: "imageproc::drawing::" in p or p.startswith("imageproc::haar::draw") or p.startswith("imageproc::hough::draw"))
    verdict.judge(ctx, jobs, KINDS, floors=25)
    ctx.cov["rule"] = "an obligation 0 <= x < width, 0 <= y < height per pixel access and calling context"
