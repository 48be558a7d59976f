"""P17: sums, scores and statistics are computed by their defining formulas."""
from checks import p15

LEVEL = "proof"
TECHNIQUE = p15.TECHNIQUE
TRUSTED = p15.TRUSTED
ASSUMPTIONS = p15.ASSUMPTIONS


def run(ctx):
    p15.run(ctx, "P17", 20)
