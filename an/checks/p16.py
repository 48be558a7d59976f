"""P16: rearranging operations take every output pixel from the documented position."""
from checks import p15

LEVEL = "proof"
TECHNIQUE = p15.TECHNIQUE
TRUSTED = p15.TRUSTED
ASSUMPTIONS = p15.ASSUMPTIONS


def run(ctx):
    p15.run(ctx, "P16", 12)
