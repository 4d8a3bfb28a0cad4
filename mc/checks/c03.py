"""C03: wavedec2/3 and waverec2/3 are the per-axis filter banks."""
from .. import nd

LEVEL = "exploration"
RULE = (
    "every (transform, wavelet, mode, side lengths, level) of the bounded space is run "
    "on all unit images (identity batch) or dense images, every reachable set of "
    "coefficient shapes on all unit coefficients or dense ones, plus round trips; each "
    "subband is compared with the per-axis index-sum reference; non-trivial: the call "
    "answered and was compared (accepted refusals of torch's padding are not counted)"
)
ASSUMPTIONS = [
    "the transforms are linear in their data (decided separately by C22)",
    "pywt's filter tables are the definition of the wavelets",
]
FAMS = ("wavedec2", "wavedec3")


def units(tier, seed):
    return nd.units_for(FAMS, tier)


run = nd.run
cost = nd.cost
