"""C30: see sim/freqsim.py."""
from .. import freqsim

ID = "C30"


def gen(rng, tier, idx):
    return freqsim.gen(rng, idx)


def run(plan):
    return freqsim.run(plan)


shrinks = freqsim.shrinks
