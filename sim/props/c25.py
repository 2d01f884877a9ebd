"""C25: see sim/lawsim.py."""
from .. import lawsim

ID = "C25"


def gen(rng, tier, idx):
    return lawsim.gen25(rng, idx)


def run(plan):
    return lawsim.run25(plan)


shrinks = lawsim.shrinks
