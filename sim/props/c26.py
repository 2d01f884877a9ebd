"""C26: see sim/lawsim.py."""
from .. import lawsim

ID = "C26"


def gen(rng, tier, idx):
    return lawsim.gen26(rng, idx)


def run(plan):
    return lawsim.run26(plan)


shrinks = lawsim.shrinks
