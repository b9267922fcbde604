from fits import *


def cases(rng, tier): return fcases(rng, tier, None, 250)


def check(c): equations(c, *run(c))
