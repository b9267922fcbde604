from fits import *


def cases(rng, tier): return fcases(rng, tier, "plain", 200)


def check(c): equations(c, *run(c))
