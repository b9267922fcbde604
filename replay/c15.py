from fits import *


def cases(rng, tier): return fcases(rng, tier, "weighted", 90)


def check(c): equations(c, *run(c))
