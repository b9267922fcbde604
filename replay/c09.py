from c08 import *
def cases(rng, tier): return cases_(rng, tier, ['exact', 'naive'])
