from fits import *


def cases(rng, tier):
    for a, b, d in zip(fcases(rng, tier, None, 150), fcases(rng, tier, 'plain', 150), fcases(rng, tier, 'weighted', 40)):
        yield a
        yield b
        yield d
        for e in (a, b):
            f = dict(e, maxit=rng.choice([12, 25, 40]), tol=rng.choice([(1e-5, 1e-12), (1e-12, 1e-4), (1e-3, 1e-12), (1e-12, 1e-2), (1e-9, 1e-9)]), again=True)
            yield f


def check(c):
    r = run(c)
    history(r[0], c)
    stopping(r[0], c)
