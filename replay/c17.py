from fits import *


def cases(rng, tier):
    for a, b, d in zip(fcases(rng, tier, None, 150, kinds=('sym', 'lap')), fcases(rng, tier, 'plain', 150, kinds=('sym', 'lap')), fcases(rng, tier, 'weighted', 40, kinds=('sym', 'lap'))):
        for e in (a, b, d):
            yield dict(e, own=False)


def check(c):
    m = run(c)[0]
    for Y, w in [(e.fitted_parameters, 'iteration %d' % e.iteration) for e in m.iterations] + [(m.fitted_admittance_matrix, 'the result')]:
        if not np.all(np.isfinite(Y)): raise Skip
        s = np.abs(Y).max()
        same(Y, Y.T, 'transpose at %s' % w, atol=1e-6 * s)
        if c['kind'] == 'lap':
            same(Y.sum(axis=0), np.zeros(c['n']), 'column sums at %s' % w, atol=1e-6 * s)
            same(Y.sum(axis=1), np.zeros(c['n']), 'row sums at %s' % w, atol=1e-6 * s)
