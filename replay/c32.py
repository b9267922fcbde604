from util import *
from c35 import scratch
from conf import identification
from src.identification import run, run3ph
from src.models.abstract_models import IterationStatus


def cases(rng, tier):
    for k in range(80 if tier == 'quick' else 800):
        yield dict(kind=rng.choice(['standard', 'bayes', 'real', 'realbayes']), n=rng.choice([1, 2, 3, 4]), order=rng.choice(['interleaved', 'random', 'random', 'blocks']), lap=rng.random() < .4, iters=rng.choice([1, 2, 3]),
                   weighted=rng.random() < .5, exact=rng.random() < .3, lens=[rng.choice([1, 2, 3, 4]) for _ in range(3)], seed=rng.randrange(10 ** 6))


def check(c):
    n, N, T = c['n'], 3 * c['n'], 14
    d = scratch()
    ids = np.tile([0, 1, 2], n)
    if c['order'] == 'blocks': ids = np.repeat(np.random.permutation(3), n)
    if c['order'] == 'random': np.random.shuffle(ids)
    x, z = mat(T, N, 'c'), mat(T, N, 'c')
    x0, z0, i0 = x.copy(), z.copy(), ids.copy()
    idx = [np.where(ids == p)[0] for p in range(3)]
    real = c['kind'].startswith('real')
    bayes = c['kind'].endswith('bayes')
    rat = np.random.uniform(.5, 2, N)
    yi = mat(N, N, 'c')
    yi = yi + yi.T
    ye = mat(N, N, 'c') if c['exact'] else None
    yi0 = yi.copy()
    res = {}

    def which(v):
        for p in range(3):
            if v.shape == (T, n) and np.array_equal(v, x0[:, idx[p]]): return p
        raise AssertionError('the voltages given to the single-phase identification belong to no phase')
    if not real:
        seen = []

        def std(name, v, i, ph=None, laplacian=False, max_iterations=10, verbose=True):
            p = which(v)
            same(i, z0[:, idx[p]], 'currents of phase %d' % p, 0)
            true(laplacian == c['lap'] and max_iterations == c['iters'], 'options of phase %d' % p)
            res[p] = [mat(n, n, 'c') for _ in range(3)]
            return tuple(k.copy() for k in res[p])

        def eiv(name, v, i, ph, sv, si, r, y_init, y_exact=None, laplacian=False, weighted=False, max_iterations=50, use_pmu_data=True, verbose=True):
            p = which(v)
            same(i, z0[:, idx[p]], 'currents of phase %d' % p, 0)
            same(r, rat[idx[p]], 'ratings of phase %d' % p, 0)
            same(y_init, yi0[np.ix_(idx[p], idx[p])], 'initial estimate of phase %d' % p, 0)
            true((y_exact is None) == (ye is None), 'exact parameters of phase %d' % p)
            if ye is not None: same(y_exact, ye[np.ix_(idx[p], idx[p])], 'exact parameters of phase %d' % p, 0)
            true(laplacian == c['lap'] and max_iterations == c['iters'] and weighted == c['weighted'], 'options of phase %d' % p)
            true(sv == .01 + .02j and si == .03 + .04j, 'deviations of phase %d' % p)
            its = [IterationStatus(k, mat(n, n, 'c'), float(np.random.uniform(0, 5))) for k in range(c['lens'][p])]
            res[p] = (mat(n, n, 'c'), its)
            return res[p][0].copy(), list(its)
        old = run.standard_methods, run.bayesian_eiv
        run.standard_methods, run.bayesian_eiv = std, eiv
    try:
        if real: identification.lambda_lasso = 1e-3
        if bayes:
            if real and c['exact']: ye = None
            got = run3ph.bayesian_eiv('a', x, z, ids, .01 + .02j, .03 + .04j, rat, yi, ye, c['lap'], c['weighted'], c['iters'], verbose=False)
        else: got = run3ph.standard_methods('a', x, z, ids, c['lap'], c['iters'], False)
    finally:
        if not real: run.standard_methods, run.bayesian_eiv = old
    same(x, x0, 'voltages of the caller', 0)
    same(z, z0, 'currents of the caller', 0)
    true(np.array_equal(ids, i0), 'phase assignment of the caller was modified')
    same(yi, yi0, 'initial estimate of the caller', 0)
    if real:
        for p in range(3):
            a, b = x0[:, idx[p]], z0[:, idx[p]]
            if bayes: res[p] = run.bayesian_eiv('b', a, b, None, .01 + .02j, .03 + .04j, rat[idx[p]], yi0[np.ix_(idx[p], idx[p])], None, c['lap'], c['weighted'], c['iters'], verbose=False)
            else: res[p] = run.standard_methods('b', a, b, None, c['lap'], c['iters'], False)

    def place(blocks):
        Y = np.zeros((N, N), dtype=complex)
        for p in range(3): Y[np.ix_(idx[p], idx[p])] = blocks[p]
        return Y
    if not bayes:
        for k, nm in enumerate(('ordinary', 'total', 'sparse')): same(got[k], place([res[p][k] for p in range(3)]), 'assembled %s estimate' % nm, 1e-8)
        return
    same(got[0], place([res[p][0] for p in range(3)]), 'assembled estimate', 1e-8)
    its = got[1]
    m = min(len(res[p][1]) for p in range(3))
    true(len(its) == m, 'history of %d instead of %d iterations' % (len(its), m))
    for k in range(m):
        true(its[k].iteration == k, 'iteration number')
        same(its[k].fitted_parameters, place([res[p][1][k].fitted_parameters for p in range(3)]), 'iteration %d' % k, 1e-8)
        s = sum(res[p][1][k].target_function for p in range(3))
        true(abs(its[k].target_function - s) <= 1e-8 * max(abs(s), 1e-9), 'target of iteration %d is %r instead of %r' % (k, its[k].target_function, s))
