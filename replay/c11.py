from c08 import *
import scipy.sparse as sp


def cases(rng, tier): return cases_(rng, tier, list(FUN), (True, False))


def check(c):
    x, sd, m, f = data(c)
    fun = getattr(nt, FUN[c['kind']])
    T, n = x.shape
    N = T * n
    V = fun(x, sd, c['sp'], c['inv'])
    true(sp.issparse(V), 'sparse result')
    V = dense(V)
    shape(V, (2 * N, 2 * N), 'covariance')
    true(not np.iscomplexobj(V), 'real covariance')
    for a in (V[:N, :N], V[:N, N:], V[N:, :N], V[N:, N:]): same(a, np.diag(np.diag(a)), 'diagonal blocks')
    dev = sd * np.ones(n)
    sc = np.abs(V).max()
    for i in range(n):
        for t in range(T):
            one = dense(fun(x[t:t + 1, i:i + 1], float(dev[i]), c['sp'], c['inv']))
            k = t + T * i
            same(V[np.ix_([k, k + N], [k, k + N])], one, 'block of sample %d of channel %d' % (t, i), tol=1e-6)
    if c['mode'] == 'common': same(fun(x, dev, c['sp'], c['inv']), V, 'repeated common deviation', tol=1e-6)
