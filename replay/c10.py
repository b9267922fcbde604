from c08 import *


def cases(rng, tier): return cases_(rng, tier, list(FUN), (True,))


def check(c):
    """inverse of whatever the function returns without asking for the inverse"""
    x, sd, m, f = data(c)
    fun = getattr(nt, FUN[c['kind']])
    V = dense(fun(x, sd, c['sp']))
    x0 = x.copy()
    W = fun(x, sd, c['sp'], True)
    shape(W, V.shape, 'inverse')
    N = x.size
    a, b, d = np.diag(V)[:N], np.diag(V[:N, N:]), np.diag(V)[N:]
    if np.abs(a * d - b * b).min() < 1e-9 or np.abs(a).min() < 1e-9 or np.abs(d).min() < 1e-9: raise Skip
    if np.linalg.cond(V) > 1e7: raise Skip
    same(dense(W) @ V, np.eye(2 * N), 'inverse times covariance', tol=1e-6)
    same(V @ dense(W), np.eye(2 * N), 'covariance times inverse', tol=1e-6)
    same(dense(fun(x, sd, c['sp'], inverted=True)), W, 'keyword form')
    same(x, x0, 'measurements')
