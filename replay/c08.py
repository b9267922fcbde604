import numpy as np
from util import *
import src.models.noise_transformation as nt

FUN = dict(average='average_true_noise_covariance', exact='exact_noise_covariance', naive='naive_noise_covariance')


def cases_(rng, tier, kinds, inv=(False,)):
    for k in range(250 if tier == 'quick' else 8000):
        yield dict(kind=rng.choice(kinds), T=rng.randint(1, 5), n=rng.randint(1, 4), mode=rng.choice(['common', 'vector']), sp=rng.choice([.05, .2, .5, .9]), sm=rng.choice([.05, .3, 1.]), inv=rng.choice(inv), ax=rng.random() < .2,
                   seed=rng.randrange(10 ** 6))


def cases(rng, tier): return cases_(rng, tier, ['average'])


def data(c):
    T, n = c['T'], c['n']
    m, f = np.random.uniform(.2, 2, (T, n)), np.random.uniform(-np.pi, np.pi, (T, n))
    if c['ax']: f = np.random.choice([0, np.pi / 2, np.pi, -np.pi / 2], (T, n))
    x = m * np.exp(1j * f)
    sd = c['sm'] * np.random.uniform(.5, 1.5, n) if c['mode'] == 'vector' else float(c['sm'])
    return x, sd, np.abs(x), np.angle(x)


def moments(kind, m, s, q):
    if kind == 'average':
        e = np.exp(-2 * q)
        return e * (m ** 2 * (np.cosh(2 * q) - np.cosh(q)) + s * (2 * np.cosh(2 * q) - np.cosh(q))), e * (m ** 2 * (np.sinh(2 * q) - np.sinh(q)) + s * (2 * np.sinh(2 * q) - np.sinh(q)))
    if kind == 'exact':
        e = np.exp(-q)
        return e * (m ** 2 * (np.cosh(q) - 1) + s * np.cosh(q)), e * (m ** 2 + s) * np.sinh(q)
    return s + 0 * m, m ** 2 * q


def expected(kind, x, sd, sp):
    """dense covariance built from the documented moments and layout"""
    m, f = np.abs(x), np.angle(x)
    s = (sd * np.ones(x.shape[1])) ** 2
    rad, tan = moments(kind, m, s[None, :] * np.ones(x.shape), sp ** 2)
    rr = np.cos(f) ** 2 * rad + np.sin(f) ** 2 * tan
    ii = np.sin(f) ** 2 * rad + np.cos(f) ** 2 * tan
    ri = np.sin(f) * np.cos(f) * (rad - tan)
    v = lambda a: np.diag(a.T.reshape(-1))
    return np.block([[v(rr), v(ri)], [v(ri), v(ii)]])


def check(c):
    x, sd, m, f = data(c)
    x0 = x.copy()
    sd0 = np.array(sd, copy=True)
    fun = getattr(nt, FUN[c['kind']])
    V = fun(x, sd, c['sp'])
    W = expected(c['kind'], x, sd, c['sp'])
    shape(V, W.shape, 'covariance')
    same(V, W, 'covariance', tol=1e-8)
    true(np.linalg.eigvalsh(dense(V)).min() > -1e-9 * np.abs(W).max(), 'positive semi-definite')
    same(x, x0, 'measurements'); same(sd, sd0, 'deviations')
    if c['mode'] == 'common': same(fun(x, c['sm'] * np.ones(c['n']), c['sp']), W, 'covariance with the repeated deviation', tol=1e-8)
    if c['inv']:
        if np.linalg.cond(W) < 1e7: same(dense(fun(x, sd, c['sp'], True)) @ W, np.eye(len(W)), 'inverse times covariance', tol=1e-6)
