import numpy as np, scipy.sparse as sp
from util import *
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior


def cases(rng, tier):
    for k in range(400 if tier == 'quick' else 20000):
        yield dict(kind=rng.choice(['smooth', 'sparse']), n=rng.randint(2, 6), r=rng.randint(2, 7), two=rng.random() < .4, alpha=rng.choice([1e-5, 1e-2, .5, 2.]), orders=rng.choice(['012', '1', '2', '0', 'any']), seed=rng.randrange(10 ** 6))


def check(c):
    n, r = c['n'], c['r']
    L = mat(r, n)
    L[np.random.rand(r, n) < .4] = 0
    mu = vec(r)
    g = {'012': np.random.choice([0., 1., 2.], r), '1': np.ones(r), '2': 2 * np.ones(r), '0': np.zeros(r), 'any': np.random.uniform(0, 2, r)}[c['orders']]
    x = vec(n)
    ps = {}
    for k in ('smooth', 'sparse'):
        p = (SmoothPrior if k == 'smooth' else SparseSmoothPrior)(c['alpha'], n)
        p.L, p.mu, p.gamma = (L.copy() if k == 'smooth' else sp.csr_matrix(L)), mu.copy(), g.copy()
        xx = x[:, None].copy() if c['two'] else x.copy()
        A, b, s = p.log_distribution(xx)
        W = np.abs(L @ x - mu) ** (2 - g) + c['alpha']
        same(A, L.T @ np.diag(1 / W) @ L, 'A (%s)' % k)
        same(dense(b).reshape(-1), L.T @ (mu / W), 'b (%s)' % k)
        eq(float(s), W.sum(), 'penalty (%s)' % k)
        true(np.linalg.eigvalsh(dense(A)).min() >= -1e-9 * np.abs(dense(A)).max(), 'A positive semi-definite')
        same(p.L, L, 'rows'); same(p.mu, mu, 'centres'); same(p.gamma, g, 'orders'); same(xx.reshape(-1), x, 'parameters')
