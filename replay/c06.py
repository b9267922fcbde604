import numpy as np, scipy.sparse as sp
from util import *
from src.models.bayesian_prior import BayesianPrior
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior

KINDS = ['exact', 'exact_adaptive', 'sparsity', 'adaptive_sparsity', 'contrast', 'ratios']
CLS = dict(basic=BayesianPrior, smooth=SmoothPrior, sparse=SparseSmoothPrior)


def cases(rng, tier):
    for k in range(500 if tier == 'quick' else 20000):
        yield dict(kind=rng.choice(list(CLS)), n=rng.randint(2, 7), adds=[(rng.choice(KINDS), rng.randint(1, 4), rng.choice(['none', 'scalar', 'vector']), rng.choice(['none', 'scalar', 'vector']), rng.choice([1, 2, 3]))
                   for _ in range(rng.randint(1, 4))], seed=rng.randrange(10 ** 6), copy=rng.random() < .4)


def check(c):
    n = c['n']
    smooth = c['kind'] != 'basic'
    p = CLS[c['kind']](1e-3, n) if smooth else BayesianPrior(n)
    rows, mus, gam = np.zeros((0, n)), np.zeros(0), np.zeros(0)
    rng = np.random
    for kind, q, wm, om, k in c['adds']:
        w = dict(none=None, scalar=float(rng.uniform(.3, 2)), vector=rng.uniform(.3, 2, q))[wm]
        o = dict(none=None, scalar=float(rng.choice([0, 1, 2])), vector=rng.choice([0., 1., 2.], q))[om]
        wv = np.ones(q) if w is None else w * np.ones(q)
        v = rng.uniform(.5, 2, q) * rng.choice([-1, 1], q)
        k = min(k, n)
        if kind == 'contrast': ind = np.array([rng.permutation(n)[:k] for _ in range(q)])
        elif kind == 'ratios': ind = np.array([rng.permutation(n)[:2] for _ in range(q)])
        else: ind = rng.randint(0, n, q)
        i0, v0 = ind.copy(), v.copy()
        args = [ind] + ([v] if kind != 'sparsity' else [])
        if kind != 'adaptive_sparsity' and w is not None: args.append(w)
        elif kind == 'adaptive_sparsity': wv = np.ones(q)
        kw = dict(orders=o) if smooth and o is not None else {}
        getattr(p, 'add_%s_prior' % kind)(*args, **kw)
        R, m = np.zeros((q, n)), np.zeros(q)
        kk = 'exact' if kind == 'exact_adaptive' and smooth else kind
        for i in range(q):
            if kk == 'exact': R[i, ind[i]] = wv[i]; m[i] = wv[i] * v[i]
            elif kk == 'exact_adaptive': R[i, ind[i]] = wv[i] / v[i]; m[i] = wv[i]
            elif kk == 'sparsity': R[i, ind[i]] = wv[i]
            elif kk == 'adaptive_sparsity': R[i, ind[i]] = 1 / v[i]
            elif kk == 'contrast': R[i, ind[i]] = wv[i] / v[i]; m[i] = wv[i]
            else: R[i, ind[i, 0]] = wv[i]; R[i, ind[i, 1]] = -v[i] * wv[i]
        rows, mus = np.vstack([rows, R]), np.r_[mus, m]
        gam = np.r_[gam, (2 if o is None else o) * np.ones(q)]
        same(ind, i0, 'indices'); same(v, v0, 'values')
        # the contract is on the weighted residual: rows may be written with any common sign convention of the documentation
        x = rng.uniform(-2, 2, n)
        shape(p.L, rows.shape, 'rows after add_%s_prior' % kind)
        shape(p.mu, mus.shape, 'centres after add_%s_prior' % kind)
        same(p.L @ x - p.mu, rows @ x - mus, 'weighted residuals after add_%s_prior' % kind)
        same(p.L, rows, 'rows'); same(p.mu, mus, 'centres')
        if smooth:
            shape(p.gamma, gam.shape, 'orders after add_%s_prior' % kind)
            same(p.gamma, gam, 'orders after add_%s_prior' % kind)
        true(sp.issparse(p.L) == (c['kind'] == 'sparse'), 'row storage')
    if c['copy']:
        cl = CLS[c['kind']]
        q = cl(1e-2, other=p) if smooth else cl(other=p)
        same(q.L, p.L, 'copied rows'); same(q.mu, p.mu, 'copied centres'); true(q.n == n, 'copied number of parameters')
        if smooth: same(q.gamma, p.gamma, 'copied orders')
        q.add_sparsity_prior(np.array([0]))
        shape(q.L, (rows.shape[0] + 1, n), 'rows added to the copy')
        same(p.L, rows, 'rows of the original after adding to the copy')
