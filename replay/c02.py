import numpy as np, scipy.sparse as sp
from util import *
from src.models.matrix_operations import make_real_vector as rv, make_complex_vector as cv, make_real_matrix as rm, make_complex_matrix as cm


def cases(rng, tier):
    for k in range(400 if tier == 'quick' else 20000):
        yield dict(kind=rng.choice(['dense', 'csr', 'csc', 'coo']), r=rng.randint(1, 6), c=rng.randint(1, 6), zero=rng.random() < .3, sparse=rng.random() < .5, seed=rng.randrange(10 ** 6),
                   k=rng.randint(1, 4))


def mk(c):
    x = mat(c['r'], c['c'], 'c')
    if c['sparse']: x[np.random.rand(*x.shape) < .5] = 0
    if c['zero']: x[0, :] = 1j * x[0, :].imag
    return x


def conv(x, k):
    return x if k == 'dense' else dict(csr=sp.csr_matrix, csc=sp.csc_matrix, coo=sp.coo_matrix)[k](x)


def check(c):
    r, n = c['r'], c['c']
    v, w = vec(n, 'c'), vec(n, 'c')
    v0 = v.copy()
    a = rv(v)
    shape(a, (2 * n,), 'real vector')
    true(not np.iscomplexobj(a), 'stacked vector must be real')
    same(a, np.r_[v.real, v.imag], 'stacked vector')
    same(cv(a), v0, 'complex(real(v))')
    u = vec(2 * n)
    same(rv(cv(u)), u, 'real(complex(u))')
    same(v, v0, 'input')
    x, y = mk(c), mk(c)
    X, Y = conv(x, c['kind']), conv(y, c['kind'])
    b = rm(X)
    shape(b, (2 * r, 2 * n), 'block matrix')
    true(not np.iscomplexobj(b.data if c['kind'] != 'dense' else b), 'block matrix must be real')
    same(b, np.vstack([np.hstack([x.real, -x.imag]), np.hstack([x.imag, x.real])]), 'block matrix')
    same(X, x, 'input matrix')
    if c['kind'] == 'dense': true(not sp.issparse(b), 'dense input must give a dense result')
    else: true(sp.issparse(b) and b.format == c['kind'] and type(b) is type(X), 'sparse format kept')
    same(b @ rv(v), rv(x @ v), 'block product')
    s = float(np.random.randn())
    same(rm(conv(x + s * y, c['kind'])), dense(b) + s * dense(rm(Y)), 'linearity')
    if c['kind'] != 'coo':
        z = cm(b)
        if c['kind'] != 'dense': true(sp.issparse(z) and z.format == c['kind'], 'make_complex_matrix keeps the format')
        same(z, x, 'complex(real(M))')
        g = mat(2 * r, 2 * n)
