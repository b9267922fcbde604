import numpy as np
from util import *
from src.models.matrix_operations import vectorize_matrix, unvectorize_matrix


def cases(rng, tier):
    n = 300 if tier == 'quick' else 20000
    for k in range(n):
        yield dict(kind='c' if rng.random() < .5 else 'f', r=rng.randint(1, 7), c=rng.randint(1, 7), seed=rng.randrange(10 ** 6))


def check(c):
    r, k = c['r'], c['c']
    m = mat(r, k, c['kind'])
    m0 = m.copy()
    v = vectorize_matrix(m)
    shape(v, (r * k,), 'vectorised')
    for i in range(r):
        for j in range(k): eq(v[i + r * j], m[i, j], 'vec[%d+r*%d]' % (i, j))
    same(unvectorize_matrix(v, (r, k)), m0, 'unvec(vec(m))')
    w = mat(r * k, 1, c['kind'])[:, 0]
    w0 = w.copy()
    u = unvectorize_matrix(w, (r, k))
    shape(u, (r, k), 'unvectorised')
    for i in range(r):
        for j in range(k): eq(u[i, j], w[i + r * j], 'unvec[%d,%d]' % (i, j))
    same(vectorize_matrix(u), w0, 'vec(unvec(w))')
    same(m, m0, 'input matrix'); same(w, w0, 'input vector')
