from util import *
from src.models import matrix_operations as mo


def cases(rng, tier):
    for n in range(1, 13 if tier == 'quick' else 41): yield dict(kind='all', n=n, seed=n)
    for k in range(60 if tier == 'quick' else 1000): yield dict(kind='values', n=rng.randint(1, 14), seed=rng.randrange(10 ** 6))


def vech(M): return np.concatenate([M[j:, j] for j in range(M.shape[0])])


def check(c):
    n = c['n']
    D, E = dense(mo.duplication_matrix(n)), dense(mo.elimination_sym_matrix(n))
    q = n * (n + 1) // 2
    shape(D, (n * n, q), 'duplication matrix')
    shape(E, (q, n * n), 'elimination matrix')
    M = mat(n, n, 'c')
    Sy = (M + M.T) / 2
    same(D @ vech(Sy), Sy.flatten('F'), 'duplication of the lower triangle')
    same(E @ M.flatten('F'), vech(Sy), 'elimination gives the lower triangle of the symmetric part')
    same(E @ D, np.eye(q), 'elimination after duplication')
    same(D @ (E @ M.flatten('F')), Sy.flatten('F'), 'duplication after elimination')
