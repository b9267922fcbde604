from util import *
from src.models import matrix_operations as mo
from c03 import vech, cases


def check(c):
    n = c['n']
    q, p = n * (n + 1) // 2, n * (n - 1) // 2
    Tm = dense(mo.transformation_matrix(n))
    shape(Tm, (q, p), 'transformation matrix')
    w = mat(1, p, 'c')[0]
    Y = np.zeros((n, n), complex)
    k = 0
    for j in range(n):
        for i in range(j + 1, n):
            Y[i, j] = Y[j, i] = -w[k]
            k += 1
    Y -= np.diag(Y.sum(axis=1))
    same(Tm @ w, vech(Y), 'lower triangle of the Laplacian matrix')
    E = dense(mo.elimination_lap_matrix(n))
    shape(E, (p, q), 'Laplacian elimination matrix')
    same(E @ Tm, np.eye(p), 'elimination after transformation')
    M = mat(n, n, 'c')
    M = M + M.T
    off = np.array([-M[i, j] for j in range(n) for i in range(j + 1, n)])
    same(E @ vech(M), off, 'negated off-diagonal entries')
