"""structure of the identified matrices: one arbitrary iteration of each estimator with a structured reconstruction matrix"""
from .fits import *
ASSUME = ['the reconstruction matrix used by the estimators is structured; that the real duplication and Laplacian matrices are is decided by C03 and C04']


def symmetric(h, s):
    """any matrix whose columns are vectorised symmetric matrices: entry [i + n j, k] unchanged by exchanging i and j"""
    n = dp(s.n)
    def F(i, j, k): return app('F', [i, j, k])
    def el(r, k):
        j = X.idiv(r, n)
        i = norm(r - n * j)
        return S(norm(F(i, j, k) + F(j, i, k)))
    return A((s.n * s.n, s.q), 'f', el)


def laplacian(h, s):
    """any matrix whose columns are vectorised symmetric matrices with zero row sums"""
    n = dp(s.n)
    def G(i, j, k): return app('F', [i, j, k]) + app('F', [j, i, k])
    def el(r, k):
        j = X.idiv(r, n)
        i = norm(r - n * j)
        tot = SumS([s.n], lambda l: S(G(i, P(l), k)), 'f')
        return S(norm(G(i, j, k) - X.dec_eq(i - j) * tot.re))
    return A((s.n * s.n, s.q), 'f', el)


def run(B, L):
    m = L.load('src.models.matrix_operations')

    def body0(h):
        n = h.size('n')
        N = dp(n)
        D = m.duplication_matrix(n)
        if not h.shape('duplication matrix', D, (n * n, n * (n + 1) // 2)): return
        y = h.array('y', (n * (n + 1) // 2,), 'c')
        Yv = D @ y
        a = h.index(n)
        b = fresh('b', 'I')
        C().rng(b, 0, a + 1)
        h.eq('the matrix rebuilt by the duplication matrix is symmetric', Yv[S(norm(a + N * b), ZERO, 'i')], Yv[S(norm(b + N * a), ZERO, 'i')])
    B.verify('symmetric parametrisation', body0)

    B.functions |= {'BayesianRegression.fit', 'BayesianEIVRegression.fit', 'matrix_operations.duplication_matrix'}
    for cls, weighted in (('BayesianRegression', False), ('BayesianEIVRegression', False), ('BayesianEIVRegression', True)):
        name = cls + ('' if cls == 'BayesianRegression' else ' weighted' if weighted else ' unweighted')
        for shape in ('symmetric', 'Laplacian', 'any linear parametrisation'):
            def body(h, cls=cls, weighted=weighted, shape=shape):
                s = setup(h, L, cls, weights='csr', weighted=weighted, dt=dict(symmetric=symmetric, Laplacian=laplacian).get(shape))
                zero = lambda: A((s.n,), 'c', lambda i: S(ZERO, ZERO, 'c'))
                def on_end(sp):
                    Y_ = last_entry(s).fitted_parameters
                    if not h.shape('recorded matrix', Y_, (s.n, s.n)): return
                    if shape[0] == 'a':
                        ev = sp.events('spsolve')
                        if not ev: raise Unsupported('no linear solve')
                        h.eq_arr('recorded matrix is DT applied to one parameter vector', Y_, unvec(s.DT @ cvec(s, ev[-1][3]), (s.n, s.n)))
                        return
                    if shape[0] == 'L':
                        h.eq_arr('rows of the recorded matrix sum to zero', s.np.sum(Y_, axis=1), zero())
                        h.eq_arr('columns of the recorded matrix sum to zero', s.np.sum(Y_, axis=0), zero())
                    i, j = h.index(s.n), h.index(s.n)
                    h.eq('recorded matrix equals its transpose', Y_[S(P(i), ZERO, 'i'), S(P(j), ZERO, 'i')], Y_[S(P(j), ZERO, 'i'), S(P(i), ZERO, 'i')])
                sp = start(s, on_end)
                s.m.fit(*s.args)
                if sp.ran: h.eq_arr('returned matrix is the recorded one', s.m.fitted_admittance_matrix, s.m.iterations[-1].fitted_parameters)
            B.verify('%s: %s' % (name, shape), body)
