"""BayesianRegression.fit: one arbitrary iteration"""
from .fits import *


def run(B, L):
    B.functions |= {'BayesianRegression.fit', 'BayesianRegression.__init__'}

    def body(h):
        s = setup(h, L, 'BayesianRegression')
        def on_end(sp):
            ev = sp.events('spsolve')
            if len(ev) != 1: raise Unsupported('%d linear solves in one iteration' % len(ev))
            _, Am, bv, y = ev[0]
            A_ = rmat(s, design(s, s.x))
            b = rvec(s, vec(s.z))
            h.eq_arr('system matrix is A^T A + lambda M', Am, A_.T @ A_ + s.lam * sp.M)
            h.eq_arr('right-hand side is A^T b + lambda mu', bv, A_.T @ b + s.lam * sp.mu)
            e = last_entry(s)
            h.eq('entry number', e.iteration, S(sp.it, ZERO, 'i'))
            Y_ = unvec(s.DT @ cvec(s, y), (s.n, s.n))
            h.eq_arr('recorded matrix is DT y reshaped column-major', e.fitted_parameters, Y_)
            pr = s.prior.find(y)
            if pr is None:
                h.fail('prior evaluated at the new parameters', 'no such call')
                return
            r = b - A_ @ y
            h.eq('target is |r^T r + lambda penalty|', e.target_function, s.np.abs(r @ r + s.lam * pr['pen']))
            h.eq('builders called with n', s.sizes[0], s.n); h.eq('builders called with n (2)', s.sizes[1], s.n)
        start(s, on_end)
        s.m.fit(*s.args)
        for a in (s.x, s.z, s.y0, s.DT, s.E): h.unchanged('inputs not modified', a)
        if s.spec.phase == 'none': h.eq_arr('without iterations the initial matrix is returned', s.m.fitted_admittance_matrix, s.y0)
    B.verify('iteration', body)
