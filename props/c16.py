"""BayesianEIVRegression.fit, branch without weights: one arbitrary iteration"""
from .fits import *


def run(B, L):
    B.functions |= {'BayesianEIVRegression.fit', 'BayesianEIVRegression.__init__'}

    def body(h):
        s = setup(h, L, 'BayesianEIVRegression', weighted=False)
        np = s.np
        def on_end(sp):
            ev = sp.events('spsolve')
            if len(ev) != 1: raise Unsupported('%d linear solves in one unweighted iteration' % len(ev))
            (_, Am, bv, y), = ev
            Y = sp.mat
            # the power-flow equations x Y - z = 0 read [x z] N = 0 with N = [Y; -I]; the orthogonal projector
            # on the complement of the range of N is I - N (N^H N)^-1 N^H
            N = np.vstack((Y, -np.eye(s.n)))
            NH = np.conj(N).T
            Pj = np.eye(s.n * 2) - N @ np.linalg.inv(NH @ N) @ NH
            xc = (np.hstack((s.x, s.z)) @ Pj)[:, :s.n]
            b = rvec(s, vec(s.z))
            d = rvec(s, vec(s.x - xc))
            Bm = rmat(s, design(s, xc))
            h.eq_arr('parameter system matrix B^T B + lambda M', Am, Bm.T @ Bm + s.lam * sp.M)
            h.eq_arr('parameter right-hand side B^T b + lambda mu', bv, Bm.T @ b + s.lam * sp.mu)
            e = last_entry(s)
            h.eq_arr('recorded matrix is DT y reshaped column-major', e.fitted_parameters, unvec(s.DT @ cvec(s, y), (s.n, s.n)))
            pr = s.prior.find(y)
            if pr is None:
                h.fail('prior evaluated at the new parameters', 'no such call')
                return
            r = b - Bm @ y
            h.eq('target is |r^T r + d^T d + lambda penalty|', e.target_function, s.np.abs(r @ r + d @ d + s.lam * pr['pen']))
        start(s, on_end)
        s.m.fit(*s.args)
        for a in (s.x, s.z, s.y0, s.DT, s.E): h.unchanged('inputs not modified', a)
    B.verify('unweighted iteration', body)
