"""BayesianEIVRegression.fit, weighted branch: one arbitrary iteration"""
from .fits import *


def kronI(s, y):
    """y kron I_T: entry [t + T i, u + T j] = y[i, j] if t = u else 0"""
    f, T_ = arr(y).snap(), dp(s.T)
    N = s.T * s.n
    def el(r, c):
        i, j = X.idiv(r, T_), X.idiv(c, T_)
        d = X.dec_eq(norm((r - T_ * i) - (c - T_ * j)))
        v = toS(f(i, j))
        return S(d * v.re, d * v.im, v.kind)
    return A((N, N), 'c', el)


PARTS = ('correction system', 'correction right-hand side', 'parameter system', 'parameter right-hand side', 'estimate', 'target')


def run(B, L):
    B.functions |= {'BayesianEIVRegression.fit', 'BayesianEIVRegression.__init__'}

    for fmt in (None, 'csr'):
      for part in PARTS:
        def body(h, fmt=fmt, part=part):
            s = setup(h, L, 'BayesianEIVRegression', weights=fmt)
            def on_end(sp):
                ev = sp.events('spsolve')
                if len(ev) != 2: raise Unsupported('%d linear solves in one weighted iteration' % len(ev))
                (_, Ad, bd, d), (_, Am, bv, y) = ev
                a, b = rvec(s, vec(s.x)), rvec(s, vec(s.z))
                Yb = rmat(s, kronI(s, sp.mat))
                Wx, Wz = s.Wx, s.Wz
                if part == 'correction system': h.eq_arr('correction system matrix Y^T Wz Y + Wx', Ad, Yb.T @ Wz @ Yb + Wx)
                elif part == 'correction right-hand side':
                    h.eq_arr('correction right-hand side Y^T Wz Y a - Y^T Wz b', bd, Yb.T @ Wz @ Yb @ a - Yb.T @ Wz @ b)
                xc = s.x - unvec(cvec(s, d), (s.T, s.n))
                Bm = rmat(s, design(s, xc))
                if part == 'parameter system': h.eq_arr('parameter system matrix B^T Wz B + lambda M', Am, Bm.T @ Wz @ Bm + s.lam * sp.M)
                elif part == 'parameter right-hand side':
                    h.eq_arr('parameter right-hand side B^T Wz b + lambda mu', bv, Bm.T @ Wz @ b + s.lam * sp.mu)
                e = last_entry(s)
                if part == 'estimate':
                    h.eq_arr('recorded matrix is DT y reshaped column-major', e.fitted_parameters, unvec(s.DT @ cvec(s, y), (s.n, s.n)))
                pr = s.prior.find(y)
                if pr is None:
                    h.fail('prior evaluated at the new parameters', 'no such call')
                    return
                r = b - Bm @ y
                if part == 'target':
                    h.eq('target is |r^T Wz r + d^T Wx d + lambda penalty|', e.target_function,
                         s.np.abs(r @ (Wz @ r) + d @ (Wx @ d) + s.lam * pr['pen']))
            start(s, on_end)
            s.m.fit(*s.args)
            if part == 'estimate':
              for a in (s.x, s.z, s.y0, s.DT, s.E, s.Wx, s.Wz): h.unchanged('inputs not modified', a)
        B.verify('weighted iteration[weights %s]: %s' % (fmt or 'dense', part), body)
