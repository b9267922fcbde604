"""ComplexRegression.fit"""
from engine.prove import *
from engine.npfake import *
from engine import mx as M


def run(B, L):
    mod = L.load('src.models.regression')
    B.functions |= {'ComplexRegression.fit', 'GridIdentificationModel.fitted_admittance_matrix'}
    np = L.np

    def ols(h):
        t, n, m = h.size('T', 2), h.size('n', 4), h.size('m', 4)
        x, z = h.array('x', (t, n), 'c'), h.array('z', (t, m), 'c')
        r = mod.ComplexRegression()
        r.fit(x, z)
        y = r.fitted_admittance_matrix
        if not h.shape('result', y, (n, m)): return
        xh = x.conj().T
        h.eq_arr('normal equations x^H x y = x^H z', xh @ x @ y, xh @ z)
        P_ = np.linalg.pinv(x)
        h.eq_arr('minimum norm: y = pinv(x) x y (rows in the row space of x)', P_ @ x @ y, y)
        h.unchanged('x not modified', x); h.unchanged('z not modified', z)
    B.verify('least squares', ols)

    def exact(h):
        t, n, m = h.size('T', 2), h.size('n', 4), h.size('m', 4)
        x, y0 = h.array('x', (t, n), 'c'), h.array('y0', (n, m), 'c')
        M.FULLCOL.add(M.leaf_key(x))
        r = mod.ComplexRegression()
        r.fit(x, x @ y0)
        h.eq_arr('exact data give the exact matrix', r.fitted_admittance_matrix, y0)
    B.verify('exact recovery', exact)
