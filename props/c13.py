"""TotalLeastSquares.fit"""
from engine.prove import *
from engine.npfake import *
from engine import mx as M


def run(B, L):
    mod = L.load('src.models.error_in_variable')
    B.functions |= {'TotalLeastSquares.fit', 'GridIdentificationModel.fitted_admittance_matrix'}
    np = L.np

    def tls(h, m_=None):
        t, n = h.size('T', 2), h.size('n', 4)
        m = m_ if m_ is not None else h.size('m', 4)
        x = h.array('x', (t, n), 'c')
        y = h.array('y', (t, m) if m_ != 'vec' else (t,), 'c')
        if m_ == 'vec': m = 1
        r = mod.TotalLeastSquares()
        r.fit(x, y)
        b = r.fitted_admittance_matrix
        ev = [e for e in NP.EVENTS if e[0] == 'svd']
        if len(ev) != 1:
            raise Unsupported('%d singular value decompositions' % len(ev))
        _, data, u, s, vh = ev[0]
        y2 = y if y.ndim == 2 else y.reshape((t, 1))
        if not h.shape('decomposed matrix', data, (t, n + m)): return
        h.eq_arr('the stacked data are decomposed', data, np.hstack([x, y2]))
        V2 = vh.conj().T[:, n:]
        vxy, vyy = V2[:n, :], V2[n:, :]
        if m_ is not None:
            if not h.shape('one-dimensional for a single output', b, (n,)): return
            b = b.reshape((n, 1))
        elif not h.shape('result', b, (n, m)): return
        # [b; -I] = V2 K with K = -inv(v_yy): the columns lie in the span of the trailing right singular vectors
        K = -np.linalg.inv(vyy)
        h.eq_arr('upper block of [b; -I] is V2 K', b, vxy @ K)
        if m_ is None: h.eq_arr('lower block of [b; -I] is V2 K', vyy @ K, -np.eye(m))
        else: h.eq('lower block', (vyy @ K)[0, 0], S(-ONE))
        # exactness: x b - y = -([x y] V2) inv(v_yy), and [x y] V2 = 0 for noise-free full-column-rank data
        if m_ is None:
            h.eq_arr('(x b - y) v_yy = [x y] V2 (zero for noise-free data)', (x @ b - y2) @ vyy, -(x @ vxy + y2 @ vyy))
        h.unchanged('x not modified', x); h.unchanged('y not modified', y)
    B.verify('several outputs', tls)
    B.verify('single output, one-dimensional', lambda h: tls(h, 'vec'))
    B.verify('single output, one column', lambda h: tls(h, 1))
