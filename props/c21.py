"""Kron reduction: any admittance matrix, any duplicate-free list of nodes in any order"""
from engine.prove import *
from engine.npfake import *
from engine.sym import RangeS
from engine import ctx as X, terms as T
ASSUME = ['the eliminated block is invertible in the equivalent-network lemma (otherwise no equivalent network exists)']


def run(B, L):
    net = L.load('src.simulation.network')
    np = L.np
    B.functions |= {'Net.kron_reduction'}

    def mk(own=None):
        class W(net.NetData):
            def __init__(self): pass
            def make_y_bus(self):
                if own is None: raise Unsupported('make_y_bus')
                return own
        return W()


    for own in (False, True):
        for kind in ('c', 'f'):
            def body(h, own=own, kind=kind):
                n, k = h.size('n'), h.size('k')
                Yb = h.array('Y', (n, n), kind)
                idx = h.indices('I', (k,), 0, n, inj=(0,))
                K = SSetRange(n, idx)
                R = mk(Yb).kron_reduction(idx) if own else mk().kron_reduction(idx, Yb)
                S_ = lambda inverse: Yb[K, :][:, K] - Yb[K, :][:, idx] @ inverse(Yb[idx, :][:, idx]) @ Yb[idx, :][:, K]
                if not h.shape('reduced matrix', R, (K.shape[0], K.shape[0])): return
                h.either(*[lambda f=f: h.eq_arr('Schur complement over the kept nodes in increasing order', R, S_(f)) for f in (np.linalg.pinv, np.linalg.inv)])
                h.unchanged('admittance matrix not modified', Yb)
            B.verify('schur complement [%s%s]' % (kind, ', own admittance matrix' if own else ''), body)

    def lemma(h):
        """blocks over kept and eliminated nodes as opaque matrices"""
        p, k = h.size('p'), h.size('k')
        Ykk, Yki, Yik, Yii, v = [h.array(n_, s, 'c') for n_, s in (('Ykk', (p, p)), ('Yki', (p, k)), ('Yik', (k, p)), ('Yii', (k, k)), ('v', (p, 1)))]
        J = np.linalg.inv(Yii)
        vi = -(J @ (Yik @ v))
        h.eq_arr('these are the voltages at which eliminated nodes inject nothing', Yik @ v + Yii @ vi, np.zeros((k, 1)))
        h.eq_arr('currents at the kept nodes', Ykk @ v + Yki @ vi, (Ykk - Yki @ J @ Yik) @ v)
        M_ = np.linalg.pinv(Yii)
        h.eq_arr('the pseudo-inverse of an invertible block is its inverse', M_ @ Yii @ J, M_)
    B.verify('equivalent network', lemma)


def SSetRange(n, idx):
    s = to_sset(RangeS(0, n)) - to_sset(idx)
    return np_array(s.sorted())


