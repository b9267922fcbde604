"""error metrics against their defining sums, vectors and matrices, real and complex"""
from engine.prove import *
from engine.npfake import *
from engine import ctx as X
ASSUME = ['numpy.max returns the largest element (library contract)',
          'the true parameters are not all zero (relative metrics are undefined otherwise)']


def run(B, L):
    m = L.load('src.models.error_metrics')
    np = L.np
    B.functions |= {'error_metrics.' + f for f in ('fro_error', 'max_error', 'rrms_error', 'map_error', 'error_metrics')}
    for nd in (1, 2):
        for kind in ('f', 'c'):
            def body(h, nd=nd, kind=kind):
                sh = (h.size('r'),) if nd == 1 else (h.size('r'), h.size('c'))
                y, e = h.array('y', sh, kind), h.array('e', sh, kind)
                fy, fe = y.snap(), e.snap()
                def total(g): return SumS(list(sh), lambda *i: g(toS(fy(*i)), toS(fe(*i))), 'f')
                sq = lambda v: v.re * v.re + v.im * v.im
                nz = lambda v: ONE - X.dec_eq(v.re) * (X.dec_eq(v.im) if kind == 'c' else ONE)
                d2 = total(lambda a, b: S(sq(toS(sbin('sub', a, b)))))
                y2 = total(lambda a, b: S(sq(a)))
                m2 = total(lambda a, b: S(nz(a) * sq(toS(sbin('sub', a, b)))))
                n2 = total(lambda a, b: S(nz(a) * sq(a)))
                for t in (y2, n2): C().nonzero.add(norm(t.re))
                want = dict(fro_error=np.sqrt(d2), rrms_error=np.sqrt(d2) / np.sqrt(y2) * 100, map_error=np.sqrt(m2) / np.sqrt(n2) * 100)
                rec = m.error_metrics(y, e)
                for k, v in want.items():
                    h.eq(k, getattr(m, k)(y, e), v)
                    h.eq('recorded ' + k, getattr(rec, k), v)
                mx = m.max_error(y, e)
                h.eq('max_error', mx, np.max(np.abs(y - e)))
                h.eq('recorded max_error', rec.max_error, mx)
                h.unchanged('true parameters not modified', y)
                h.unchanged('estimates not modified', e)
            B.verify('%s %s' % ('complex' if kind == 'c' else 'real', ('vectors', 'matrices')[nd - 1]), body)
