"""SmoothPrior.log_distribution / SparseSmoothPrior.log_distribution"""
from engine.prove import *
from engine.npfake import *


def I(p): return S(norm(dp(p)), ZERO, 'i')


def run(B, L):
    sm = L.load('src.models.smooth_prior')
    import numpy as onp
    np = L.np
    B.functions |= {'SmoothPrior.log_distribution', 'SparseSmoothPrior.log_distribution'}
    for cname in ('SmoothPrior', 'SparseSmoothPrior'):
        for xs in ('1d', '2d'):
            def body(h, cname=cname, xs=xs):
                cls = getattr(sm, cname)
                n, r = h.size('n', 2 if xs == '2d' else 1), h.size('r', 2)
                p = cls(h.real('alpha', pos=True), n)
                al = p.alpha
                Lm, mu, ga = h.array('L', (r, n), 'f', 'csr' if cname.startswith('Sparse') else None), h.array('mu', (r,)), h.array('gamma', (r,))
                p.L, p.mu, p.gamma = Lm, mu, ga
                x = h.array('x', (n,) if xs == '1d' else (n, 1))
                Am, b, pen = p.log_distribution(x)
                if not (h.shape('A', Am, (n, n)) and h.shape('b', b, (n,))): return
                xv = (lambda j: x[I(j)]) if xs == '1d' else (lambda j: x[I(j), 0])
                def W(k):
                    """documented inverse weight of row k"""
                    res = S(Sum([n], lambda j: Lm[I(k), I(j)].re * xv(j).re)) - mu[I(k)]
                    return abs(res) ** (S(P(2), ZERO, 'i') - ga[I(k)]) + al
                i, j = h.index(n), h.index(n)
                h.eq('A = L^T W L', Am[I(i), I(j)], S(Sum([r], lambda k: (Lm[I(k), I(i)] * Lm[I(k), I(j)] / W(k)).re)))
                h.eq('b = L^T W mu', b[I(i)], S(Sum([r], lambda k: (Lm[I(k), I(i)] * mu[I(k)] / W(k)).re)))
                h.eq('penalty = sum of the inverse weights', pen, S(Sum([r], lambda k: W(k).re)))
                h.eq('A symmetric', Am[I(i), I(j)], Am[I(j), I(i)])
                # positive semi-definite: v^T A v is a sum of squares with positive weights
                v = h.array('v', (n,))
                quad = S(Sum([n, n], lambda a, c: (v[I(a)] * Am[I(a), I(c)] * v[I(c)]).re))
                sq = S(Sum([r], lambda k: (lambda u: (u * u / W(k)).re)(S(Sum([n], lambda a: (Lm[I(k), I(a)] * v[I(a)]).re)))))
                h.eq('v^T A v = sum of (row . v)^2 W', quad, sq)
                k = h.index(r)
                h.true('weights are positive', C().check([('le', W(k).re)]) == 'unsat')
                for a_ in (Lm, mu, ga, x): h.unchanged('inputs not modified', a_)
            B.verify('%s.log_distribution[%s]' % (cname, xs), body)
