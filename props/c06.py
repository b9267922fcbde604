"""BayesianPrior / SmoothPrior / SparseSmoothPrior: every add_*_prior appends the documented rows and leaves the others"""
from engine.prove import *
from engine.npfake import *


def I(p): return S(norm(dp(p)), ZERO, 'i')


KINDS = ('exact', 'exact_adaptive', 'sparsity', 'adaptive_sparsity', 'contrast', 'ratios')


def run(B, L):
    bp = L.load('src.models.bayesian_prior')
    sm = L.load('src.models.smooth_prior')
    classes = dict(BayesianPrior=(bp.BayesianPrior, False), SmoothPrior=(sm.SmoothPrior, True), SparseSmoothPrior=(sm.SparseSmoothPrior, True))
    for cname, (cls, smooth) in classes.items():
        B.functions |= {'%s.%s' % (cname, '__init__')} | {'%s.add_%s_prior' % (cname, k) for k in KINDS}
        fmt = 'csr' if cname == 'SparseSmoothPrior' else None

        def make(h, cls=cls, smooth=smooth, fmt=fmt):
            """an arbitrary well-formed prior with r rows over n parameters"""
            n, r = h.size('n'), h.size('r', 0)
            p = cls(h.real('alpha', pos=True), n) if smooth else cls(n)
            p.L = h.array('L', (r, n), 'f', fmt)
            p.mu = h.array('mu', (r,))
            if smooth: p.gamma = h.array('gamma', (r,))
            return p, n, r

        def fresh_(h, cls=cls, smooth=smooth, fmt=fmt):
            n = h.size('n')
            p = cls(h.real('alpha', pos=True), n) if smooth else cls(n)
            h.shape('L', p.L, (0, n)); h.shape('mu', p.mu, (0,))
            h.eq('n', p.n, n)
            h.true('format', p.L.fmt == fmt)
            if smooth: h.shape('gamma', p.gamma, (0,))
        B.verify('%s: new prior is empty' % cname, fresh_)

        def copy_(h, cls=cls, smooth=smooth, fmt=fmt, make=make):
            p, n, r = make(h)
            q = cls(h.real('beta', pos=True), other=p) if smooth else cls(other=p)
            h.eq_arr('L', q.L, p.L); h.eq_arr('mu', q.mu, p.mu); h.eq('n', q.n, n)
            h.true('format', q.L.fmt == fmt)
            if smooth: h.eq_arr('gamma', q.gamma, p.gamma)
        B.verify('%s: copying keeps the terms' % cname, copy_)

        for kind in KINDS:
            for wmode in ('none', 'scalar', 'vector') if kind != 'adaptive_sparsity' else ('none',):
                for omode in (('default', 'scalar', 'vector') if smooth and wmode == 'none' else ('default',)):
                    def body(h, cls=cls, smooth=smooth, fmt=fmt, kind=kind, wmode=wmode, omode=omode, make=make, cname=cname):
                        p, n, r = make(h)
                        L0, mu0 = p.L.copy(), p.mu.copy()
                        g0 = p.gamma.copy() if smooth else None
                        q = h.size('q')
                        w = dict(none=None, scalar=h.real('w'), vector=h.array('w', (q,)))[wmode]
                        if kind == 'contrast':
                            k = h.size('k')
                            ind = h.indices('ind', (q, k), 0, n, (1,))
                        elif kind == 'ratios': ind = h.indices('ind', (q, 2), 0, n, (1,))
                        else: ind = h.indices('ind', (q,), 0, n)
                        v = h.array('v', (q,), pos=False)
                        i = h.index(q)
                        if kind in ('exact_adaptive', 'adaptive_sparsity', 'contrast'):
                            C().appnz.add('v')
                        kw = {}
                        if smooth and omode != 'default': kw['orders'] = dict(scalar=h.real('o'), vector=h.array('o', (q,)))[omode]
                        f = getattr(p, 'add_%s_prior' % kind)
                        args = [ind] + ([v] if kind != 'sparsity' else []) + ([w] if wmode != 'none' else [])
                        f(*args, **kw)
                        if not h.shape('rows', p.L, (r + q, n)): return
                        if not h.shape('centres', p.mu, (r + q,)): return
                        h.true('format', p.L.fmt == fmt)
                        h.eq_arr('earlier rows unchanged', p.L[:r, :], L0)
                        h.eq_arr('earlier centres unchanged', p.mu[:r], mu0)
                        if smooth:
                            if not h.shape('orders', p.gamma, (r + q,)): return
                            h.eq_arr('earlier orders unchanged', p.gamma[:r], g0)
                            o = kw.get('orders', S(P(2), ZERO, 'i'))
                            h.eq('order of the new row', p.gamma[I(i) + r], o[I(i)] if omode == 'vector' else o)
                        # weighted residual of the new row at an arbitrary parameter vector
                        x = h.array('x', (n,))
                        res = (p.L @ x - p.mu)[I(i) + r]
                        wi = S(ONE) if wmode == 'none' else w if wmode == 'scalar' else w[I(i)]
                        vi = v[I(i)]
                        k2 = kind
                        if kind == 'exact_adaptive' and cname != 'BayesianPrior': k2 = 'exact'      # as implemented and used
                        if k2 == 'exact': want = wi * (x[ind[I(i)]] - vi)
                        elif k2 == 'exact_adaptive': want = wi * (x[ind[I(i)]] / vi - 1)
                        elif k2 == 'sparsity': want = wi * x[ind[I(i)]]
                        elif k2 == 'adaptive_sparsity': want = x[ind[I(i)]] / vi
                        elif k2 == 'contrast':
                            s = Sum([k], lambda j: x[ind[I(i), I(j)]].re)
                            want = wi * (S(s) / vi - 1)
                        else: want = wi * (x[ind[I(i), 0]] - vi * x[ind[I(i), 1]])
                        h.eq('weighted residual', res, want)
                        h.unchanged('indices', ind); h.unchanged('values', v)
                        if isinstance(w, A): h.unchanged('weights', w)
                    B.verify('%s.add_%s_prior[weights %s, orders %s]' % (cname, kind, wmode, omode), body)
