"""inverted=True returns the matrix inverse"""
from .noisecov import *


def run(B, L):
    mod = L.load('src.models.noise_transformation')
    helpers = [(nm, getattr(mod, nm, None)) for nm in ('average_true_var_real', 'average_true_var_imag', 'average_true_cov')]
    for nm, real in helpers:
        if real is None: continue

        def entrywise(h, real=real):
            n = h.size('n')
            x = h.polar('x', (n,))
            s, q = h.real('sm'), h.real('sp')
            r = real(x, s, q)
            if not h.shape('result', r, (n,)): return
            i = h.index(n)
            h.eq('entry depends on its own phasor only', r[I(i)], real(x[I(i):I(i) + 1], s, q)[0])
        B.verify('%s acts entry by entry' % nm, entrywise)

    def summary(nm):
        # contract used by the callers: a real number determined by the phasor and the two deviations
        def g(meas, s, q):
            s, q = toS(s).re, toS(q).re
            mm = L.np.abs(meas)
            ff = L.np.angle(meas)
            return A(mm.shape_, 'f', lambda *i: S(app('contract_' + nm, [toS(mm.get(i)).re, toS(ff.get(i)).re, s, q])))
        return g
    for kind in FUN:
        B.functions |= {'noise_transformation.' + FUN[kind]}
        for mode in ('common', 'per channel'):
            def body(h, kind=kind, mode=mode):
                f, Tn, n, x, sd, dev, ph = setup(h, mod, kind, mode)
                N = Tn * n
                if kind == 'average':
                    for nm, real in helpers:
                        if real is not None: setattr(mod, nm, summary(nm))
                V = f()
                # precondition: every 2x2 block is invertible with non-zero variances
                t, i = h.index(Tn), h.index(n)
                k = I(t + dp(Tn) * i)
                a, b, d = V[k, k].re, V[k, k + N].re, V[k + N, k + N].re
                for p in (a, d, norm(a * d - b * b)): C().nonzero.add(norm(p))
                C()._touch()
                W = f(True)
                if not h.shape('inverse', W, (2 * N, 2 * N)): return
                rows = dict(re=k, im=k + N)
                for rn, r in rows.items():
                    for cn, c in rows.items():
                        tot = V[r, k] * W[k, c] + V[r, k + N] * W[k + N, c]
                        h.eq('block product (%s,%s)' % (rn, cn), tot, F(ONE if rn == cn else ZERO))
                t2, i2 = h.index(Tn), h.index(n)
                k2 = I(t2 + dp(Tn) * i2)
                diff = 1 - (k2 == k)
                for r in (k, k + N):
                    for c in (k2, k2 + N): h.eq('entries of different samples are zero', W[r, c] * diff, F(ZERO))
            B.verify('%s[%s]: inverse' % (FUN[kind], mode), body)
