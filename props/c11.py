"""layout of the covariance blocks"""
from .noisecov import *


def run(B, L):
    mod = L.load('src.models.noise_transformation')
    for kind in FUN:
        B.functions |= {'noise_transformation.' + FUN[kind]}
        for inv in (False, True):
            def body(h, kind=kind, inv=inv):
                f, Tn, n, x, sd, dev, ph = setup(h, mod, kind, 'per channel')
                fun = getattr(mod, FUN[kind])
                V = f(inv)
                N = Tn * n
                if not h.shape('covariance', V, (2 * N, 2 * N)): return
                h.kind('real', V, 'f')
                h.true('sparse', V.fmt is not None)
                t, i = h.index(Tn), h.index(n)
                k = I(t + dp(Tn) * i)
                # channel i, sample t taken alone give the same block
                one = x[I(t):I(t) + 1, I(i):I(i) + 1]
                Z = fun(one, sd[I(i):I(i) + 1], ph, inv)
                for r1, a in (('re', k), ('im', k + N)):
                    for c1, b in (('re', k), ('im', k + N)):
                        h.eq('entry t+T*i of block (%s,%s) belongs to sample t of channel i' % (r1, c1), V[a, b], Z[0 if r1 == 're' else 1, 0 if c1 == 're' else 1])
                t2, i2 = h.index(Tn), h.index(n)
                k2 = I(t2 + dp(Tn) * i2)
                diff = 1 - (k2 == k)
                for r in (k, k + N):
                    for c in (k2, k2 + N): h.eq('blocks are diagonal', V[r, c] * diff, F(ZERO))
            B.verify('%s[inverted=%s]: layout' % (FUN[kind], inv), body)

            def rep(h, kind=kind, inv=inv):
                Tn, n = h.size('T'), h.size('n')
                x = h.polar('x', (Tn, n))
                s, ph = h.real('sm'), h.real('sp')
                fun = getattr(mod, FUN[kind])
                V, W = fun(x, s, ph, inv), fun(x, L.np.ones(n) * s, ph, inv)
                N = Tn * n
                t, i = h.index(Tn), h.index(n)
                k = I(t + dp(Tn) * i)
                h.shape('common deviation', V, (2 * N, 2 * N)); h.shape('repeated deviation', W, (2 * N, 2 * N))
                for a in (k, k + N):
                    for b in (k, k + N): h.eq('repeating a common deviation changes nothing', V[a, b], W[a, b])
            B.verify('%s[inverted=%s]: common deviation' % (FUN[kind], inv), rep)
