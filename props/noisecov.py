"""shared contracts of the three polar-noise covariance constructions"""
from engine.prove import *
from engine.npfake import *


def I(p): return S(norm(dp(p)), ZERO, 'i')


def F(p): return S(norm(P(p)), ZERO, 'f')


FUN = dict(average='average_true_noise_covariance', exact='exact_noise_covariance', naive='naive_noise_covariance')


def moments(kind, m, s, q):
    """documented radial and tangential variances (m, s, q: polynomials; s, q are variances)"""
    e = T.exp
    ch, sh = lambda x: (e(x) + e(-x)).scale(Fr(1, 2)), lambda x: (e(x) - e(-x)).scale(Fr(1, 2))
    if kind == 'average':
        return (e(q.scale(-2)) * (m * m * (ch(q.scale(2)) - ch(q)) + s * (ch(q.scale(2)).scale(2) - ch(q))),
                e(q.scale(-2)) * (m * m * (sh(q.scale(2)) - sh(q)) + s * (sh(q.scale(2)).scale(2) - sh(q))))
    if kind == 'exact':
        return e(-q) * (m * m * (ch(q) - ONE) + s * ch(q)), e(-q) * (m * m + s) * sh(q)
    return s, m * m * q


def setup(h, mod, kind, mode, inverted=False):
    """(function result, T, n, phasors, per-channel deviation as function of the channel)"""
    Tn, n = h.size('T'), h.size('n')
    x = h.polar('x', (Tn, n))
    ph = h.real('sp')
    if mode == 'common':
        sd = h.real('sm')
        dev = lambda i: sd.re
    else:
        sd = h.array('smv', (n,))
        dev = lambda i: sd[I(i)].re
    f = getattr(mod, FUN[kind])
    return (lambda inv=False: f(x, sd, ph, inv)), Tn, n, x, sd, dev, ph


def phasor(x, t, i):
    v = x[I(t), I(i)]
    return v.polar
