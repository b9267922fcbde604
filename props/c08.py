"""average_true_noise_covariance: moments of the averaged covariance"""
from .noisecov import *


def run(B, L, kinds=('average',)):
    mod = L.load('src.models.noise_transformation')
    for kind in kinds:
        B.functions |= {'noise_transformation.' + FUN[kind]}
        if kind == 'average': B.functions |= {'noise_transformation.average_true_var_real', 'noise_transformation.average_true_var_imag', 'noise_transformation.average_true_cov'}
        for mode in ('common', 'per channel'):
            def body(h, kind=kind, mode=mode):
                f, Tn, n, x, sd, dev, ph = setup(h, mod, kind, mode)
                V = f()
                N = Tn * n
                if not h.shape('covariance', V, (2 * N, 2 * N)): return
                h.kind('real', V, 'f')
                t, i = h.index(Tn), h.index(n)
                k = I(t + dp(Tn) * i)
                m, a = phasor(x, t, i)
                rad, tan = moments(kind, m, dev(i) * dev(i), ph.re * ph.re)
                c, s = T.cos(a), T.sin(a)
                rr, ii, ri, ir = V[k, k], V[k + N, k + N], V[k, k + N], V[k + N, k]
                h.eq('real variance is the rotated diagonal', rr, F(c * c * rad + s * s * tan))
                h.eq('imaginary variance is the rotated diagonal', ii, F(s * s * rad + c * c * tan))
                h.eq('real-imaginary covariance is the rotated diagonal', ri, F(s * c * (rad - tan)))
                h.eq('symmetric', ir, ri)
                u, v = h.real('u').re, h.real('v').re
                quad = u * u * rr.re + (u * v * ri.re).scale(2) + v * v * ii.re
                h.zero('quadratic form is a sum of squares along and across the phasor', quad - (rad * (c * u + s * v) ** 2 + tan * (c * v - s * u) ** 2))
                h.unchanged('measurements not modified', x)
            B.verify('%s[%s]: rotated moments' % (FUN[kind], mode), body)

        def psd(h, kind=kind):
            # radial and tangential variances are non-negative: exp(q) >= 1 because q is a squared deviation
            m, q = h.real('m').re, h.real('q', nonneg=True).re
            E = fresh('E', 'R')                       # stands for exp(q) >= 1
            C().assume_le(ONE - E)
            C().nonzero.add(E)
            s = h.real('s', nonneg=True).re
            rad, tan = moments(kind, m, s, q)
            eq = the_atom(T.exp(q)) if T.exp(q).const() is None else None
            for nm, p in (('radial', rad), ('tangential', tan)):
                # multiply by exp(4q) > 0 and write the exponentials as powers of E
                p4 = norm(p * T.exp(q.scale(4)))
                pe = as_powers(p4, q, E)
                h.true('%s variance is non-negative' % nm, pe is not None and C().check([('gt', -pe)]) == 'unsat')
        B.verify('%s: positive semi-definite' % FUN[kind], psd)


def as_powers(p, q, E):
    """replace exp(k q), k >= 0 integer, by E^k"""
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for aid, e in m:
            a = T._byid[aid]
            if a.op == 'exp':
                r = X.ratio(a.args[0], q) if hasattr(X, 'ratio') else ratio(a.args[0], q)
                if r is None or r * e < 0 or (r * e).denominator != 1: return None
                t = t * E ** int(r * e)
            else: t = t * atom_poly(a) ** e
        out = out + t
    return out


def ratio(p, q):
    if len(p.d) != 1 or len(q.d) != 1: return None
    (m1, c1), (m2, c2) = next(iter(p.d.items())), next(iter(q.d.items()))
    return c1 / c2 if m1 == m2 else None
