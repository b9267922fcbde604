"""resampling: interpolation of the own column, own deviations, plain averages of consecutive blocks"""
from engine.prove import *
from engine.npfake import *

ASSUME = ['scipy.interpolate.interp1d(x, y)(t) depends on x, t and linearly on the ordinates y (value at t: sum over s of y[s] times a coefficient fixed by x and t)',
          'a noise function returns an array determined entry by entry by its arguments']


def run(B, L):
    m = L.load('src.simulation.noise')
    B.functions |= {'noise.filter_and_resample_measurement'}
    from engine.npfake import Interp1d

    for cplx in (True, False):
        for noise in ('none', 'scalar', 'array', 'no function', 'no magnitude', 'no phase'):
            for old in (None, 'given'):
                for new in (None, 'given'):
                    for verbose in (False, True):
                        if verbose and (noise != 'array' or old is None): continue
                        if not cplx and noise not in ('none', 'array'): continue
                        def body(h, cplx=cplx, noise=noise, old=old, new=new, verbose=verbose):
                            T_, n, f = h.size('T'), h.size('n'), h.size('f')
                            x = h.array('X', (T_, n), 'c' if cplx else 'f')
                            to = h.array('old', (T_,)) if old else None
                            tn = h.array('new', (h.size('m'),)) if new else None
                            calls = []

                            def fn(v, sm, sp):
                                v = arr(v)
                                g = v.snap()
                                sm, sp = toS(sm), toS(sp)
                                def el(t):
                                    u = toS(g(t))
                                    return S(app('Nre', [t, u.re, u.im, sm.re, sp.re]), app('Nim', [t, u.re, u.im, sm.re, sp.re]), 'c')
                                return A(v.shape_, 'c', el)
                            kw = dict(oldtimes=to, newtimes=tn, fparam=f, verbose=verbose)
                            dev = (lambda nm: h.real(nm)) if noise == 'scalar' else lambda nm: h.array(nm, (n,))
                            sm, sp = dev('sm'), dev('sp')
                            if noise != 'none':
                                if noise != 'no magnitude': kw['std_m'] = sm
                                if noise != 'no phase': kw['std_p'] = sp
                                if noise != 'no function': kw['noise_fcn'] = fn
                            noisy = noise in ('scalar', 'array')
                            out = m.filter_and_resample_measurement(x, **kw)
                            o = to if old else L.np.arange(T_)
                            w = tn if new else o
                            steps = S(X.idiv(dp(w.shape_[0]), dp(f)), ZERO, 'i')
                            if not h.shape('as many samples as whole blocks, one column per channel', out, (steps, n)): return
                            t, i = h.index(steps), h.index(n)
                            r = Interp1d(o, x[:, i], axis=0)(w)
                            if noisy: r = fn(r, sm if noise == 'scalar' else sm[i], sp if noise == 'scalar' else sp[i])
                            g = r.snap()
                            ref = SumS([f], lambda s: toS(g(norm(dp(t) * dp(f) + s))), 'c')
                            h.eq('average of its own block of the own %s column' % ('noisy interpolated' if noisy else 'interpolated'), out[t, i], ref / f)
                            h.unchanged('measurement not modified', x)
                            for q in (to, tn, sm, sp):
                                if isinstance(q, A): h.unchanged('arguments not modified', q)
                        B.verify('%s measurement[noise: %s, old times %s, new times %s%s]' % ('complex' if cplx else 'real', noise, old, new, ', verbose' if verbose else ''), body)
