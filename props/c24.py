"""measurement noise: every entry is the documented function of its own standard normal draw(s)"""
from engine.prove import *
from engine.npfake import *
from engine import npfake as NP

ASSUME = ['numpy.random.normal(loc, scale, size) returns loc + scale * z with one independent standard normal draw z per entry']


def keys(): return {e[1] for e in NP.EVENTS if e[0] == 'normal'}


def fresh_events(seen):
    del NP.EVENTS[:]
    seen.clear()


def live(p, at):
    """standard normal draws an expression for entry `at` depends on; each must belong to that entry alone"""
    ks = keys()
    out = []
    for a in fv_deep(p):
        if a.op == 'app' and a.args[0] in ks:
            args = [norm(P(x)) for x in a.args[1:]] if not isinstance(a.args[1], tuple) else [norm(P(x)) for x in a.args[1]]
            for v in at:
                v = norm(P(v))
                if v.const() is None and not any((q - v).const() is not None or (q + v).const() is not None for q in args): return None
            out.append(T.atom_poly(a))
    return sorted(out, key=str)


def fv_deep(p):
    out = set()
    def go(q):
        for m in P(q).d:
            for aid, e in m: ga(T._byid[aid])
    def ga(a):
        out.add(a)
        for x in a.args:
            if isinstance(x, Poly): go(x)
    go(p)
    return out


def sdv(h, nm, kind, n):
    if kind == 'float': return h.real(nm, nonneg=True)
    if kind == 'array 1': return h.array(nm, (1,))
    return h.array(nm, (n,))


def sd_at(sd, i):
    if isinstance(sd, A): return toS(sd.get((P(i),))).re if dconst(sd.shape_[0]) != 1 else toS(sd.get((ZERO,))).re
    return toS(sd).re


def run(B, L):
    m = L.load('src.simulation.noise')
    B.functions |= {'noise.add_polar_noise_to_measurement', 'noise.add_cartesian_noise_to_measurement', 'noise.add_noise_in_cartesian_coordinates', 'noise.add_noise_in_polar_coordinates'}

    seen = set()

    def polar_ok(h, label, out, x, mag, ph, sm, sp, at):
        """out = |x|(1 + sm z) exp(j arg(x)(1 + sp z'))) with two different draws of this entry"""
        t, i = at
        got = out.get((P(t), P(i)))
        lr, li = live(got.re, at), live(got.im, at)
        ds = lr is not None and li is not None and lr + [d for d in li if the_atom(d) not in {the_atom(e) for e in lr}]
        if not ds or len(ds) != 2: return h.true(label + ': two independent draws per entry', False)
        seen.update(the_atom(d).args[0] for d in ds)

        def form(z, w):
            r, f = mag * (ONE + sm * z), ph * (ONE + sp * w)
            return lambda: h.eq(label, S(got.re, got.im, 'c'), S(norm(r * T.cos(f)), norm(r * T.sin(f)), 'c'))
        return h.either(form(ds[0], ds[1]), form(ds[1], ds[0]))

    for km in ('float', 'array 1', 'per channel'):
        for kp in ('float', 'array 1', 'per channel'):
            def body(h, km=km, kp=kp):
                T_, n = h.size('T'), h.size('n')
                x = h.polar('X', (T_, n))
                sm, sp = sdv(h, 'sm', km, n), sdv(h, 'sp', kp, n)
                fresh_events(seen)
                out = m.add_polar_noise_to_measurement(x, sm, sp)
                if not h.shape('noisy measurement', out, (T_, n)): return
                t, i = dp(h.index(T_)), ZERO if X.prove_zero(dp(n) - 1).ok else dp(h.index(n))
                polar_ok(h, 'own magnitude and phase are scaled by one plus the own deviation times a draw', out, x, app('X_m', [t, i]), app('X_f', [t, i]), sd_at(sm, i), sd_at(sp, i), (t, i))
                h.unchanged('measurement not modified', x)
                for s in (sm, sp):
                    if isinstance(s, A): h.unchanged('deviations not modified', s)
            B.verify('polar[%s, %s]' % (km, kp), body)

    def zero(h):
        T_, n = h.size('T'), h.size('n')
        x = h.polar('X', (T_, n))
        h.eq_arr('no deviation: the measurement itself', m.add_polar_noise_to_measurement(x, S(ZERO, ZERO, 'f'), S(ZERO, ZERO, 'f')), x)
        h.eq_arr('no deviation per channel: the measurement itself', m.add_polar_noise_to_measurement(x, L.np.zeros(n), L.np.zeros(n)), x)
    B.verify('polar without deviation', zero)

    def cart_ok(h, label, out, x, acc_r, acc_i, at):
        t, i = at
        T_ = x.shape_[0]
        got = out.get((P(t), P(i)))
        sr = SumS([T_], lambda s: S(T.fabs(app(x.tag[1] + '_re', [s, P(i)])), ZERO, 'f')).re * T.inv(dp(T_)) * acc_r * T.inv(P(3))
        si = SumS([T_], lambda s: S(T.fabs(app(x.tag[1] + '_im', [s, P(i)])), ZERO, 'f')).re * T.inv(dp(T_)) * acc_i * T.inv(P(3))
        dr, di = live(got.re, at) or [], live(got.im, at) or []
        h.true(label + ': one draw for the real part, another for the imaginary part', len(dr) == 1 and len(di) == 1 and the_atom(dr[0]) is not the_atom(di[0]))
        if len(dr) == 1 and len(di) == 1:
            u = x.get((P(t), P(i)))
            h.eq(label, S(got.re, got.im, 'c'), S(u.re + sr * dr[0], u.im + si * di[0], 'c'))
        seen.update(the_atom(d).args[0] for d in dr + di)
        return sr, si

    def cart(h):
        T_, n = h.size('T'), h.size('n')
        x = h.array('X', (T_, n), 'c')
        ar, ai = h.real('ar', nonneg=True), h.real('ai', nonneg=True)
        fresh_events(seen)
        out, rs, is_ = m.add_cartesian_noise_to_measurement(x, ar, ai)
        if not h.shape('noisy measurement', out, (T_, n)): return
        t, i = dp(h.index(T_)), dp(h.index(n))
        sr, si = cart_ok(h, 'noise scaled by a third of the accuracy times the channel mean', out, x, ar.re, ai.re, (t, i))
        if h.shape('reported real deviations', rs, (n,)): h.eq('reported real deviation', rs.get((P(i),)), S(sr))
        if h.shape('reported imaginary deviations', is_, (n,)): h.eq('reported imaginary deviation', is_.get((P(i),)), S(si))
        h.unchanged('measurement not modified', x)
    B.verify('cartesian', cart)

    def wrap_c(h):
        T_, n, k = h.size('T'), h.size('n'), h.size('k')
        cur, vol = h.array('Ic', (T_, k), 'c'), h.array('Vc', (T_, n), 'c')
        ac, av = h.real('ac', nonneg=True), h.real('av', nonneg=True)
        fresh_events(seen)
        v, c = m.add_noise_in_cartesian_coordinates(cur, vol, ac, av)
        t = dp(h.index(T_))
        if h.shape('noisy voltages come first', v, (T_, n)): cart_ok(h, 'voltage noise uses the voltage accuracy', v, vol, av.re, av.re, (t, dp(h.index(n))))
        if h.shape('noisy currents come second', c, (T_, k)): cart_ok(h, 'current noise uses the current accuracy', c, cur, ac.re, ac.re, (t, dp(h.index(k))))
        h.true('voltages and currents use different draws', len(seen) == 4)
        h.unchanged('currents not modified', cur)
        h.unchanged('voltages not modified', vol)
    B.verify('cartesian wrapper', wrap_c)

    def wrap_p(h):
        T_, n, k = h.size('T'), h.size('n'), h.size('k')
        cur, vol = h.polar('Ip', (T_, k)), h.polar('Vp', (T_, n))
        sm, sp = h.real('sm', nonneg=True), h.real('sp', nonneg=True)
        fresh_events(seen)
        v, c = m.add_noise_in_polar_coordinates(cur, vol, sm, sp)
        t, i, j = dp(h.index(T_)), dp(h.index(n)), dp(h.index(k))
        if h.shape('noisy voltages come first', v, (T_, n)): polar_ok(h, 'voltage noise', v, vol, app('Vp_m', [t, i]), app('Vp_f', [t, i]), sm.re, sp.re, (t, i))
        if h.shape('noisy currents come second', c, (T_, k)): polar_ok(h, 'current noise', c, cur, app('Ip_m', [t, j]), app('Ip_f', [t, j]), sm.re, sp.re, (t, j))
        h.true('voltages and currents use different draws', len(seen) == 4)
    B.verify('polar wrapper', wrap_p)
