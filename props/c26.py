"""noise stage: ratings, deviations, averaging factor and what is handed to the resampling function"""
from .stages import *
from engine import npfake as NP

ASSUME = STORE + TABLES + ['filter_and_resample_measurement and add_polar_noise_to_measurement are used through their contracts (C25, C24)',
                           'the network has one external connection, and one load record per node']


def run(B, L):
    m = L.load('src.simulation.run')
    B.functions |= {'simulation.run.add_noise_and_filter'}

    for equiv in (False, True):
        def body(h, equiv=equiv):
            store = Store(L)
            quiet(m)
            np = L.np
            n, T_ = h.size('n', 2), h.size('T', 2)
            bus, lab = h.indices('bus', (n,), 0, 10 ** 6, inj=(0,)), h.indices('lab', (n,), 0, 10 ** 6, inj=(0,))
            p, q = h.array('p', (n,)), h.array('q', (n,))
            j = h.index(n)                       # position of the external connection
            net = Net(name='net', load=Frame(dict(bus=bus, p_mw=p, q_mvar=q), lab), ext_grid=Frame(dict(bus=A((1,), 'i', lambda k: toS(bus.get((P(j),))))), A((1,), 'i', lambda k: S(ZERO, ZERO, 'i'))))
            V, I = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c')
            times = h.array('times', (T_,))
            fmeas, steps = h.real('fmeas', pos=True), h.size('steps')
            vm, im, vp, ip, sf = (h.real(k, pos=True) for k in ('vm', 'im', 'vp', 'ip', 'sf'))
            base = lambda i: norm(sf.re * (app('p', [i]) ** 2 + app('q', [i]) ** 2))
            tot = SumS([n], lambda i: S(base(i))).re
            rating = lambda i: ite(X.dec_eq(P(i) - P(j)), tot, base(i))
            top = np.max(times)
            cnt = b_round(top * fmeas)
            fac = S(X.idiv(norm(toS(cnt).re), dp(steps)), ZERO, 'i')
            C().assume_le(norm(ONE - toS(fac).re))      # at least one measurement per averaged sample
            calls = []

            def far(actual, oldtimes=None, newtimes=None, fparam=1, std_m=None, std_p=None, noise_fcn=None, verbose=False):
                r = h.array('out%d' % len(calls), (h.size('blocks%d' % len(calls)), dim(2 * dp(n))), 'c')
                calls.append((arr(actual).copy(), oldtimes, newtimes, fparam, std_m, std_p, noise_fcn, r))
                return r
            tok = object()
            install(L, m, dict(filter_and_resample_measurement=far, add_polar_noise_to_measurement=tok))

            sp = Carry(h, lambda v: v.ndim == 1 and v.kind == 'f' and v is not times, ratings_state(j))
            LD.LOOPSPEC[lambda site, k: norm(P(k)) is norm(dp(n))] = sp
            nv, ni, v, i, rat, fp = m.add_noise_and_filter(net, V, I, times, fmeas, steps, (vm, im, vp, ip, equiv, sf), False)
            h.eq('reported averaging factor: number of measurements over number of steps', fp, fac)
            if not h.shape('ratings', rat, (n,)): return
            k = P(h.index(n))
            h.eq('rating: safety factor times squared nominal powers, the sum of all for the external connection', rat.get((k,)), S(rating(k)))
            if not h.true('one noisy and one noise-free resampling', len(calls) == 2): return
            noisy, clean = (0, 1) if calls[0][6] is not None else (1, 0)
            for c, nm in ((calls[0], 'first'), (calls[1], 'second')):
                a, to, tn, f, *_ = c
                h.eq_arr('%s resampling of voltages beside currents' % nm, a, np.hstack((V, I)))
                h.eq_arr('%s resampling from the measurement times' % nm, arr(to), times)
                h.eq('%s resampling: block length' % nm, f, 1 if equiv else fac)
                m_ = S(X.idiv(norm(toS(cnt).re), norm(toS(fac).re)), ZERO, 'i') if equiv else cnt
                h.eq_arr('%s resampling: time steps' % nm, tn, np.linspace(0, top, m_))
            c = calls[noisy]
            h.true('polar noise is added', c[6] is tok)
            h.true('noise-free data get no noise', calls[clean][4] is None and calls[clean][5] is None and calls[clean][6] is None)
            w = 1 / np.sqrt(fac) if equiv else S(ONE)
            for d, nm, a, b, scaled in ((c[4], 'magnitude', vm, im, True), (c[5], 'phase', vp, ip, False)):
                if h.shape('%s deviations' % nm, d, (dim(2 * dp(n)),)):
                    h.eq('voltage %s deviation' % nm, d.get((k,)), a * w)
                    h.eq('current %s deviation' % nm, d.get((norm(k + dp(n)),)), b * w * (S(rating(k)) if scaled else 1))
            ro, co = calls[noisy][7], calls[clean][7]
            N = dp(n)
            for got, src, off, nm in ((nv, ro, ZERO, 'noisy voltages'), (ni, ro, N, 'noisy currents'), (v, co, ZERO, 'noise-free voltages'), (i, co, N, 'noise-free currents')):
                if h.shape(nm, got, (src.shape_[0], n)):
                    t = P(h.index(src.shape_[0]))
                    h.eq(nm, got.get((t, k)), src.get((t, norm(k + off))))
            for a, nm in ((V, 'voltages'), (I, 'currents'), (times, 'times')): h.unchanged('%s not modified' % nm, a)
        B.verify('single phase[equivalent noise: %s]' % equiv, body)

    three(B, L)


class Within(Carry):
    """loop over the load tables: closed form of the array after t iterations"""
    def __init__(self, h, ok, state, label, when=None, note=None):
        Carry.__init__(self, h, ok, state, 10 ** 6)
        self.label, self.when, self.note, self.ran = label, when, note, 0
    def accept(self, ctl): return (self.when is None or self.when()) and Carry.accept(self, ctl)
    def iterate(self, ctl):
        h, self.ran = self.h, self.ran + 1
        self.pre = dict(ctl.pre)
        x = self.x
        base = x.copy()
        st = lambda t: self.state(base, norm(P(t)))
        self.t = None
        if self.proof is not None and not self.proof():
            fin = st(P(ctl.n))
            x.fn, x.memo, x.mxf = fin.snap(), {}, None
            return
        if Y.EXP[0].choose(2) == 0:
            self.compare('%s, before' % self.label, base, st(ZERO), ZERO)
            raise StopPath()
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            cur = st(t)
            x.fn, x.memo, x.mxf = cur.snap(), {}, None
            if self.note: self.note(t)
            if self.hit is not None: self.hit(t)
            yield ctl.f(t)
            for k, v in self.pre.items():
                if ctl.ends.get(k) is not v and not isnum(v) and v is not UNDEF: raise Unsupported('variable %s changes over the iterations' % k)
            self.compare('%s, after every iteration' % self.label, x, st(t + 1), t)
            raise StopPath()
        if self.after: self.after()
        fin = st(P(ctl.n))
        x.fn, x.memo, x.mxf = fin.snap(), {}, None
        return

    def compare(self, label, a, b, t):
        """entries at one arbitrary position, in the cases that matter"""
        h = self.h
        n = a.shape_[1]
        ph = P(Y.EXP[0].choose(3))
        special = list(self.pos()) if self.pos else [t]
        c = Y.EXP[0].choose(1 + len(special))
        if c: i = special[c - 1]
        else:
            i = P(h.index(n))
            for s in special:
                if norm(i - s) is ZERO: continue
                if C().decide(X.dec_eq(i - s)) is None:
                    if Y.EXP[0].choose(2): C().assume_le(i - s + 1)
                    else: C().assume_le(s - i + 1)
        h.eq(label, a.get((ph, i)), b.get((ph, i)))

    pos = None
    hit = after = proof = None


def three(B, L):
    m = L.load('src.simulation.run3ph')
    B.functions |= {'simulation.run3ph.add_noise_and_filter'}

    for mode in ('noise', 'equivalent', 'saved', 'older save'):
        def body(h, mode=mode):
            equiv = mode == 'equivalent'
            store = Store(L)
            quiet(m)
            np = L.np
            n, nl, na, T_ = h.size('n', 2), h.size('nl', 1), h.size('na', 1), h.size('T', 2)
            N = dp(n)
            lab = h.indices('lab', (n,), 0, 10 ** 6, inj=(0,))
            # row of the only load of the bus at a position, if there is one
            posl, posa = h.indices('posl', (nl,), 0, N), h.indices('posa', (na,), 0, N)
            for k_, d in (('l', nl), ('a', na)):
                C().apprng['has' + k_] = lambda i: (ZERO, P(2))
                C().apprng['row' + k_] = lambda i, d=d: (ZERO, dp(d))
            C()._touch()
            has, row = (lambda w, i: app('has' + w, [norm(P(i))], 'I')), (lambda w, i: app('row' + w, [norm(P(i))], 'I'))
            ll, la = h.indices('loadlab', (nl,), 0, 10 ** 6, inj=(0,)), h.indices('asymlab', (na,), 0, 10 ** 6, inj=(0,))
            cl = {k: h.array(k, (nl,)) for k in ('p_mw', 'q_mvar')}
            ca = {k: h.array(k, (na,)) for k in ('p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar')}
            busl, busa = (A(x.shape_, 'i', lambda k, x=x: toS(lab.get((toS(x.get((P(k),))).re,)))) for x in (posl, posa))
            j = h.index(n)
            net = Net(name='net', bus=Frame({}, lab), load=Frame(dict(bus=busl, **cl), ll), asymmetric_load=Frame(dict(bus=busa, **ca), la),
                      ext_grid=Frame(dict(bus=A((1,), 'i', lambda k: toS(lab.get((P(j),))))), A((1,), 'i', lambda k: S(ZERO, ZERO, 'i'))))
            NN = dim(norm(3 * N))
            V, I = h.array('V', (T_, NN), 'c'), h.array('I', (T_, NN), 'c')
            times = h.array('times', (T_,))
            fmeas, steps = h.real('fmeas', pos=True), h.size('steps')
            sf = h.array('sf', (3,), pos=True)
            vm, im, vp, ip = (h.real(k, pos=True) for k in ('vm', 'im', 'vp', 'ip'))
            sq = lambda c, k, P_, Q_: norm(toS(c[P_].get((k,))).re ** 2 + toS(c[Q_].get((k,))).re ** 2)
            sym_ = lambda ph, k: sq(cl, k, 'p_mw', 'q_mvar')
            asy = lambda ph, k: Y.pick(ph, [lambda a=a: S(sq(ca, k, 'p_%s_mw' % a, 'q_%s_mvar' % a)) for a in 'abc']).re
            def loads(w, val, ph, i, upto=None):
                """squared nominal power of the load of the bus at position i, if it is among the first ones of its table"""
                return norm(has(w, i) * val(ph, row(w, i)) * (ONE if upto is None else T.le0(row(w, i) + 1 - upto)))
            full = lambda ph, i: norm(loads('l', sym_, ph, i) + loads('a', asy, ph, i))
            table = lambda v: v.ndim == 2 and dconst(v.shape_[0]) == 3 and Y.same_dim(v.shape_[1], n) is True and v.kind == 'f'
            cur = {}

            def outer(base, t):
                f = base.snap()
                return A((3, n), 'f', lambda ph, i: S(ite(norm(T.le0(P(i) + 1 - t)), full(P(ph), P(i)), toS(f(ph, i)).re)))
            def inner(w, val):
                def st(base, t):
                    f = base.snap()
                    return A((3, n), 'f', lambda ph, i: S(norm(toS(f(ph, i)).re + X.dec_eq(P(i) - cur['i']) * loads(w, val, P(ph), cur['i'], t))))
                return st
            def ext(base, t):
                f = base.snap()
                done = norm(T.le0(P(j) + 1 - t))
                return A((3, n), 'f', lambda ph, i: S(ite(norm(X.dec_eq(P(i) - P(j)) * done), SumS([n], lambda q: toS(f(ph, P(q)))).re, toS(f(ph, i)).re)))
            note = lambda t: cur.update(i=t)
            so = Within(h, table, outer, 'squared nominal powers of the buses looked at so far', lambda: so.ran == 0, note)
            sx = Within(h, lambda v: table(v) and v is not so.x, ext, 'ratings after every bus looked at so far', lambda: so.ran == 1)
            seq = lambda site, q: norm(P(q)) is norm(N)
            class Two(Within):
                def __init__(self): pass
            def which(site, q): return seq(site, q) and so.ran == 0
            LD.LOOPSPEC[which] = so
            LD.LOOPSPEC[lambda site, q: seq(site, q) and so.ran == 1] = sx
            sl, sa = (Within(h, table, inner(w, v), 'squared nominal powers, %s loads' % k) for w, v, k in (('l', sym_, 'symmetric'), ('a', asy, 'asymmetric')))
            def rows(w, x):
                def cases(t):
                    i = cur['i']
                    at, r, g = toS(x.get((t,))).re, row(w, i), has(w, i)
                    c = Y.EXP[0].choose(4)
                    if c == 0:                  # the load of row t is the one of this bus
                        C().assume_eq(norm(r - t))
                        C().assume_eq(norm(g - 1))
                        C().assume_eq(norm(has('a' if w == 'l' else 'l', i)))
                        C().assume_eq(norm(at - i))
                        return
                    if c == 1: C().assume_eq(g)
                    else:
                        C().assume_eq(norm(g - 1))
                        C().assume_le(norm(r - t + 1 if c == 2 else t - r + 1))
                    C().assume(X.dec_eq(at - i), False)
                return cases
            sl.hit, sa.hit = rows('l', posl), rows('a', posa)
            sl.pos, sa.pos = (lambda: [cur['i']],) * 2
            LD.LOOPSPEC[lambda site, q: 'i' in cur and norm(P(q)) is norm(dp(nl))] = sl
            LD.LOOPSPEC[lambda site, q: 'i' in cur and norm(P(q)) is norm(dp(na))] = sa
            sx.pos = lambda: [P(j)]

            top = np.max(times)
            cnt = b_round(top * fmeas)
            fac = S(X.idiv(norm(toS(cnt).re), dp(steps)), ZERO, 'i')
            def split():
                # either the loops up to here and the one over the external connection, or what follows them
                cur['part'] = Y.EXP[0].choose(2)
                if cur['part']: C().assume_le(norm(ONE - toS(fac).re))      # at least one measurement per averaged sample
            so.after = split
            sx.proof = lambda: cur['part'] == 0
            def stop():
                if cur.get('part') == 0: raise StopPath()
            sx.after = stop
            calls = []

            def far(actual, oldtimes=None, newtimes=None, fparam=1, std_m=None, std_p=None, noise_fcn=None, verbose=False):
                stop()
                r = h.array('out%d' % len(calls), (h.size('blocks%d' % len(calls)), dim(2 * dp(NN))), 'c')
                calls.append((arr(actual).copy(), oldtimes, newtimes, fparam, std_m, std_p, noise_fcn, r))
                return r
            tok = object()
            install(L, m, dict(filter_and_resample_measurement=far, add_polar_noise_to_measurement=tok))
            safety = lambda ph: toS(sf.get((ph,))).re
            def rating(ph, i, s=safety):
                own = lambda q: norm(s(ph) * full(ph, P(q)))
                return ite(X.dec_eq(P(i) - P(j)), toS(SumS([n], lambda q: S(own(q)))).re, own(i))
            if 'save' in mode:
                K = h.size('K')
                D = {k: h.array('saved_' + k, (K, NN), 'c') for k in 'viwj'}
                if mode == 'saved': D['p'] = h.array('saved_p', (NN,))
                L.np.savez(m.conf.DATA_DIR / 'simulations_output/filtered_results_net.npz', **D)
                nv, ni, v, i, rat, fp = m.add_noise_and_filter(net, V, I, times, fmeas, steps, None, False)
                for got, k in ((nv, 'v'), (ni, 'i'), (v, 'w'), (i, 'j')): h.eq_arr('saved data', got, D[k])
            else:
                nv, ni, v, i, rat, fp = m.add_noise_and_filter(net, V, I, times, fmeas, steps, (vm, im, vp, ip, equiv, sf), False)
            stop()
            if so.ran != 1: raise Unsupported('loop over the buses')
            h.eq('reported averaging factor: number of measurements over number of steps', fp, fac)
            if not h.shape('ratings', rat, (NN,)): return
            for ph in range(3):
                k = P(h.index(n))
                q = norm(3 * k + ph)
                if mode == 'saved': h.eq('rating: as saved', rat.get((q,)), D['p'].get((q,)))
                else: h.eq('rating: safety factor times squared nominal powers, the sum of all for the external connection', rat.get((q,)), S(rating(P(ph), k, safety if mode != 'older save' else lambda ph: P(4))))
            if 'save' in mode:
                h.true('nothing is resampled', not calls)
                return
            if not h.true('one noisy and one noise-free resampling', len(calls) == 2): return
            noisy, clean = (0, 1) if calls[0][6] is not None else (1, 0)
            for c, nm in ((calls[0], 'first'), (calls[1], 'second')):
                a, to, tn, f, *_ = c
                h.eq_arr('%s resampling of voltages beside currents' % nm, a, np.hstack((V, I)))
                h.eq_arr('%s resampling from the measurement times' % nm, arr(to), times)
                h.eq('%s resampling: block length' % nm, f, 1 if equiv else fac)
                m_ = S(X.idiv(norm(toS(cnt).re), norm(toS(fac).re)), ZERO, 'i') if equiv else cnt
                h.eq_arr('%s resampling: time steps' % nm, tn, np.linspace(0, top, m_))
            c = calls[noisy]
            h.true('polar noise is added', c[6] is tok)
            h.true('noise-free data get no noise', calls[clean][4] is None and calls[clean][5] is None and calls[clean][6] is None)
            w = 1 / np.sqrt(fac) if equiv else S(ONE)
            for ph in range(3):
                k = P(h.index(n))
                q = norm(3 * k + ph)
                for d, nm, a, b, scaled in ((c[4], 'magnitude', vm, im, True), (c[5], 'phase', vp, ip, False)):
                    if h.shape('%s deviations' % nm, d, (dim(2 * dp(NN)),)):
                        h.eq('voltage %s deviation' % nm, d.get((q,)), a * w)
                        h.eq('current %s deviation' % nm, d.get((norm(q + dp(NN)),)), b * w * (S(rating(P(ph), k)) if scaled else 1))
            ro, co = calls[noisy][7], calls[clean][7]
            k = P(h.index(NN))
            for got, src, off, nm in ((nv, ro, ZERO, 'noisy voltages'), (ni, ro, dp(NN), 'noisy currents'), (v, co, ZERO, 'noise-free voltages'), (i, co, dp(NN), 'noise-free currents')):
                if h.shape(nm, got, (src.shape_[0], NN)):
                    t = P(h.index(src.shape_[0]))
                    h.eq(nm, got.get((t, k)), src.get((t, norm(k + off))))
            got = L.np.load(m.conf.DATA_DIR / 'simulations_output/filtered_results_net.npz')
            for nm, x in (('v', nv), ('i', ni), ('w', v), ('j', i), ('p', rat)): h.eq_arr('saved under its name', got[nm], x)
            for a, nm in ((V, 'voltages'), (I, 'currents'), (times, 'times'), (sf, 'safety factors')): h.unchanged('%s not modified' % nm, a)
        B.verify('three phases[%s]' % mode, body, maxpaths=500)
