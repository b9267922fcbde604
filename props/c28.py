"""every pipeline stage: computing and then reloading give the same values"""
from .stages import *
from engine import load as LD, ctx as X

ASSUME = STORE + TABLES + ['callees of a stage (profile generators, simulator, resampling, estimators, covariances, priors) return arbitrary values, fixed per call',
                           'numpy.random.multivariate_normal and numpy.std return arbitrary values of the documented shapes']


class Any:
    """arbitrary object: attributes and calls are arbitrary objects again"""
    def __init__(self, nm='any'): self.__dict__['nm'] = nm
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Any(self.nm + '.' + k)
    def __call__(self, *a, **k): return Any(self.nm + '()')


def same(h, nm, a, b):
    """the two calls return the same value"""
    if a is b and not isinstance(a, A): h.true(nm, True)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (isinstance(a, Objects) or isinstance(b, Objects)):
        h.true(nm, len(a) == len(b) and all(x is y for x, y in zip(a, b)))
    elif isinstance(a, A) or isinstance(b, A) or isinstance(a, (list, tuple)): h.eq_arr(nm, arr(a), arr(b))
    elif isnum(a) and isnum(b): h.eq(nm, a, b)
    else: h.true(nm, a is b)


def table_net(h, three=False):
    """a network with arbitrary tables"""
    n, k, m = h.size('n', 2), h.size('loads', 2), h.size('asym', 2)
    bl = h.indices('buslabel', (n,), 0, 10 ** 6, inj=(0,))
    lab = h.indices('lab', (k,), 0, 10 ** 6, inj=(0,))
    load = Frame({c: h.indices('bus', (k,), 0, 10 ** 6, inj=(0,)) if c == 'bus' else h.array(c, (k,)) for c in ('bus', 'p_mw', 'q_mvar')}, lab)
    alab = h.indices('alab', (m,), 0, 10 ** 6, inj=(0,))
    cols = ['%s_%s_%s' % (a, p, u) for a, u in (('p', 'mw'), ('q', 'mvar')) for p in 'abc']
    asym = Frame(dict({c: h.array(c, (m,)) for c in cols}, bus=h.indices('abus', (m,), 0, 10 ** 6, inj=(0,))), alab)
    ext = Frame(dict(bus=h.indices('ext', (1,), 0, 10 ** 6)), h.indices('extlab', (1,), 0, 10 ** 6))
    return Net(name='net', bus=Frame(dict(vn_kv=h.array('kv', (n,))), bl), load=load, asymmetric_load=asym, ext_grid=ext), n, k, m


def twice(h, nms, out, again, store):
    if not h.true('computing and reloading return the same number of values', len(out) == len(again) == len(nms)): return
    for nm, a, b in zip(nms, out, again): same(h, '%s reloaded as computed' % nm, b, a)
    h.true('one file is written and the same file is read', [k for k, _ in store.log] == ['save', 'load'] and store.log[0][1] == store.log[1][1])


class Unknown(Carry):
    """loop whose effect on the ratings does not matter here (C26): they are arbitrary afterwards"""
    def accept(self, ctl):
        self.xs = {id(v): v for v in caller_locals().values() if isinstance(v, A) and self.ok(v)}.values()
        return bool(self.xs) and not any(isinstance(v, A) for v in ctl.pre.values())
    def __init__(self, h, ok): Carry.__init__(self, h, ok, None); self.runs = 0
    def iterate(self, ctl):
        self.pre = {k: UNDEF if v is UNDEF or isnum(v) else v for k, v in ctl.pre.items()}
        for x in self.xs:
            self.runs += 1
            r = self.h.array('unknown%d' % self.runs, x.shape_)
            x.fn, x.memo, x.mxf = r.snap(), {}, None
        return iter(())


def run(B, L):
    sim1, sim3, id1, id3 = (L.load('src.' + k) for k in ('simulation.run', 'simulation.run3ph', 'identification.run', 'identification.run3ph'))
    np = L.np
    B.functions |= {'simulation.run.' + k for k in ('generate_loads', 'simulate_net', 'add_noise_and_filter')} | {'simulation.run3ph.' + k for k in ('generate_loads', 'simulate_net', 'add_noise_and_filter')} \
        | {'identification.run.' + k for k in ('standard_methods', 'bayesian_eiv', 'eiv_fim')} | {'identification.run3ph.' + k for k in ('standard_methods', 'bayesian_eiv')}
    mods = {'run': (sim1, id1), 'run3ph': (sim3, id3)}
    for m in (sim1, sim3, id1, id3): quiet(m)

    # ---- loads
    for nm, m in (('run', sim1), ('run3ph', sim3)):
        for src in ('profile', 'random'):
            for const in (False, True):
                def body(h, m=m, nm=nm, src=src, const=const):
                    store = Store(L)
                    net, n, k, mm = table_net(h)
                    conf = L.load('conf.simulation')
                    conf.load_constantness = h.real('a')
                    days = h.size('days')
                    cnt = [0]
                    T_ = norm(24 * 60 * dp(days))

                    def gen(*a, **kw):
                        cnt[0] += 1
                        three = kw.get('load_p_rb') is not None
                        size = dp(arr(kw['load_p_reference']).shape_[0])
                        return tuple(h.array('draw%d_%d' % (cnt[0], j), (dim(T_), dim(size))) for j in range(6 if three else 2))
                    install(L, m, dict(generate_gaussian_load=gen, load_profile_from_numpy=gen))
                    weeks = h.indices('weeks', (2,), 0, 10)
                    cn = LabelList(h.indices('const', (h.size('nc'),), 0, 10 ** 6)) if const else None
                    params = ('p.npy', 'q.npy', weeks, days, cn) if src == 'profile' else (None, None, h.real('sd', pos=True), days, cn)
                    out = m.generate_loads(net, params, False)
                    again = m.generate_loads(net, None, False)
                    twice(h, ('active loads', 'reactive loads', 'times') if nm == 'run' else ('active loads', 'reactive loads', 'unbalanced loads', 'times'), out, again, store)
                B.verify('%s generate_loads[%s, constant nodes: %s]' % (nm, src, const), body)

    # ---- simulation
    for nm, m in (('run', sim1), ('run3ph', sim3)):
        def body(h, m=m, nm=nm):
            store = Store(L)
            n, T_ = h.size('n', 1), h.size('T', 1)
            V, I, Yb = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c'), h.array('Y', (n, n), 'c')

            class R:
                name = 'net'
                def make_y_bus(self): return Yb.copy()
                def run(self, *a, **k): return self
                def get_current_and_voltage(self): return V.copy(), I.copy()
            a = [h.array('p', (T_, n)), h.array('q', (T_, n))] + ([(h.array('a', (T_, n)),) * 6] if nm == 'run3ph' else [])
            out = m.simulate_net(R(), *a, False)
            again = m.simulate_net(R(), *[None for _ in a], False)
            twice(h, ('voltages', 'currents', 'admittance matrix'), out, again, store)
            for x, y, w in zip(out, (V, I, Yb), ('voltages', 'currents', 'admittance matrix')): h.eq_arr('%s as simulated' % w, x, y)
        B.verify('%s simulate_net' % nm, body)

    # ---- noise
    for equiv in (False, True):
        def body(h, equiv=equiv):
            store = Store(L)
            n, T_ = h.size('n', 2), h.size('T', 2)
            bus, lab = h.indices('bus', (n,), 0, 10 ** 6, inj=(0,)), h.indices('lab', (n,), 0, 10 ** 6, inj=(0,))
            j = h.index(n)
            net = Net(name='net', load=Frame(dict(bus=bus, p_mw=h.array('p', (n,)), q_mvar=h.array('q', (n,))), lab),
                      ext_grid=Frame(dict(bus=A((1,), 'i', lambda k: toS(bus.get((P(j),))))), A((1,), 'i', lambda k: S(ZERO, ZERO, 'i'))))
            V, I, times = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c'), h.array('times', (T_,))
            fmeas, steps = h.real('fmeas', pos=True), h.size('steps')
            C().assume_le(norm(ONE - X.idiv(norm(toS(b_round(np.max(times) * fmeas)).re), dp(steps))))
            cnt = [0]

            def far(*a, **k):
                cnt[0] += 1
                return h.array('out%d' % cnt[0], (h.size('blocks%d' % cnt[0]), dim(2 * dp(n))), 'c')
            install(L, sim1, dict(filter_and_resample_measurement=far, add_polar_noise_to_measurement=Any('noise')))
            LD.LOOPSPEC[lambda site, k: norm(P(k)) is norm(dp(n))] = Carry(h, lambda v: v.ndim == 1 and v.kind == 'f' and v is not times, ratings_state(j), 2)
            par = tuple(h.real(k, pos=True) for k in ('vm', 'im', 'vp', 'ip')) + (equiv, h.real('sf', pos=True))
            out = sim1.add_noise_and_filter(net, V, I, times, fmeas, steps, par, False)
            again = sim1.add_noise_and_filter(net, None, None, times, fmeas, steps, None, False)
            twice(h, ('noisy voltages', 'noisy currents', 'voltages', 'currents', 'ratings', 'averaging factor'), out, again, store)
        B.verify('run add_noise_and_filter[equivalent noise: %s]' % equiv, body)

    for equiv in (False, True):
        def body(h, equiv=equiv):
            store = Store(L)
            quiet(sim3)
            n, nl, na, T_ = h.size('n', 2), h.size('nl', 1), h.size('na', 1), h.size('T', 2)
            N = dp(n)
            lab = h.indices('lab', (n,), 0, 10 ** 6, inj=(0,))
            table = lambda nm, k, cols: Frame(dict(bus=h.indices(nm + 'bus', (k,), 0, 10 ** 6), **{c: h.array(c, (k,)) for c in cols}), h.indices(nm + 'lab', (k,), 0, 10 ** 6, inj=(0,)))
            net = Net(name='net', bus=Frame({}, lab), load=table('load', nl, ('p_mw', 'q_mvar')), asymmetric_load=table('asym', na, ('p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar')),
                      ext_grid=Frame(dict(bus=A((1,), 'i', lambda k: toS(lab.get((P(h.index(n)),))))), A((1,), 'i', lambda k: S(ZERO, ZERO, 'i'))))
            NN = dim(norm(3 * N))
            V, I, times = h.array('V', (T_, NN), 'c'), h.array('I', (T_, NN), 'c'), h.array('times', (T_,))
            fmeas, steps = h.real('fmeas', pos=True), h.size('steps')
            C().assume_le(norm(ONE - X.idiv(norm(toS(b_round(np.max(times) * fmeas)).re), dp(steps))))
            cnt = [0]

            def far(*a, **k):
                cnt[0] += 1
                return h.array('out%d' % cnt[0], (h.size('blocks%d' % cnt[0]), dim(2 * dp(NN))), 'c')
            install(L, sim3, dict(filter_and_resample_measurement=far, add_polar_noise_to_measurement=Any('noise')))
            LD.LOOPSPEC[lambda site, k: norm(P(k)) is norm(N)] = Unknown(h, lambda v: v.ndim == 2 and v.kind == 'f' and dconst(v.shape_[0]) == 3)
            par = tuple(h.real(k, pos=True) for k in ('vm', 'im', 'vp', 'ip')) + (equiv, h.array('sf', (3,), pos=True))
            out = sim3.add_noise_and_filter(net, V, I, times, fmeas, steps, par, False)
            again = sim3.add_noise_and_filter(net, None, None, times, fmeas, steps, None, False)
            twice(h, ('noisy voltages', 'noisy currents', 'voltages', 'currents', 'ratings', 'averaging factor'), out, again, store)
        B.verify('run3ph add_noise_and_filter[equivalent noise: %s]' % equiv, body)

    # ---- identification
    for nm, m in (('run', id1), ('run3ph', id3)):
        for lap in (False, True):
            def body(h, m=m, nm=nm, lap=lap):
                from .c35 import setup
                s = setup(h, L, 'src.identification.' + nm)
                x, z = h.array('V', (s.T, s.n), 'c'), h.array('I', (s.T, s.n), 'c')
                conf = L.load('conf.identification')
                for k in ('lambda_lasso', 'abs_tol', 'rel_tol'): setattr(conf, k, h.real(k))
                install(L, s.mod, dict(build_lasso_prior=lambda *a, **k: Any('prior')))
                maxit = h.int('maxit', 1)
                out = m.standard_methods('net', x, z, None, lap, maxit, False)
                again = m.standard_methods('net', None, None, None, lap, maxit, False)
                twice(h, ('least squares', 'total least squares', 'sparse estimate'), out, again, s.store)
            B.verify('%s standard_methods[laplacian=%s]' % (nm, lap), body)

    for weighted in (False, True):
        def body(h, weighted=weighted):
            from .c35 import setup, Stored
            s = setup(h, L, 'src.identification.run')
            x, z, y0 = h.array('V', (s.T, s.n), 'c'), h.array('I', (s.T, s.n), 'c'), h.array('Y0', (s.n, s.n), 'c')
            conf = L.load('conf.identification')
            for k in ('lambda_eiv', 'lambdaprime', 'abs_tol', 'rel_tol'): setattr(conf, k, h.real(k))
            install(L, s.mod, dict(build_complex_prior=lambda *a, **k: Any('prior'), average_true_noise_covariance=lambda *a, **k: Any('cov'), naive_noise_covariance=lambda *a, **k: Stored(h, 0)))
            rat = h.array('ratings', (s.n,))
            sd = S(h.real('sm').re, h.real('sp').re, 'c')
            out = id1.bayesian_eiv('net', x, z, None, sd, sd, rat, y0, None, False, weighted, h.int('maxit', 1), True, False)
            again = id1.bayesian_eiv('net', x, z, None, sd, sd, rat, y0, None, False, weighted, 0, True, False)
            twice(h, ('error-in-variables estimate', 'history'), out, again, s.store)
        B.verify('run bayesian_eiv[weighted=%s]' % weighted, body)

    # ---- separate phases: the single-phase stages return arbitrary matrices and histories
    from .c32 import Channels, Entries, Rec
    for what in ('standard_methods', 'bayesian_eiv'):
        def body(h, what=what):
            store, ch, T_, np_ = Store(L), Channels(h), h.size('T', 2), [0]
            n = ch.n
            x, z = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c')

            def phase(k):
                p = np_[0]
                np_[0] += 1
                if p > 2: return h.fail('one identification per phase', 'a fourth identification')
                cnt = dim(ch.count(p))
                return p, [h.array('y%d%d' % (p, q), (cnt, cnt), 'c') for q in range(k)]
            maxit = h.int('maxit', 1)
            if what == 'standard_methods':
                install(L, id3, dict(run=Rec(standard_methods=lambda *a, **k: tuple(phase(3)[1]))))
                out = id3.standard_methods('net', x, z, ch.ids, False, maxit, False)
                again = id3.standard_methods('net', None, None, ch.ids, False, maxit, False)
                nms = ('least squares', 'total least squares', 'sparse estimate')
            else:
                lens = [h.size('len%d' % p, 1) for p in range(3)]
                for q in (1, 2): C().assume_le(norm(dp(lens[0]) - dp(lens[q])))
                def entry(p, t):
                    cnt = dim(ch.count(p))
                    return Rec(iteration=S(P(t), ZERO, 'i'), fitted_parameters=A((cnt, cnt), 'c', lambda i, j: S(app('fr%d' % p, [t, i, j]), app('fi%d' % p, [t, i, j]), 'c')), target_function=S(app('tar%d' % p, [t]), ZERO))
                def eiv(*a, **k):
                    p, (y,) = phase(1)
                    hist = SList()
                    hist.sym = (dp(lens[p]), lambda k: entry(p, k))
                    return y, hist
                sp = Entries(h, lambda t, e: None)
                LD.LOOPSPEC[lambda site, q: True] = sp
                sp.length = lens[0]
                install(L, id3, dict(run=Rec(bayesian_eiv=eiv)))
                rat, y0 = h.array('ratings', (n,)), h.array('Y0', (n, n), 'c')
                out = id3.bayesian_eiv('net', x, z, ch.ids, h.real('sdv'), h.real('sdi'), rat, y0, None, False, False, maxit, True, False)
                if sp.done is None: raise Unsupported('no loop over the iterations')
                again = id3.bayesian_eiv('net', None, None, ch.ids, h.real('sdv'), h.real('sdi'), rat, y0, None, False, False, maxit, True, False)
                nms = ('error-in-variables estimate', 'history')
            twice(h, nms, out, again, store)
        B.verify('run3ph %s, separate phases' % what, body)

    # ---- uncertainty
    for lap in (False, True):
        def body(h, lap=lap):
            store = Store(L)
            n, T_ = h.size('n', 2), h.size('T', 1)
            N = dim(2 * dp(n) * dp(n))
            fim, cov = h.array('F', (N, N)), h.array('C', (N, N))

            class Tls:
                def fisher_info(self, *a, **k): return fim.copy(), cov.copy()
            smp = {}

            def mvn(mean, c, size=None, check_valid=None, **k):
                mean = arr(mean)
                return h.array('samples', (dim(dp(size)), mean.shape_[0]))

            np.random.__dict__['multivariate_normal'] = mvn
            np.__dict__['std'] = lambda a, **k: h.real('std')
            install(L, id1, dict(TotalLeastSquares=Tls, average_true_noise_covariance=lambda *a, **k: Any('cov')))
            x, z, y0 = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c'), h.array('Y0', (n, n), 'c')
            rat = h.array('ratings', (n,))
            sd = S(h.real('sm').re, h.real('sp').re, 'c')
            ns = h.size('samples', 2)
            out = id1.eiv_fim('net', x, z, sd, sd, rat, y0, ns, lap, False)
            again = id1.eiv_fim('net', None, None, sd, sd, rat, y0, ns, lap, False)
            twice(h, ('information matrix', 'covariance', 'error deviation'), out, again, store)
            for a, b, w in ((out[0], fim, 'information matrix'), (out[1], cov, 'covariance')): h.eq_arr('%s as computed' % w, a, b)
        B.verify('run eiv_fim[laplacian=%s]' % lap, body)
