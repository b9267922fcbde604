"""generated loads: random draws, household profiles, constant nodes"""
from .stages import *
from .c24 import live, keys
from .c28 import table_net
from engine import npfake as NP

ASSUME = STORE + TABLES + ['numpy.random.normal(loc, scale, size) returns loc + scale * z with one independent standard normal draw z per entry',
                           'numpy.random.randint(n, size=k) returns k independent integers in [0, n)', 'numpy.percentile is an arbitrary function of the data and the percentage; the mean percentile is not zero',
                           'the selected windows lie inside the profile files, and nominal powers round to non-negative numbers of households']
PH = ('p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar')


class Blocks(Grow):
    """rows are appended in blocks of a fixed length"""
    def __init__(self, h, which, label, ln):
        Grow.__init__(self, h, which, label)
        self.ln = dp(ln)
    def compare(self, label, got, want, t):
        q, r, j = P(fresh('q', 'I')), P(self.h.index(dim(self.ln))), P(self.h.index(want.shape_[1]))
        C().rng(q, 0, t)
        for b, nm in ((q, 'earlier rows stay'), (t, 'new rows are appended')):
            i = norm(b * self.ln + r)
            self.h.eq('%s: %s' % (label, nm), got.get((i, j)), want.get((i, j)))


def run(B, L):
    lp = L.load('src.simulation.load_profile')
    np = L.np
    quiet(lp)
    B.functions |= {'load_profile.generate_gaussian_load', 'load_profile.load_profile_from_numpy', 'simulation.run.generate_loads', 'simulation.run3ph.generate_loads'}

    # ---- random loads
    for three in (False, True):
        def body(h, three=three):
            del NP.EVENTS[:]
            T_, n = h.size('T'), h.size('n')
            sd = h.real('sd', nonneg=True)
            names = ('load_p_reference', 'load_q_reference') + (('load_p_rb', 'load_q_rb', 'load_p_rc', 'load_q_rc') if three else ())
            refs = [h.array('ref%d' % i, (n,)) for i in range(len(names))]
            out = lp.generate_gaussian_load(sd, T_, **dict(zip(names, refs)))
            if not h.true('one matrix per nominal power', len(out) == len(names)): return
            at = (h.index(T_), h.index(n))
            used_ = set()
            for nm, r, x in zip(names, refs, out):
                if not h.shape('loads for %s' % nm, x, (T_, n)): continue
                got = x.get(tuple(P(v) for v in at))
                d = live(got.re, at)
                if not h.true('loads for %s: one independent draw per entry' % nm, d is not None and len(d) == 1): continue
                key = the_atom(d[0]).args[0]
                h.true('loads for %s: draws of its own' % nm, key not in used_)
                used_.add(key)
                m, z = toS(r[at[1]]).re, d[0]
                dev = norm(T.absf(m) * toS(sd).re) if hasattr(T, 'absf') else norm(toS(abs(r[at[1]])).re * toS(sd).re)
                h.either(lambda: h.eq('loads for %s: nominal power plus proportional deviation' % nm, got, S(norm(m + dev * z))),
                         lambda: h.eq('loads for %s: nominal power plus proportional deviation' % nm, got, S(norm(m - dev * z))),
                         lambda: h.eq('loads for %s: nominal power plus proportional deviation' % nm, got, S(norm(m + m * toS(sd).re * z))))
            for nm, r in zip(names, refs): h.unchanged('%s not modified' % nm, r)
        B.verify('random loads[%s]' % ('three phases' if three else 'single phase'), body)

    # ---- household profiles
    for source in ('numpy',):
        for three in (False, True):
            def body(h, source=source, three=three):
                del NP.EVENTS[:]
                w, ln, n, R = h.size('weeks', 1), h.size('length', 1), h.size('n', 2), h.size('R', 2)
                H, Hq = h.size('H', 2), h.size('Hq', 3)
                C().assume_le(norm(dp(H) + 1 - dp(Hq)))                 # different numbers of households (they are told apart by it)
                Pf, Qf = h.array('P', (R, H)), h.array('Q', (R, Hq))
                skip = h.indices('skip', (w,), 0, norm(dp(R) - dp(ln) + 1))
                C().assume_le(norm(dp(ln) - dp(R)))
                names = ('load_p_reference', 'load_q_reference') + (('load_p_rb', 'load_q_rb', 'load_p_rc', 'load_q_rc') if three else ())
                refs = [h.array('ref%d' % i, (n,)) for i in range(len(names))]

                def window(F, cols, t=None, k='f'):
                    g, s, t = F.snap(), skip.snap(), dp(w) if t is None else P(t)
                    def el(i, j):
                        q = X.idiv(i, dp(ln))
                        return toS(g(norm(toS(s(q)).re + i - q * dp(ln)), j))
                    return A((dim(norm(t * dp(ln))), cols), k, el)

                def which(v):
                    for F, cols in ((Pf, H), (Qf, Hq)):
                        if v.ndim == 2 and same_dim(v.shape_[1], cols) is True: return lambda t, F=F, cols=cols: window(F, cols, t)
                LD.LOOPSPEC[lambda site, k: norm(P(k)) is norm(dp(w))] = Blocks(h, which, 'rows of the selected windows in order', ln)
                if source == 'numpy':
                    L.np.__dict__['load'] = lambda f, mmap_mode=None, **k: {'p.npy': Pf, 'q.npy': Qf}[f].copy()
                    out = lp.load_profile_from_numpy('p.npy', 'q.npy', skip, A((), 'i', lambda: S(dp(ln), ZERO, 'i')), **dict(zip(names, refs)))
                pw, qw = window(Pf, H) / 1e6, window(Qf, Hq) / 1e6
                pm, qm = (np.mean(np.percentile(np.abs(x), 90, axis=0)) for x in (pw, qw))
                order = ('p', 'p', 'p', 'q', 'q', 'q') if three else ('p', 'q')
                rr = [refs[i] for i in ((0, 2, 4, 1, 3, 5) if three else (0, 1))]
                if not h.true('one matrix per nominal power', len(out) == len(names)): return
                t, i = h.index(norm(dp(w) * dp(ln))), h.index(n)
                evs = [e for e in NP.EVENTS if e[0] == 'randint']
                usedk = set()
                for j, (x, kd, r) in enumerate(zip(out, order, rr)):
                    nm = '%s loads of phase %d' % ('active' if kd == 'p' else 'reactive', j % 3) if three else ('active loads', 'reactive loads')[j]
                    if not h.shape(nm, x, (dim(norm(dp(w) * dp(ln))), n)): continue
                    F, cols, mean = (pw, H, pm) if kd == 'p' else (qw, Hq, qm)
                    cnt = b_round(r[i] / mean)
                    got = x.get((P(t), P(i)))
                    ks = sorted({a.args[0] for a in deep(got.re) if a.op == 'app' and a.args[0].startswith('rint')})
                    if not h.true('%s: one random selection of households' % nm, len(ks) == 1 and ks[0] not in usedk): continue
                    usedk.add(ks[0])
                    f = F.snap()
                    h.eq('%s: sum over round(nominal / mean percentile) households' % nm, got,
                         SumS([norm(toS(cnt).re)], lambda u: toS(f(P(t), app(ks[0], [P(i), u], 'I'))), 'f'))
                    h.true('%s: households drawn among all columns' % nm, all(norm(toS(e[2]).re).const() == 0 and norm(toS(e[3]).re) is norm(dp(cols)) for e in evs if e[1] == ks[0]) and any(e[1] == ks[0] for e in evs))
            B.verify('profile loads[%s, %s]' % (source, 'three phases' if three else 'single phase'), body)

    # ---- stages
    for nm, m in (('run', L.load('src.simulation.run')), ('run3ph', L.load('src.simulation.run3ph'))):
        quiet(m)
        for src in ('profile', 'random'):
            for const in (False, True):
                def body(h, m=m, nm=nm, src=src, const=const): stage(h, L, m, nm, src, const)
                B.verify('%s generate_loads[%s, constant nodes: %s]' % (nm, src, const), body)


def stage(h, L, m, nm, src, const):
    np = L.np
    Store(L)
    net, n, k, mm = table_net(h)
    three = nm == 'run3ph'
    L.load('conf.simulation').load_constantness = h.real('a')
    a = toS(L.load('conf.simulation').load_constantness).re
    calls = []
    weeks = h.indices('weeks', (h.size('nweeks', 2),), 0, 60)
    per = dp(h.size('per week'))
    days = S(norm(per * dp(weeks.shape_[0])), ZERO, 'i') if src == 'profile' else h.size('days')     # profiles: the days are spread evenly over the weeks
    T_ = norm(24 * 60 * dp(days))

    def gen(kind):
        def f(*pos, **kw):
            names = ('active_file', 'reactive_file', 'skip_header', 'length', 'load_p_reference', 'load_q_reference', 'load_p_rb', 'load_q_rb', 'load_p_rc', 'load_q_rc', 'verbose') if kind == 'profile' else \
                ('load_sd', 'n_samples', 'load_p_reference', 'load_q_reference', 'load_p_rb', 'load_q_rb', 'load_p_rc', 'load_q_rc')
            d = bind(names, pos, kw, dict(load_p_rb=None, load_q_rb=None, load_p_rc=None, load_q_rc=None, verbose=False))
            if kind == 'profile':
                h.true('profile files', d['active_file'] == 'p.npy' and d['reactive_file'] == 'q.npy')
                h.eq_arr('first rows of the selected weeks', arr(d['skip_header']), weeks * 7 * 24 * 60)
                h.eq('rows per selected week', toS(arr(d['length']).get(())) if isinstance(d['length'], A) else d['length'], S(24 * 60 * per))
            else:
                h.eq('relative deviation', d['load_sd'], sd)
                h.eq('one draw per minute', d['n_samples'], S(T_))
            split = [d[x] is not None for x in names if x.startswith('load_') and x.endswith(('rb', 'rc'))]
            ph = all(split)
            h.true('nominal powers of all phases or of one', ph or not any(split))
            keys_ = [x for x in names if x.startswith('load_') and x != 'load_sd'][:6 if ph else 2]
            c = len(calls)
            calls.append((ph, {x: arr(d[x]).copy() for x in keys_}))
            # order of the results: profiles give active then reactive powers, random draws alternate (contracts above)
            rr = (0, 2, 4, 1, 3, 5) if ph and kind == 'profile' else range(len(keys_))
            sz = arr(d['load_p_reference']).shape_[0]
            return tuple(h.array('draw%d_%s' % (c, keys_[i]), (dim(T_), sz)) for i in rr)
        return f
    install(L, m, dict(generate_gaussian_load=gen('random'), load_profile_from_numpy=gen('profile')))
    nc = h.size('nc', 2)
    consts = h.indices('const', (nc,), 0, 10 ** 6)
    sd = h.real('sd', pos=True)
    params = ('p.npy', 'q.npy', weeks, days, LabelList(consts) if const else None) if src == 'profile' else (None, None, sd, days, LabelList(consts) if const else None)
    out = m.generate_loads(net, params, False)
    if not h.true('number of results', len(out) == (4 if three else 3)): return
    if not h.true('profiles are generated once per table', sorted(c[0] for c in calls) == ([False, True] if three else [False])): return
    t = P(h.index(dim(T_)))

    def values(tab, cols, keys_, xs, c):
        tb = getattr(net, tab)
        i = P(h.index(tb.idx.shape_[0]))
        for col, key, x in zip(cols, keys_, xs):
            nom = tb.cols[col].snap()
            h.eq_arr('nominal powers %s in table order' % col, calls[c][1][key], tb.cols[col])
            if not h.shape('loads %s' % col, x, (dim(T_), tb.idx.shape_[0])): continue
            d = S(app('draw%d_%s' % (c, key), [t, i]))
            if const:
                isc = toS(b_any(consts == toS(tb.cols['bus'].get((i,))))).re
                want = S(norm(isc * ((ONE - a) * d.re + a * toS(nom(i)).re) + (ONE - isc) * d.re))
            else: want = d
            h.eq('loads %s: drawn for its own nominal power%s' % (col, ', mixed with it at constant nodes only' if const else ''), x.get((t, i)), want)
    cs = {c[0]: j for j, c in enumerate(calls)}
    values('load', ('p_mw', 'q_mvar'), ('load_p_reference', 'load_q_reference'), out[:2], cs[False])
    if three:
        if h.true('six unbalanced loads', len(out[2]) == 6):
            values('asymmetric_load', PH, ('load_p_reference', 'load_p_rb', 'load_p_rc', 'load_q_reference', 'load_q_rb', 'load_q_rc'), out[2], cs[True])
    if h.shape('times', out[-1], (dim(T_),)): h.eq('one time per minute in seconds', out[-1].get((t,)), S(60 * t))
    for tb in (net.load, net.asymmetric_load):
        for cn, v in tb.cols.items(): h.unchanged('table column %s' % cn, v)


def deep(p):
    out, seen = set(), set()
    def go(q):
        if id(q) in seen: return
        seen.add(id(q))
        for m in P(q).d:
            for aid, e in m: ga(T._byid[aid])
    def ga(a):
        if a in out: return
        out.add(a)
        if a.op == 'sum':
            go(a.args[1])
            for x in a.args[0]: go(x)
            return
        for x in a.args:
            if isinstance(x, Poly): go(x)
    go(p)
    return out
