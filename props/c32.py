"""separate identification of phases or sequences: channels handed to the single-phase stage, placement of its results, histories"""
from .stages import *

ASSUME = STORE + ['the single-phase stages standard_methods and bayesian_eiv are used through their signature: they return arbitrary matrices over the channels they are given, and arbitrary histories (their contracts: C35, C12 to C18)',
                  'every phase has at least one channel']


class Rec:
    def __init__(self, **k): self.__dict__.update(k)


class Final(SList):
    """the assembled history, whose entries were checked one by one"""
    __frozen__ = True
    def __iter__(self): raise Unsupported('the assembled history is read again')
    __getitem__ = __len__ = length = append = __iter__


class Entries:
    """the loop that assembles the history: one new entry per iteration"""
    always = False
    def __init__(self, h, check): self.h, self.check, self.done = h, check, None
    def accept(self, ctl):
        ls = {id(v): v for v in caller_locals().values() if isinstance(v, SList) and not v.sym and list.__len__(v) == 0}
        self.lst = list(ls.values())[0] if len(ls) == 1 else None
        return self.lst is not None
    def iterate(self, ctl):
        h = self.h
        self.pre = dict(ctl.pre)
        if not h.zero('as many iterations as the shortest history', norm(P(ctl.n) - dp(self.length))): raise StopPath()
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            def old(k): raise Unsupported('earlier entries of the history are used')
            self.lst.sym = (t, old)
            arrays = [(nm, v, v.ver) for nm, v in caller_locals().items() if isinstance(v, A)]
            yield ctl.f(t)
            for nme, v in self.pre.items():
                if v is not UNDEF and ctl.ends.get(nme) is not v and not isnum(v): raise Unsupported('variable %s changes over the iterations' % nme)
            n, f = self.lst.sym
            own = lambda v: v if v.base is None else own(v.base)
            if norm(n - t - 1) is ZERO:
                for nm, v, k in arrays: h.true('storage of its own for every iteration', own(f(t).fitted_parameters) is not own(v))
            for nm, v, k in arrays:
                if v.ver != k: raise Unsupported('array %s changes over the iterations' % nm)
            if h.zero('one entry per iteration', norm(n - t - 1)): self.check(t, f(t))
            raise StopPath()
        self.lst.__class__ = Final
        self.done = self.lst
    def head(self, ctl, name, th): return self.pre.get(name, UNDEF)
    def fin(self, ctl, name, th):
        v = self.pre.get(name, UNDEF)
        return v if v is not UNDEF and not isnum(v) else UNDEF


class Channels:
    """an arbitrary assignment of channels to the three phases"""
    def __init__(self, h):
        self.h = h
        self.n = h.size('n', 3)
        self.ids = h.array('ids', (self.n,), 'i')
        C().apprng['ids'] = lambda *a: (P(0), P(3))
        C()._touch()
        for p in range(3):
            w = dp(h.index(self.n))
            C().assume_eq(norm(toS(self.ids.get((w,))).re - p))
            C().assume_le(ONE - self.count(p))            # implied
    def at(self, p): return lambda j: S(X.dec_eq(toS(self.ids.get((P(j),))).re - p), ZERO, 'i')
    def count(self, p): return norm(SumS([self.n], self.at(p), 'i').re)
    def rank(self, p, a): return norm(SumS([a], self.at(p), 'i').re)
    def channel(self, p):
        """an arbitrary channel of the phase, with its place among them"""
        a = dp(self.h.index(self.n))
        C().assume_eq(norm(toS(self.ids.get((a,))).re - p))
        r = self.rank(p, a)
        C().assume_le(-r)
        C().assume_le(norm(r + 1 - self.count(p)))        # implied: the channel itself is counted
        self.h.selected(r, a)
        return a, r

    def placed(self, label, Ym, block, choose=True):
        """entries of the assembled matrix: block(p) of their phase, zero between phases"""
        h = self.h
        if not h.shape(label, Ym, (self.n, self.n)): return
        c = Y.EXP[0].choose(9)
        p, q = c // 3, c % 3
        (a, ra), (b, rb) = self.channel(p), self.channel(q)
        h.eq('%s, phases %d and %d' % (label, p, q), Ym.get((a, b)), block(p).get((ra, rb)) if p == q else 0)

    data = True
    def picked(self, label, got, src, p, axes):
        """the given array restricted to the channels of a phase along the axes"""
        h = self.h
        if not self.data: return
        if not isinstance(got, A): return h.fail(label, 'not an array')
        want = tuple(dim(self.count(p)) if k in axes else d for k, d in enumerate(src.shape_))
        if not h.shape(label, got, want): return
        i, j = [], []
        for k, d in enumerate(src.shape_):
            a, r = self.channel(p) if k in axes else (P(h.index(d)),) * 2
            i.append(r)
            j.append(a)
        h.eq(label, got.get(tuple(i)), src.get(tuple(j)))


def run(B, L):
    B.functions |= {'identification.run3ph.standard_methods', 'identification.run3ph.bayesian_eiv'}

    def setup(h):
        s = Rec(store=Store(L), mod=L.load('src.identification.run3ph'), ch=Channels(h), T=h.size('T', 2), calls=[])
        quiet(s.mod)
        s.ch.data = Y.EXP[0].choose(2) == 0           # what the phases are given, then what becomes of their results
        s.x, s.z = h.array('V', (s.T, s.ch.n), 'c'), h.array('I', (s.T, s.ch.n), 'c')
        return s

    def same_data(h, s, p, v, i):
        s.ch.picked('voltages of phase %d' % p, v, s.x, p, (1,))
        s.ch.picked('currents of phase %d' % p, i, s.z, p, (1,))

    def frame(h, s, *more):
        for nm, v in (('voltages', s.x), ('currents', s.z), ('phases', s.ch.ids)) + more: h.unchanged('%s of the caller' % nm, v)

    for lap in (False, True):
        def body(h, lap=lap):
            s = setup(h)
            maxit = h.int('maxit', 1)
            res = []

            def std(name, voltage, current, phases_ids=None, laplacian=False, max_iterations=10, verbose=True):
                p = len(s.calls)
                if p > 2: return h.fail('one identification per phase', 'a fourth identification')
                s.calls.append(p)
                h.true('single-phase identification of phase %d' % p, phases_ids is None)
                same_data(h, s, p, voltage, current)
                h.true('parametrisation of phase %d' % p, laplacian is lap)
                h.eq('iterations of phase %d' % p, max_iterations, maxit)
                res.append([h.array('%s%d' % (k, p), (dim(s.ch.count(p)),) * 2, 'c') for k in ('yo', 'yt', 'yl')])
                return tuple(e.copy() for e in res[-1])
            install(L, s.mod, dict(run=Rec(standard_methods=std)))
            out = s.mod.standard_methods('net', s.x, s.z, s.ch.ids, lap, maxit, False)
            h.true('one identification per phase', len(s.calls) == 3)
            if s.ch.data: return
            if h.true('three results', len(out) == 3):
                k = Y.EXP[0].choose(3)
                s.ch.placed('assembled %s estimate' % ('ordinary', 'total', 'sparse')[k], out[k], lambda p: res[p][k])
            frame(h, s)
        B.verify('standard methods[laplacian=%s]' % lap, body)

    for lap, weighted, exact in ((False, False, False), (True, False, True), (False, True, True), (True, True, False)):
        def body(h, lap=lap, weighted=weighted, exact=exact):
            s = setup(h)
            n = s.ch.n
            maxit = h.int('maxit', 1)
            rat, y0 = h.array('ratings', (n,)), h.array('Y0', (n, n), 'c')
            ye = h.array('Yexact', (n, n), 'c') if exact else None
            sdv, sdi, pmu = h.real('sdv'), h.real('sdi'), True
            lens = [h.size('len%d' % p, 1) for p in range(3)]
            m = 0 if s.ch.data else Y.EXP[0].choose(3)
            for q in range(3):
                if q != m: C().assume_le(norm(dp(lens[m]) - dp(lens[q]) + (1 if q < m else 0)))
            res = []

            def entry(p, t, cnt):
                fit = A((cnt, cnt), 'c', lambda i, j: S(app('fr%d' % p, [t, i, j]), app('fi%d' % p, [t, i, j]), 'c'))
                return Rec(iteration=S(P(t), ZERO, 'i'), fitted_parameters=fit, target_function=S(app('tar%d' % p, [t]), ZERO))

            def eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_sd_polar, pmu_ratings, y_init, y_exact=None, laplacian=False, weighted_=False, max_iterations=50, use_pmu_data=True, verbose=True, **kw):
                if 'weighted' in kw: weighted_ = kw.pop('weighted')
                if kw: return h.fail('single-phase identification', 'unexpected arguments %s' % sorted(kw))
                p = len(s.calls)
                if p > 2: return h.fail('one identification per phase', 'a fourth identification')
                s.calls.append(p)
                h.true('single-phase identification of phase %d' % p, phases_ids is None)
                same_data(h, s, p, voltage, current)
                s.ch.picked('ratings of phase %d' % p, pmu_ratings, rat, p, (0,))
                s.ch.picked('initial estimate of phase %d' % p, y_init, y0, p, (0, 1))
                if ye is None: h.true('no exact parameters', y_exact is None)
                else: s.ch.picked('exact parameters of phase %d' % p, y_exact, ye, p, (0, 1))
                h.eq('voltage deviation', voltage_sd_polar, sdv)
                h.eq('current deviation', current_sd_polar, sdi)
                h.true('settings of phase %d' % p, laplacian is lap and weighted_ is weighted and use_pmu_data is pmu)
                h.eq('iterations of phase %d' % p, max_iterations, maxit)
                cnt = dim(s.ch.count(p))
                hist = SList()
                hist.sym = (dp(lens[p]), lambda k: entry(p, k, cnt))
                if s.ch.data and p == 2: raise StopPath()
                res.append(h.array('y%d' % p, (cnt, cnt), 'c'))
                return res[-1].copy(), hist

            def check(t, e):
                h.eq('number of the iteration', e.iteration, S(t, ZERO, 'i'))
                h.eq('target of an iteration', e.target_function, S(sum((app('tar%d' % p, [t]) for p in range(3)), ZERO), ZERO))
                s.ch.placed('parameters of an iteration', e.fitted_parameters, lambda p: entry(p, t, dim(s.ch.count(p))).fitted_parameters)
            sp = Entries(h, check)
            LD.LOOPSPEC[lambda site, q: True] = sp
            sp.length = lens[m]
            install(L, s.mod, dict(run=Rec(bayesian_eiv=eiv)))
            out = s.mod.bayesian_eiv('net', s.x, s.z, s.ch.ids, sdv, sdi, rat, y0, ye, lap, weighted, maxit, pmu, False)
            if sp.done is None: raise Unsupported('no loop over the iterations')
            h.true('one identification per phase', len(s.calls) == 3)
            if s.ch.data: return
            if h.true('matrix and history', len(out) == 2):
                h.true('the assembled history is returned', out[1] is sp.done)
                s.ch.placed('assembled estimate', out[0], lambda p: res[p])
            frame(h, s, ('ratings', rat), ('initial estimate', y0), *((('exact parameters', ye),) if exact else ()))
        B.verify('bayesian[laplacian=%s, weighted=%s, exact=%s]' % (lap, weighted, exact), body)
