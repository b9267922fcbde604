"""contracts used when a pipeline stage is verified: estimators, priors and the archive functions of numpy"""
from engine.prove import *
from engine.npfake import *
from engine import npfake as NP
from engine import load as LD, sym as Y, ctx as X, terms as T

STORE = ['numpy.savez stores every keyword array under its name in the file it is given (file name completed with .npz); numpy.load returns these arrays under the same names']


class Archive(dict):
    """what numpy.load returns"""
    @property
    def files(self): return list(self.keys())
    def __getitem__(self, k):
        if k not in self: raise CodeError('KeyError: %s is not a file in the archive' % k)
        return dict.__getitem__(self, k)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class Store:
    def __init__(self, L):
        self.files, self.log = {}, []
        L.np.__dict__.update(savez=self.savez, savez_compressed=self.savez, load=self.load)

    def key(self, path):
        p = str(path)
        return p if p.endswith('.npz') else p + '.npz'

    def savez(self, file, *args, **kw):
        if args: raise Unsupported('positional arrays in savez')
        k = self.key(file)
        self.files[k] = Archive({n: frozen_copy(v) for n, v in kw.items()})
        self.log.append(('save', k))

    def load(self, file, mmap_mode=None, allow_pickle=False, **kw):
        k = str(file)
        self.log.append(('load', k))
        if k not in self.files: raise CodeError('FileNotFoundError: %s' % k)
        d = self.files[k]
        for n, v in d.items():
            if (isinstance(v, Objects) or hasattr(v, '__frozen__')) and not allow_pickle: d = Archive({**d, n: NoPickle()})
        return d


class NoPickle:
    def __getattr__(self, a): raise CodeError('ValueError: object arrays cannot be loaded when allow_pickle=False')


class Objects(SList):
    """array of python objects (history entries)"""


def frozen_copy(v):
    """the value at the time of saving, as an array"""
    if hasattr(v, "__frozen__"): return v
    if isinstance(v, A): return v.copy()
    if isnum(v): return v
    if isinstance(v, (list, tuple, RangeS)):
        if isinstance(v, SList) and v.sym or all(isnum(e) or isinstance(e, (A, list, tuple)) for e in v): return arr(v).copy()
        return Objects(v)
    return v


class Pr:
    """stands for print"""
    def __call__(self, *a, **k): return None


def quiet(*mods):
    for m in mods: m.__dict__['print'] = Pr()


def bind(names, a, k, defaults=None):
    """arguments by position or keyword"""
    d = dict(zip(names, a))
    if len(a) > len(names): raise CodeError('TypeError: too many arguments')
    for n, v in k.items():
        if n not in names or n in d: raise CodeError('TypeError: unexpected argument %s' % n)
        d[n] = v
    for n in names:
        if n not in d:
            if defaults is None or n not in defaults: raise CodeError('TypeError: missing argument %s' % n)
            d[n] = defaults[n]
    return d


def recorder(h, log, kind, fit_names, fit_defaults, init_names=(), init_defaults=None, result=None, extra=None):
    """an estimator class known only by its contract: fit() is recorded, the fitted matrix is arbitrary"""
    class Est:
        def __init__(self, *a, **k):
            d = bind(init_names, a, k, init_defaults)
            self.__dict__.update(init=d)
            log.append(self)
            self.__dict__.update(kind=kind, fits=[])

        def fit(self, *a, **k):
            d = bind(fit_names, a, k, fit_defaults)
            self.fits.append({n: (v.copy() if isinstance(v, A) else v) for n, v in d.items()})
            n = len([e for e in log if e.kind == kind and e is not self])
            self.__dict__['_res'] = result(self, d, n)
            if extra: self.__dict__.update(extra(self, d, n))

        @property
        def fitted_admittance_matrix(self):
            if not self.fits: raise CodeError('fitted matrix requested before fit')
            return self._res
    Est.__name__ = kind
    return Est


PRIOR_INIT = ('prior', 'lambda_value', 'abs_tol', 'rel_tol', 'max_iterations', 'verbose', 'dt_matrix_builder', 'e_matrix_builder')


def install(L, mod, names):
    """replace the given names in the module and where they are defined"""
    for n, v in names.items():
        setattr(mod, n, v)


def opaque_builders(h):
    """duplication and elimination matrices as arbitrary matrices per size (C03 and C04 are about their entries)"""
    def one(nm, shape):
        return lambda n: A(tuple(dim(norm(d)) for d in shape(dp(n))), 'f', lambda i, j: S(app(nm, [dp(n), i, j])), None)
    tri = lambda n: X.idiv(n * (n + 1), 2)
    low = lambda n: X.idiv(n * (n - 1), 2)
    return dict(duplication_matrix=one('DUP', lambda n: (n * n, tri(n))), transformation_matrix=one('TRA', lambda n: (tri(n), low(n))),
                elimination_sym_matrix=one('ELS', lambda n: (tri(n), n * n)), elimination_lap_matrix=one('ELL', lambda n: (low(n), tri(n))))


def builders_match(h, b, dt, el, lap):
    """the builder functions given to an estimator produce the matrices of the requested parametrisation"""
    n = h.size('m', 2)
    D, Tm, Es, El = (b[k](n) for k in ('duplication_matrix', 'transformation_matrix', 'elimination_sym_matrix', 'elimination_lap_matrix'))
    h.eq_arr('reconstruction matrix of the requested parametrisation', dt(n), D @ Tm if lap else D)
    h.eq_arr('elimination matrix of the requested parametrisation', el(n), El @ Es if lap else Es)


def centred(np, x, z, lap):
    """reference centring"""
    if lap: return x - np.mean(x), z
    return x - np.mean(x, axis=0)[None, :], z - np.mean(z, axis=0)[None, :]


# ------------------------------------------------------------------ tables
TABLES = ['pandas tables: a column gives its values in row order through .values, .iloc and iteration, and the value of the row with label l through column[l] or table.loc[...]; table.index is the array of row labels (distinct)']


class Index:
    def __init__(self, a): self.a = a
    @property
    def values(self): return self.a.copy()
    def to_numpy(self): return self.a.copy()
    def tolist(self): return LabelList(self.a)
    to_list = tolist
    def __getitem__(self, i): return self.a[i]
    def __symlen__(self): return mk('i', dp(self.a.shape_[0]))
    def __len__(self):
        n = dconst(self.a.shape_[0])
        if n is None: raise Unsupported('length of a table as a number')
        return n
    def __iter__(self): return iter(self.a)
    def __symarray__(self): return self.a
    def __symiter__(self):
        n = self.a.shape_[0]
        return None if dconst(n) is not None else (dp(n), lambda k: self.a[S(k, ZERO, 'i')])
    @property
    def shape(self): return self.a.shape
    @property
    def size(self): return self.a.size
    def __eq__(self, o): return self.a == o
    def __ne__(self, o): return self.a != o
    __hash__ = None
    def get_loc(self, l): return position(self.a, l)


def position(a, l):
    """position of the (distinct) label l"""
    n = a.shape_[0]
    f = a.snap()
    l = toS(l).re
    r = norm(SumS([n], lambda k: S(X.dec_eq(toS(f(k)).re - l) * P(k), ZERO, 'i')).re)
    return S(r, ZERO, 'i')


class LabelList(SList):
    """list of labels of symbolic length"""
    def __init__(self, a):
        SList.__init__(self)
        self.a = a
        f = a.snap()
        self.sym = (dp(a.shape_[0]), lambda k: toS(f(P(k))))
    def index(self, l): return position(self.a, l)
    def __contains__(self, x): return b_decide(norm(toS(b_any(self.a == x)).re))


class Series:
    def __init__(self, a, idx): self.a, self.idx = a, idx
    @property
    def values(self): return self.a.copy()
    def to_numpy(self, *a, **k): return self.a.copy()
    @property
    def index(self): return Index(self.idx)
    @property
    def iloc(self): return self.a
    @property
    def loc(self): return self
    @property
    def shape(self): return self.a.shape
    @property
    def size(self): return self.a.size
    def tolist(self): return LabelList(self.a)
    to_list = tolist
    def at_label(self, l):
        n, f, g = self.a.shape_[0], self.a.snap(), self.idx.snap()
        l = toS(l).re
        if dconst(n) == 1: return toS(f(ZERO))
        return SumS([n], lambda k: (lambda v, e: S(v.re * e, v.im * e, v.kind))(toS(f(k)), X.dec_eq(toS(g(k)).re - l)), self.a.kind)
    def __getitem__(self, l):
        if isinstance(l, Series) and l.a.kind == 'b': return Picked(self.a, l.a, self.idx)
        if isinstance(l, (SList, list, tuple)) and not getattr(l, 'sym', None):
            ls = list(l)
            return Series(arr(SList([self.at_label(x) for x in ls])), arr(SList([toS(x) for x in ls])))
        if isinstance(l, A):
            if l.kind == 'b': return Series(self.a[l], self.idx[l])
            g = l.snap()
            return Series(A(l.shape_, self.a.kind, lambda i: toS(self.at_label(toS(g(i))))), l)
        return self.at_label(l)
    def __iter__(self): return iter(self.a)
    def __symlen__(self): return mk('i', dp(self.a.shape_[0]))
    def __len__(self):
        n = dconst(self.a.shape_[0])
        if n is None: raise Unsupported('length of a table as a number')
        return n
    def __symarray__(self): return self.a
    def _w(self, v): return Series(v, self.idx)
    def sum(self): return asum(self.a)
    def isin(self, o): return self._w(np_isin(self.a, arr(o)))
    def all(self, *a, **k): return Y.aall(self.a)
    def any(self, *a, **k): return Y.aany(self.a)


def _ops():
    for o in 'add radd sub rsub mul rmul truediv rtruediv pow eq ne lt le gt ge and or'.split():
        def f(self, x, o=o):
            x = x.a if isinstance(x, Series) else x
            m = getattr(self.a, '__%s__' % o, None)
            if m is None: raise Unsupported('operation on a table column')
            return self._w(m(x))
        setattr(Series, '__%s__' % o, f)
    Series.__hash__ = None
    for o in ('neg', 'abs'):
        setattr(Series, '__%s__' % o, lambda self, o=o: self._w(getattr(self.a, '__%s__' % o)()))


_ops()


class Picked(Series):
    """rows of a column where a mask holds; quantified over the whole column"""
    def __init__(self, base, mask, idx): self.base, self.mask, self.bidx = base, mask, idx
    @property
    def a(self): return self.base[self.mask]
    @property
    def idx(self): return self.bidx[self.mask]
    def _op(self, o, x):
        if isinstance(x, (Series, A, SList, list)): return getattr(Series(self.a, self.idx), o)(x)
        return Picked(getattr(self.base, o)(x), self.mask, self.bidx)
    def _n(self, neg):
        f, g = toB(self.base), self.mask.snap()
        return SumS([self.base.shape_[0]], lambda q: (lambda m, v: S(norm(m * ((ONE - v) if neg else v)), ZERO, 'i'))(toS(g(P(q))).re, toS(f(P(q))).re))
    def all(self, *a, **k): return mk('b', norm(b_not(toS(Y.sbin('ge', self._n(True), 1)).re)))
    def any(self, *a, **k): return Y.sbin('ge', self._n(False), 1)


def toB(a):
    f = a.snap()
    return lambda q: toS(Y.cast(f(q), 'b'))


for _o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(Picked, '__%s__' % _o, lambda self, x, o='__%s__' % _o: self._op(o, x))
Picked.__hash__ = None


class Frame:
    def __init__(self, cols, idx): self.__dict__.update(cols=dict(cols), idx=idx)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        if k not in self.cols: raise CodeError('AttributeError: no column %s' % k) if k in KNOWN else Unsupported('table.%s' % k)
        return Series(self.cols[k], self.idx)
    @property
    def index(self): return Index(self.idx)
    @property
    def columns(self): return SList(self.cols)
    @property
    def values(self):
        n = self.idx.shape_[0]
        cs = [c.snap() for c in self.cols.values()]
        ks = [c.kind for c in self.cols.values()]
        return A((n, len(cs)), Y.kmax(*ks), lambda i, j: Y.pick(j, [lambda c=c: toS(c(i)) for c in cs]))
    def to_numpy(self): return self.values
    @property
    def shape(self): return (mk('i', dp(self.idx.shape_[0])), len(self.cols))
    @property
    def empty(self): return mk('i', dp(self.idx.shape_[0])) == 0
    @property
    def loc(self): return Loc(self)
    @property
    def iloc(self): return ILoc(self)
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols: raise CodeError('KeyError: %s' % k)
            return Series(self.cols[k], self.idx)
        if isinstance(k, (list, tuple)):
            for c in k:
                if c not in self.cols: raise CodeError('KeyError: %s' % c)
            return Frame({c: self.cols[c] for c in k}, self.idx)
        k = k.a if isinstance(k, (Series, Index)) else k
        if isinstance(k, A) and k.kind == 'b': return Frame({c: v[k] for c, v in self.cols.items()}, self.idx[k])
        raise Unsupported('table selection')
    def __symlen__(self): return mk('i', dp(self.idx.shape_[0]))
    def __len__(self):
        n = dconst(self.idx.shape_[0])
        if n is None: raise Unsupported('length of a table as a number')
        return n


KNOWN = set()


class Loc:
    def __init__(self, f): self.f = f
    def __getitem__(self, k):
        f = self.f
        col = None
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (str, SList, list)): k, col = k
        if isinstance(k, slice) and k == slice(None): r = f
        elif isinstance(k, (list, SList, A, Index, Series)):
            k = k.a if isinstance(k, (Index, Series)) else k
            idx = None
            cols = {}
            for c, v in f.cols.items():
                s = Series(v, f.idx)[k]
                cols[c], idx = s.a, s.idx
            r = Frame(cols, idx)
        else:
            if col is not None: return f[col][k]
            r = Row({c: Series(v, f.idx).at_label(k) for c, v in f.cols.items()})
        return r if col is None else r[col]


class ILoc:
    def __init__(self, f): self.f = f
    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple): raise Unsupported('table.iloc')
        if isinstance(k, (A, slice, SList, list)): return Frame({c: v[k] for c, v in f.cols.items()}, f.idx[k])
        return Row({c: v[k] for c, v in f.cols.items()})


class Row(dict):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return self[k]


class Net:
    """a network known only by its tables"""
    def __init__(self, **k): self.__dict__.update(k)
    def __getitem__(self, k): return getattr(self, k)


class Carry:
    """loop that updates one entry of an array in one of its iterations: exact state after t iterations"""
    always = False
    def __init__(self, h, ok, state, runs=1): self.h, self.ok, self.state, self.left = h, ok, state, runs
    def accept(self, ctl):
        loc = caller_locals()
        vs = {id(v): v for v in loc.values() if isinstance(v, A) and self.ok(v)}
        self.x = list(vs.values())[0] if len(vs) == 1 else None
        return self.x is not None and self.left > 0 and not any(isinstance(v, A) for v in ctl.pre.values())
    def iterate(self, ctl):
        h, self.left = self.h, self.left - 1
        self.pre = dict(ctl.pre)
        base = self.x.copy()
        self.st = lambda t: self.state(base, P(t))
        s0 = self.st(ZERO)
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            self.cur = self.st(t)
            self.x.fn, self.x.memo, self.x.mxf = self.cur.snap(), {}, None
            yield ctl.f(t)
            for k, v in self.pre.items():
                if ctl.ends.get(k) is not v and not isnum(v) and v is not UNDEF: raise Unsupported('variable %s changes over the iterations' % k)
            h.eq_arr('state of the ratings after every external connection looked at so far', self.x, self.st(t + 1))
            raise StopPath()
        h.eq_arr('state of the ratings before the external connection', base, s0)
        fin = self.st(P(ctl.n))
        self.x.fn, self.x.memo, self.x.mxf = fin.snap(), {}, None
        return
    def head(self, ctl, name, th):
        # a number assigned in the body is not known at the start of an iteration, nor after the loop
        v = self.pre.get(name, UNDEF)
        return UNDEF if isnum(v) else v
    fin = head



def ratings_state(j):
    """rating of the external connection at position j: sum over all ratings before it was visited"""
    def ratings(x, t):
        f = x.snap()
        done = norm(T.le0(P(j) + 1 - t))
        s = SumS([x.shape_[0]], lambda i: toS(f(i))).re
        return A(x.shape_, x.kind, lambda i: S(ite(norm(X.dec_eq(P(i) - P(j)) * done), s, toS(f(i)).re), ZERO, 'f'))
    return ratings


class Grow:
    """loop whose variables follow a closed form: which(value before the loop) gives the state after t iterations, or None for other variables"""
    always = False
    def __init__(self, h, which, label): self.h, self.which, self.label = h, which, label
    def accept(self, ctl):
        self.forms = {n: f for n, v in ctl.pre.items() if isinstance(v, A) for f in [self.which(v)] if f is not None}
        return bool(self.forms) and self.ok()
    def ok(self): return True
    def compare(self, label, got, want, t): self.h.eq_arr(label, got, want)
    def iterate(self, ctl):
        h = self.h
        self.pre = dict(ctl.pre)
        self.cur = {}
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            self.cur = {n: f(t) for n, f in self.forms.items()}
            yield ctl.f(t)
            for n, f in self.forms.items():
                want = f(norm(t + 1))
                if h.shape('%s (shape)' % self.label, ctl.ends.get(n), want.shape_): self.compare(self.label, ctl.ends[n], want, t)
            for n, v in self.pre.items():
                if n not in self.forms and v is not UNDEF and ctl.ends.get(n) is not v and not isnum(v): raise Unsupported('variable %s changes over the iterations' % n)
            raise StopPath()
        for n, f in self.forms.items():
            want = f(ZERO)
            if h.shape('%s at the start (shape)' % self.label, self.pre[n], want.shape_) and not any(dconst(d) == 0 for d in want.shape_): h.eq_arr('%s at the start' % self.label, self.pre[n], want)
        self.cur = {n: f(P(ctl.n)) for n, f in self.forms.items()}
        return
    def head(self, ctl, name, th): return self.cur.get(name, self.pre.get(name, UNDEF))
    def fin(self, ctl, name, th): return self.cur[name] if name in self.cur else UNDEF if not isnum(self.pre.get(name)) and not isinstance(self.pre.get(name), A) else self.pre[name]


def caller_locals():
    """local variables of the innermost repository function on the stack"""
    import sys
    f = sys._getframe(1)
    while f is not None and not f.f_code.co_filename.startswith(LD.REPO): f = f.f_back
    return dict(f.f_locals) if f is not None else {}
