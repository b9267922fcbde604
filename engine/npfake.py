"""Assumed contracts of numpy / scipy / builtins over symbolic values.  Every function here is part of the trusted base."""
import types, builtins, math
from fractions import Fraction as Fr
from .sym import *
from . import sym as Y, ctx as X, terms as T
from .load import *
from . import load as LD

USED = {}       # names of assumed contracts exercised -> count
EVENTS = []     # calls recorded for the harness: (name, data)


def used(n): USED[n] = USED.get(n, 0) + 1


# ------------------------------------------------------------------ builtins
class _T:
    """builtin type stand-in"""
    def __init__(self, name, kind, real): self.name, self.__symkind__, self.real = name, kind, real
    def __repr__(self): return self.name
    def __eq__(self, o): return o is self or o is self.real or (isinstance(o, DType) and o.kind == self.__symkind__)
    def __hash__(self): return hash(self.name)
    def __instancecheck__(self, o): return b_isinstance(o, self)
    def __call__(self, x=0):
        if isinstance(x, str): return self.real(x)
        if self.__symkind__ == 'i':
            if isinstance(x, (S, A)): return sint(toS(x))
            if isinstance(x, Fr): return int(x)
            return int(x)
        if self.__symkind__ == 'f':
            if isinstance(x, (S, A)):
                v = toS(x)
                if v.kind == 'c': raise CodeError('float() of complex')
                return S(v.re, ZERO, 'f')
            return float(x)
        if self.__symkind__ == 'c':
            return toS(cast(x, 'c')) if isinstance(x, (S, A)) else complex(x)
        if self.__symkind__ == 'b': return h_truth(x)


FLOAT, INT, COMPLEX, BOOL = _T('float', 'f', float), _T('int', 'i', int), _T('complex', 'c', complex), _T('bool', 'b', bool)


class NPScalar(S):
    """numpy scalar (not a python float)"""
    __slots__ = ()


def b_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, A):
        if x.fmt: return SPT[x.fmt]
        return ndarray
    if isinstance(x, S):
        if isinstance(x, NPScalar): return DT[x.kind]
        return {'f': FLOAT, 'i': INT, 'c': COMPLEX, 'b': BOOL}[x.kind]
    if isinstance(x, bool): return BOOL
    if isinstance(x, int): return INT
    if isinstance(x, float): return FLOAT
    if isinstance(x, complex): return COMPLEX
    if isinstance(x, SList): return list
    return type(x)


def b_isinstance(x, t):
    if isinstance(t, tuple): return any(b_isinstance(x, u) for u in t)
    if isinstance(t, _T):
        k = t.__symkind__
        if isinstance(x, S): return x.kind == k or (k == 'i' and x.kind == 'b')
        return isinstance(x, t.real)
    if t is ndarray: return isinstance(x, A) and not x.fmt
    if t in SPT.values(): return isinstance(x, A) and x.fmt == t.fmt
    if t is list or t is b_list: return isinstance(x, (SList, list))
    if t is b_tuple: return isinstance(x, tuple)
    if t is b_set: return isinstance(x, (set, SSet))
    if t is b_range: return isinstance(x, (range, RangeS))
    if isinstance(t, DType): return False
    return isinstance(x, t)


def b_len(x):
    if isinstance(x, A):
        if x.ndim == 0: raise CodeError('len of a 0-d array')
        return x.shape_[0]
    if isinstance(x, SList): return x.length()
    if isinstance(x, RangeS): return x.len
    if hasattr(x, '__symlen__'): return x.__symlen__()
    if isinstance(x, S): raise CodeError('len of a scalar')
    return len(x)


def b_range(*a):
    if any(isinstance(x, (S, A)) for x in a):
        a = [mk_elem(x) if isinstance(x, (S, A)) else x for x in a]
        if any(isinstance(x, S) for x in a):
            for x in a:
                if isinstance(x, S) and x.kind == 'f': raise CodeError('range() of a float')
            return RangeS(*(a if len(a) > 1 else [0] + a))
        a = [int(x) for x in a]
    return range(*a)


def b_sum(x, start=0):
    if isinstance(x, SList) and x.sym:
        n, f = x.sym
        e = f(sym('probe', 'I'))
        if isinstance(e, A):
            return asum(arr(x), 0)
        return sbin('add', start, SumS([n], lambda k: toS(f(k))))
    if isinstance(x, A):
        r = asum(x, 0)
        return sbin('add', start, r)
    r = start
    for e in x:
        if isinstance(e, S) and e.kind == 'b': e = mk('i', e.re)
        if isinstance(r, S) and r.kind == 'b': r = mk('i', r.re)
        r = r + e
    return r


def b_abs(x):
    if isinstance(x, (S, A)): return abs(x)
    return abs(x)


def _ext(x, args, neg, key=None, default=None):
    xs = (x,) + args if args else x
    if isinstance(xs, A) or getattr(xs, 'sym', None): return amax(arr(xs), None, neg)
    xs = list(xs)
    if key is not None:
        return (min if neg else max)(xs, key=key)
    if not any(isinstance(e, (S, A)) for e in xs): return (min if neg else max)(xs)
    out = xs[0]
    for e in xs[1:]:
        c = toS(sbin('le' if neg else 'ge', out, e))
        out = mk_elem(ssel(X.norm(c.re), out, e))
    return out


def b_max(x, *a, key=None, **k): return _ext(x, a, False, key)
def b_min(x, *a, key=None, **k): return _ext(x, a, True, key)


def b_any(x):
    if isinstance(x, A) or getattr(x, 'sym', None): return aany(arr(x))
    r = False
    for e in x: r = h_or(r, lambda e=e: e)
    return r


def b_all(x):
    if isinstance(x, A) or getattr(x, 'sym', None): return aall(arr(x))
    r = True
    for e in x: r = h_and(r, lambda e=e: e)
    return r


class SymIter:
    def __init__(self, n, f): self.n, self.f = n, f
    def __symiter__(self):
        return self.n, self.f
    def __symlen__(self): return dim(self.n)


def b_enumerate(x, start=0):
    s = symiter(x)
    if s is None: return enumerate(x, start)
    return SymIter(s[0], lambda k: (mk('i', norm(k + start)), s[1](k)))


def b_zip(*xs):
    ss = [symiter(x) for x in xs]
    if all(s is None for s in ss): return zip(*xs)
    n = None
    fs = []
    for x, s in zip(xs, ss):
        if s is None:
            l = list(x)
            m, f = P(len(l)), (lambda l: lambda k: mk_elem(Y.pick(k, [lambda e=e: toS(e) for e in l])))(l)
        else: m, f = s
        if n is not None:
            r = C().eq(norm(m - n))
            if r is not True: raise Unsupported('zip of different lengths')
        else: n = m
        fs.append(f)
    return SymIter(n, lambda k: tuple(f(k) for f in fs))


def b_list(x=()):
    if isinstance(x, SSet): return set_elements(x)
    if isinstance(x, SetList): return SetList(x.sset, x.f)
    s = symiter(x)
    if s is None: return SList(x)
    r = SList()
    r.sym = s
    return r


def b_tuple(x=()):
    if symiter(x) is not None: raise Unsupported('tuple of symbolic length')
    return tuple(x)


class SSet:
    """set of non-negative integers given by a membership predicate; hi: strict upper bound of the elements (None: unknown)"""
    def __init__(self, mask, hi=None): self.mask, self.hi = mask, hi
    def __contains__(self, x): return b_decide(self.mask(toS(x).re))
    def _o(self, o): return o if isinstance(o, SSet) else to_sset(o)
    def __sub__(self, o):
        o = self._o(o)
        return SSet(lambda p: norm(self.mask(p) * (ONE - o.mask(p))), self.hi)
    def __rsub__(self, o): return self._o(o) - self
    def __and__(self, o):
        o = self._o(o)
        return SSet(lambda p: norm(self.mask(p) * o.mask(p)), self.hi if self.hi is not None else o.hi)
    def __or__(self, o):
        o = self._o(o)
        return SSet(lambda p: norm(ONE - (ONE - self.mask(p)) * (ONE - o.mask(p))), self.hi if self.hi is not None and o.hi is not None and norm(self.hi - o.hi) is ZERO else None)
    difference, intersection, union = __sub__, __and__, __or__
    def __iter__(self): raise Unsupported('iteration over a set: order unspecified')
    def box(self):
        """positions as a mask over range(hi)"""
        if self.hi is None: raise Unsupported('set without a known bound')
        return A((dim(self.hi),), 'b', lambda k: S(self.mask(k), ZERO, 'b'))
    def __symlen__(self): return asum(uf(lambda v: S(v.re, ZERO, 'i'), self.box(), 'i'))
    def sorted(self):
        w = where(self.box())[0]
        r = SList()
        r.sym = (dp(w.shape_[0]), lambda k: w[S(P(k), ZERO, 'i')])
        return r


class SetList(SList):
    """list of the images f(q) of the elements q of a set, in unspecified order"""
    def __init__(self, sset, f):
        SList.__init__(self)
        self.sset, self.f = sset, f
    def length(self): return self.sset.__symlen__()
    def __symlen__(self): return self.sset.__symlen__()
    def __symarray__(self):
        """elements in an arbitrary order: nothing is known about the single entries"""
        if not hasattr(self, 'arr'):
            nm = fresh('element', 'I')
            self.arr = A((dim(toS(self.sset.__symlen__()).re),), 'i', lambda k: S(app('element%s' % the_atom(nm).id, k, sort='I'), ZERO, 'i'))
            self.arr.setlist = self
        return self.arr
    def __iter__(self): raise Unsupported('iteration over the elements of a set: order unspecified')
    __getitem__ = __len__ = index = append = insert = remove = pop = sort = lambda self, *a, **k: self.__iter__()
    def __contains__(self, x): raise Unsupported('membership in a list of unspecified order')
    def images(self, f):
        """every element mapped by f"""
        if self.sset.hi is None: raise Unsupported('set without a known bound')
        k = fresh('k', 'I')
        ka = the_atom(k)
        cx = C()
        cx.push()
        try:
            cx.rng(k, 0, self.sset.hi)
            cx.assume(norm(self.sset.mask(k)), True)
            v = f(self.f(S(k, ZERO, 'i')))
        finally: cx.pop()
        return SetList(self.sset, lambda x: LD.subst_obj(v, ka, toS(x).re))


def set_elements(x): return SetList(x, lambda v: v)


def b_decide(p):
    r = C().decide(p)
    if r is None: return Y.EXP[0].branch(p)
    return r


def to_sset(x):
    if isinstance(x, SSet): return x
    if isinstance(x, Y.RangeS):
        if x.step != 1 or norm(x.start) is not ZERO: raise Unsupported('set of a range')
        hi = norm(dp(x.len))
        return SSet(lambda p: norm(le0(-P(p)) * le0(P(p) + 1 - hi)), hi)
    if isinstance(x, (set, frozenset, list, tuple)) and not getattr(x, 'sym', None):
        es = [toS(e).re for e in x]
        def m(p):
            r = ONE
            for e in es: r = r * (ONE - X.dec_eq(P(p) - e))
            return norm(ONE - r)
        return SSet(m, max(e.const() for e in es) + 1 if es and all(e.const() is not None for e in es) else P(0) if not es else None)
    it = symiter(x)
    if it is None: return to_sset(list(x))
    n, f = it
    def m(p):
        e = toS(f(the_probe()))
        s_ = toS(SumS([n], lambda k: S(X.dec_eq(P(p) - toS(f(k)).re), ZERO, 'i'))).re
        a = e.re
        if T.is_atom(a) and T.the_atom(a).op == 'app' and T.the_atom(a).args[0] in T.INJ: return norm(s_)        # distinct elements: at most one match
        if T.is_atom(a) and T.the_atom(a).op == 'app' and T.the_atom(a).args[0].startswith('sel') and '.' in Y.the_atom(a).args[0]: return norm(s_)
        return norm(ONE - le0(s_))
    return SSet(m, _bound(f))


def _bound(f):
    """strict upper bound of non-negative elements given by one uninterpreted function of known range"""
    pr = the_probe()
    p = toS(f(pr)).re
    if not T.is_atom(p) or T.the_atom(p).op != 'app': return None
    a = T.the_atom(p)
    if a.args[0] not in C().apprng: return None
    lo, hi = C().apprng[a.args[0]](*a.args[1:])
    lo, hi = norm(P(lo)), norm(P(hi))
    return hi if T.the_atom(pr) not in hi.fv and not any(x.op == 'app' for x in hi.fv) and C().le(-lo) else None


def the_probe(): return Y.sym('probe', 'I')


def b_set(x=()):
    if symiter(x) is not None or isinstance(x, SSet): return to_sset(x)
    x = [e for e in x]
    if x and all(isinstance(e, (S, int)) for e in x) and any(isinstance(e, S) for e in x): return to_sset(x)
    if any(isinstance(e, S) for e in x): raise Unsupported('set of symbolic elements')
    return set(x)


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, A) and x.oid in SORTED and x.ver == 0 and key is None and not reverse: return SORTED[x.oid]
    if isinstance(x, SSet):
        if key is not None or reverse: raise Unsupported('sorted with a key')
        return x.sorted()
    if isinstance(x, A) and x.ndim == 1 and dconst(x.shape_[0]) == 0: return SList([])
    if isinstance(x, A) or getattr(x, 'sym', None): raise Unsupported('sorted of a symbolic list')
    return SList(sorted(x, key=key, reverse=reverse))


def b_reversed(x):
    s = symiter(x)
    if s is None: return reversed(list(x))
    n, f = s
    return SymIter(n, lambda k: f(norm(n - 1 - k)))


def b_round(x, n=None):
    if isinstance(x, (S, A)): return sround(toS(x))
    return round(x) if n is None else round(x, n)


def b_hasattr(x, a):
    if a == '__iter__':
        if isinstance(x, S): return False
        if isinstance(x, A): return True
    return hasattr(x, a)


def b_pow(a, b): return a ** b
def b_divmod(a, b): return a // b, a % b
def b_map(f, *xs):
    if len(xs) == 1 and symiter(xs[0]) is None: return SList([f(e) for e in xs[0]])
    s = symiter(b_zip(*xs)) if len(xs) > 1 else symiter(xs[0])
    if s is None: return map(f, *xs)
    return h_comp((lambda t: f(*t)) if len(xs) > 1 else f, SymIter(*s), None, False, 'list')


BUILTINS = dict(type=b_type, isinstance=b_isinstance, len=b_len, range=b_range, sum=b_sum, abs=b_abs, max=b_max, min=b_min, any=b_any, all=b_all,
                enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, set=b_set, sorted=b_sorted, reversed=b_reversed, round=b_round,
                float=FLOAT, int=INT, complex=COMPLEX, bool=BOOL, hasattr=b_hasattr, print=lambda *a, **k: None, divmod=b_divmod, pow=b_pow, map=b_map)


# ------------------------------------------------------------------ numpy
class _ND:
    __name__ = 'ndarray'
    def __instancecheck__(self, o): return isinstance(o, A)
    def __call__(self, shape, dtype=None, **k): return np_zeros(shape, dtype)


ndarray = _ND()


def shp(s):
    if isinstance(s, (A,)): return tuple(mk_elem(s[i]) for i in range(dconst(s.shape_[0]))) if s.ndim else (mk_elem(s),)
    if isinstance(s, (tuple, list)):
        out = tuple(mk_elem(x) if isinstance(x, A) else x for x in s)
    else: out = (s,)
    for d in out:
        if isinstance(d, float) or (isinstance(d, S) and d.kind == 'f'): raise CodeError('float used as a dimension')
        if isinstance(d, S) and C().le(-d.re) is not True and C().le(d.re + 1) is True: raise CodeError('negative dimension')
    return out


def const_arr(shape, v, dtype):
    k = kind_of(dtype) if dtype is not None else 'f'
    s = toS(cast(v, k))
    s = S(s.re, s.im, k)
    return A(shp(shape), k, lambda *i: s)


NEUTRAL = {'check_finite': (True, False), 'order': ('C', None, 'K'), 'copy': (True,), 'use_umfpack': (True, False), 'permc_spec': None, 'dtype': None, 'casting': None, 'like': (None,),
           'keepdims': (False, True), 'full_matrices': (True,), 'compute_uv': (True,), 'return_rank': (False,), 'fill_value': None, 'assume_unique': (False,)}


def nokw(k):
    """only keyword arguments that do not change the assumed contract are accepted"""
    for n, v in k.items():
        if n not in NEUTRAL or NEUTRAL[n] is not None and not any(v is x for x in NEUTRAL[n]): raise Unsupported('keyword argument %s' % n)


def np_zeros(shape, dtype=None, order=None): return const_arr(shape, 0, dtype)
def np_ones(shape, dtype=None, order=None): return const_arr(shape, 1, dtype)
def np_empty(shape, dtype=None, order=None):
    used('np.empty (arbitrary content)')
    nm = T.the_atom(fresh('empty', 'R')).args[0]
    k = kind_of(dtype) if dtype is not None else 'f'
    return A(shp(shape), k, lambda *i: S(app('u_' + nm, list(i)), app('ui_' + nm, list(i)) if k == 'c' else ZERO, k))
def np_full(shape, v, dtype=None):
    v = arr(v)
    if v.ndim == 0: return const_arr(shape, v.get(()), dtype if dtype is not None else DT[v.kind])
    r = np_zeros(shape, DT[v.kind])
    r[...] = v
    return r
def np_zeros_like(a, dtype=None): return const_arr(arr(a).shape_, 0, dtype if dtype is not None else arr(a).dtype)
def np_ones_like(a, dtype=None): return const_arr(arr(a).shape_, 1, dtype if dtype is not None else arr(a).dtype)
def np_empty_like(a, dtype=None): return np_empty(arr(a).shape_, dtype if dtype is not None else arr(a).dtype)
def np_full_like(a, v, dtype=None): return const_arr(arr(a).shape_, v, dtype if dtype is not None else arr(a).dtype)


def np_array(x, dtype=None, copy=True, **k):
    nokw(k)
    if isinstance(x, A):
        if x.fmt: raise Unsupported('np.array of a sparse matrix')
        r = x.copy()
    else: r = arr(x)
    if dtype is not None: r = r.astype(dtype)
    if r.ndim == 0 and not isinstance(x, A): return A((), r.kind, r.fn)
    return r


def np_asarray(x, dtype=None, **k):
    nokw(k)
    if isinstance(x, A) and dtype is None and not x.fmt: return x
    return np_array(x, dtype)


def np_eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    kd = kind_of(dtype) if dtype is not None else 'f'
    k = dp(k)
    r = A(shp((n, m)), kd, lambda i, j: S(X.dec_eq(i + k - j), ZERO, kd))
    if k is ZERO and same_dim(n, m) is True: r.tag = ('eye',)
    return r


def np_kron(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0: return aop('mul', a, b)
    if a.ndim == 1 and b.ndim == 1:
        nb = dp(b.shape_[0])
        fa, fb = a.snap(), b.snap()
        def el(i):
            q = X.idiv(i, nb)
            return toS(sbin('mul', toS(fa(q)), toS(fb(norm(i - q * nb)))))
        return A((dim(dp(a.shape_[0]) * nb),), kmax(a.kind, b.kind), el)
    if a.ndim == 1 and b.ndim == 2: a = a[None, :]
    if b.ndim == 1 and a.ndim == 2: b = b[None, :]
    if a.ndim != 2 or b.ndim != 2: raise Unsupported('kron dimensions')
    p, q = dp(b.shape_[0]), dp(b.shape_[1])
    fa, fb = a.snap(), b.snap()
    def el(i, j):
        i1, j1 = X.idiv(i, p), X.idiv(j, q)
        return toS(sbin('mul', toS(fa(i1, j1)), toS(fb(norm(i - i1 * p), norm(j - j1 * q)))))
    r = A((dim(dp(a.shape_[0]) * p), dim(dp(a.shape_[1]) * q)), kmax(a.kind, b.kind), el)
    r.mxf = ('kron', frozen(a), frozen(b))
    return r


def concat(xs, axis):
    xs = [arr(x) for x in xs] if not isinstance(xs, A) else [xs[i] for i in range(dconst(xs.shape_[0]))]
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs): raise ShapeError('all the input array dimensions must match')
    if nd == 0: raise CodeError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for x in xs[1:]:
        for t in range(nd):
            if t == axis: continue
            r = same_dim(x.shape_[t], xs[0].shape_[t])
            if r is False: raise ShapeError('concatenation of %s and %s' % (xs[0].shape_, x.shape_))
            if r is None: raise Unsupported('concatenation of %s and %s' % (xs[0].shape_, x.shape_))
    if len(xs) == 1: return xs[0].copy()
    offs, o = [], ZERO
    for x in xs:
        offs.append(o)
        o = norm(o + dp(x.shape_[axis]))
    fs = [x.snap() for x in xs]
    k = kmax(*[x.kind for x in xs])
    sh = list(xs[0].shape_)
    sh[axis] = dim(o)

    def el(*i):
        a = i[axis]
        cx = C()
        # select the block
        cand = []
        for t in range(len(xs)):
            lo = offs[t]
            hi = offs[t + 1] if t + 1 < len(xs) else o
            if t + 1 < len(xs) and cx.le(hi - a): continue
            if t > 0 and cx.le(a - lo + 1): continue
            cand.append((t, lo, hi))
        if not cand: return S(ZERO, ZERO, k)
        def one(t, lo):
            j = list(i)
            j[axis] = norm(a - lo)
            return toS(fs[t](*j))
        t, lo, hi = cand[-1]
        out = None
        for n_, (t, lo, hi) in reversed(list(enumerate(cand))):
            if out is None:
                if len(cand) == 1: return one(t, lo)
                cx.push()
                try:
                    cx.assume_le(lo - a)
                    out = one(t, lo)
                    out = S(norm(out.re), norm(out.im), out.kind)
                finally: cx.pop()
            else:
                c = X.norm(T.lt0(a - hi)) if (a - hi).isint else None
                cx.push()
                try:
                    cx.assume_le(a - hi + 1)
                    if n_ > 0: cx.assume_le(lo - a)
                    v = one(t, lo)
                    v = S(norm(v.re), norm(v.im), v.kind)
                finally: cx.pop()
                out = ssel(c, v, out)
        return out
    r = A(tuple(sh), k, el)
    if nd == 2: r.mxf = ('vcat' if axis == 0 else 'hcat', [frozen(x) for x in xs])
    elif nd == 1: r.mxf = ('vcat', [frozen(x) for x in xs])
    return r


def np_concatenate(xs, axis=0):
    if axis is None: return concat([np_ravel(x) for x in xs], 0)
    if getattr(xs, 'sym', None): return sym_concat(xs, axis)
    return concat(xs, axis)


def sym_concat(xs, axis):
    """concatenation of a symbolic list of equal-shaped arrays"""
    n, f = xs.sym
    e = arr(f(sym('probe', 'I')))
    axis = axis % e.ndim
    pa = the_atom(sym('probe', 'I'))
    if any(pa in dp(d).fv for d in e.shape_): raise Unsupported('concatenation of arrays of varying size')
    d = dp(e.shape_[axis])
    sh = list(e.shape_)
    sh[axis] = dim(n * d)
    def el(*i):
        q = X.idiv(i[axis], d)
        j = list(i)
        j[axis] = norm(i[axis] - q * d)
        return arr(f(q)).get(tuple(j))
    return A(tuple(sh), e.kind, el)


def atl2(x):
    x = arr(x)
    if x.ndim == 0: return A((1, 1), x.kind, lambda i, j: x.get(()))
    if x.ndim == 1: return x[None, :]
    return x


def atl1(x):
    x = arr(x)
    return A((1,), x.kind, lambda i: x.get(())) if x.ndim == 0 else x


def np_vstack(xs):
    if getattr(xs, 'sym', None):
        n, f = xs.sym
        l = SList()
        l.sym = (n, lambda k: atl2(f(k)))
        return sym_concat(l, 0)
    return concat([atl2(x) for x in xs], 0)


def np_hstack(xs):
    if getattr(xs, 'sym', None):
        n, f = xs.sym
        l = SList()
        l.sym = (n, lambda k: atl1(f(k)))
        return sym_concat(l, 0 if atl1(f(sym('probe', 'I'))).ndim == 1 else 1)
    xs = [atl1(x) for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)


def np_stack(xs, axis=0):
    if getattr(xs, 'sym', None):
        if axis != 0: return np_stack(xs, 0).transpose(*move(arr(xs).ndim, 0, axis))
        return arr(xs)
    xs = [arr(x) for x in xs]
    nd = xs[0].ndim + 1
    axis %= nd
    key = tuple([slice(None)] * axis + [None])
    return concat([x[key + (slice(None),) * (nd - 1 - axis)] for x in xs], axis)


def np_column_stack(xs): return concat([x if arr(x).ndim == 2 else arr(x)[:, None] for x in xs], 1)


def move(nd, a, b):
    o = [i for i in range(nd) if i != a]
    o.insert(b, a)
    return o


def np_block(rows):
    if not isinstance(rows, (list, tuple)): return arr(rows).copy()
    if not isinstance(rows[0], (list, tuple)): return concat([atl1(x) for x in rows], -1) if max(arr(x).ndim for x in rows) < 2 else concat([atl2(x) for x in rows], 1)
    nd = max(arr(x).ndim for r in rows for x in r)
    rr = [concat([atl2(x) for x in r], 1) for r in rows]
    out = concat(rr, 0)
    out.mxf = ('block', [[frozen(atl2(x)) for x in r] for r in rows])
    return out


def np_reshape(a, sh, order='C'): return reshape(a, sh, order)
def np_ravel(a, order='C'): return reshape(arr(a), (-1,), order)


def np_tile(a, reps):
    a = arr(a)
    reps = shp(reps)
    nd = max(a.ndim, len(reps))
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    while a.ndim < nd: a = a[None]
    f = a.snap()
    sh = tuple(dim(dp(r) * dp(d)) for r, d in zip(reps, a.shape_))
    def el(*i):
        j = []
        for x, r, d in zip(i, reps, a.shape_):
            if dconst(r) == 1: j.append(x)
            else: j.append(norm(x - X.idiv(x, dp(d)) * dp(d)))
        return toS(f(*j))
    return A(sh, a.kind, el)


def np_repeat(a, n, axis=None):
    a = arr(a)
    if not isnum(n): raise Unsupported('repeat with an array')
    if axis is None:
        a = np_ravel(a)
        axis = 0
    axis %= a.ndim
    f = a.snap()
    sh = list(a.shape_)
    sh[axis] = dim(dp(n) * dp(sh[axis]))
    def el(*i):
        j = list(i)
        j[axis] = X.idiv(i[axis], dp(n))
        return toS(f(*j))
    return A(tuple(sh), a.kind, el)


def np_arange(*a, dtype=None, **k):
    nokw(k)
    a = [mk_elem(x) if isinstance(x, (A, S)) else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(toS(x).kind in 'ib' for x in (lo, hi, st)):
        if isinstance(st, S): raise Unsupported('arange step')
        r = RangeS(lo, hi, st)
        x = arr(r)
    else:
        # float arange: number of steps ceil((hi-lo)/st)
        n = norm((toS(hi).re - toS(lo).re) * inv(toS(st).re))
        if not (n.isint and X._intc(n)): raise Unsupported('float arange')
        x = A((dim(n),), 'f', lambda i: S(toS(lo).re + i * toS(st).re))
    return x.astype(dtype) if dtype is not None else x


def np_linspace(lo, hi, n=50, **k):
    nokw(k)
    lo, hi, m = toS(lo), toS(hi), dp(n)
    return A((dim(m),), 'f', lambda i: S(norm(lo.re + i * (hi.re - lo.re) * inv(m - 1))))


def np_outer(a, b):
    a, b = np_ravel(a), np_ravel(b)
    return aop('mul', a[:, None], b[None, :])


def ufn(f, kf=None):
    def g(a, **k):
        nokw(k)
        if isinstance(a, A) or isinstance(a, (list, tuple)) or hasattr(a, '__symarray__'):
            a = arr(a)
            kd = kf(a.kind) if callable(kf) else (kf or a.kind)
            return uf(lambda v: toS(f(v)), a, kd)
        return mk_elem(f(toS(a)))
    return g


def fk(k): return 'c' if k == 'c' else 'f'


def realfun(rf):
    def f(v):
        if v.kind == 'c': raise Unsupported('complex argument')
        return mk('f', rf(v.re))
    return f


def ssqrt(v):
    v = toS(v)
    if v.kind == 'c': raise Unsupported('complex sqrt')
    return mk('f', T.sqrt(norm(v.re)))


np_abs = ufn(sabs, lambda k: 'f' if k == 'c' else k)
np_angle_ = ufn(sangle, 'f')
def np_angle(z, deg=False):
    r = np_angle_(z)
    return np_rad2deg(r) if deg else r
np_exp = ufn(sexp, fk)
np_cos, np_sin = ufn(realfun(T.cos), 'f'), ufn(realfun(T.sin), 'f')
np_cosh, np_sinh = ufn(realfun(T.cosh), 'f'), ufn(realfun(T.sinh), 'f')
np_tanh = ufn(realfun(lambda p: T.sinh(p) * inv(T.cosh(p))), 'f')
np_tan = ufn(realfun(lambda p: T.sin(p) * inv(T.cos(p))), 'f')
np_sqrt = ufn(ssqrt, 'f')
np_deg2rad = ufn(realfun(lambda p: p * T.pi().scale(Fr(1, 180))), 'f')
np_rad2deg = ufn(realfun(lambda p: p * inv(T.pi()).scale(180)), 'f')
np_log = ufn(realfun(lambda p: fun('log', [p])), 'f')
np_expm1 = ufn(realfun(lambda p: T.exp(p) - 1), 'f')
np_square = ufn(lambda v: toS(v * v))
np_floor = ufn(lambda v: mk('f', sfl(toS(v))), 'f')
np_sign = ufn(lambda v: ssel(X.dec_le(-v.re), ssel(X.dec_eq(v.re), S(ZERO, ZERO, v.kind), S(ONE, ZERO, v.kind)), S(-ONE, ZERO, v.kind)))
np_conj = ufn(lambda v: S(v.re, -v.im, v.kind))
np_round = ufn(lambda v: mk('f', toS(sround(v)).re), 'f')
np_isnan = ufn(lambda v: mk('b', ZERO), 'b')
np_lnot = ufn(lambda v: mk('b', b_not(toS(cast(v, 'b')).re)), 'b')


def sfl(v):
    """floor"""
    p = norm(v.re)
    if v.kind in 'ib': return p
    q = Y.quotient(p)
    if q is not None: return X.idiv(*q)
    if p.isint: return Y.idiv_frac(p)
    return fun('floor', [p], 'I')


def np_real(a):
    if isinstance(a, A): return a.real
    if isinstance(a, (list, tuple)): return arr(a).real
    return mk_elem(toS(a).real)
def np_imag(a):
    if isinstance(a, A): return a.imag
    if isinstance(a, (list, tuple)): return arr(a).imag
    return mk_elem(toS(a).imag)
def np_conjf(a): return a.conj() if isinstance(a, A) else np_conj(a)


def bin_(op):
    def f(a, b, **k):
        nokw(k)
        if isinstance(a, (A, list, tuple)) or isinstance(b, (A, list, tuple)) or hasattr(a, '__symarray__'): return aop(op, a, b)
        return sbin(op, a, b)
    return f


def np_sum(a, axis=None, **k):
    nokw(k)
    a = arr(a)
    if a.fmt and axis is not None: raise Unsupported('np.sum of a sparse matrix')
    r = asum(a, axis)
    if k.get('keepdims'):
        return keep(r, a, axis)
    return r
def keep(r, a, axis):
    if axis is None: return reshape(arr(r), (1,) * a.ndim)
    ax = Y._axes(a, axis)
    return reshape(r, tuple(1 if t in ax else d for t, d in enumerate(a.shape_)))
def np_mean(a, axis=None, **k):
    nokw(k)
    a = arr(a)
    r = amean(a, axis)
    return keep(r, a, axis) if k.get('keepdims') else r
def np_max(a, axis=None, **k):
    nokw(k)
    r = amax(arr(a), axis)
    return keep(r, arr(a), axis) if k.get('keepdims') else r
def np_min(a, axis=None, **k):
    nokw(k)
    r = amax(arr(a), axis, True)
    return keep(r, arr(a), axis) if k.get('keepdims') else r
def np_any(a, axis=None, **k):
    nokw(k)
    if k.get('keepdims'): raise Unsupported('keepdims')
    if axis is None: return aany(arr(a))
    a = arr(a)
    s = asum(uf(lambda v: toS(cast(v, 'b')), a, 'b'), axis)
    return aop('ge', s, 1)
def np_all(a, axis=None, **k):
    nokw(k)
    if k.get('keepdims'): raise Unsupported('keepdims')
    if axis is None: return aall(arr(a))
    a = arr(a)
    s = asum(uf(lambda v: toS(b_notS(v)), a, 'b'), axis)
    return aop('eq', s, 0)
def b_notS(v): return mk('b', X.dec_eq(v.re) if v.im is ZERO else X.dec_eq(v.re) * X.dec_eq(v.im))
def np_prod(a, axis=None, **k):
    nokw(k)
    a = arr(a)
    if a.ndim == 1 and dconst(a.shape_[0]) is not None and axis in (None, 0):
        r = 1
        for i in range(dconst(a.shape_[0])): r = a[i] * r
        return r
    raise Unsupported('prod')
def np_cumsum(a, axis=None, **k):
    nokw(k)
    a = arr(a)
    if axis is None: a, axis = np_ravel(a), 0
    f = a.snap()
    k = 'i' if a.kind == 'b' else a.kind
    def el(*i):
        return toS(SumS([i[axis] + 1], lambda t: toS(f(*(tuple(i[:axis]) + (t,) + tuple(i[axis + 1:])))), k))
    return A(a.shape_, k, el)
def np_std(a, axis=None, **k):
    nokw(k)
    a = arr(a)
    m = amean(a, axis)
    d = aop('sub', a, keep(m, a, axis) if isinstance(m, A) else m)
    return np_sqrt(amean(aop('mul', d, d.conj()).real, axis))
def np_maximum(a, b):
    c = toarr_bin('ge', a, b)
    return where(c, a, b) if isinstance(c, A) else mk_elem(ssel(toS(c).re, a, b))
def np_minimum(a, b):
    c = toarr_bin('le', a, b)
    return where(c, a, b) if isinstance(c, A) else mk_elem(ssel(toS(c).re, a, b))
def toarr_bin(op, a, b): return bin_(op)(a, b)
def np_isscalar(x): return isnum(x) and not isinstance(x, A) or isinstance(x, str)
def np_where(c, *a):
    if a and not isinstance(c, A) and not any(isinstance(x, A) for x in a): return mk_elem(ssel(toS(c).re, *a))
    return where(c, *a)
def np_nonzero(a): return where(aop('ne', arr(a), 0))
def np_argwhere(a):
    w = np_nonzero(a)
    return np_stack(list(w), 1)
def np_flatnonzero(a): return np_nonzero(np_ravel(a))[0]


def np_diag(a, k=0): return diag(a, k)


def np_dot(a, b):
    return matmul(a, b)


def np_transpose(a, axes=None): return arr(a).transpose(axes) if axes is not None else arr(a).T


def np_delete(a, idx, axis=None):
    """remove the entries whose position along axis is among idx"""
    a = arr(a)
    if axis is None: a, axis = np_ravel(a), 0
    axis %= a.ndim
    n = dp(a.shape_[axis])
    if isinstance(idx, slice):
        lo, st, ln = slice_bounds(idx, a.shape_[axis])
        hit = lambda p: X.dec_le(lo - p) * norm(T.lt0(p - lo - ln))
        if st != 1: raise Unsupported('np.delete slice')
    else:
        ix = arr(idx)
        if ix.kind == 'b':
            fi = ix.snap()
            hit = lambda p: toS(fi(p)).re
        else:
            if ix.ndim == 0: ix = A((1,), ix.kind, lambda i, v=ix: v.get(()))
            if ix.kind == 'f' and dconst(ix.shape_[0]) != 0: raise CodeError('IndexError: float indices in np.delete')
            fi = ix.snap()
            m = ix.shape_[0]
            mc = dconst(m)
            def at(k): return norm_index(S(toS(fi(k)).re, ZERO, 'i'), a.shape_[axis])
            if mc is not None and mc <= 16:
                ps = [at(P(t)) for t in range(mc)]
                def hit(p):
                    nn = ONE
                    for q in ps: nn = nn * b_not(X.dec_eq(p - q))
                    return b_not(norm(nn))
            else:
                # membership: the indices are proved pairwise distinct so the count is 0/1
                k1, k2 = fresh('k', 'I'), fresh('k', 'I')
                cx = C()
                cx.push()
                try:
                    cx.rng(k1, 0, dp(m))
                    cx.rng(k2, k1 + 1, dp(m))
                    dis = cx.eq(norm(at(k1) - at(k2))) is False
                finally: cx.pop()
                if dis: hit = lambda p: Sum([m], lambda k: X.dec_eq(p - at(k)))
                else: hit = lambda p: b_not(X.dec_eq(Sum([m], lambda k: X.dec_eq(p - at(k)))))
    s = make_sel([dim(n)], lambda p: norm(b_not(hit(p))))
    f = a.snap()
    c = norm(s.count).const()
    nc = norm(n).const()
    if c is not None and nc is not None and nc <= 40:
        keepers = [p for p in range(int(nc)) if norm(b_not(hit(P(p)))).const() == 1]
        drops = [p for p in range(int(nc)) if norm(b_not(hit(P(p)))).const() == 0]
        if len(keepers) + len(drops) == nc:
            return a[tuple([slice(None)] * axis + [SList(keepers) if keepers else slice(0, 0)])]
    sh = list(a.shape_)
    sh[axis] = dim(s.count)
    def el(*i):
        j = list(i)
        j[axis] = s.at(i[axis])[0]
        return toS(f(*j))
    r = A(tuple(sh), a.kind, el)
    r.delinfo = (s, axis)
    return r


def np_insert(a, idx, v, axis=None):
    """one slice of the constant v inserted before position idx"""
    a = arr(a)
    if axis is None: a, axis = np_ravel(a), 0
    if isinstance(idx, (A, list, tuple, slice)) and not (isinstance(idx, A) and idx.ndim == 0): raise Unsupported('np.insert of several positions')
    if isinstance(v, (A, list, tuple)) and not (isinstance(v, A) and v.ndim == 0): raise Unsupported('np.insert of an array')
    axis %= a.ndim
    v = arr(v).get(()) if isinstance(v, A) else toS(v)
    if isinstance(idx, A): idx = idx.get(())
    sh = list(a.shape_)
    sh[axis] = dim(ONE)
    blank = A(tuple(sh), a.kind, lambda *i: S(v.re, v.im if a.kind == 'c' else ZERO, a.kind))
    pre = tuple([slice(None)] * axis)
    return np_concatenate([a[pre + (slice(None, idx),)], blank, a[pre + (slice(idx, None),)]], axis=axis)


def np_sort(a, axis=-1):
    a = arr(a)
    if a.ndim != 1: raise Unsupported('sort')
    n = dconst(a.shape_[0])
    if n is not None and n <= 6:
        xs = [toS(a.get((P(i),))) for i in range(n)]
        cs = [x.re.const() for x in xs]
        if all(c is not None for c in cs):
            xs = [x for c, x in sorted(zip(cs, xs), key=lambda t: t[0])]
        else:
            # compare-exchange network: exact case expressions
            for i in range(n):
                for j in range(n - 1 - i):
                    c = X.dec_le(xs[j].re - xs[j + 1].re)
                    xs[j], xs[j + 1] = ssel(c, xs[j], xs[j + 1]), ssel(c, xs[j + 1], xs[j])
                    xs[j], xs[j + 1] = [S(norm(t.re), ZERO, t.kind) for t in (xs[j], xs[j + 1])]
        return A((n,), a.kind, lambda i: Y.pick(i, [lambda x=x: x for x in xs]))
    if a.oid in SORTED and a.ver == 0: return SORTED[a.oid]
    raise Unsupported('sort of symbolic length')


SORTED = {}     # ghost results of sorting the inputs of a harness (contract of sort: the increasing rearrangement)


def np_unique(a, **k):
    nokw(k)
    a = arr(a)
    n = dconst(a.shape_[0]) if a.ndim == 1 else None
    if n is not None:
        cs = [toS(a.get((P(i),))).re.const() for i in range(n)]
        if all(c is not None for c in cs):
            return arr(SList([int(c) if a.kind == 'i' else c for c in sorted(set(cs))]))
    raise Unsupported('unique')


def isrange(a):
    i = sym('probe', 'I')
    cx = C()
    cx.push()
    try:
        cx.rng(i, 0, dp(a.shape_[0]))
        return norm(toS(a.get((i,))).re - i) is ZERO
    finally: cx.pop()


def np_isin(a, b, invert=False, **k):
    k.pop('assume_unique', None)
    nokw(k)
    a = arr(a)
    m = to_sset(b if not isinstance(b, A) or b.ndim == 1 else np_ravel(b)).mask
    if a.kind not in 'ib': raise Unsupported('isin of non-integers')
    return uf(lambda v: S(norm(ONE - m(v.re)) if invert else m(v.re), ZERO, 'b'), a, 'b')


def np_ix_(*xs):
    out = []
    for k, x in enumerate(xs):
        x = arr(x)
        if x.ndim != 1: raise CodeError('np.ix_ needs 1-d sequences')
        if x.kind == 'b': x = np_where(x)[0]
        f = x.snap()
        out.append(A(tuple(x.shape_[0] if j == k else 1 for j in range(len(xs))), 'i', lambda *i, f=f, k=k: f(i[k])))
        out[-1].mesh, out[-1].meshax = (x if x.ver == 0 and x.base is None else x.copy()), k
    return tuple(out)


def np_setdiff1d(a, b, **k):
    nokw(k)
    a, b = arr(a), arr(b)
    if a.ndim == 1 and dconst(a.shape_[0]) is None and a.kind == 'i' and b.ndim == 1 and isrange(a):
        return np_array((to_sset(RangeS(0, mk_elem(S(dp(a.shape_[0]), ZERO, 'i')))) - to_sset(b)).sorted())
    a = np_unique(a)
    bs = {toS(b.get((P(i),))).re.const() for i in range(dconst(b.shape_[0]))}
    if None in bs: raise Unsupported('setdiff1d')
    return arr(SList([mk_elem(a[i]) for i in range(dconst(a.shape_[0])) if toS(a[i]).re.const() not in bs]))


def np_intersect1d(a, b, **k):
    nokw(k)
    a, b = np_unique(a), arr(b)
    bs = {toS(b.get((P(i),))).re.const() for i in range(dconst(b.shape_[0]))}
    if None in bs: raise Unsupported('intersect1d')
    return arr(SList([mk_elem(a[i]) for i in range(dconst(a.shape_[0])) if toS(a[i]).re.const() in bs]))


def np_split(a, n, axis=0):
    a = arr(a)
    n = int(n) if not isinstance(n, int) else n
    d = dp(a.shape_[axis])
    q = X.idiv(d, P(n))
    if C().eq(norm(d - q * n)) is not True: raise CodeError('array split does not result in an equal division')
    out = []
    for t in range(n):
        key = [slice(None)] * a.ndim
        key[axis] = slice(S(norm(q * t), ZERO, 'i'), S(norm(q * (t + 1)), ZERO, 'i'))
        out.append(a[tuple(key)])
    return SList(out)


def np_hsplit(a, n): return np_split(a, n, 1 if arr(a).ndim > 1 else 0)
def np_vsplit(a, n): return np_split(a, n, 0)


def np_tril_indices(n, k=0, m=None): return tri(n, k, lambda i, j, k: norm(T.le0(j - i - k)))
def np_triu_indices(n, k=0, m=None): return tri(n, k, lambda i, j, k: norm(T.le0(i + k - j)))
def tri(n, k, f):
    return where(A((n, n), 'b', lambda i, j: S(f(i, j, dp(k)), ZERO, 'b')))
def np_tril(a, k=0):
    a = arr(a)
    f = a.snap()
    return A(a.shape_, a.kind, lambda i, j: ssel(norm(T.le0(j - i - dp(k))), toS(f(i, j)), S(ZERO, ZERO, a.kind)))
def np_triu(a, k=0):
    a = arr(a)
    f = a.snap()
    return A(a.shape_, a.kind, lambda i, j: ssel(norm(T.le0(i + dp(k) - j)), toS(f(i, j)), S(ZERO, ZERO, a.kind)))


def np_expand_dims(a, axis):
    a = arr(a)
    key = [slice(None)] * a.ndim
    key.insert(axis % (a.ndim + 1), None)
    return a[tuple(key)]


def np_squeeze(a, axis=None): return arr(a).squeeze(axis)
def np_shape(a): return arr(a).shape
def np_size(a, axis=None): return arr(a).size if axis is None else arr(a).shape_[axis]
def np_ndim(a): return arr(a).ndim
def np_copy(a): return arr(a).copy()
def np_flip(a, axis=None):
    a = arr(a)
    ax = Y._axes(a, axis)
    f = a.snap()
    return A(a.shape_, a.kind, lambda *i: toS(f(*[norm(dp(d) - 1 - x) if t in ax else x for t, (x, d) in enumerate(zip(i, a.shape_))])))
def np_roll(a, s, axis=None):
    a = arr(a)
    f = a.snap()
    if axis is None and a.ndim > 1: raise Unsupported('roll')
    ax = (axis or 0) % a.ndim
    n = dp(a.shape_[ax])
    def el(*i):
        j = list(i)
        p = norm(i[ax] - dp(s) + n)
        j[ax] = norm(p - X.idiv(p, n) * n)
        return toS(f(*j))
    return A(a.shape_, a.kind, el)
def np_moveaxis(a, s, d):
    a = arr(a)
    return a.transpose(*move(a.ndim, s % a.ndim, d % a.ndim))
def np_swapaxes(a, s, d):
    a = arr(a)
    o = list(range(a.ndim))
    o[s], o[d] = o[d], o[s]
    return a.transpose(*o)


def np_norm(a, ord=None, axis=None, **k):
    nokw(k)
    if k.get('keepdims'): raise Unsupported('keepdims')
    used('np.linalg.norm')
    a = arr(a)
    def sq(x): return asum(uf(lambda v: S(v.re * v.re + v.im * v.im, ZERO, 'f'), x, 'f'), axis)
    if axis is None and (ord is None or ord == 'fro' and a.ndim == 2 or isnum(ord) and ord == 2 and a.ndim == 1) or axis is not None and ord in (None, 2):
        return np_sqrt(sq(a))
    if ord == 'fro' and a.ndim != 2: raise CodeError("norm order 'fro' for a vector")
    if isnum(ord) and ord == 1 and a.ndim == 1: return asum(np_abs(a))
    if ord in (math.inf,) and a.ndim == 1: return amax(np_abs(a))
    raise Unsupported('norm order %r' % (ord,))


# -------- opaque matrix operators
_ops = {}


class OpNode:
    """opaque operator applied to a matrix: elements are uninterpreted; identity by matrix key"""


def opaque_mat(name, args, shape, kind, extra=''):
    """matrix  name(args...)  with uninterpreted entries, identified by the canonical keys of the arguments"""
    from . import mx as M
    key = (name, extra) + tuple(M.leaf_key(a) for a in args)
    nm = _ops.get(key)
    if nm is None:
        nm = '%s#%d' % (name, len(_ops))
        _ops[key] = nm
    r = A(shape, kind, lambda *i: S(app(nm, list(i)), app(nm + 'i', list(i)) if kind == 'c' else ZERO, kind))
    r.mxf = (name,) + tuple(frozen(arr(a)) for a in args) + ((extra,) if extra else ())
    r.opname = nm
    return r


def sq_shape(a):
    a = arr(a)
    if a.ndim != 2: raise CodeError('LinAlgError: 2-d array expected')
    r = same_dim(*a.shape_)
    if r is False: raise CodeError('LinAlgError: square matrix expected')
    if r is None: raise Unsupported('square matrix expected')
    return a


def np_inv(a):
    """contract: inv(a) a = a inv(a) = I for regular a"""
    used('np.linalg.inv: two-sided inverse')
    a = sq_shape(a)
    n = dconst(a.shape_[0])
    d = toS(a.get((ZERO, ZERO))) if n is not None and n <= 3 else None
    if n is not None and n <= 3: return small_inv(a, n)
    r = opaque_mat('inv', [a], a.shape_, fk(a.kind))
    return r


def small_inv(a, n):
    e = [[mk_elem(a.get((P(i), P(j)))) for j in range(n)] for i in range(n)]
    if n == 1: m, det = [[1]], e[0][0]
    elif n == 2:
        det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
        m = [[e[1][1], -e[0][1]], [-e[1][0], e[0][0]]]
    else:
        def cof(i, j):
            r = [x for x in range(3) if x != i]
            c = [x for x in range(3) if x != j]
            v = e[r[0]][c[0]] * e[r[1]][c[1]] - e[r[0]][c[1]] * e[r[1]][c[0]]
            return v if (i + j) % 2 == 0 else -v
        det = e[0][0] * cof(0, 0) + e[0][1] * cof(0, 1) + e[0][2] * cof(0, 2)
        m = [[cof(j, i) for j in range(3)] for i in range(3)]
    det = toS(det)
    det = mk_elem(S(norm(det.re), norm(det.im), det.kind))
    if toS(det).re is ZERO and toS(det).im is ZERO: raise CodeError('LinAlgError: singular matrix')
    rows = [[toS(sbin('div', x, det)) for x in r] for r in m]
    rows = [[S(norm(x.re), norm(x.im), x.kind) for x in r] for r in rows]
    k = fk(a.kind)
    return A((n, n), k, lambda i, j: Y.pick(i, [lambda r=r: Y.pick(j, [lambda x=x: x for x in r]) for r in rows]))


def np_pinv(a, **k):
    nokw(k)
    used('pinv: Moore-Penrose conditions')
    a = arr(a)
    return opaque_mat('pinv', [a], (a.shape_[1], a.shape_[0]), fk(a.kind))


def np_solve(a, b, **k):
    nokw(k)
    used('linalg.solve: a @ result = b')
    a, b = sq_shape(a), arr(b)
    n = dconst(a.shape_[0])
    r = matmul(np_inv(a), b)
    EVENTS.append(('solve', frozen(a), frozen(b), r))
    return r


def np_svd(a, full_matrices=True, **k):
    nokw(k)
    used('np.linalg.svd: u diag(s) vh = a, u and vh unitary, s decreasing')
    a = arr(a)
    m, n = a.shape_
    kd = fk(a.kind)
    u = opaque_mat('svdU', [a], (m, m), kd)
    s = opaque_mat('svdS', [a], (sel_min(m, n),), 'f')
    if full_matrices: vh = opaque_mat('svdVh', [a], (n, n), kd)
    else:
        u = opaque_mat('svdU', [a], (m, sel_min(m, n)), kd, 'reduced')
        vh = opaque_mat('svdVh', [a], (sel_min(m, n), n), kd, 'reduced')
    EVENTS.append(('svd', frozen(a), u, s, vh))
    return u, s, vh


def sel_min(m, n):
    if C().le(dp(m) - dp(n)): return m
    if C().le(dp(n) - dp(m)): return n
    return dim(ite(le0(dp(m) - dp(n)), dp(m), dp(n)))


_solves = []


def spsolve(a, b, **k):
    nokw(k)
    """contract: returns y with a @ y = b (a regular)"""
    used('spsolve: a @ result = b')
    a, b = sq_shape(a), arr(b)
    if b.ndim == 1: r = same_dim(a.shape_[0], b.shape_[0])
    else: r = same_dim(a.shape_[0], b.shape_[0])
    if r is False: raise ShapeError('spsolve shapes')
    kd = fk(kmax(a.kind, b.kind))
    nm = 'sol#%d' % len(_solves)
    sh = b.shape_ if not (b.ndim == 2 and Y._is_one(b.shape_[1])) else (b.shape_[0],)
    y = A(sh, kd, lambda *i: S(app(nm, list(i)), app(nm + 'i', list(i)) if kd == 'c' else ZERO, kd))
    y.tag = ('spsolve', len(_solves))
    _solves.append((frozen(a), frozen(b), y))
    EVENTS.append(('spsolve', frozen(a), frozen(b), frozen(y)))
    return y


# -------- random
class Rand:
    """np.random.normal: every call returns a fresh array of standard normal draws scaled by the given deviation"""
    def __init__(self): self.n = 0
    def normal(self, loc=0.0, scale=1.0, size=None):
        used('np.random.normal: loc + scale * independent standard normal draws')
        c = self.n
        self.n += 1
        loc, scale = arr(loc), arr(scale)
        if size is None: sh = bshape(loc.shape_, scale.shape_)[0]
        else: sh = shp(size)
        for x in (loc, scale):
            s2, _, _ = bshape(sh, x.shape_)
            if len(s2) != len(sh) or any(same_dim(p, q) is not True for p, q in zip(s2, sh)): raise ShapeError('normal: shape mismatch')
        # identify the draw by call number and loop indices of enclosing summarised loops
        ks = [l.k for l in LOOPS if l.mode == 'map']
        key = 'draw%d' % c if not ks else self.loopkey(c)
        kk = list(ks)
        p1, p2 = bshape(sh, loc.shape_)[2], bshape(sh, scale.shape_)[2]
        fl, fs = loc.snap(), scale.snap()
        def el(*i):
            z = app(key, kk + list(i))
            return S(norm(toS(fl(*p1(i))).re + toS(fs(*p2(i))).re * z))
        r = A(sh, 'f', el)
        EVENTS.append(('normal', key, kk))
        if not sh: return mk_elem(r)
        return r
    def loopkey(self, c):
        # both passes of a summarised loop must name the draw alike
        l = LOOPS[-1]
        if getattr(l, 'rphase', None) != l.phase:
            l.rphase, l.rcount = l.phase, 0
        l.rcount += 1
        return 'drawL%s_%d' % (id(l) % 99991, l.rcount)
    def randn(self, *sh): return self.normal(0, 1, sh)
    def standard_normal(self, size=None): return self.normal(0, 1, size)
    def seed(self, *a): EVENTS.append(('seed', a))
    def randint(self, lo, hi=None, size=None, **k):
        nokw(k)
        used('np.random.randint: integers in [lo, hi)')
        c = self.n
        self.n += 1
        if hi is None: lo, hi = 0, lo
        key = 'rint%d' % c
        kk = [l.k for l in LOOPS if l.mode == 'map']
        if kk: key = 'rintL' + self.loopkey(c)
        sh = () if size is None else shp(size)
        EVENTS.append(('randint', key, lo, hi, sh))
        lo_, hi_ = norm(toS(lo).re), norm(toS(hi).re)
        C().apprng[key] = lambda *a: (lo_, hi_)
        r = A(sh, 'i', lambda *i: S(app(key, kk + list(i), 'I'), ZERO, 'i'))
        return mk_elem(r) if not sh else r
    def __getattr__(self, a): raise Unsupported('np.random.' + a)


def np_percentile(a, q, axis=None, **k):
    nokw(k)
    used('np.percentile (uninterpreted)')
    a = arr(a)
    if axis is None: raise Unsupported('percentile')
    ax = axis % a.ndim
    f = a.snap()
    def el(*i):
        k = sym('pk', 'I')
        cx = C()
        cx.push()
        cx.rng(k, 0, dp(a.shape_[ax]))
        try: body = norm(toS(f(*(tuple(i[:ax]) + (k,) + tuple(i[ax:])))).re)
        finally: cx.pop()
        return S(fun('pct', [atom_poly(T.raw_sum([(the_atom(k), dp(a.shape_[ax]))], fun('wrap', [body]))), toS(q).re]))
    return A(tuple(d for t, d in enumerate(a.shape_) if t != ax), 'f', el)


# -------- interpolation (assumed contract of scipy.interpolate.interp1d, linear)
class Interp1d:
    def __init__(self, x, y, axis=-1, kind='linear', **k):
        nokw(k)
        if kind != 'linear': raise Unsupported('interpolation kind')
        used('interp1d: piecewise linear interpolation of (x, y)')
        self.x, self.y = arr(x), arr(y)
        self.axis = axis
        if self.y.ndim > 1 and axis != 0: raise Unsupported('interp1d along another axis')
        r = same_dim(self.x.shape_[0], self.y.shape_[0])
        if r is False: raise ShapeError('interp1d lengths')
        from . import mx as M
        self.fy = self.y.snap()
        self.xk = interp_key(self.x)
    def __call__(self, t):
        t = arr(t)
        ft = t.snap()
        n = self.x.shape_[0]
        # linear in y: sum_s y(s) * hat_s(t), hat_s an uninterpreted function of t and the node list
        if self.y.ndim > 1 and t.ndim != 1: raise Unsupported('interp1d of a matrix at a matrix')
        d = t.ndim
        def el(*i):
            tt = toS(ft(*i[:d])).re
            return toS(SumS([n], lambda s: (lambda v: S(v.re * app('hat' + self.xk, [s, norm(tt)]), v.im * app('hat' + self.xk, [s, norm(tt)]), v.kind))(toS(self.fy(s, *i[d:]))), fk(self.y.kind)))
        return A(tuple(t.shape_) + tuple(self.y.shape_[1:]), fk(self.y.kind), el)


_ikeys = {}


def interp_key(x):
    k = sym('ik', 'I')
    cx = C()
    cx.push()
    cx.rng(k, 0, dp(x.shape_[0]))
    try: b = (norm(x.get((k,)).re), dp(x.shape_[0]))
    finally: cx.pop()
    if b not in _ikeys: _ikeys[b] = '%d' % len(_ikeys)
    return _ikeys[b]


# ------------------------------------------------------------------ scipy.sparse
class SPType:
    def __init__(self, fmt): self.fmt, self.__name__ = fmt, fmt + '_matrix'
    def __repr__(self): return self.__name__
    def __call__(self, x, shape=None, dtype=None, **k):
        nokw(k)
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[1], tuple): return self.coo(x[0], x[1], shape, dtype)
            return A(shp(x), kind_of(dtype) if dtype is not None else 'f', lambda *i: S(ZERO, ZERO, 'f'), self.fmt)
        x = arr(x)
        if x.ndim == 1: x = x[None, :]
        r = x.copy()
        if x.ndim != 2: raise CodeError('sparse matrix from a %d-d array' % x.ndim)
        if dtype is not None:
            m = r.mxf
            r = r.astype(dtype)
        r.fmt = self.fmt
        return r
    def coo(self, data, ij, shape, dtype):
        data, (i, j) = arr(data), ij
        i, j = arr(i), arr(j)
        fd, fi, fj = data.snap(), i.snap(), j.snap()
        n = data.shape_[0]
        if shape is None: raise Unsupported('coo matrix without shape')
        k = kind_of(dtype) if dtype is not None else data.kind
        return A(shp(shape), k, lambda r, c: toS(SumS([n], lambda t: (lambda v: (lambda g: S(g * v.re, g * v.im, v.kind))(X.dec_eq(r - toS(fi(t)).re) * X.dec_eq(c - toS(fj(t)).re)))(toS(fd(t))), k)), self.fmt)


SPT = {f: SPType(f) for f in ('csr', 'csc', 'coo', 'lil', 'dia', 'bsr', 'dok')}


def tofmt(r, fmt, default):
    r = arr(r)
    q = A(r.shape_, r.kind, r.snap(), fmt or default, mx=r.mxf)
    q.tag = r.tag
    return q


def sp_eye(n, m=None, k=0, dtype=None, format=None): return tofmt(np_eye(n, m, k, dtype), format, 'dia')
def sp_identity(n, dtype=None, format=None): return sp_eye(n, dtype=dtype, format=format)


def sp_kron(a, b, format=None):
    a, b = arr(a), arr(b)
    a, b = atl2(a), atl2(b)
    return tofmt(np_kron(a, b), format, 'bsr')


def sp_diags(d, offsets=0, shape=None, format=None, dtype=None):
    d = arr(d)
    if d.ndim == 2 and Y._is_one(d.shape_[0]): d = d[0]
    if offsets != 0 and not (isinstance(offsets, list) and offsets == [0]): raise Unsupported('diags offsets')
    if d.ndim != 1: raise Unsupported('diags of a matrix')
    r = diag(d)
    return tofmt(r, format, 'dia')


def sp_bmat(rows, format=None, dtype=None):
    shr = [None] * len(rows)
    shc = [None] * len(rows[0])
    rows = [[None if x is None else atl2(x) for x in r] for r in rows]
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            if x is not None:
                shr[i] = shr[i] if shr[i] is not None else x.shape_[0]
                shc[j] = shc[j] if shc[j] is not None else x.shape_[1]
    full = [[x if x is not None else np_zeros((shr[i], shc[j])) for j, x in enumerate(r)] for i, r in enumerate(rows)]
    r = np_block(full)
    return tofmt(r, format, 'coo')


def sp_vstack(xs, format=None, dtype=None): return tofmt(np_vstack(list(xs)), format, 'csr')
def sp_hstack(xs, format=None, dtype=None): return tofmt(np_hstack(list(xs)), format, 'csr')
def sp_issparse(x): return isinstance(x, A) and x.fmt is not None
def sp_block_diag(xs, format=None, dtype=None):
    xs = [atl2(x) for x in xs]
    rows = [[xs[i] if i == j else np_zeros((xs[i].shape_[0], xs[j].shape_[1])) for j in range(len(xs))] for i in range(len(xs))]
    return tofmt(np_block(rows), format, 'coo')


# ------------------------------------------------------------------ module objects
class Mod:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__['_name'] = name
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Unsupported('%s.%s has no assumed contract' % (self.__dict__['_name'], a))


def make_np():
    rnd = Rand()
    lin = Mod('numpy.linalg', dict(norm=np_norm, inv=np_inv, pinv=np_pinv, svd=np_svd, solve=np_solve, LinAlgError=CodeError))
    d = dict(ndarray=ndarray, array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, asfortranarray=np_asarray, zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full, zeros_like=np_zeros_like, ones_like=np_ones_like,
             empty_like=np_empty_like, full_like=np_full_like, eye=np_eye, identity=lambda n, dtype=None: np_eye(n, dtype=dtype), kron=np_kron, concatenate=np_concatenate, vstack=np_vstack, hstack=np_hstack, stack=np_stack, column_stack=np_column_stack, block=np_block, append=lambda a, b, axis=None: np_concatenate([a, b], axis),
             reshape=np_reshape, ravel=np_ravel, tile=np_tile, repeat=np_repeat, arange=np_arange, linspace=np_linspace, outer=np_outer,
             abs=np_abs, absolute=np_abs, angle=np_angle, exp=np_exp, cos=np_cos, sin=np_sin, tan=np_tan, cosh=np_cosh, sinh=np_sinh, tanh=np_tanh, sqrt=np_sqrt, deg2rad=np_deg2rad, radians=np_deg2rad, rad2deg=np_rad2deg, degrees=np_rad2deg, log=np_log, expm1=np_expm1,
             square=np_square, floor=np_floor, sign=np_sign, conj=np_conjf, conjugate=np_conjf, real=np_real, imag=np_imag, round=np_round, around=np_round, isnan=np_isnan,
             add=bin_('add'), subtract=bin_('sub'), multiply=bin_('mul'), divide=bin_('div'), true_divide=bin_('div'), power=bin_('pow'), floor_divide=bin_('fdiv'), mod=bin_('mod'), less=bin_('lt'), greater=bin_('gt'), less_equal=bin_('le'), greater_equal=bin_('ge'), equal=bin_('eq'), not_equal=bin_('ne'), negative=lambda a: -a,
             logical_and=bin_('and'), logical_or=bin_('or'), logical_not=np_lnot, sum=np_sum, mean=np_mean, average=np_mean, max=np_max, min=np_min, amax=np_max, amin=np_min, any=np_any, all=np_all, prod=np_prod, cumsum=np_cumsum, std=np_std, maximum=np_maximum, minimum=np_minimum,
             isscalar=np_isscalar, where=np_where, nonzero=np_nonzero, argwhere=np_argwhere, flatnonzero=np_flatnonzero, diag=np_diag, diagonal=np_diag, dot=np_dot, matmul=np_dot, transpose=np_transpose, delete=np_delete, insert=np_insert, sort=np_sort, unique=np_unique, setdiff1d=np_setdiff1d, isin=np_isin, in1d=np_isin, ix_=np_ix_, intersect1d=np_intersect1d,
             split=np_split, hsplit=np_hsplit, vsplit=np_vsplit, tril_indices=np_tril_indices, triu_indices=np_triu_indices, tril=np_tril, triu=np_triu, expand_dims=np_expand_dims, squeeze=np_squeeze, shape=np_shape, size=np_size, ndim=np_ndim, copy=np_copy, flip=np_flip, roll=np_roll, moveaxis=np_moveaxis, swapaxes=np_swapaxes,
             percentile=np_percentile, random=rnd, linalg=lin, pi=S(T.pi(), ZERO, 'f'), inf=math.inf, newaxis=None, nan=float('nan'), e=S(T.exp(ONE), ZERO, 'f'),
             trace=lambda a: asum(diag(a)), atleast_1d=atl1, atleast_2d=atl2, iscomplexobj=lambda a: arr(a).kind == 'c', float64=DT['f'], float32=DT['f'], float_=DT['f'], int64=DT['i'], int32=DT['i'], int_=DT['i'], int=INT, float=FLOAT, bool=BOOL, complex=COMPLEX, object=object, complex128=DT['c'], complex64=DT['c'], complex_=DT['c'], bool_=DT['b'],
             allclose=None, integer=DT['i'], floating=DT['f'], number=DT['f'])
    del d['allclose']
    return Mod('numpy', d)


def make_sp():
    d = dict(csr_matrix=SPT['csr'], csc_matrix=SPT['csc'], coo_matrix=SPT['coo'], lil_matrix=SPT['lil'], dia_matrix=SPT['dia'], eye=sp_eye, identity=sp_identity, kron=sp_kron, diags=sp_diags, bmat=sp_bmat,
             vstack=sp_vstack, hstack=sp_hstack, issparse=sp_issparse, isspmatrix=sp_issparse, block_diag=sp_block_diag)
    d['linalg'] = Mod('scipy.sparse.linalg', dict(spsolve=spsolve, inv=lambda a: tofmt(np_inv(a), arr(a).fmt, 'csc')))
    return Mod('scipy.sparse', d)


class Tqdm:
    def __call__(self, x=None, *a, **k): return x
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return lambda *x, **k: None


class Stub:
    """library without contract: any use stops the analysis of that path"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Stub(self.__dict__['_n'] + '.' + a)
    def __call__(self, *a, **k): raise Unsupported('%s has no assumed contract' % self.__dict__['_n'])
    def __mro_entries__(self, bases): return (StubBase,)


class StubBase:
    pass


class StubMods:
    def __init__(self): self.cache = {}
    def __call__(self, name):
        if name not in self.cache: self.cache[name] = Stub(name)
        return self.cache[name]


class Settings(types.SimpleNamespace):
    """a settings module: every value is given by the harness"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Unsupported('setting %s.%s' % (self.__dict__['_n'], a))


def make_loader(extra=None, repo=None):
    np = make_np()
    sp = make_sp()
    scipy = Mod('scipy', dict(sparse=sp, linalg=Mod('scipy.linalg', dict(pinv=np_pinv, inv=np_inv, svd=np_svd, norm=np_norm, solve=np_solve)),
                              interpolate=Mod('scipy.interpolate', dict(interp1d=Interp1d)), stats=Stub('scipy.stats')))
    conf = types.ModuleType('conf')
    fakes = {'numpy': np, 'scipy': scipy, 'scipy.sparse': sp, 'scipy.sparse.linalg': sp.linalg, 'scipy.linalg': scipy.linalg,
             'scipy.interpolate': scipy.interpolate, 'scipy.stats': scipy.stats, 'tqdm': Mod('tqdm', dict(tqdm=Tqdm())), 'numpy.linalg': np.linalg}
    stubs = StubMods()
    fakes['*'] = stubs
    conf_ns = types.SimpleNamespace(GPU_AVAILABLE=False, DATA_DIR=__import__('pathlib').Path('/nonexistent'), SIM_DIR=__import__('pathlib').Path('/nonexistent'), seed=131, TEST_DIR=__import__('pathlib').Path('/nonexistent'))
    fakes['conf.conf'] = conf_ns
    fakes['conf.identification'] = Settings('identification')
    fakes['conf.simulation'] = Settings('simulation')
    conf_ns.noise_level = 1
    if extra: fakes.update(extra)
    L = Loader(fakes, BUILTINS, repo)
    L.np, L.sp, L.conf = np, sp, conf_ns
    return L
