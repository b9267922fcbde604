"""Symbolic values: scalars S, arrays A (closures from index to scalar), lists, booleans; branch oracle and loop journal."""
import itertools
from fractions import Fraction as Fr
from .terms import *
from . import terms as T
from .ctx import *
from . import ctx as X

KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def kmax(*ks): return max(ks, key=lambda k: KORD[k])


class CodeError(Exception):
    """the analysed code raises for an input admitted by the precondition"""


class ShapeError(CodeError, ValueError):
    pass


# ------------------------------------------------------------------ branching
class Explorer:
    def __init__(self):
        self.decisions, self.pos, self.limit = [], 0, 400

    def branch(self, c):
        cx = C()
        r = cx.decide(c)
        if r is not None: return r
        if LOOPS and any(l.mode == 'map' for l in LOOPS):
            raise Unsupported('data-dependent branch inside a summarised loop: %s' % c)
        c = norm(c)
        a = X.split_atom(c)
        if a is not None:
            # a disjunction: decide its brackets one after the other
            self.branch(a)
            return self.branch(norm(c))
        if self.pos < len(self.decisions): v = self.decisions[self.pos]
        else:
            if len(self.decisions) > 40: raise Unsupported('too many branches')
            self.decisions.append(True)
            v = True
        self.pos += 1
        cx.assume(norm(c), v)
        return v

    def choose(self, n):
        """non-deterministic choice among n alternatives"""
        for i in range(n - 1):
            if self.pos < len(self.decisions): v = self.decisions[self.pos]
            else:
                self.decisions.append(True)
                v = True
            self.pos += 1
            if v: return i
        return n - 1

    def next(self):
        while self.decisions and self.decisions[-1] is False: self.decisions.pop()
        if not self.decisions: return False
        self.decisions[-1] = False
        self.pos = 0
        return True


EXP = [Explorer()]
LOOPS = []       # active loop frames (innermost last)


def branch(c): return EXP[0].branch(c)


def reset():
    global LOOPS
    cx = new_ctx()
    del LOOPS[:]
    _sel_reset()
    return cx


# ------------------------------------------------------------------ scalars
class S:
    __slots__ = ('re', 'im', 'kind', 'polar')
    __array_priority__ = 1000

    def __init__(self, re, im=ZERO, kind='f', polar=None):
        self.re, self.im, self.kind, self.polar = re, im, kind, polar

    def __repr__(self): return 'S%s(%s%s)' % (self.kind, self.re, '' if self.im is ZERO else ' + j ' + str(self.im))

    # attributes of numpy scalars
    shape = ()
    ndim = 0
    size = 1
    @property
    def real(self): return mk('f' if self.kind == 'c' else self.kind, self.re)
    @property
    def imag(self): return mk('f' if self.kind == 'c' else self.kind, self.im)
    @property
    def T(self): return self
    @property
    def dtype(self): return DT[self.kind]
    def conj(self): return S(self.re, -self.im, self.kind)
    conjugate = conj
    def squeeze(self, *a): return self
    def copy(self): return self
    def item(self): return self
    def astype(self, dt): return cast(self, kind_of(dt))
    def flatten(self, *a): return A((1,), self.kind, lambda i: self)
    def dot(self, o): return self * o
    def __deepcopy__(self, memo): return self

    def __add__(self, o): return sbin('add', self, o)
    def __radd__(self, o): return sbin('add', o, self)
    def __sub__(self, o): return sbin('sub', self, o)
    def __rsub__(self, o): return sbin('sub', o, self)
    def __mul__(self, o): return sbin('mul', self, o)
    def __rmul__(self, o): return sbin('mul', o, self)
    def __truediv__(self, o): return sbin('div', self, o)
    def __rtruediv__(self, o): return sbin('div', o, self)
    def __floordiv__(self, o): return sbin('fdiv', self, o)
    def __rfloordiv__(self, o): return sbin('fdiv', o, self)
    def __mod__(self, o): return sbin('mod', self, o)
    def __rmod__(self, o): return sbin('mod', o, self)
    def __pow__(self, o): return sbin('pow', self, o)
    def __rpow__(self, o): return sbin('pow', o, self)
    def __neg__(self): return mk(self.kind, -self.re, -self.im)
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    def __lt__(self, o): return sbin('lt', self, o)
    def __le__(self, o): return sbin('le', self, o)
    def __gt__(self, o): return sbin('gt', self, o)
    def __ge__(self, o): return sbin('ge', self, o)
    def __eq__(self, o): return sbin('eq', self, o)
    def __ne__(self, o): return sbin('ne', self, o)
    def __and__(self, o): return sbin('and', self, o)
    def __rand__(self, o): return sbin('and', o, self)
    def __or__(self, o): return sbin('or', self, o)
    def __ror__(self, o): return sbin('or', o, self)
    def __invert__(self):
        if self.kind == 'b': return mk('b', b_not(self.re))
        return -self - 1
    __hash__ = None

    def __bool__(self):
        if self.kind == 'b': return branch(self.re)
        return branch(b_not(X.dec_eq(self.re)) if self.im is ZERO else b_not(X.dec_eq(self.re) * X.dec_eq(self.im)))

    def __index__(self):
        c = norm(self.re).const()
        if self.kind in 'ib' and c is not None: return int(c)
        raise Unsupported('symbolic integer used where a concrete one is needed: %s' % self.re)

    def __int__(self): return self.__index__()
    def __float__(self): raise Unsupported('symbolic value converted to a machine float')
    def __complex__(self): raise Unsupported('symbolic value converted to a machine complex')
    def __round__(self, n=None): return sround(self)
    def __str__(self): return '<%s>' % self.re
    def __format__(self, spec): return '<%s>' % self.re


def mk(kind, re, im=ZERO, polar=None):
    if kind in 'ib':
        c = re.const()
        if c is not None: return bool(c) if kind == 'b' else int(c)
    return S(re, im, kind, polar)


def isnum(x): return isinstance(x, (S, int, float, complex, Fr))


def toS(x):
    if isinstance(x, S): return x
    if isinstance(x, bool): return S(P(int(x)), ZERO, 'b')
    if isinstance(x, int): return S(P(x), ZERO, 'i')
    if isinstance(x, float): return S(P(x), ZERO, 'f')
    if isinstance(x, Fr): return S(P(x), ZERO, 'f')
    if isinstance(x, complex): return S(P(x.real), P(x.imag), 'c')
    if isinstance(x, A) and len(x.shape) == 0: return x.get(())
    if isinstance(x, A) and all(dconst(d) == 1 for d in x.shape): return x.get(tuple(ZERO for _ in x.shape))
    raise Unsupported('not a scalar: %r' % type(x))


def dconst(d):
    if isinstance(d, int): return d
    c = norm(dp(d)).const()
    return int(c) if c is not None else None


def dp(d):
    """dimension / integer -> Poly"""
    if isinstance(d, Poly): return d
    if isinstance(d, bool): return P(int(d))
    if isinstance(d, int): return P(d)
    if isinstance(d, S):
        if d.kind == 'f' and not (d.re.isint): raise CodeError('float used as an integer')
        return d.re
    if isinstance(d, A): return toS(d).re
    if isinstance(d, float) and d == int(d): return P(int(d))
    raise Unsupported('bad integer %r' % (d,))


def dim(p):
    p = norm(p)
    c = p.const()
    return int(c) if c is not None else S(p, ZERO, 'i')


def same_dim(a, b):
    a, b = dp(a), dp(b)
    if a is b: return True
    return C().eq(norm(a - b))


def ssel(c, a, b):
    """if c then a else b on scalars"""
    if c is ONE: return toS(a)
    if c is ZERO: return toS(b)
    a, b = toS(a), toS(b)
    k = kmax(a.kind, b.kind)
    pol = None
    if a.polar and b.polar: pol = (ite(c, a.polar[0], b.polar[0]), ite(c, a.polar[1], b.polar[1]))
    return S(ite(c, a.re, b.re), ite(c, a.im, b.im), k, pol)


def sabs(a):
    a = toS(a)
    if a.polar: return mk('f', a.polar[0])
    if a.im is ZERO: return mk('i' if a.kind == 'b' else 'f' if a.kind == 'c' else a.kind, fabs(a.re))
    if a.re is ZERO: return mk('f', fabs(a.im))
    r = sqrt(a.re * a.re + a.im * a.im)
    if T.is_atom(r): ABSOF[T.the_atom(r)] = (a.re, a.im)
    return mk('f', r)


ABSOF = {}


def magnitude_zero(p):
    """p is a magnitude: the condition that it vanishes"""
    if not T.is_atom(p): return None
    a = T.the_atom(p)
    if a.op == 'abs': return X.dec_eq(a.args[0])
    if a in ABSOF: return norm(X.dec_eq(ABSOF[a][0]) * X.dec_eq(ABSOF[a][1]))
    return None


def sangle(a):
    a = toS(a)
    if a.polar: return mk('f', a.polar[1])
    return mk('f', fun('arg', [a.re, a.im]))


def sexp(a):
    a = toS(a)
    e = exp(a.re)
    if a.kind != 'c': return mk('f', e)
    return S(e * cos(a.im), e * sin(a.im), 'c', (e, a.im))


def sround(a):
    a = toS(a)
    if a.kind in 'ib': return mk('i', a.re)
    p = norm(a.re)
    if p.isint and X._intc(p): return mk('i', p)
    return mk('i', fun('round', [p], 'I'))


def sfloor(a):
    a = toS(a)
    p = norm(a.re)
    if p.isint: return idiv_frac(p)
    return fun('floor', [p], 'I')


def idiv_frac(p):
    if X._intc(p): return p
    l = 1
    for c in p.d.values(): l = l * c.denominator // T.math.gcd(l, c.denominator)
    return X.idiv(p.scale(l), P(l))


def sint(a):
    """int(): truncation"""
    a = toS(a)
    if a.kind in 'ib': return mk('i', a.re)
    p = norm(a.re)
    if p.isint and X._intc(p): return mk('i', p)
    r = p.mono1()
    # integer quotient written as a true division
    q = quotient(p)
    if q is not None:
        num, den = q
        if C().le(-num): return mk('i', X.idiv(num, den))
        return mk('i', fun('trunc', [p], 'I'))
    if p.isint:
        f = idiv_frac(p)
        hasdiv = any(T._byid[aid].op == 'div' for m in f.d for aid, e in m)
        if not hasdiv or C().le(-p): return mk('i', f)
    if C().le(-p): return mk('i', fun('floor', [p], 'I'))
    return mk('i', fun('trunc', [p], 'I'))


def quotient(p):
    """p = num * q^-1 with integer num, q"""
    den = {}
    for m, c in p.d.items():
        for aid, e in m:
            a = T._byid[aid]
            if a.op == 'inv' and a.args[0].isint: den[('inv', aid)] = max(den.get(('inv', aid), 0), e)
            elif e < 0 and a.sort == 'I': den[('neg', aid)] = max(den.get(('neg', aid), 0), -e)
    if not den: return None
    d = ONE
    for (k, aid), e in den.items():
        d = d * (T._byid[aid].args[0] if k == 'inv' else atom_poly(T._byid[aid])) ** e
    n = X.clear_inv(p)
    l = 1
    for c in n.d.values(): l = l * c.denominator // T.math.gcd(l, c.denominator)
    if not n.isint: return None
    return n.scale(l), d.scale(l)


def spow(a, b):
    if b.im is not ZERO: raise Unsupported('complex exponent')
    e = norm(b.re).const()
    k = kmax(a.kind, b.kind)
    if e is not None and e.denominator == 1 and e >= 0 and e <= 12:
        r = S(ONE, ZERO, 'i')
        for _ in range(int(e)): r = toS(sbin('mul', r, a))
        return mk(k if k != 'b' else 'i', r.re, r.im)
    if a.im is ZERO:
        if e is not None and e.denominator == 1: return mk('f', inv(a.re) ** int(-e))
        if e == Fr(1, 2): return mk('f', sqrt(a.re))
        return mk('f' if k != 'c' else 'c', fun('pow', [a.re, b.re]))
    if e is not None and e < 0 and e.denominator == 1:
        return sbin('div', 1, spow(a, S(-b.re, ZERO, b.kind)))
    raise Unsupported('complex power')


def sbin(op, a, b):
    if isinstance(a, A) or isinstance(b, A): return aop(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op in ('eq', 'ne'): return op == 'ne'
        return aop(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == 'eq': return False
        if op == 'ne': return True
        raise CodeError('operation %s on %r, %r' % (op, a, b))
    if not isnum(a) or not isnum(b): return NotImplemented
    a, b = toS(a), toS(b)
    k = kmax(a.kind, b.kind)
    if op == 'add':
        if k == 'b': return mk('b', b_or(a.re, b.re))
        return mk(k, a.re + b.re, a.im + b.im)
    if op == 'sub': return mk('i' if k == 'b' else k, a.re - b.re, a.im - b.im)
    if op == 'mul':
        if a.im is ZERO and b.im is ZERO: return mk(k, a.re * b.re)
        pol = None
        if a.polar and b.polar: pol = (a.polar[0] * b.polar[0], a.polar[1] + b.polar[1])
        elif a.polar and b.im is ZERO and _nonneg(b.re): pol = (a.polar[0] * b.re, a.polar[1])
        elif b.polar and a.im is ZERO and _nonneg(a.re): pol = (b.polar[0] * a.re, b.polar[1])
        return mk(k, a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, pol)
    if op == 'div':
        k2 = 'c' if k == 'c' else 'f'
        if b.im is ZERO:
            i = inv(b.re)
            return mk(k2, a.re * i, a.im * i)
        i = inv(b.re * b.re + b.im * b.im)
        return mk(k2, (a.re * b.re + a.im * b.im) * i, (a.im * b.re - a.re * b.im) * i)
    if op in ('fdiv', 'mod'):
        if k == 'c': raise CodeError('floor division of complex numbers')
        if k in 'ib':
            if C().eq(b.re): raise CodeError('division by zero')
            if C().le(1 - b.re) is not True and C().le(b.re + 1) is not True: raise Unsupported('divisor sign unknown')
            if C().le(1 - b.re) is not True:
                q = X.idiv(-a.re, -b.re)
            else: q = X.idiv(a.re, b.re)
            return mk('i', q if op == 'fdiv' else a.re - b.re * q)
        q = fun('floor', [a.re * inv(b.re)], 'I')
        return mk('f', q if op == 'fdiv' else a.re - b.re * q)
    if op == 'pow': return spow(a, b)
    if op in ('eq', 'ne'):
        c = (magnitude_zero(a.re) if b.re is ZERO and k == 'f' else None)
        if c is None: c = X.dec_eq(a.re - b.re)
        if k == 'c': c = c * X.dec_eq(a.im - b.im)
        return mk('b', c if op == 'eq' else b_not(c))
    if op in ('and', 'or'):
        if k != 'b': raise Unsupported('bitwise operation on integers')
        return mk('b', a.re * b.re if op == 'and' else b_or(a.re, b.re))
    if a.im is not ZERO or b.im is not ZERO: raise Unsupported('ordering of complex numbers')
    if op in ('gt', 'lt'):
        z = magnitude_zero(a.re) if op == 'gt' and b.re is ZERO else magnitude_zero(b.re) if op == 'lt' and a.re is ZERO else None
        if z is not None: return mk('b', b_not(z))
    d = {'lt': a.re - b.re, 'le': a.re - b.re, 'gt': b.re - a.re, 'ge': b.re - a.re}[op]
    if op in ('lt', 'gt'):
        if d.isint: c = norm(lt0(d))
        else: c = b_not(X.dec_le(-d))
    else: c = X.dec_le(d) if not d.isint else norm(le0(d))
    return mk('b', c)


def _nonneg(p): return C().le(-p) is True


def smax(a, b): 
    a, b = toS(a), toS(b)
    return ssel(toS(sbin('ge', a, b)).re, a, b)


def cast(v, kind):
    v = toS(v)
    if kind == v.kind: return mk(kind, v.re, v.im)
    if kind == 'c': return S(v.re, v.im, 'c', v.polar)
    if kind == 'f':
        return S(v.re, ZERO, 'f')
    if kind == 'i': return sint(S(v.re, ZERO, v.kind))
    if kind == 'b': return mk('b', b_not(X.dec_eq(v.re)))
    raise Unsupported('cast')


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kind): self.name, self.kind = name, kind
    def __repr__(self): return self.name
    def __call__(self, x=0):
        if isinstance(x, A): return x.astype(self)
        return cast(x, self.kind) if self.kind != 'i' else sint(x)
    def __eq__(self, o):
        try: return kind_of(o) == self.kind
        except Unsupported: return False
    def __hash__(self): return hash(self.kind)
    @property
    def type(self): return self


DT = {k: DType(n, k) for k, n in dict(b='bool_', i='int64', f='float64', c='complex128').items()}


def kind_of(dt):
    if dt is None: return 'f'
    if isinstance(dt, DType): return dt.kind
    if dt is float: return 'f'
    if dt is int: return 'i'
    if dt is complex: return 'c'
    if dt is bool: return 'b'
    if isinstance(dt, str):
        if dt.startswith(('int', 'i', 'uint')): return 'i'
        if dt.startswith(('float', 'f', 'd')): return 'f'
        if dt.startswith(('complex', 'c', 'D', 'F')): return 'c'
        if dt.startswith(('bool', '?')): return 'b'
    k = getattr(dt, '__symkind__', None)
    if k: return k
    raise Unsupported('dtype %r' % (dt,))


# ------------------------------------------------------------------ sums
def _binders(his):
    """fresh summation indices; product ranges are written in mixed radix"""
    cx = C()
    ks, bs = [], []
    for h in his:
        h = norm(dp(h))
        m = h.mono1()
        fs = None
        if m and m[0].denominator == 1 and m[0] > 0:
            fs = ([P(m[0])] if m[0] != 1 else []) + [atom_poly(T._byid[aid]) for aid, e in m[1] for _ in range(e)]
            if any(not is_atom(x) and x.const() is None for x in fs): fs = None
            elif m[0] == 3: fs = fs[1:] + fs[:1]        # three phases: node by node
        if not fs or len(fs) < 2 or len(fs) > 3: fs = [h]
        k = ZERO
        for x in fs:
            q = fresh('s', 'I')
            cx.rng(q, 0, x)
            bs.append((the_atom(q), x))
            k = k * x + q if k is not ZERO else q
        ks.append(k)
    return ks, bs


def small_box(his):
    """the index tuples of a small concrete box"""
    ns = [norm(dp(d)).const() for d in his]
    if any(n is None or n < 1 for n in ns) or T.math.prod(ns) > 40: return None
    import itertools
    return [tuple(P(x) for x in i) for i in itertools.product(*[range(int(n)) for n in ns])]


def Sum(his, f):
    """sum of f(idx...) (a Poly) over idx_i in range(his_i)"""
    box = small_box(his)
    if box is not None:
        r = ZERO
        for i in box: r = r + norm(f(*i))
        return norm(r)
    cx = C()
    cx.push()
    try:
        ks, bs = _binders(his)
        body = norm(f(*ks))
    finally:
        cx.pop()
    return mk_sum(bs, body)


def SumS(his, f, kind=None):
    """componentwise sum of scalars"""
    box = small_box(his)
    if box is not None:
        vs = [toS(f(*i)) for i in box]
        k = kind or vs[0].kind
        return mk('i' if k == 'b' else k, norm(sum((norm(v.re) for v in vs), ZERO)), norm(sum((norm(v.im) for v in vs), ZERO)))
    cx = C()
    cx.push()
    try:
        ks, bs = _binders(his)
        v = toS(f(*ks))
        re, im = norm(v.re), norm(v.im)
    finally:
        cx.pop()
    k = kind or v.kind
    if k == 'b': k = 'i'
    return mk(k, mk_sum(bs, re), mk_sum(bs, im))


# ------------------------------------------------------------------ selections by a mask
SELS = {}
SELW = []     # ghost witnesses of a contract harness: (rank, position)


def _sel_reset():
    SELS.clear()
    del SELW[:]


class Sel:
    """increasing enumeration of the true positions of a mask over a box"""
    def __init__(self, name, dims, maskfn):
        self.name, self.dims, self.maskfn = name, dims, maskfn
        self.table = self.listed()
        self.count = Sum(dims, lambda *ks: maskfn(*ks)) if self.table is None else P(len(self.table))

    def listed(self):
        """the selected positions, where the box is small and the mask concrete"""
        ns = [dconst(d) for d in self.dims]
        if any(n is None for n in ns) or T.math.prod(ns) > 1000: return None
        import itertools
        out = []
        for i in itertools.product(*[range(n) for n in ns]):
            c = norm(self.maskfn(*[P(x) for x in i])).const()
            if c is None: return None
            if c: out.append(tuple(P(x) for x in i))
        return out

    def at(self, k):
        if self.table is not None:
            c = norm(P(k)).const()
            if c is not None:
                if 0 <= c < len(self.table): return self.table[int(c)]
                raise CodeError('IndexError: position %d of %d selected entries' % (c, len(self.table)))
        # the k-th position is v exactly when v is selected and k selected positions precede it
        if len(self.dims) == 1:
            for k0, v in SELW:
                if norm(k - k0).d: continue
                if norm(self.maskfn(v)) is ONE and not norm(self.rank((v,)) - k).d: return (v,)
        return tuple(app('%s.%d' % (self.name, i), [k], 'I') for i in range(len(self.dims)))

    def rank(self, idx):
        """number of true positions strictly before idx in C order"""
        out = ZERO
        for ax in range(len(self.dims)):
            pre = idx[:ax]
            free = self.dims[ax + 1:]
            out = out + Sum([idx[ax]] + list(free), lambda *ks: self.maskfn(*(tuple(pre) + ks)))
        return out


def make_sel(dims, maskfn):
    cx = C()
    ks = [sym('selkey%d' % i, 'I') for i in range(len(dims))]
    cx.push()
    try:
        for k, d in zip(ks, dims): cx.rng(k, 0, dp(d))
        key = (tuple(dp(d) for d in dims), norm(maskfn(*ks)))
    finally:
        cx.pop()
    s = SELS.get(key)
    if s is None:
        s = Sel('sel%d' % len(SELS), [dp(d) for d in dims], maskfn)
        SELS[key] = s
        s.key = key
        T.INJ.pop(s.name + '.0', None)
        if len(dims) == 1: T.INJ[s.name + '.0'] = (0,)          # strictly increasing
        for i, d in enumerate(s.dims): cx.apprng['%s.%d' % (s.name, i)] = (lambda d: lambda *a: (ZERO, d))(d)
    return s


def _sel_sum(binders, mono, dep):
    """sum over k < count of g(sel(k)) -> sum over positions of mask * g"""
    for i, (b, h) in enumerate(binders):
        names = set()
        if not _only_in_sel(mono, b, names) or len(names) != 1: continue
        nm = names.pop()
        s = next((x for x in SELS.values() if x.name == nm), None)
        if s is None or norm(s.count - h).d: continue
        ks = [fresh('p', 'I') for _ in s.dims]
        body = _replace_sel(mono, nm, b, ks)
        cx = C()
        cx.push()
        try:
            for k, d in zip(ks, s.dims): cx.rng(k, 0, d)
            body = norm(body * s.maskfn(*ks))
        finally: cx.pop()
        return mk_sum(binders[:i] + [(the_atom(k), d) for k, d in zip(ks, s.dims)] + binders[i + 1:], body)
    return None


def _only_in_sel(p, b, names):
    for m in p.d:
        for aid, e in m:
            a = T._byid[aid]
            if b not in a.fv: continue
            if a is b: return False
            if a.op == 'app' and a.args[0].startswith('sel') and len(a.args) == 2 and is_atom(a.args[1]) and the_atom(a.args[1]) is b:
                names.add(a.args[0].split('.')[0])
                continue
            if a.op == 'sum':
                if not all(_only_in_sel(x, b, names) for x in a.args[0]) or not _only_in_sel(a.args[1], b, names): return False
                continue
            for x in a.args:
                if isinstance(x, Poly) and b in x.fv and not _only_in_sel(x, b, names): return False
    return True


def _replace_sel(p, nm, b, ks):
    def fa(a):
        if b not in a.fv: return None
        if a.op == 'app' and a.args[0].split('.')[0] == nm: return ks[int(a.args[0].split('.')[1])]
        if a.op == 'sum':
            bs, body = open_sum(a)
            return mk_sum([(s, _replace_sel(h, nm, b, ks)) for s, h in bs], _replace_sel(body, nm, b, ks))
        return T.rebuild_atom(a, lambda x: _replace_sel(x, nm, b, ks))
    return X.rewrite(p, fa)


X.SEL_HOOK = _sel_sum

# ------------------------------------------------------------------ arrays
_oid = itertools.count(1)
OPAQUE_DOT = [False]  # inner products of vectors stay opaque scalars, one per word of their matrix normal form
FREEZE = [None]       # arrays created before this serial must not be written (body of a loop cut at its invariant)


_SPD = {}


class A:
    """symbolic ndarray / sparse matrix"""
    __array_priority__ = 1000

    def __init__(self, shape, kind, fn, fmt=None, base=None, bmap=None, member=None, post=None, mx=None, order='C'):
        self.shape_ = tuple(dim(d.re) if isinstance(d, S) else (dim(d) if isinstance(d, Poly) else d) for d in shape)
        self.kind, self.fmt = kind, fmt
        self.fn = fn
        self.base, self.bmap, self.member, self.post = base, bmap, member, post
        self.oid = next(_oid)
        self.depth = len(LOOPS)
        self.mxf = mx
        self.memo = {}
        self.ver = 0
        self.tag = None
        self.mutable = True

    # --- element access
    def get(self, idx):
        idx = tuple(norm(P(i)) if not isinstance(i, Poly) else norm(i) for i in idx)
        if self.base is not None:
            v = self.base.get(self.bmap(idx))
            return self.post(v) if self.post else v
        for l in LOOPS:
            if l.mode == 'map' and l.idx_active and self.depth <= l.depth and self.oid in l.prev_written:
                l.check_read(self, idx)
        k = (idx, C().version)
        v = self.memo.get(k)
        if v is None:
            v = toS(self.fn(*idx))
            v = S(norm(v.re), norm(v.im), v.kind, v.polar)
            if v.kind != self.kind and KORD[v.kind] < KORD[self.kind]: v = S(v.re, v.im, self.kind, v.polar)
            self.memo[k] = v
        return v

    def snap(self):
        """immutable element closure"""
        if self.base is not None:
            f, m, post = self.base.snap(), self.bmap, self.post
            if post: return lambda *i: post(toS(f(*m(tuple(norm(x) for x in i)))))
            return lambda *i: f(*m(tuple(norm(x) for x in i)))
        frozen = A(self.shape_, self.kind, self.fn)
        frozen.memo = self.memo
        frozen.depth = self.depth
        me, ver = self, self.ver
        active = [l for l in LOOPS if l.mode == 'map' and self.depth <= l.depth]

        def f(*i):
            i = tuple(norm(x) for x in i)
            if active:
                for l in active:
                    if l.idx_active and me.oid in l.prev_written: l.check_read(me, i)
            return frozen.get(i)
        return f

    def write(self, match, val):
        """match(idx)->0/1 Poly, val(idx)->S for matching idx"""
        if self.base is not None:
            if self.post or self.member is None: raise Unsupported('write through this view')
            mem = self.member
            def m2(*i):
                g, loc = mem(i)
                return g * match(*loc) if g is not ZERO else ZERO
            def v2(*i):
                g, loc = mem(i)
                return val(*loc)
            return self.base.write(m2, v2)
        if FREEZE[0] is not None and self.oid < FREEZE[0]: raise Unsupported('array from before the loop is modified in its body')
        if self.fmt: self.mxf = None
        for l in LOOPS:
            if l.mode == 'map' and self.depth <= l.depth: l.before_write(self)
        for l in LOOPS:
            if l.guards and self.depth <= l.depth:
                g = ONE
                for x in l.guards: g = g * x
                match = (lambda m0, g: lambda *i: g * m0(*i))(match, g)
        old, kind = self.fn, self.kind

        def conv(v):
            v = toS(v) if not isinstance(v, bool) else S(ONE if v else ZERO, ZERO, 'b')
            if kind != 'c' and v.kind == 'c':
                if norm(v.im).d: raise CodeError('complex value stored in a real array (imaginary part discarded)')
                return S(v.re, ZERO, kind)
            if KORD[v.kind] > KORD[kind]: return toS(cast(v, kind))
            return v

        def new(*i):
            m = norm(match(*i))
            if m is ZERO: return old(*i)
            if m is ONE: return conv(val(*i))
            cx = C()
            cx.push()
            try:
                cx.assume(m, True)
                v = conv(val(*i))
                v = S(norm(v.re), norm(v.im), v.kind, v.polar)
            finally: cx.pop()
            return ssel(m, v, old(*i))
        self.fn = new
        self.memo = {}
        self.ver += 1
        self.mxf = None
        self.tag = None
        for l in reversed(LOOPS):
            if l.mode in ('map', 'havoc') and self.depth <= l.depth: l.record_write(self, match, lambda *i: conv(val(*i)))
            if l.mode == 'map' and self.depth <= l.depth: break

    # --- attributes
    @property
    def shape(self): return tuple(self.shape_)
    @shape.setter
    def shape(self, s): raise Unsupported('in-place reshape')
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self):
        r = 1
        for d in self.shape_: r = r * d
        return r
    @property
    def dtype(self): return DT[self.kind]
    @property
    def format(self):
        if self.fmt is None: raise AttributeError('format')
        return self.fmt
    @property
    def nnz(self): raise Unsupported('nnz')
    @property
    def data(self):
        """stored values of a sparse matrix, in an arbitrary storage order"""
        if self.fmt is None: raise Unsupported('data of a dense array')
        nm, kind = 'spd%d' % self.oid, self.kind
        n = sym('nnz%d' % self.oid, 'I')
        C().assume_le(-n)
        def el(k): return S(app(nm + '#re', [k]), app(nm + '#im', [k]) if kind == 'c' else ZERO, kind)
        r = A((n,), kind, el)
        _SPD.setdefault(self.oid, []).append((self.snap(), self.ver))
        return r
    @data.setter
    def data(self, x):
        """values computed entry by entry from the values stored before; entries that are not stored stay zero"""
        own = _SPD.get(self.oid)
        if self.fmt is None or own is None or own[-1][1] != self.ver: raise Unsupported('stored values of another matrix')
        old, nm = own[-1][0], 'spd%d' % self.oid
        k = fresh('k', 'I')
        v = toS(arr(x).get((k,)))
        ar, ai, ka = the_atom(app(nm + '#re', [k])), the_atom(app(nm + '#im', [k])), the_atom(k)
        def put_raw(p, re, im):
            p = P(p)
            if ka not in p.fv: return p
            out = ZERO
            for m, c in p.d.items():
                t = P(c)
                for aid, e in m:
                    a = T._byid[aid]
                    if a is ar: q = re
                    elif a is ai: q = im
                    elif ka not in a.fv: q = T.atom_poly(a)
                    elif a.op in ('sum', 'sym') or a.op == 'app' and a.args[0].startswith('spd'): raise Unsupported('stored values depend on the storage order')
                    else: q = T.rebuild_atom(a, lambda x: put_raw(x, re, im))
                    t = t * (T.inv(q) ** (-e) if e < 0 else q ** e)
                out = out + t
            return out
        def put(p, re, im): return norm(put_raw(p, P(re), P(im)))
        for p in (v.re, v.im):
            if norm(put(p, ZERO, ZERO)).d: raise Unsupported('stored values are not mapped zero to zero')
        def fn(*i):
            o = toS(old(*i))
            return S(put(v.re, o.re, o.im), put(v.im, o.re, o.im), v.kind)
        self.fn, self.kind, self.memo, self.mxf, self.tag = fn, v.kind, {}, None, None
        self.ver += 1
        if LOOPS: raise Unsupported('stored values replaced in a loop')
    def __len__(self): raise Unsupported('len() of array must go through the instrumented builtin')
    @property
    def T(self): return self.transpose()

    def transpose(self, *ax):
        if ax and not (len(ax) == 1 and ax[0] is None):
            ax = tuple(ax[0]) if isinstance(ax[0], (tuple, list)) else ax
        else: ax = tuple(reversed(range(self.ndim)))
        ax = tuple(int(a) for a in ax)
        invp = [ax.index(i) for i in range(len(ax))]
        sh = tuple(self.shape_[a] for a in ax)
        me = self
        return A(sh, self.kind, None, _tfmt(self.fmt), base=self, bmap=lambda i: tuple(i[invp[k]] for k in range(len(i))),
                 member=lambda i: (ONE, tuple(i[a] for a in ax)), mx=('T', self))

    @property
    def real(self): return uf(lambda v: S(v.re, ZERO, 'f' if v.kind == 'c' else v.kind), self, 'f' if self.kind == 'c' else self.kind, view=True)
    @property
    def imag(self): return uf(lambda v: S(v.im, ZERO, 'f' if v.kind == 'c' else v.kind), self, 'f' if self.kind == 'c' else self.kind, view=True)
    def conj(self):
        r = uf(lambda v: S(v.re, -v.im, v.kind), self, self.kind)
        r.mxf = ('C', frozen(self))
        return r
    conjugate = conj
    def getH(self): return self.conj().T
    @property
    def H(self): return self.conj().T
    def copy(self, *a, **k):
        r = A(self.shape_, self.kind, self.snap(), self.fmt, mx=('same', frozen(self)))
        r.tag = self.tag
        return r
    def astype(self, dt, *a, **k):
        kd = kind_of(dt)
        r = uf(lambda v: toS(cast(v, kd)), self, kd)
        if KORD[kd] >= KORD[self.kind] or (kd == 'f' and self.kind != 'c'): r.mxf = ('same', frozen(self))
        return r
    def toarray(self, *a, **k): 
        r = self.copy()
        r.fmt = None
        return r
    todense = toarray
    def tocsr(self, *a, **k): return self._fmt('csr')
    def tocsc(self, *a, **k): return self._fmt('csc')
    def tocoo(self, *a, **k): return self._fmt('coo')
    def asformat(self, f): return self._fmt(f)
    def _fmt(self, f):
        r = self.copy()
        r.fmt = f
        return r
    def get_(self): return self
    def item(self): return toS(self)
    def tolist(self):
        n = dconst(self.shape_[0])
        if n is None: raise Unsupported('tolist')
        return SList([mk_elem(self[i]) if self.ndim == 1 else self[i].tolist() for i in range(n)])

    def reshape(self, *sh, order='C'):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        return reshape(self, sh, order)
    def flatten(self, order='C'): return reshape(self, (-1,), order, copy=True)
    def ravel(self, order='C'): return reshape(self, (-1,), order)
    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self.shape_) if not _is_one(d)] if axis is None else \
            [i for i in range(self.ndim) if i not in ([axis % self.ndim] if isinstance(axis, int) else axis)]
        if len(keep) == self.ndim: return self
        nd = self.ndim
        def bm(i):
            out = [ZERO] * nd
            for k, x in zip(keep, i): out[k] = x
            return tuple(out)
        return A(tuple(self.shape_[k] for k in keep), self.kind, None, self.fmt, base=self, bmap=bm,
                 member=lambda i: (ONE, tuple(i[k] for k in keep)), mx=('vec', self) if len(keep) == 1 else None)
    def diagonal(self, *a): return diag(self)
    def sum(self, axis=None, **k): return asum(self, axis)
    def mean(self, axis=None, **k): return amean(self, axis)
    def max(self, axis=None, **k): return amax(self, axis)
    def min(self, axis=None, **k): return amax(self, axis, neg=True)
    def any(self, *a): return aany(self)
    def all(self, *a): return aall(self)
    def dot(self, o): return matmul(self, o)
    def multiply(self, o): return aop('mul', self, o)
    def power(self, o): return aop('pow', self, o)
    def fill(self, v): self[...] = v
    def nonzero(self): return where(self != 0)
    def __deepcopy__(self, memo): return self.copy()

    def __add__(self, o): return aop('add', self, o)
    def __radd__(self, o): return aop('add', o, self)
    def __sub__(self, o): return aop('sub', self, o)
    def __rsub__(self, o): return aop('sub', o, self)
    def __mul__(self, o):
        if self.fmt and isinstance(o, A): return matmul(self, o)
        return aop('mul', self, o)
    def __rmul__(self, o):
        if self.fmt and isinstance(o, A): return matmul(o, self)
        return aop('mul', o, self)
    def __truediv__(self, o): return aop('div', self, o)
    def __rtruediv__(self, o): return aop('div', o, self)
    def __floordiv__(self, o): return aop('fdiv', self, o)
    def __mod__(self, o): return aop('mod', self, o)
    def __pow__(self, o): return aop('pow', self, o)
    def __rpow__(self, o): return aop('pow', o, self)
    def __neg__(self): return aop('mul', -1, self)
    def __pos__(self): return self
    def __abs__(self): return uf(lambda v: toS(sabs(v)), self, 'f' if self.kind == 'c' else self.kind)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __lt__(self, o): return aop('lt', self, o)
    def __le__(self, o): return aop('le', self, o)
    def __gt__(self, o): return aop('gt', self, o)
    def __ge__(self, o): return aop('ge', self, o)
    def __eq__(self, o): return aop('eq', self, o)
    def __ne__(self, o): return aop('ne', self, o)
    def __and__(self, o): return aop('and', self, o)
    def __or__(self, o): return aop('or', self, o)
    def __invert__(self): return uf(lambda v: toS(~v) if isinstance(v, S) else toS(not v), self, 'b')
    __hash__ = None
    def _iop(self, op, o):
        r = aop(op, self, o)
        if KORD[r.kind] > KORD[self.kind]: raise CodeError('in-place operation changes the type')
        self[...] = r
        return self
    def __iadd__(self, o): return self._iop('add', o)
    def __isub__(self, o): return self._iop('sub', o)
    def __imul__(self, o): return self._iop('mul', o)
    def __itruediv__(self, o): return self._iop('div', o)

    def __bool__(self):
        if all(_is_one(d) for d in self.shape_): return bool(toS(self))
        raise CodeError('truth value of an array')

    def __iter__(self):
        n = dconst(self.shape_[0])
        if n is None: raise Unsupported('iteration over an array of unknown length')
        for i in range(n): yield self[i]

    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, v): return setitem(self, key, v)
    def __repr__(self): return 'A%s%s%s' % (self.kind, self.shape_, self.fmt or '')


def _tfmt(f): return {'csr': 'csc', 'csc': 'csr'}.get(f, f)


def _is_one(d):
    return dconst(d) == 1 or (dconst(d) is None and C().eq(dp(d) - 1) is True)


def mk_elem(v):
    v = toS(v)
    return mk(v.kind, v.re, v.im, v.polar)


def frozen(a):
    """immutable snapshot of an array (for matrix expressions)"""
    r = A(a.shape_, a.kind, a.snap(), a.fmt, mx=a.mxf)
    r.tag = a.tag
    return r


def arr(x):
    """coerce to array"""
    if isinstance(x, A): return x
    if isnum(x):
        v = toS(x)
        return A((), v.kind, lambda: v)
    if isinstance(x, SList) and x.sym is not None:
        n, f = x.sym
        e = f(sym('probe', 'I'))
        if isinstance(e, A):
            k = e.kind
            return A((dim(n),) + e.shape_, k, lambda i, *r: arr(f(i)).get(r))
        return A((dim(n),), toS(e).kind, lambda i: toS(f(i)))
    if isinstance(x, RangeS):
        return A((x.len,), 'i', lambda i: toS(mk('i', x.start + i * x.step)))
    if isinstance(x, range): x = list(x)
    if hasattr(x, '__symarray__'): return x.__symarray__()
    if isinstance(x, (list, tuple)):
        es = [arr(e) for e in x]
        if not es: return A((0,), 'f', lambda i: S(ZERO))
        sh = es[0].shape_
        for e in es[1:]:
            if len(e.shape_) != len(sh) or any(same_dim(a, b) is False for a, b in zip(e.shape_, sh)):
                raise CodeError('ragged array')
            if any(same_dim(a, b) is None for a, b in zip(e.shape_, sh)): raise Unsupported('possibly ragged array')
        k = kmax(*[e.kind for e in es])
        fs = [e.snap() for e in es]
        return A((len(es),) + tuple(sh), k, lambda i, *r: pick(i, [lambda f=f: f(*r) for f in fs]))
    raise Unsupported('cannot convert %s to an array' % type(x))


def pick(i, thunks):
    """element number i of a list of thunks"""
    c = norm(i).const()
    if c is not None: return toS(thunks[int(c)]())
    out = toS(thunks[-1]())
    for j in range(len(thunks) - 2, -1, -1):
        out = ssel(X.dec_eq(i - j), toS(thunks[j]()), out)
    return out


def uf(f, a, kind, view=False):
    if not isinstance(a, A):
        v = toS(f(toS(a)))
        return mk(v.kind, v.re, v.im, v.polar)
    if view:
        return A(a.shape_, kind, None, a.fmt, base=a, bmap=lambda i: i, post=lambda v: toS(f(v)))
    g = a.snap()
    return A(a.shape_, kind, lambda *i: toS(f(toS(g(*i)))), a.fmt)


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out, ma, mb = [], [], []
    for x, y in zip(a, b):
        if same_dim(x, y): out.append(x); ma.append(True); mb.append(True)
        elif _is_one(x): out.append(y); ma.append(False); mb.append(True)
        elif _is_one(y): out.append(x); ma.append(True); mb.append(False)
        else:
            r = same_dim(x, y)
            if r is False and C().eq(dp(x) - 1) is False and C().eq(dp(y) - 1) is False:
                raise ShapeError('shapes %s %s do not match' % (s1, s2))
            raise Unsupported('shapes %s %s not proved compatible' % (s1, s2))
    def prj(m, nd): return lambda i: tuple((x if keep else ZERO) for x, keep in zip(i, m))[n - nd:]
    return tuple(out), prj(ma, len(s1)), prj(mb, len(s2))


RESK = dict(div='f', lt='b', le='b', gt='b', ge='b', eq='b', ne='b')


def aop(op, a, b):
    if a is None or b is None: 
        if op in ('eq', 'ne'): return op == 'ne'
        raise CodeError('operation on None')
    if isinstance(a, str) or isinstance(b, str): return op == 'ne'
    a, b = arr(a), arr(b)
    if (a.fmt or b.fmt) and op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'): pass
    if op in ('eq', 'ne'):
        try: sh, pa, pb = bshape(a.shape_, b.shape_)
        except ShapeError: return op == 'ne'
    else: sh, pa, pb = bshape(a.shape_, b.shape_)
    fa, fb = a.snap(), b.snap()
    k = kmax(a.kind, b.kind)
    if op == 'div': k = 'c' if k == 'c' else 'f'
    elif op in RESK: k = 'b'
    elif op == 'sub' and k == 'b': raise CodeError('boolean subtract')
    fmt = None
    if a.fmt and b.fmt: fmt = a.fmt if a.fmt != 'coo' else 'csr'
    elif (a.fmt or b.fmt) and op in ('mul', 'div') and (a.ndim == 0 or b.ndim == 0): fmt = a.fmt or b.fmt
    r = A(sh, k, lambda *i: toS(sbin(op, toS(fa(*pa(i))), toS(fb(*pb(i))))), fmt)
    if op in ('add', 'sub') and len(a.shape_) == len(b.shape_) == len(sh): r.mxf = (op, frozen(a), frozen(b))
    elif op == 'mul' and a.ndim == 0: r.mxf = ('scale', toS(a), frozen(b))
    elif op == 'mul' and b.ndim == 0: r.mxf = ('scale', toS(b), frozen(a))
    elif op == 'div' and b.ndim == 0: r.mxf = ('scale', toS(sbin('div', 1, toS(b))), frozen(a))
    if OPAQUE_DOT[0] and r.ndim == 1 and r.mxf is None:
        if op == 'mul' and a.ndim == b.ndim == 1: r.mxf = ('emul', frozen(a), frozen(b))
        elif op == 'pow' and a.ndim == 1 and b.ndim == 0 and norm(toS(b).re - 2) is ZERO: r.mxf = ('emul', frozen(a), frozen(a))
    if len(sh) == 0: return mk_elem(r)
    return r


def matmul(a, b):
    if hasattr(a, '__symop__'): return a.matmul(b)
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0: return aop('mul', a, b)
    ka = a.shape_[-1]
    kb = b.shape_[0] if b.ndim == 1 else b.shape_[-2]
    r = same_dim(ka, kb)
    if r is False: raise ShapeError('matmul %s %s' % (a.shape_, b.shape_))
    if r is None: raise Unsupported('matmul %s %s' % (a.shape_, b.shape_))
    fa, fb = a.snap(), b.snap()
    k = kmax(a.kind, b.kind)
    fmt = a.fmt if a.fmt and b.fmt else None
    if fmt == 'coo': fmt = 'csr'
    mul = lambda x, y: toS(sbin('mul', x, y))
    if a.ndim == 1 and b.ndim == 1:
        if OPAQUE_DOT[0]:
            from . import mx
            return mx.scalar(frozen(a), frozen(b), k)
        try: return SumS([ka], lambda t: mul(fa(t), fb(t)), k)
        except Unsupported as ex:
            if 'sum nesting' not in str(ex) or a.mxf is None and b.mxf is None: raise
            from . import mx
            return mx.scalar(frozen(a), frozen(b), k)
    if a.ndim == 2 and b.ndim == 1:
        return A((a.shape_[0],), k, lambda i: toS(SumS([ka], lambda t: mul(fa(i, t), fb(t)), k)), mx=('mul', frozen(a), frozen(b)))
    if a.ndim == 1 and b.ndim == 2:
        return A((b.shape_[1],), k, lambda j: toS(SumS([ka], lambda t: mul(fa(t), fb(t, j)), k)), mx=('mulv', frozen(a), frozen(b)))
    if a.ndim == 2 and b.ndim == 2 and OPAQUE_DOT[0]:
        from . import mx
        r = A((a.shape_[0], b.shape_[1]), k, lambda i, j: toS(SumS([ka], lambda t: mul(fa(i, t), fb(t, j)), k)), fmt, mx=('mul', frozen(a), frozen(b)))
        if mx.has_inv(r): return mx.let(r)
        return r
    if a.ndim == 2 and b.ndim == 2:
        return A((a.shape_[0], b.shape_[1]), k, lambda i, j: toS(SumS([ka], lambda t: mul(fa(i, t), fb(t, j)), k)), fmt,
                 mx=('mul', frozen(a), frozen(b)))
    raise Unsupported('matmul of %d-d arrays' % max(a.ndim, b.ndim))


def prod_dims(ds):
    r = ONE
    for d in ds: r = r * dp(d)
    return norm(r)


def reshape(a, sh, order='C', copy=False):
    a = arr(a)
    if isnum(sh): sh = (sh,)
    sh = list(sh)
    tot = prod_dims(a.shape_)
    for i, d in enumerate(sh):
        if isinstance(d, int) and d == -1:
            rest = prod_dims(sh[:i] + sh[i + 1:])
            sh[i] = dim(X.idiv(tot, rest)) if rest is not ONE else dim(tot)
    r = C().eq(norm(prod_dims(sh) - tot))
    if r is False: raise ShapeError('reshape %s to %s' % (a.shape_, sh))
    if r is None: raise Unsupported('reshape %s to %s' % (a.shape_, sh))
    old = a.shape_
    if order not in ('C', 'F'): raise Unsupported('order')

    def lin(idx, dims):
        r = ZERO
        it = zip(idx, dims) if order == 'C' else zip(reversed(idx), reversed(dims))
        for x, d in it: r = r * dp(d) + x
        return norm(r)

    def unlin(p, dims):
        out = []
        ds = list(dims)
        for d in (reversed(ds) if order == 'C' else ds):
            if len(out) == len(ds) - 1: out.append(p)
            else:
                q = X.idiv(p, dp(d))
                out.append(norm(p - q * dp(d)))
                p = q
        return tuple(reversed(out)) if order == 'C' else tuple(out)
    # drop singleton dimensions for exactness
    def fwd(i):
        if len(old) == 0: return ()
        nz = [k for k, d in enumerate(old) if not _is_one(d)]
        p = lin(i, sh) if len(sh) else ZERO
        loc = unlin(p, [old[k] for k in nz]) if nz else ()
        out = [ZERO] * len(old)
        for k, x in zip(nz, loc): out[k] = x
        return tuple(out)
    def back(i):
        nz = [k for k, d in enumerate(sh) if not _is_one(d)]
        p = lin(i, old) if len(old) else ZERO
        loc = unlin(p, [sh[k] for k in nz]) if nz else ()
        out = [ZERO] * len(sh)
        for k, x in zip(nz, loc): out[k] = x
        return tuple(out)
    mx = None
    if len(sh) <= 2 and len(old) <= 2 and len(sh) >= 1 and len(old) >= 1:
        ns = [d for d in sh if not _is_one(d)]
        no = [d for d in old if not _is_one(d)]
        if len(ns) <= 1 and len(no) <= 1: mx = ('vec', a)
    if copy or order == 'F' and len(old) > 1:
        f = a.snap()
        return A(tuple(sh), a.kind, lambda *i: toS(f(*fwd(i))))
    return A(tuple(sh), a.kind, None, base=a, bmap=fwd, member=lambda i: (ONE, back(i)), mx=mx)


# ------------------------------------------------------------------ indexing
def norm_index(i, d):
    """resolve possibly negative index; returns Poly"""
    p = norm(dp(i))
    c = p.const()
    if c is not None and c < 0: return norm(p + dp(d))
    if c is not None and c >= 0: return p
    r = C().le(-p)
    if r: return p
    if C().le(p + 1): return norm(p + dp(d))
    return ite(le0(-p), p, p + dp(d))


def slice_bounds(s, d):
    n = dp(d)
    step = 1 if s.step is None else s.step
    step = int(step) if not isinstance(step, S) else step.__index__()
    def clamp(v, dflt):
        if v is None: return dflt
        p = norm(dp(v))
        cx = C()
        c = p.const()
        neg = (c < 0) if c is not None else (False if cx.le(-p) else True if cx.le(p + 1) else None)
        if neg is None:
            p = ite(le0(-p), p, p + n)
        elif neg: p = norm(p + n)
        # clamp into [0, n]
        if cx.le(p - n) is not True: 
            if cx.le(n - p): p = n
            else: p = ite(le0(p - n), p, n)
        if cx.le(-p) is not True:
            if cx.le(p): p = ZERO
            else: p = ite(le0(-p), p, ZERO)
        return norm(p)
    if step > 0:
        lo, hi = clamp(s.start, ZERO), clamp(s.stop, n)
        ln = hi - lo
        if C().le(-ln) is not True:
            if C().le(ln): ln = ZERO
            else: ln = ite(le0(-ln), ln, ZERO)
        if step != 1: ln = X.idiv(ln + (step - 1), P(step))
        return norm(lo), step, norm(ln)
    if s.start is None and s.stop is None and step == -1:
        return norm(n - 1), -1, n
    raise Unsupported('negative step slices')


def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    nd = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, A) and k.kind == 'b'))
    for k in key:
        if isinstance(k, A) and k.kind == 'b': nd += k.ndim
    if any(k is Ellipsis for k in key):
        i = [k is Ellipsis for k in key].index(True)
        key = key[:i] + (slice(None),) * (a.ndim - nd) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nd)
    if nd > a.ndim: raise CodeError('too many indices')
    return key


def is_adv(k): return isinstance(k, (A, list, SList, RangeS, range)) or hasattr(k, '__symarray__')


def bounds_check(p, d, what='index'):
    cx = C()
    n = dp(d)
    if cx.le(n - p) is True or cx.le(p + 1) is True:
        # certainly out of bounds
        raise CodeError('IndexError: %s %s out of range %s' % (what, p, n))


def getitem(a, key):
    if isinstance(key, str): raise CodeError('string index')
    key = expand_key(a, key)
    if any(is_adv(k) for k in key):
        return adv_get(a, key)
    plan = []     # per base axis: ('int', p) or ('sl', lo, step)
    newsh, pos = [], []
    ax = 0
    outax = 0
    maps = []
    for k in key:
        if k is None:
            newsh.append(1)
            outax += 1
            continue
        d = a.shape_[ax]
        if isinstance(k, slice):
            lo, st, ln = slice_bounds(k, d)
            maps.append(('sl', lo, st, outax, ln))
            newsh.append(dim(ln))
            outax += 1
        else:
            p = norm_index(k, d)
            bounds_check(p, d)
            maps.append(('int', p))
        ax += 1

    def bm(i):
        return tuple(m[1] if m[0] == 'int' else norm(m[1] + i[m[3]] * m[2]) for m in maps)
    nout = len(newsh)

    def member(i):
        g = ONE
        loc = [ZERO] * nout
        for x, m, d in zip(i, maps, a.shape_):
            if m[0] == 'int': g = g * X.dec_eq(x - m[1])
            else:
                _, lo, st, o, ln = m
                if st == 1:
                    loc[o] = norm(x - lo)
                    g = g * X.dec_le(lo - x) * norm(lt0(x - lo - ln))
                elif st == -1:
                    loc[o] = norm(lo - x)
                else:
                    q = X.idiv(x - lo, P(st))
                    loc[o] = q
                    g = g * X.dec_le(lo - x) * X.dec_eq(x - lo - q * st) * norm(lt0(q - ln))
        return g, tuple(loc)
    if not newsh:
        v = a.get(bm(()))
        return mk(v.kind, v.re, v.im, v.polar)
    mx = None
    full = all(m[0] == 'sl' and m[1] is ZERO and m[2] == 1 and not (m[4] - dp(d)).d for m, d in zip(maps, a.shape_)) and len(maps) == a.ndim
    if full and None not in key: mx = ('same', a)
    elif full and a.ndim == 1 and key[-1] is None: mx = ('same', a)
    return A(tuple(newsh), a.kind, None, a.fmt, base=a, bmap=bm, member=member, mx=mx)


def adv_plan(a, key):
    """advanced indexing: returns (result shape, fwd(out idx)->base idx, parts)"""
    # expand boolean masks
    items = []
    ax = 0
    for k in key:
        if k is None:
            items.append(('new',))
            continue
        if is_adv(k):
            k = arr(k)
            if k.kind == 'b':
                dims = [a.shape_[ax + t] for t in range(k.ndim)]
                for t in range(k.ndim):
                    r = same_dim(k.shape_[t], dims[t])
                    if r is False: raise ShapeError('boolean index of wrong shape')
                    if r is None: raise Unsupported('boolean index shape')
                f = k.snap()
                s = make_sel(dims, lambda *i: toS(f(*i)).re)
                for t in range(k.ndim):
                    items.append(('adv', A((dim(s.count),), 'i', (lambda s, t: lambda q: S(s.at(q)[t], ZERO, 'i'))(s, t)), ax + t, s))
                ax += k.ndim
                continue
            if k.kind not in 'i':
                if k.ndim == 1 and dconst(k.shape_[0]) == 0: k = A((0,), 'i', lambda q: S(ZERO, ZERO, 'i'))
                else: raise CodeError('IndexError: arrays used as indices must be of integer type')
            items.append(('adv', k, ax, None))
            ax += 1
            continue
        if isinstance(k, slice):
            items.append(('sl',) + slice_bounds(k, a.shape_[ax]) + (ax,))
        else:
            p = norm_index(k, a.shape_[ax])
            bounds_check(p, a.shape_[ax])
            items.append(('adv', A((), 'i', (lambda p: lambda: S(p, ZERO, 'i'))(p)), ax, None))
        ax += 1
    advs = [(n, it) for n, it in enumerate(items) if it[0] == 'adv']
    bsh = ()
    for n, it in advs: bsh = bshape(bsh, it[1].shape_)[0]
    prjs = {n: bshape(bsh, it[1].shape_)[2] for n, it in advs}
    ns = [n for n, it in advs]
    contiguous = ns == list(range(ns[0], ns[0] + len(ns)))
    sh, layout = [], {}
    nb = len(bsh)
    if not contiguous:
        sh += list(bsh)
        boff = 0
    else: boff = None
    for n, it in enumerate(items):
        if it[0] == 'adv':
            if contiguous and boff is None:
                boff = len(sh)
                sh += list(bsh)
            continue
        layout[n] = len(sh)
        sh.append(1 if it[0] == 'new' else dim(it[3]))
    def fwd(i):
        out = [None] * a.ndim
        b = tuple(i[boff:boff + nb])
        for n, it in enumerate(items):
            if it[0] == 'adv':
                v = toS(it[1].get(prjs[n](b))).re
                out[it[2]] = norm_index(S(v, ZERO, 'i'), a.shape_[it[2]]) if it[3] is None else v
            elif it[0] == 'sl': out[it[4]] = norm(it[1] + i[layout[n]] * it[2])
        return tuple(out)
    return tuple(sh), fwd, items, bsh, boff, prjs, layout


def adv_get(a, key):
    key = tuple(arr(k).copy() if is_adv(k) else k for k in key)
    sh, fwd, *_ = adv_plan(a, key)
    f = a.snap()
    return A(sh, a.kind, lambda *i: toS(f(*fwd(i))), a.fmt if len(sh) == 2 else None)


def setitem(a, key, v):
    key = expand_key(a, key)
    if any(is_adv(k) for k in key): return adv_set(a, key, v)
    if not any(isinstance(k, slice) or k is None for k in key):     # single element
        idx = tuple(norm_index(k, d) for k, d in zip(key, a.shape_))
        for p, d in zip(idx, a.shape_): bounds_check(p, d)
        if hasattr(v, '__symarray__'): v = v.__symarray__()
        if isinstance(v, A) and not all(_is_one(d) for d in v.shape_): raise CodeError('setting an array element with a sequence')
        if isinstance(v, A): v = v.get((ZERO,) * v.ndim)
        val = toS(v)
        return a.write(lambda *i: _eqs(i, idx), lambda *i: val)
    view = getitem(a, key)
    va = arr(v)
    # numpy allows dropping leading singleton dimensions of the value
    while va.ndim > view.ndim and _is_one(va.shape_[0]): va = va[0] if va.ndim > 1 else arr(va[0])
    sh, pa, pb = bshape(view.shape_, va.shape_)
    for x, y in zip(sh, view.shape_):
        r = same_dim(x, y)
        if r is False: raise ShapeError('assignment of %s to %s' % (va.shape_, view.shape_))
        if r is None: raise Unsupported('assignment shape')
    f = va.snap()
    view.write(lambda *i: ONE, lambda *i: toS(f(*pb(i))))
    if not LOOPS and a.base is None and len(key) == a.ndim and all(isinstance(k, slice) and k == slice(None) for k in key): pass


def _eqs(i, idx):
    g = ONE
    for x, y in zip(i, idx):
        g = g * X.dec_eq(x - y)
        if g is ZERO: return g
    return g


def mesh_set(a, key, v):
    """a[ix_(rows, columns)] = v with rows and columns without repetitions"""
    xs = [k.mesh for k in key]
    sh = tuple(x.shape_[0] for x in xs)
    va = arr(v)
    vsh, pa, pb = bshape(sh, va.shape_)
    for x, y in zip(vsh, sh):
        r = same_dim(x, y)
        if r is False: raise ShapeError('assignment of %s to %s' % (va.shape_, sh))
        if r is None: raise Unsupported('assignment shape %s %s' % (va.shape_, sh))
    f = va.snap()
    hits, places = [], []
    cx = C()
    for ax, x in enumerate(xs):
        info = getattr(x, 'selinfo', None)
        if info is not None and len(info[0].dims) == 1 and same_dim(dim(info[0].dims[0]), a.shape_[ax]) is True:
            hits.append(lambda i, s=info[0]: s.maskfn(i))
            places.append(lambda i, s=info[0]: s.rank((i,)))
            continue
        g = x.snap()
        at = lambda k, g=g, ax=ax: norm_index(toS(g(k)), a.shape_[ax])
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        cx.push()
        try:
            cx.rng(k1, 0, dp(sh[ax]))
            cx.rng(k2, k1 + 1, dp(sh[ax]))
            h = norm(eq0(at(k1) - at(k2)))
            if not (h is ZERO or cx.decide(h) is False): raise Unsupported('assignment with possibly repeated indices')
        finally: cx.pop()
        hits.append(lambda i, at=at, ax=ax: Sum([sh[ax]], lambda k: X.dec_eq(i - at(k))))
        places.append(lambda i, at=at, ax=ax: Sum([sh[ax]], lambda k: X.dec_eq(i - at(k)) * k))

    def match(*i):
        r = ONE
        for t, x in enumerate(i):
            r = r * hits[t](x)
            if r is ZERO: return r
        return r
    a.write(match, lambda *i: toS(f(*pb(tuple(norm(places[t](x)) for t, x in enumerate(i))))))


def adv_set(a, key, v):
    if len(key) == a.ndim == 2 and all(getattr(k, 'mesh', None) is not None and k.ver == 0 for k in key) and [k.meshax for k in key] == [0, 1]: return mesh_set(a, key, v)
    key = tuple(arr(k).copy() if is_adv(k) else k for k in key)
    sh, fwd, items, bsh, boff, prjs, layout = adv_plan(a, key)
    va = arr(v)
    vsh, pa, pb = bshape(sh, va.shape_)
    for x, y in zip(vsh, sh):
        r = same_dim(x, y)
        if r is False: raise ShapeError('assignment of %s to %s' % (va.shape_, sh))
        if r is None: raise Unsupported('assignment shape %s %s' % (va.shape_, sh))
    f = va.snap()
    nb = len(bsh)
    sels = {it[3] for it in items if it[0] == 'adv' and it[3] is not None}

    def locate(i):
        """match bracket and the output index of base index i"""
        g = ONE
        out = [ZERO] * len(sh)
        for n, it in enumerate(items):
            if it[0] == 'sl':
                _, lo, st, ln, ax = it
                if st != 1: raise Unsupported('strided advanced assignment')
                out[layout[n]] = norm(i[ax] - lo)
                g = g * X.dec_le(lo - i[ax]) * norm(lt0(i[ax] - lo - ln))
        if sels:
            if len(sels) != 1 or nb != 1: raise Unsupported('several masks')
            s = next(iter(sels))
            axs = [it[2] for it in items if it[0] == 'adv' and it[3] is s]
            loc = tuple(i[x] for x in axs)
            g = g * s.maskfn(*loc)
            for n, it in enumerate(items):
                if it[0] == 'adv' and it[3] is None:
                    g = g * X.dec_eq(i[it[2]] - toS(it[1].get(prjs[n]((ZERO,)))).re)
            if g is not ZERO and not all(_is_one(d) for d in va.shape_): out[boff] = s.rank(loc)
            return g, out
        if nb == 0:
            for n, it in enumerate(items):
                if it[0] == 'adv': g = g * X.dec_eq(i[it[2]] - norm_index(it[1].get(()), a.shape_[it[2]]))
            return g, out
        if nb == 1:
            # existence of k with index arrays equal: sum of brackets, needs injectivity of the index tuple
            ad = [(n, it) for n, it in enumerate(items) if it[0] == 'adv']
            def hit(k):
                h = ONE
                for n, it in ad:
                    h = h * X.dec_eq(i[it[2]] - norm_index(it[1].get(prjs[n]((k,))), a.shape_[it[2]]))
                return h
            return ('sum', g, hit, ad), out
        raise Unsupported('two-dimensional advanced assignment')

    probe = None
    def inj_ok(ad):
        cx = C()
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        cx.push()
        try:
            cx.rng(k1, 0, dp(bsh[0]))
            cx.rng(k2, k1 + 1, dp(bsh[0]))
            h = ONE
            for n, it in ad:
                h = h * norm(eq0(toS(it[1].get(prjs[n]((k1,)))).re - toS(it[1].get(prjs[n]((k2,)))).re))
            return norm(h) is ZERO or cx.decide(h) is False
        finally: cx.pop()
    constval = all(_is_one(d) for d in va.shape_)
    if nb == 1 and not sels:
        g0, out0 = None, None
        n = dconst(bsh[0])
        ad = [(m, it) for m, it in enumerate(items) if it[0] == 'adv']
        if n is not None and n <= 16:
            for q in range(n):
                def match(*i, q=q):
                    (tag, g, hit, _), out = locate(i)
                    return g * hit(P(q))
                def val(*i, q=q):
                    (tag, g, hit, _), out = locate(i)
                    out[boff] = P(q)
                    return toS(f(*pb(tuple(out))))
                a.write(match, val)
            return
        if not inj_ok(ad):
            if not constval: raise Unsupported('assignment with possibly repeated indices')
            raise Unsupported('assignment with possibly repeated indices')
        def match(*i):
            (tag, g, hit, _), out = locate(i)
            return g * Sum([bsh[0]], hit)
        def val(*i):
            (tag, g, hit, _), out = locate(i)
            def term(k):
                o = list(out)
                o[boff] = k
                v = toS(f(*pb(tuple(o))))
                return hit(k), v
            return SumS([bsh[0]], lambda k: (lambda h, v: S(h * v.re, h * v.im, v.kind))(*term(k)))
        a.write(match, val)
        return

    def match(*i): return locate(i)[0]
    def val(*i):
        g, out = locate(i)
        return toS(f(*pb(tuple(out))))
    a.write(match, val)


# ------------------------------------------------------------------ reductions / constructors used by several modules
def diag(a, k=0):
    a = arr(a)
    if k != 0: raise Unsupported('diag offset')
    f = a.snap()
    if a.ndim == 1:
        n = a.shape_[0]
        z = S(ZERO, ZERO, a.kind)
        return A((n, n), a.kind, lambda i, j: ssel(X.dec_eq(i - j), toS(f(i)), z))
    n, m = a.shape_
    if same_dim(n, m) is not True: 
        if C().le(dp(n) - dp(m)): ln = n
        elif C().le(dp(m) - dp(n)): ln = m
        else: raise Unsupported('diag of a rectangular matrix')
    else: ln = n
    return A((ln,), a.kind, lambda i: f(i, i))


def _axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, (tuple, list)): return [x % a.ndim for x in axis]
    return [axis % a.ndim]


def asum(a, axis=None):
    a = arr(a)
    ax = _axes(a, axis)
    f = a.snap()
    rest = [i for i in range(a.ndim) if i not in ax]
    k = 'i' if a.kind == 'b' else a.kind
    if OPAQUE_DOT[0] and a.ndim == 1 and a.mxf is not None and a.mxf[0] == 'emul': return matmul(a.mxf[1], a.mxf[2])

    def el(*i):
        def g(*ks):
            full = [None] * a.ndim
            for x, v in zip(rest, i): full[x] = v
            for x, v in zip(ax, ks): full[x] = v
            return toS(f(*full))
        return toS(SumS([a.shape_[x] for x in ax], g, k))
    if not rest:
        v = el()
        return mk(v.kind, v.re, v.im)
    return A(tuple(a.shape_[x] for x in rest), k, el)


def amean(a, axis=None):
    a = arr(a)
    ax = _axes(a, axis)
    n = prod_dims([a.shape_[x] for x in ax])
    s = asum(a, axis)
    return sbin('div', s, mk('i', n)) if not isinstance(s, A) else aop('div', s, mk('i', n))


_mx = {}


def amax(a, axis=None, neg=False):
    """maximum: opaque function of the normalised element closure (same closure -> same value)"""
    a = arr(a)
    ax = _axes(a, axis)
    rest = [i for i in range(a.ndim) if i not in ax]
    f = a.snap()
    cx = C()

    def el(*i):
        ks = [sym('mk%d' % t, 'I') for t in range(len(ax))]
        cx.push()
        try:
            for k, x in zip(ks, ax): cx.rng(k, 0, dp(a.shape_[x]))
            full = [None] * a.ndim
            for x, v in zip(rest, i): full[x] = v
            for x, v in zip(ax, ks): full[x] = v
            v = toS(f(*full))
            body = norm(v.re)
        finally: cx.pop()
        if v.kind == 'c': raise Unsupported('max of complex')
        n = [dconst(a.shape_[x]) for x in ax]
        if all(c is not None for c in n) and T.math.prod(n) <= 16 and T.math.prod(n) >= 1:
            import itertools as it
            out = None
            for c in it.product(*[range(c) for c in n]):
                e = mk(v.kind, norm(T.subst_raw(body, {the_atom(k): P(x) for k, x in zip(ks, c)})))
                out = toS(e) if out is None else ssel(toS(sbin('le' if neg else 'ge', out, e)).re, out, e)
            return out
        # indexed family with binders encoded as bound symbols of a sum-like closed term
        his = [dp(a.shape_[x]) for x in ax]
        key = atom_poly(T.raw_sum([(the_atom(k), h) for k, h in zip(ks, his)], fun('wrap', [body]))) if True else None
        return S(fun('min' if neg else 'max', [key], 'I' if v.kind in 'ib' else 'R'), ZERO, v.kind)
    if not rest:
        v = el()
        return mk(v.kind, v.re)
    return A(tuple(a.shape_[x] for x in rest), a.kind, el)


def aany(a):
    a = arr(a)
    s = asum(uf(lambda v: toS(cast(v, 'b')), a, 'b'))
    return sbin('ge', s, 1)


def aall(a):
    a = arr(a)
    s = asum(uf(lambda v: toS(cast(v, 'b')), a, 'b'))
    return sbin('eq', s, mk('i', prod_dims(a.shape_)))


def where(c, x=None, y=None):
    c = arr(c)
    if x is not None:
        x, y = arr(x), arr(y)
        sh1, p1, p2 = bshape(x.shape_, y.shape_)
        sh, p3, p4 = bshape(c.shape_, sh1)
        fc, fx, fy = c.snap(), x.snap(), y.snap()
        k = kmax(x.kind, y.kind)
        return A(sh, k, lambda *i: ssel(toS(fc(*p3(i))).re, fx(*p1(p4(i))), fy(*p2(p4(i)))))
    f = c.snap()
    s = make_sel(c.shape_, lambda *i: toS(cast(f(*i), 'b')).re)
    out = []
    for t in range(c.ndim):
        r = A((dim(s.count),), 'i', (lambda t: lambda k: S(s.at(k)[t], ZERO, 'i'))(t))
        r.selinfo = (s, t)
        out.append(r)
    return tuple(out)


# ------------------------------------------------------------------ lists, ranges
class RangeS:
    """range with a symbolic bound"""
    def __init__(self, start, stop, step=1):
        if isinstance(step, S): raise Unsupported('symbolic step')
        self.start, self.step = dp(start), step
        d = dp(stop) - dp(start)
        if step == 1: n = d
        elif step > 1: n = X.idiv(d + (step - 1), P(step))
        elif step == -1: n = -d
        else: raise Unsupported('range step')
        n = norm(n)
        if C().le(-n) is not True:
            n = ZERO if C().le(n) else ite(le0(-n), n, ZERO)
        self.len = dim(n)
    def __symiter__(self):
        return dp(self.len), (lambda k: mk('i', norm(self.start + k * self.step)))
    def __iter__(self):
        c = dconst(self.len)
        if c is None: raise Unsupported('iteration over a symbolic range')
        f = self.__symiter__()[1]
        return iter([f(P(i)) for i in range(c)])


class SList(list):
    """list that may have a symbolic part: sym = (length, fn) when the whole list is symbolic"""
    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None
        self.depth = len(LOOPS)

    def length(self):
        if self.sym: return dim(self.sym[0])
        return list.__len__(self)

    def append(self, v):
        for l in LOOPS:
            if self.depth <= l.depth and l.mode == 'map':
                l.record_append(self, v)
                if l is LOOPS[-1]: return
                raise Unsupported('append in nested summarised loops')
            if self.depth <= l.depth and l.mode == 'havoc': l.record_mut(self)
        if self.sym:
            n, f = self.sym
            self.sym = (norm(n + 1), lambda k: sel_any(X.dec_eq(k - n), v, lambda: f(k)))
        else: list.append(self, v)

    def __getitem__(self, k):
        if self.sym:
            n, f = self.sym
            if isinstance(k, slice): raise Unsupported('slice of symbolic list')
            p = norm_index(k, S(n, ZERO, 'i'))
            return f(p)
        if isinstance(k, S):
            c = norm(k.re).const()
            if c is None:
                es = list(self)
                if all(isnum(e) for e in es) and es:
                    return mk_elem(pick(norm_index(k, len(es)), [lambda e=e: toS(e) for e in es]))
                raise Unsupported('symbolic index into a list')
            k = int(c)
        r = list.__getitem__(self, k)
        return SList(r) if isinstance(k, slice) else r

    def __iter__(self):
        if self.sym:
            c = norm(self.sym[0]).const()
            if c is None: raise Unsupported('iteration over a symbolic list')
            return iter([self.sym[1](P(i)) for i in range(int(c))])
        return list.__iter__(self)

    def __add__(self, o):
        if self.sym or getattr(o, 'sym', None): raise Unsupported('list concatenation')
        return SList(list(self) + list(o))

    def __mul__(self, n): return SList(list(self) * n)
    def __eq__(self, o):
        if self.sym: return self is o
        return list.__eq__(self, o)
    __hash__ = None


def sel_any(c, a, fb):
    if c is ONE: return a
    if c is ZERO: return fb()
    b = fb()
    if isnum(a) and isnum(b): return mk_elem(ssel(c, a, b))
    raise Unsupported('conditional object')
