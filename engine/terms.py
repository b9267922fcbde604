"""Term layer of the verifier: canonical polynomials over interned atoms.

Every scalar of the symbolic execution is a polynomial with rational coefficients over atoms:
symbols, uninterpreted applications (array cells), Iverson brackets [p<=0] / [p=0] (all conditionals),
finite sums, and a few special functions (inv, exp, cos, sin, sqrt, div, ...).
Integers and reals are mathematical (no overflow, no rounding).
"""
from fractions import Fraction as Fr
import itertools, math

_atoms = {}
_byid = {}
_cnt = itertools.count(1)


class Unsupported(Exception):
    """The code left the subset the verifier understands: the obligation stays open (never a violation)."""


class Atom:
    __slots__ = ('id', 'op', 'args', 'sort', 'fv', 'h')

    def __repr__(self):
        return ashow(self)



def mk_atom(op, args, sort):
    key = (op, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = next(_cnt)
        a.op, a.args, a.sort = op, args, sort
        fv, h = frozenset(), 0
        if op in ('sym', 'bnd'):
            fv = frozenset([a])
        else:
            for x in args:
                if isinstance(x, Poly):
                    fv |= x.fv
                    h = max(h, x.h)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            fv |= y.fv
                            h = max(h, y.h)
            if op == 'sum':
                his, body, base = args
                fv = frozenset(v for v in fv if not (v.op == 'bnd' and base <= v.args[0] < base + len(his)))
                h = base + len(his)
        a.fv, a.h = fv, h
        _atoms[key] = a
        _byid[a.id] = a
    return a


_polys = {}


class Poly:
    __slots__ = ('d', 'key', 'fv', 'h', 'isint', '_hash')

    def __new__(cls, d):
        key = tuple(sorted(d.items()))
        p = _polys.get(key)
        if p is None:
            p = object.__new__(cls)
            p.d, p.key = d, key
            p._hash = hash(key)
            fv, h, isint = frozenset(), 0, True
            for m, c in d.items():
                for aid, e in m:
                    a = _byid[aid]
                    if not a.fv <= fv:
                        fv = fv | a.fv
                    h = max(h, a.h)
                    if a.sort == 'R' or e < 0:
                        isint = False
            p.fv, p.h, p.isint = fv, h, isint
            _polys[key] = p
        return p

    def __hash__(self): return self._hash
    def __eq__(self, o): return self is o
    def __repr__(self): return pshow(self)

    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self

    def scale(self, c):
        c = Fr(c)
        return Poly({m: v * c for m, v in self.d.items()}) if c else ZERO

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        if not self.d or not o.d: return ZERO
        if len(o.d) == 1 and () in o.d: return self.scale(o.d[()])
        if len(self.d) == 1 and () in self.d: return o.scale(self.d[()])
        k = (self, o) if self._hash <= o._hash else (o, self)
        r = _mulc.get(k)
        if r is None:
            if len(self.d) * len(o.d) > 40000:
                raise Unsupported('term too large')
            acc = {}
            for m1, c1 in self.d.items():
                for m2, c2 in o.d.items():
                    mono_mul(m1, m2, c1 * c2, acc)
            r = Poly({m: c for m, c in acc.items() if c})
            _mulc[k] = r
        return r
    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r

    def const(self):
        if not self.d: return Fr(0)
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None

    def monos(self): return self.d.items()

    def mono1(self):
        """(coef, monomial) when a single monomial, else None"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return c, m
        return None


_mulc = {}


def _reg(a):
    _byid[a.id] = a
    return a


def atom_poly(a):
    _byid[a.id] = a
    return Poly({((a.id, 1),): Fr(1)})


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({(): Fr(x)}) if x else ZERO
    if isinstance(x, Fr): return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x): raise Unsupported('nan/inf constant')
        return P(Fr(repr(x)))
    raise TypeError(type(x))


def idem(a):
    return a.op == 'ind' or a.sort == 'B'


def mono_mul(m1, m2, c, acc):
    """acc += c*m1*m2 (may expand through rewrite rules)"""
    d = dict(m1)
    for aid, e in m2:
        d[aid] = d.get(aid, 0) + e
    special = None
    exps = []
    for aid in list(d):
        e = d[aid]
        if e == 0:
            del d[aid]
            continue
        a = _byid[aid]
        if e != 1 and idem(a):
            d[aid] = 1
        op = a.op
        if op == 'exp':
            exps.append((aid, e))
        elif op == 'sin' and e >= 2:
            special = (aid, a, 'sin')
        elif op == 'sqrt' and (e >= 2 or e <= -1):
            special = (aid, a, 'sqrt')
        elif op == 'abs' and e >= 2:
            special = (aid, a, 'abs')
        elif op == 'inv':
            pass
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        t = ZERO
        for aid, e in exps:
            t = t + _byid[aid].args[0] * e
            del d[aid]
        if t.d:
            x = mk_exp_atom(t)
            d[x.id] = 1
    if special is not None:
        aid, a, kind = special
        e = d[aid]
        if kind == 'sin':
            d[aid] = e - 2
            if e == 2: del d[aid]
            rep = ONE - cos(a.args[0]) ** 2
        elif kind == 'abs':
            d[aid] = e - 2
            if e == 2: del d[aid]
            rep = a.args[0] ** 2
        else:
            if e >= 2:
                d[aid] = e - 2
                if e == 2: del d[aid]
                rep = a.args[0]
            else:  # sqrt^-1 = sqrt * inv(arg)
                d[aid] = e + 2
                if e == -2: del d[aid]
                rep = inv(a.args[0])
        rest = Poly({tuple(sorted(d.items())): Fr(c)})
        for m, v in (rest * rep).d.items():
            acc[m] = acc.get(m, 0) + v
        return
    m = tuple(sorted(d.items()))
    acc[m] = acc.get(m, 0) + c


# ---------------------------------------------------------------- constructors
_fresh = itertools.count()


def sym(name, sort='R'):
    return atom_poly(mk_atom('sym', (name,), sort))


def fresh(prefix='k', sort='I'):
    return sym('%s!%d' % (prefix, next(_fresh)), sort)


def the_atom(p):
    c, m = p.mono1()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return _byid[m[0][0]]


def is_atom(p):
    r = p.mono1()
    return bool(r) and r[0] == 1 and len(r[1]) == 1 and r[1][0][1] == 1


def app(f, args, sort='R'):
    return atom_poly(mk_atom('app', (f,) + tuple(P(a) for a in args), sort))


def mk_exp_atom(t):
    return _reg(mk_atom('exp', (t,), 'R'))


def exp(t):
    t = P(t)
    if not t.d: return ONE
    return Poly({((mk_exp_atom(t).id, 1),): Fr(1)})


def _neglead(p):
    """True if the canonical leading coefficient is negative"""
    return bool(p.key) and p.key[-1][1] < 0


_SPECIAL = {}


PI = None


def pi():
    global PI
    if PI is None: PI = sym('pi', 'R')
    return PI


def sqrt(p):
    p = P(p)
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return P(Fr(n, d))
        if d * d != c.denominator:
            return sqrt(P(c.numerator * c.denominator)).scale(Fr(1, c.denominator))
        # extract square factors
        k, num = 1, c.numerator
        f = 2
        while f * f <= num:
            while num % (f * f) == 0:
                num //= f * f
                k *= f
            f += 1
        if k != 1 or d != 1:
            return sqrt(P(num)).scale(Fr(k, d))
    return atom_poly(mk_atom('sqrt', (p,), 'R'))


def _pi_multiple(p):
    r = p.mono1()
    if not p.d: return Fr(0)
    if r and r[1] == ((the_atom(pi()).id, 1),): return r[0]
    return None


def cos(p):
    p = P(p)
    q = _pi_multiple(p)
    if q is not None:
        q = q % 2
        if q > 1: q = 2 - q
        s = 1
        if q > Fr(1, 2): q, s = 1 - q, -1
        tab = {Fr(0): ONE, Fr(1, 2): ZERO, Fr(1, 3): P(Fr(1, 2)), Fr(1, 6): sqrt(P(3)).scale(Fr(1, 2)),
               Fr(1, 4): sqrt(P(2)).scale(Fr(1, 2))}
        if q in tab: return tab[q].scale(s)
    if _neglead(p): p = -p
    return atom_poly(mk_atom('cos', (p,), 'R'))


def sin(p):
    p = P(p)
    q = _pi_multiple(p)
    if q is not None: 
        c = cos(pi() * (Fr(1, 2) - q))
        if c.mono1() is None or not is_atom(c) or the_atom(c).op != 'cos': return c
        if c.const() is not None: return c
    if _neglead(p): return -sin(-p)
    return atom_poly(mk_atom('sin', (p,), 'R'))


def cosh(p): return (exp(p) + exp(-P(p))).scale(Fr(1, 2))
def sinh(p): return (exp(p) - exp(-P(p))).scale(Fr(1, 2))


def fabs(p):
    p = P(p)
    c = p.const()
    if c is not None: return P(abs(c))
    if _neglead(p): p = -p
    r = p.mono1()
    if r and r[0] != 1: return fabs(p.scale(1 / r[0])).scale(abs(r[0]))
    if r and len(r[1]) == 1 and r[1][0][1] == 1 and _byid[r[1][0][0]].op in ('abs', 'sqrt', 'exp', 'ind'): return p
    if r and all(_byid[a].op in ('ind', 'abs', 'sqrt', 'exp') or e % 2 == 0 for a, e in r[1]): return p
    return atom_poly(mk_atom('abs', (p,), 'R'))


def inv(p):
    p = P(p)
    if not p.d: raise Unsupported('division by zero')
    r = p.mono1()
    if r:
        c, m = r
        out = P(1 / c)
        for aid, e in m:
            a = _byid[aid]
            if a.op == 'ind' or a.sort == 'B' or a.op == 'sum':
                out = out * Poly({((_reg(mk_atom('inv', (atom_poly(a),), 'R')).id, 1),): Fr(1)}) ** e
            elif a.op == 'inv':
                out = out * a.args[0] ** e
            elif a.op == 'exp':
                out = out * exp(-a.args[0] * e)
            elif a.op == 'sqrt':
                out = out * atom_poly(a) ** e * inv(a.args[0]) ** e
            else:
                out = out * Poly({((aid, -e),): Fr(1)})
        return out
    lead = p.key[-1][1]
    q = p.scale(1 / lead)
    return atom_poly(mk_atom('inv', (q,), 'R')).scale(1 / lead)


def fun1(name, p, sort='R'):
    return atom_poly(mk_atom('fun', (name, P(p)), sort))


def fun(name, args, sort='R'):
    return atom_poly(mk_atom('fun', (name,) + tuple(P(a) for a in args), sort))


def intdiv_atom(p, q):
    return atom_poly(mk_atom('div', (p, q), 'I'))


# ---------------------------------------------------------------- brackets
def _lcm_clear(p):
    l = 1
    for c in p.d.values(): l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in p.d.values(): g = math.gcd(g, int(c * l))
    return p.scale(Fr(l, g or 1))


def le0(p):
    """indicator of p <= 0"""
    p = P(p)
    c = p.const()
    if c is not None: return ONE if c <= 0 else ZERO
    p = _lcm_clear(p)
    if p.isint:
        # tighten the constant: g*x + c <= 0
        g = 0
        for m, c in p.d.items():
            if m: g = math.gcd(g, int(c))
        c0 = p.d.get((), Fr(0))
        if g > 1:
            p = (p - P(c0)).scale(Fr(1, g)) + P(Fr(math.ceil(Fr(c0) / g)))
    return atom_poly(mk_atom('ind', ('le', p), 'I'))


def lt0(p):
    p = P(p)
    if p.isint and all(c.denominator == 1 for c in p.d.values()): return le0(p + 1)
    if p.isint: return le0(_lcm_clear(p) + 1)
    return ONE - le0(-p)


INJ = {}          # app name -> positions in which it is injective (other arguments fixed)


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None: return ONE if c == 0 else ZERO
    p = _lcm_clear(p)
    if p.isint:
        g = 0
        for m, c in p.d.items():
            if m: g = math.gcd(g, int(c))
        if g > 1 and int(p.d.get((), Fr(0))) % g: return ZERO
    # factor single idempotent: [b == 0] = 1-b ; [1-b==0] = b for 0/1 atoms
    if all(all(idem(_byid[a]) for a, e in m) for m in p.d):
        if len(p.d) == 1: return ONE - (p if p.key[0][1] == 1 else -p) if abs(p.key[0][1]) == 1 else ONE - p.scale(1 / p.key[0][1])
        if len(p.d) == 2 and () in p.d:
            o = [m for m in p.d if m][0]
            if p.d[o] == -p.d[()]: return Poly({o: Fr(1)})
    if INJ and len(p.d) == 2:
        (m1, c1), (m2, c2) = p.d.items()
        if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            a, b = _byid[m1[0][0]], _byid[m2[0][0]]
            if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and a.args[0] in INJ and len(a.args) == len(b.args):
                pos = INJ[a.args[0]]
                if all((k in pos) or x is y for k, (x, y) in enumerate(zip(a.args[1:], b.args[1:]))):
                    r = ONE
                    for k in pos: r = r * eq0(a.args[1 + k] - b.args[1 + k])
                    return r
    if _neglead(p): p = -p
    return atom_poly(mk_atom('ind', ('eq', p), 'I'))


def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return lt0(P(a) - P(b))
def eq(a, b): return eq0(P(a) - P(b))
def b_not(c):
    """negation of a 0/1 term; integer comparisons stay positive brackets"""
    r = c.mono1()
    if r and r[0] == 1 and all(_byid[x].op == 'ind' for x, e in r[1]) and len(r[1]) <= 4:
        out, pre = ZERO, ONE
        for x, e in r[1]:
            a = _byid[x]
            q = a.args[1]
            if a.args[0] == 'le' and q.isint and all(v.denominator == 1 for v in q.d.values()): n = le0(1 - q)
            else: n = ONE - atom_poly(a)
            out = out + pre * n
            pre = pre * atom_poly(a)
        return out
    return ONE - c
def b_and(*cs):
    r = ONE
    for c in cs: r = r * c
    return r
def b_or(a, b): return a + b - a * b
def ite(c, a, b):
    if c is ONE: return a
    if c is ZERO: return b
    if a is b: return a
    return c * a + b_not(c) * b


# ---------------------------------------------------------------- sums (raw constructor; simplification in ctx.py)
def raw_sum(binders, body):
    """binders: list of (sym atom, hi Poly); body Poly of a single monomial with coefficient one.
    Returns the canonical closed atom."""
    syms = [b[0] for b in binders]
    hmax = max([body.h] + [h.h for _, h in binders])
    base = hmax
    n = len(syms)
    best = None
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for perm in perms:
        ok = True
        for pos, i in enumerate(perm):   # hi may only depend on earlier binders
            for later in perm[pos:]:
                if syms[later] in binders[i][1].fv:
                    ok = False
        if not ok: continue
        mp = {syms[i]: atom_poly(mk_atom('bnd', (base + pos,), 'I')) for pos, i in enumerate(perm)}
        his = tuple(subst_raw(binders[i][1], mp) for i in perm)
        b = subst_raw(body, mp)
        k = (tuple(x.key for x in his), b.key)
        if best is None or k < best[0]:
            best = (k, his, b)
    return _reg(mk_atom('sum', (best[1], best[2], base), 'I' if best[2].isint else 'R'))


def open_sum(a, syms=None):
    """-> list of (sym atom, hi), body with fresh symbols"""
    his, body, base = a.args
    if syms is None: syms = [the_atom(fresh('s')) for _ in his]
    mp = {mk_atom('bnd', (base + i,), 'I'): atom_poly(s) for i, s in enumerate(syms)}
    return [(s, subst_raw(h, mp)) for s, h in zip(syms, his)], subst_raw(body, mp)


SUM_HOOK = [None]  # set by ctx: (binders, body) -> Poly
DIV_HOOK = [None]


def rebuild_atom(a, f):
    """rebuild atom with children mapped through f (Poly->Poly); returns Poly"""
    op = a.op
    if op in ('sym', 'bnd'): return atom_poly(a)
    if op == 'app': return app(a.args[0], [f(x) for x in a.args[1:]], a.sort)
    if op == 'ind':
        q = f(a.args[1])
        return le0(q) if a.args[0] == 'le' else eq0(q)
    if op == 'fun': return fun(a.args[0], [f(x) for x in a.args[1:]], a.sort)
    if op == 'div':
        p, q = f(a.args[0]), f(a.args[1])
        return DIV_HOOK[0](p, q) if DIV_HOOK[0] else intdiv_atom(p, q)
    if op == 'sum':
        raise AssertionError
    return {'exp': exp, 'cos': cos, 'sin': sin, 'sqrt': sqrt, 'abs': fabs, 'inv': inv}[op](f(a.args[0]))


def subst_raw(p, mp, memo=None):
    """substitute atoms (sym/bnd -> Poly); sums are opened and closed without simplification"""
    keys = frozenset(mp)
    if not (p.fv & keys): return p
    if memo is None: memo = {}
    r = memo.get(p)
    if r is not None: return r
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for aid, e in m:
            a = _byid[aid]
            if not (a.fv & keys):
                t = t * Poly({((aid, e),): Fr(1)})
                continue
            if a in mp: q = mp[a]
            elif a.op == 'sum':
                bs, body = open_sum(a)
                bs2 = [(s, subst_raw(h, mp, memo)) for s, h in bs]
                b2 = subst_raw(body, mp)
                if SUM_HOOK[0]: q = SUM_HOOK[0](bs2, b2)
                else:
                    q = ZERO
                    for mm, cc in b2.d.items():
                        q = q + atom_poly(raw_sum(bs2, Poly({mm: Fr(1)}))).scale(cc)
            else: q = rebuild_atom(a, lambda x: subst_raw(x, mp, memo))
            if e < 0: t = t * inv(q) ** (-e)
            else: t = t * q ** e
        out = out + t
    memo[p] = out
    return out


def subst(p, mp):
    """mp: {Poly atom or Atom: Poly}"""
    return subst_raw(p, {(the_atom(k) if isinstance(k, Poly) else k): P(v) for k, v in mp.items()})


# ---------------------------------------------------------------- printing / numeric evaluation
def ashow(a):
    if a.op == 'sym': return str(a.args[0])
    if a.op == 'bnd': return '#%d' % a.args[0]
    if a.op == 'ind': return '[%s%s0]' % (a.args[1], '<=' if a.args[0] == 'le' else '==')
    if a.op == 'sum': return 'SUM{%s}(%s)' % (','.join('#%d<%s' % (a.args[2] + i, h) for i, h in enumerate(a.args[0])), a.args[1])
    if a.op in ('app', 'fun'): return '%s(%s)' % (a.args[0], ','.join(map(str, a.args[1:])))
    return '%s(%s)' % (a.op, ','.join(map(str, a.args)))


def pshow(p):
    if not p.d: return '0'
    out = []
    for m, c in p.key:
        s = '*'.join(ashow(_byid[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
    r = ' + '.join(out)
    return r if len(out) == 1 else '(' + r + ')'


FUNEVAL = {}


def neval(p, env, memo=None):
    """numeric evaluation: env maps symbol name -> number, function name -> callable(*args)"""
    if memo is None: memo = {}
    tot = 0
    for m, c in p.d.items():
        t = c
        # evaluate brackets first so that guarded undefined terms vanish
        items = sorted(m, key=lambda ae: 0 if _byid[ae[0]].op == 'ind' else 1)
        for aid, e in items:
            a = _byid[aid]
            v = memo.get(aid)
            if v is None:
                v = aeval(a, env, memo)
                if not any(x.op == 'bnd' for x in a.fv): memo[aid] = v
            if v == 0 and a.op == 'ind':
                t = 0
                break
            t = t * (v ** e if e != 1 else v)
        tot = tot + t
    return tot


def terms_of(his, body, base, env):
    """values of the body over the index box"""
    out = []

    def rec(i):
        if i == len(his):
            out.append(neval(body, env, {}))
            return
        for k in range(int(neval(his[i], env, {}))):
            env['#%d' % (base + i)] = k
            rec(i + 1)
    keep = {k: env[k] for k in ['#%d' % (base + i) for i in range(len(his))] if k in env}
    try: rec(0)
    finally:
        for i in range(len(his)): env.pop('#%d' % (base + i), None)
        env.update(keep)
    return out


def aeval(a, env, memo):
    op = a.op
    if op == 'sym': 
        if a.args[0] == 'pi': return math.pi
        return env[a.args[0]]
    if op == 'bnd': return env['#%d' % a.args[0]]
    if op == 'ind':
        v = neval(a.args[1], env, memo)
        if isinstance(v, float): tol = 1e-11
        else: tol = 0
        return 1 if (v <= tol if a.args[0] == 'le' else abs(v) <= tol) else 0
    if op == 'sum':
        his, body, base = a.args
        tot = 0
        for v in terms_of(his, body, base, env): tot = tot + v
        return tot
    if op == 'app': return env[a.args[0]](*[neval(x, env, memo) for x in a.args[1:]])
    if op == 'fun' and a.args[0] in ('max', 'min') and len(a.args) == 2:
        k = a.args[1].mono1()
        t = _byid[k[1][0][0]] if k and len(k[1]) == 1 else None
        if t is None or t.op != 'sum': raise KeyError(a.args[0])
        w = t.args[1].mono1()
        w = _byid[w[1][0][0]] if w and len(w[1]) == 1 else None
        if w is None or w.op != 'fun' or w.args[0] != 'wrap': raise KeyError(a.args[0])
        return (max if a.args[0] == 'max' else min)(terms_of(t.args[0], w.args[1], t.args[2], env))
    if op == 'fun': return FUNEVAL[a.args[0]](*[neval(x, env, memo) for x in a.args[1:]])
    if op == 'div': return int(neval(a.args[0], env, memo)) // int(neval(a.args[1], env, memo))
    v = neval(a.args[0], env, memo)
    if op == 'inv':
        if v == 0: raise ZeroDivisionError
        return 1 / Fr(v) if isinstance(v, (int, Fr)) else 1 / v
    if op == 'sqrt': return math.sqrt(max(v, 0.0))
    return {'exp': math.exp, 'cos': math.cos, 'sin': math.sin, 'abs': abs}[op](v)


FUNEVAL.update(arg=lambda re, im: math.atan2(im, re), log=lambda x: math.log(x), floor=lambda x: math.floor(x),
               pow=lambda a, b: float(a) ** float(b), round=lambda x: round(x), wrap=lambda x: x)
