"""Hypothesis context and prover: bound reasoning, sum simplification, equality proving.

One global current context `C()` per explored path.  Facts are polynomials p meaning p <= 0 (or p == 0); index symbols carry
ranges [lo, hi).  Decision procedure for p <= 0: elimination of ranged symbols (monotone substitution), then z3 over the
remaining facts with non-linear monomials abstracted to fresh variables, then z3 on the real non-linear problem.
"""
import itertools, time, random
from fractions import Fraction as Fr
import z3
from .terms import *
from . import terms as T

_cur = [None]
STATS = dict(z3=0, z3_time=0.0, elim=0, queries=0)


def C():
    return _cur[0]


def _pownn(b):
    """real power of a non-negative base"""
    if b.op != 'fun' or b.args[0] != 'pow': return False
    return all(c > 0 and all(e % 2 == 0 or T._byid[x].op in ('abs', 'sqrt', 'exp', 'ind') for x, e in m) for m, c in b.args[1].d.items())


class Ctx:
    def __init__(self):
        self.ranges = {}          # atom -> (lo, hi)   lo <= k < hi
        self.order = []
        self.facts = []           # p <= 0
        self.eqs = []             # p == 0
        self.nonzero = set()      # polys assumed != 0
        self.version = 0
        self.cache = Cache()
        self.stack = []
        self.deadline = None
        self.samplers = {}
        self.apprng = {}          # app name -> fn(*args) -> (lo, hi)
        self.appnz = set()        # app names whose values are nonzero
        self.appnn = set()        # app names whose values are non-negative
        self.apppos = set()       # app names whose values are positive
        self.samples = [dict() for _ in range(NS)]   # concrete integer assignments consistent with the hypotheses (filter only)
        self.taint = set()        # symbols with a hypothesis the samples do not account for
        self.rnd = random.Random(11)

    # ---- scopes
    def push(self): self.stack.append((dict(self.ranges), list(self.order), len(self.facts), len(self.eqs), self.version, self.cache, set(self.nonzero), list(self.samples), set(self.taint)))

    def pop(self):
        self.ranges, self.order, nf, ne, self.version, self.cache, self.nonzero, self.samples, self.taint = self.stack.pop()
        del self.facts[nf:]
        del self.eqs[ne:]

    def _touch(self):
        self.version = next(_vers)
        self.cache = Cache(self.cache)

    def _unknown(self, p):
        """mentions an integer symbol nothing is known about (an opened binder before its range is declared)"""
        for a in p.fv:
            if a.op == 'bnd': return True
            if a.op == 'sym' and a.sort == 'I' and a not in self.ranges and '!' in a.args[0] and not any(a in f.fv for f in self.facts) and not any(a in f.fv for f in self.eqs): return True
        return False

    # ---- concrete samples: a sample with p > 0 shows that p <= 0 is not provable
    def _ev(self, p, s):
        """value of an integer polynomial at a sample; None when it has other atoms"""
        tot = 0
        q = _EVP.get(p)
        if q is None: q = _EVP[p] = [(int(c) if c.denominator == 1 else c, [(T._byid[aid], e) for aid, e in m]) for m, c in p.d.items()]
        for c, m in q:
            t = c
            for a, e in m:
                v = s.get(a)
                if v is None:
                    v = self._eva(a, s)
                    if v is None: return None
                if e == 1: t = t * v
                elif e < 0:
                    if v == 0: return None
                    t = t * Fr(v) ** e
                else: t = t * v ** e
            tot += t
        return tot

    def _eva(self, a, s):
        if a.op == 'sym':
            if a.sort == 'R': return None
            v = s.get(a)
            if v is None:
                if a in self.ranges or a in self.taint: return None
                v = s[a] = self.rnd.choice((1, 2, 2, 3, 3, 4, 5, 7))
            return v
        if a.op == 'ind':
            v = self._ev(a.args[1], s)
            if v is None: return None
            v = s[a] = int(v <= 0 if a.args[0] == 'le' else v == 0)
            return v
        if a.op == 'div':
            x, y = self._ev(a.args[0], s), self._ev(a.args[1], s)
            if x is None or not y: return None
            v = s[a] = x // y
            return v
        return None

    def _filter(self, p, ok):
        """keep the samples satisfying a new hypothesis"""
        out = []
        for s in self.samples:
            v = self._ev(p, s)
            if v is None:
                if p.isint and not _realind(p): self.taint |= {a for a in p.fv if a.op == 'sym'}
                return
            if ok(v): out.append(s)
        self.samples = out

    def _srange(self, a, lo, hi):
        out = []
        for k, s in enumerate(self.samples):
            l, h = self._ev(lo, s), self._ev(hi, s)
            if l is None or h is None:
                self.taint.add(a)
                return
            if l >= h: continue
            s = {k: v for k, v in s.items() if k.op == 'sym'} if a in s else dict(s)
            s[a] = l if k % 4 == 0 else h - 1 if k % 4 == 1 else self.rnd.randrange(int(l), int(h)) if l.denominator == 1 and h.denominator == 1 else l
            out.append(s)
        self.samples = out

    def witness(self, p, test):
        """some sample satisfies test(p): the negation cannot be proved"""
        if not FILTER or self.taint and any(a in self.taint for a in p.fv): return False
        for s in self.samples:
            v = self._ev(p, s)
            if v is None: return False
            if test(v): return True
        return False

    def rng(self, k, lo, hi):
        a = the_atom(k) if isinstance(k, Poly) else k
        self._srange(a, P(lo), P(hi))
        self.ranges[a] = (P(lo), P(hi))
        self.order.append(a)
        self._touch()

    def assume_le(self, p):
        """assume p <= 0"""
        p = P(p)
        if p.const() is not None and p.const() <= 0: return
        self._filter(p, lambda v: v <= 0)
        self.facts.append(p)
        self._touch()

    def assume_eq(self, p):
        p = P(p)
        if not p.d: return
        self._filter(p, lambda v: v == 0)
        self.eqs.append(p)
        self._touch()

    def assume(self, c, val=True):
        """assume a 0/1 polynomial equals val"""
        for kind, p in literals(c, val):
            if kind == 'le': self.assume_le(p)
            elif kind == 'eq': self.assume_eq(p)
            elif kind == 'lt':
                self.nonzero.add(p)
                self.assume_le(p)
                self._touch()
            else:
                self._filter(p, lambda v: v != 0)
                self.nonzero.add(p)
                self._touch()

    # ---- deciding
    def le(self, p):
        """True when p <= 0 is proved, False when 'p > 0' is proved, None otherwise"""
        p = P(p)
        c = p.const()
        if c is not None: return c <= 0
        r = self.cache.get(('le', p), 0)
        if r != 0: return r
        STATS['queries'] += 1
        r = None
        if p.isint and self._unknown(p):
            self.cache[('le', p)] = None
            return None
        wt, wf = self.witness(p, lambda v: v > 0), self.witness(p, lambda v: v <= 0)
        if not wt and self.prove_le(p): r = True
        elif not wf and p.isint and _intc(p) and self.prove_le(1 - p): r = False
        elif not p.isint and (p in self.nonzero or -p in self.nonzero) and any(f is -p for f in self.facts): r = False
        if r is None and not (wt and wf):
            r = self.z3_le(p, wt, wf)
        self.cache[('le', p)] = r
        return r

    def eq(self, p):
        """True when p == 0 proved, False when p != 0 proved, None otherwise"""
        p = P(p)
        c = p.const()
        if c is not None: return c == 0
        r = self.cache.get(('eq', p), 0)
        if r != 0: return r
        r = None
        if p in self.nonzero or -p in self.nonzero: r = False
        elif any(p is e or p is -e for e in self.eqs): r = True
        elif not self.witness(p, lambda v: v == 0) and (self.le(p) is False or self.le(-p) is False): r = False
        elif not self.witness(p, lambda v: v != 0) and self.le(p) and self.le(-p): r = True
        elif p.isint:
            r = self.z3_eq(p)
        elif self._nz_struct(p): r = False
        self.cache[('eq', p)] = r
        return r

    def _nz_struct(self, p):
        m = p.mono1()
        if m:
            for aid, e in m[1]:
                a = T._byid[aid]
                if a.op in ('exp',): continue
                if a.op == 'sym' and a.args[0] == 'pi': continue
                q = atom_poly(a)
                if q in self.nonzero: continue
                if a.op == 'app' and (a.args[0] in self.apppos or a.args[0] in self.appnz): continue
                if a.op == 'sqrt' and (a.args[0] in self.nonzero or self.le(-a.args[0]) and self.eq(a.args[0]) is False): continue
                if a.op == 'abs' and self.eq(a.args[0]) is False: continue
                if a.sort == 'I' and self.eq(q) is False: continue
                return False
            return True
        return False

    def prove_le(self, p, depth=0):
        """sound incomplete: eliminate ranged symbols by monotone substitution"""
        if p is None: return False
        STATS['elim'] += 1
        return self._elim(p, depth)

    def _elim(self, p, depth):
        c = p.const()
        if c is not None: return c <= 0
        if depth > 14: return False
        # brackets and other bounded atoms
        # newest ranged symbol first
        for a in reversed(self.order):
            if a not in p.fv: continue
            A = None
            deg = 0
            lin, rest, bad = {}, {}, False
            for m, cc in p.d.items():
                e = 0
                mm = []
                for aid, ee in m:
                    b = T._byid[aid]
                    if b is a: e = ee
                    elif a in b.fv: bad = True
                    else: mm.append((aid, ee))
                if e == 0: rest[m] = cc
                elif e == 1: lin[tuple(mm)] = lin.get(tuple(mm), 0) + cc
                else: bad = True
            if bad: continue
            lin, rest = Poly({m: c for m, c in lin.items() if c}), Poly(rest)
            lo, hi = self.ranges[a]
            if self._elim(-lin, depth + 1):      # coefficient >= 0 -> largest value
                return self._elim(rest + lin * (hi - 1), depth + 1)
            if self._elim(lin, depth + 1):
                return self._elim(rest + lin * lo, depth + 1)
            return False
        # declared integer functions (index arrays): same monotone substitution
        if self.apprng:
            for a in p.fv:
                if a.op == 'app' and a.args[0] in self.apprng:
                    lin, rest, bad = {}, {}, False
                    for m, cc in p.d.items():
                        e = 0
                        mm = []
                        for aid, ee in m:
                            b = T._byid[aid]
                            if b is a: e = ee
                            elif a in b.fv: bad = True
                            else: mm.append((aid, ee))
                        if e == 0: rest[m] = cc
                        elif e == 1: lin[tuple(mm)] = lin.get(tuple(mm), 0) + cc
                        else: bad = True
                    if bad: continue
                    lin, rest = Poly({m: c for m, c in lin.items() if c}), Poly(rest)
                    lo, hi = self.apprng[a.args[0]](*a.args[1:])
                    lo, hi = P(lo), P(hi)
                    if self._elim(-lin, depth + 1): return self._elim(rest + lin * (hi - 1), depth + 1)
                    if self._elim(lin, depth + 1): return self._elim(rest + lin * lo, depth + 1)
                    return False
        # sizes: all coefficients after shifting to n = n' + lo
        sub = {}
        for a in p.fv:
            if a.op == 'sym' and a.sort == 'I':
                lo = self.lower(a)
                if lo is None: return False
                if lo != 0: sub[a] = atom_poly(a) + lo
        ok = True
        for m, cc in p.d.items():
            for aid, e in m:
                b = T._byid[aid]
                if b.op == 'ind' or (b.op == 'sym' and b.sort == 'I' and e > 0): continue
                if e > 0 and b.op in ('exp', 'sqrt', 'abs') : continue
                if e % 2 == 0: continue
                if self.nonneg_atom(b): continue
                ok = False
        if not ok: return False
        # brackets in [0,1]: replace by worst case
        q = T.subst_raw(p, sub) if sub else p
        tot = {}
        for m, cc in q.d.items():
            if any(T._byid[aid].op == 'ind' for aid, e in m):
                if cc < 0: continue
            mm = tuple((aid, e) for aid, e in m if T._byid[aid].op != 'ind')
            tot[mm] = tot.get(mm, 0) + cc
        if all(v <= 0 for v in tot.values()): return True
        return False

    def nonneg_atom(self, b):
        if b.op in ('exp', 'sqrt', 'abs', 'ind') or _pownn(b): return True
        if b.op == 'app' and (b.args[0] in self.apppos or b.args[0] in self.appnn): return True
        q = atom_poly(b)
        return any(f is -q for f in self.facts)

    def lower(self, a):
        """constant lower bound of a size symbol from facts c - a <= 0"""
        best = None
        for f in self.facts:
            if f.fv == frozenset([a]) and len(f.d) <= 2:
                k = f.d.get(((a.id, 1),))
                if k is not None and k < 0:
                    b = f.d.get((), Fr(0)) / -k
                    if best is None or b > best: best = b
        if a in self.ranges:
            c = self.ranges[a][0].const()
            if c is not None and (best is None or c > best): best = c
        return best

    # ---- z3
    def _solver(self, extra, nl=False):
        """constraints of a query (cached terms) and the variables in them"""
        env = {}
        zs = []

        def look(e):
            # the constraints of the variables depend on the context
            for a in e[1]:
                if a not in env: var(a)
            for m in e[2]:
                if ('m', m) not in env: monov(m)

        def con(kind, p):
            e = _zconv(p, nl)
            look(e)
            return _zcon(kind, p, nl, e[0])

        def var(a):
            v = env[a] = _zvar(a)
            if a.op == 'ind':
                zs.append(_zkeep(('ind01', a), lambda: z3.And(v >= 0, v <= 1)))
                e = _zconv(a.args[1], nl)
                look(e)
                zs.append(_zkeep(('ind', a, nl), lambda: (v == 1) == (e[0] <= 0 if a.args[0] == 'le' else e[0] == 0)))
            elif a.op in ('exp',): zs.append(_zkeep(('pos', a), lambda: v > 0))
            elif a.op in ('sqrt', 'abs') or _pownn(a): zs.append(_zkeep(('nn', a), lambda: v >= 0))
            elif a.op in ('cos', 'sin'): zs.append(_zkeep(('cs', a), lambda: z3.And(v >= -1, v <= 1)))
            if a.op == 'app':
                if a.args[0] in self.apppos: zs.append(_zkeep(('pos', a), lambda: v > 0))
                if a.args[0] in self.appnn: zs.append(_zkeep(('nn', a), lambda: v >= 0))
                if a.args[0] in self.appnz: zs.append(_zkeep(('nz', a), lambda: v != 0))
                if a.args[0] in self.apprng: between(a, *self.apprng[a.args[0]](*a.args[1:]))
            if a in self.ranges: between(a, *self.ranges[a])
            if a.op == 'div' and nl:
                q, n = _zconv(a.args[1], nl), _zconv(a.args[0], nl)
                look(q)
                look(n)
                zs.append(_zkeep(('div', a), lambda: z3.And(v * q[0] <= n[0], n[0] < v * q[0] + q[0])))

        def between(a, lo, hi):
            lo, hi = P(lo), P(hi)
            l, u = _zconv(lo, nl), _zconv(hi, nl)
            look(l)
            look(u)
            zs.append(_zkeep(('lo', a, lo, nl), lambda: l[0] <= _zvar(a)))
            zs.append(_zkeep(('hi', a, hi, nl), lambda: _zvar(a) < u[0]))

        def monov(m):
            v = env[('m', m)] = _zmon(m)
            if all(e % 2 == 0 for _, e in m): zs.append(_zkeep(('nn', m), lambda: v >= 0))
            elif all(e > 0 and self._knownnonneg(T._byid[a]) for a, e in m):
                zs.append(_zkeep(('nn', m), lambda: v >= 0))
                lows = [self.lower(T._byid[a]) if T._byid[a].op == 'sym' else None for a, e in m]
                if all(l is not None and l >= 1 for l in lows):
                    for a, e in m:
                        a = T._byid[a]
                        if a not in env: var(a)
                        zs.append(_zkeep(('ge', m, a), lambda: v >= _zvar(a)))
        intq = bool(extra) and all(p.isint for _, p in extra)      # real-valued hypotheses do not matter for integer questions
        cs = [con(k, p) for k, p in extra]
        cs += [con('le', f) for f in self.facts if not intq or f.isint]
        cs += [con('eq', e) for e in self.eqs if not intq or e.isint]
        cs += [con('ne', z) for z in self.nonzero if not intq or z.isint]
        return cs + zs, env

    def _knownnonneg(self, a):
        if a.op in ('ind', 'exp', 'sqrt', 'abs') or _pownn(a): return True
        if a.op == 'app' and (a.args[0] in self.apppos or a.args[0] in self.appnn): return True
        if a.op == 'sym':
            l = self.lower(a)
            return l is not None and l >= 0
        return False

    def check(self, extra):
        """extra: list of (kind, poly).  'unsat' / 'sat' / 'unknown'"""
        t0 = time.time()
        STATS['z3'] += 1
        r = 'unknown'
        for nl in (False, True):
            try:
                cs, env = self._solver(extra, nl)
                key = (nl, frozenset(map(id, cs)))
                rr = _ZR.get(key)
                if rr is None:
                    s = z3.Solver()
                    s.set('timeout', 1500 if not nl else 3000)
                    s.add(*cs)
                    rr = _ZR[key] = str(s.check())
            except z3.Z3Exception:
                rr = 'unknown'
            if rr == 'unsat':
                r = 'unsat'
                break
            if nl: r = rr
            elif rr == 'sat' and not any(isinstance(k, tuple) or k.op == 'div' for k in env):
                r = rr
                break
        if len(_ZK) + len(_ZC) > 600000:
            for c in (_ZC, _ZK, _ZR): c.clear()
        STATS['z3_time'] += time.time() - t0
        return r

    def z3_le(self, p, wt=False, wf=False):
        if not wt and self.check([('gt', p)]) == 'unsat': return True
        if not wf and self.check([('le', p)]) == 'unsat': return False
        return None

    def z3_eq(self, p):
        if self.witness(p, lambda v: v == 0): return None
        if self.check([('eq', p)]) == 'unsat': return False
        return None

    def feasible(self):
        return self.check([]) != 'unsat'

    def decide(self, c):
        """decide a 0/1 polynomial"""
        c = norm(c)
        k = c.const()
        if k is not None: return bool(k)
        lits = literals(c, True)
        if lits is not None and len(lits) >= 1:
            rs = []
            for kind, p in lits:
                rs.append(self.le(p) if kind == 'le' else _n(self.le(-p)) if kind == 'lt' else self.eq(p) if kind == 'eq' else _n(self.eq(p)))
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
        if not self.witness(c, lambda v: v != 1) and self.check([('ne', c - 1)]) == 'unsat': return True
        if not self.witness(c, lambda v: v != 0) and self.check([('ne', c)]) == 'unsat': return False
        return None


_ri = {}


def _realind(p):
    r = _ri.get(p)
    if r is None:
        r = any(T._byid[aid].op == 'ind' and (not T._byid[aid].args[1].isint or _realind(T._byid[aid].args[1])) for m in p.d for aid, e in m)
        _ri[p] = r
    return r


NS = 16
FILTER = True


class Cache(dict):
    """results under weaker hypotheses stay valid when they are definite"""
    __slots__ = ('up',)

    def __init__(self, up=None):
        if up is not None and not dict.__len__(up): up = getattr(up, 'up', None)
        self.up = up

    def get(self, k, d=None):
        r = dict.get(self, k, _none)
        if r is not _none: return r
        if k[0] == 'le' or k[0] == 'eq':
            u = self.up
            while u is not None:
                r = dict.get(u, k, None)
                if r is not None: return r
                u = u.up
        return d


_none = object()
_vers = itertools.count(1)


def _n(r): return None if r is None else not r


_EVP = {}
_ZV, _ZM, _ZC, _ZK, _ZR = {}, {}, {}, {}, {}      # terms, constraints and answers of the solver


def _zkeep(k, f):
    c = _ZK.get(k)
    if c is None: c = _ZK[k] = f()
    return c


def _zcon(kind, p, nl, e):
    return _zkeep((kind, p, nl), lambda: {'gt': lambda: e > 0, 'le': lambda: e <= 0, 'ne': lambda: e != 0, 'eq': lambda: e == 0}[kind]())



def _zvar(a):
    v = _ZV.get(a.id)
    if v is None: v = _ZV[a.id] = (z3.Int if a.sort != 'R' else z3.Real)('v%d' % a.id)
    return v


def _zmon(m):
    v = _ZM.get(m)
    if v is None:
        p = Poly({m: Fr(1)})
        v = _ZM[m] = (z3.Int if p.isint and _intc(p) else z3.Real)('m%d' % len(_ZM))
    return v


def _zconv(p, nl):
    """z3 term of a polynomial with the atoms and opaque monomials in it"""
    r = _ZC.get((p, nl))
    if r is not None: return r
    isint = p.isint and _intc(p)
    num = (lambda c: z3.IntVal(int(c))) if isint else (lambda c: z3.RealVal(str(c)))
    ts, atoms, mons = [], [], []
    for m, c in p.d.items():
        if not m:
            ts.append(num(c))
            continue
        fs = []
        if len(m) == 1 and m[0][1] == 1 or nl and all(e > 0 for _, e in m):
            for aid, e in m:
                a = T._byid[aid]
                atoms.append(a)
                fs += [_zvar(a)] * e
        else:
            mons.append(m)
            fs.append(_zmon(m))
        t = None
        for v in fs:
            if not isint and v.is_int(): v = z3.ToReal(v)
            t = v if t is None else t * v
        if c != 1: t = num(c) * t
        ts.append(t)
    e = num(Fr(0)) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
    r = _ZC[(p, nl)] = (e, tuple(atoms), tuple(mons))
    return r


def _intc(p): return all(c.denominator == 1 for c in p.d.values())


def literals(c, val=True):
    """conjunction of literals equivalent to (c == val) when c is a product of brackets / negated brackets; else one 'eq' literal"""
    c = P(c)
    k = c.const()
    if k is not None:
        return [] if bool(k) == val else [('le', P(1))]
    r = c.mono1()
    if r and r[0] == 1 and val:
        out = []
        for aid, e in r[1]:
            a = T._byid[aid]
            if a.op == 'ind': out.append((a.args[0], a.args[1]))
            else: out.append(('eq', atom_poly(a) - 1))
        return out
    n = ONE - c
    r = n.mono1()
    if r and r[0] == 1 and len(r[1]) == 1:
        a = T._byid[r[1][0][0]]
        if a.op == 'ind':
            kind, p = a.args
            if val:
                return [_neg(kind, p)]
            return [(kind, p)]
    r = c.mono1()
    if not val and r and r[0] == 1 and len(r[1]) == 1:
        a = T._byid[r[1][0][0]]
        if a.op == 'ind': return [_neg(*a.args)]
    if True:
        f = factor_brackets(c if val else ONE - c)
        if f is not None:
            out = []
            for pos, a in f:
                kind, p = a.args
                out.append((kind, p) if pos else _neg(kind, p))
            return out
    return [('eq', c - (1 if val else 0))]


def split_atom(c):
    """a bracket to decide first when neither c nor its negation is a conjunction of literals"""
    k = c.const()
    if k is not None: return None
    atoms = sorted((T._byid[aid] for aid in {aid for m in c.d for aid, e in m}), key=lambda a: a.id)
    if len(atoms) < 2 or len(atoms) > 8 or any(a.op != 'ind' for a in atoms): return None
    if factor_brackets(c) is not None or factor_brackets(ONE - c) is not None: return None
    return atom_poly(atoms[0])


def factor_brackets(c):
    """c = prod of [a] and (1-[a]); returns [(pos, atom)] or None"""
    atoms = [T._byid[aid] for aid in {aid for m in c.d for aid, e in m}]
    if any(a.op != 'ind' for a in atoms) or len(atoms) > 6: return None
    out = []
    p = c
    for a in atoms:
        with_a = {m for m in p.d if any(i == a.id for i, e in m)}
        wo = Poly({m: v for m, v in p.d.items() if m not in with_a})
        wa = Poly({tuple(x for x in m if x[0] != a.id): p.d[m] for m in with_a})
        if not wo.d: out.append((True, a)); p = wa
        elif (wo + wa) is ZERO: out.append((False, a)); p = wo
        else: return None
    return out if p is ONE else None


def _neg(kind, p):
    if kind == 'le':
        if p.isint and _intc(p): return ('le', 1 - p)
        return ('lt', -p)
    return ('ne', p)


# ---------------------------------------------------------------- normalisation
def rewrite(p, fatom):
    """rebuild p bottom-up; fatom(atom)->Poly or None"""
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for aid, e in m:
            a = T._byid[aid]
            q = fatom(a)
            if q is None: t = t * Poly({((aid, e),): Fr(1)})
            elif e < 0: t = t * inv(q) ** (-e)
            else: t = t * q ** e
            if not t.d: break
        out = out + t
    return out


def norm(p, memo=None):
    """normalise under the current context: decide brackets, simplify div and sums"""
    cx = C()
    if not any(_interesting(T._byid[aid]) for m in p.d for aid, e in m): return p
    key = ('norm', p)
    r = cx.cache.get(key)
    if r is not None: return r
    q = rewrite(p, norm_atom)
    if q is not p:
        q2 = rewrite(q, norm_atom)
        n = 0
        while q2 is not q and n < 4:
            q, q2 = q2, rewrite(q2, norm_atom)
            n += 1
        q = q2
    cx.cache[key] = q
    return q


_int_memo = {}


def _interesting(a):
    r = _int_memo.get(a)
    if r is None:
        if a.op in ('ind', 'sum', 'div'): r = True
        elif a.op in ('sym', 'bnd'): r = False
        else:
            r = any(_interesting(T._byid[aid]) for x in a.args if isinstance(x, Poly) for m in x.d for aid, e in m)
        _int_memo[a] = r
    return r


def norm_atom(a):
    if not _interesting(a): return None
    cx = C()
    key = ('na', a)
    r = cx.cache.get(key, 0)
    if r != 0: return r
    if a.op == 'ind':
        q = norm(a.args[1])
        b = bracket(a.args[0], q)
    elif a.op == 'sum':
        bs, body = open_sum(a)
        b = mk_sum(bs, body)
    else:
        b = T.rebuild_atom(a, norm)
    if is_atom(b) and the_atom(b) is a: b = None
    cx.cache[key] = b
    return b


def _zero_one(a):
    """atom known to be 0 or 1: indicators, and the number of positions at which a duplicate-free index array has a given value"""
    if a.op == 'ind': return True
    if a.op != 'sum' or len(a.args[0]) != 1: return False
    d = a.args[1].d
    if len(d) != 1: return False
    (m, c), = d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return False
    i = T._byid[m[0][0]]
    if i.op != 'ind' or i.args[0] != 'eq': return False
    n = 0
    for m, c in i.args[1].d.items():
        ats = [T._byid[aid] for aid, e in m]
        if not any(_hasbnd(x) for x in ats): continue
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: return False
        x = ats[0]
        if x.op != 'app' or len(x.args) != 2: return False
        if not (T.INJ.get(x.args[0]) == (0,) or x.args[0].startswith('sel') and x.args[0].endswith('.0') and x.args[0] in C().apprng): return False
        if not (T.is_atom(x.args[1]) and T.the_atom(x.args[1]).op == 'bnd'): return False
        n += 1
    return n == 1


def _hasbnd(a):
    if a.op == 'bnd': return True
    return any(_hasbnd(b) for x in a.args if isinstance(x, T.Poly) for m in x.d for b in (T._byid[i] for i, e in m))


def bracket(kind, q):
    cx = C()
    if len(q.d) <= 2 and sum(1 for m in q.d if m) == 1:
        m = next(m for m in q.d if m)
        if len(m) == 1 and m[0][1] == 1 and T._byid[m[0][0]].op == 'sum' and _zero_one(T._byid[m[0][0]]):
            x, c0, c1 = atom_poly(T._byid[m[0][0]]), q.d.get((), 0), q.d[m]
            f = (lambda v: v <= 0) if kind == 'le' else (lambda v: v == 0)
            return {(True, True): ONE, (True, False): ONE - x, (False, True): x, (False, False): ZERO}[f(c0), f(c0 + c1)]
    if kind == 'le':
        if not q.isint: q = clear_pos(q)
        r = cx.le(q)
        if r is None:
            t = tri_le(q)
            if t is not None: return t
        return le0(q) if r is None else (ONE if r else ZERO)
    r = cx.eq(q)
    if r is not None: return ONE if r else ZERO
    s = split_eq(q)
    if s is not None:
        out = ONE
        for x in s: out = out * bracket('eq', x)
        return out
    return eq0(q)


def clear_pos(p):
    """multiply p by its non-negative denominators (divisors are non-zero by assumption): p <= 0 keeps its truth value"""
    cx = C()
    for _ in range(4):
        low = {}
        for m, c in p.d.items():
            for aid, e in m:
                a = T._byid[aid]
                if e < 0: low[aid] = min(low.get(aid, 0), e)
                elif a.op == 'inv' and a.args[0].mono1() and False: low[aid] = e
        hit = None
        for aid, e in low.items():
            a = T._byid[aid]
            if cx.nonneg_atom(a) or cx._knownnonneg(a): hit = (aid, e); break
            if e % 2 == 0: hit = (aid, e); break
        if hit is None: return p
        p = norm(p * Poly({((hit[0], -hit[1]),): Fr(1)}))
        if p.const() is not None: return p
    return p


def dec_le(p): return bracket('le', P(p))
def dec_lt(p):
    p = P(p)
    b = lt0(p)
    return norm(b)
def dec_eq(p): return bracket('eq', P(p))


def split_eq(p):
    """mixed radix: p = n*A + B with |B| < n  ->  A == 0 and B == 0"""
    cx = C()
    if not p.isint or not _intc(p): return None
    # candidate radices: monomials of size symbols (no ranged symbol) dividing some monomials
    cands = set()
    for m, c in p.d.items():
        if not m: continue
        size = tuple((aid, e) for aid, e in m if T._byid[aid].op == 'sym' and T._byid[aid] not in cx.ranges and e > 0)
        if size and size != m: cands.add(size)
        if size == m: cands.add(size)
        if abs(c) > 1: cands.add((int(abs(c)),))
    for s in sorted(cands, key=str):
        A, B = divide(p, s)
        if not A.d or not B.d or A.const() is not None and B.const() is not None: continue
        n = P(s[0]) if isinstance(s[0], int) else Poly({s: Fr(1)})
        if cx.le(B - n + 1) and cx.le(-B - n + 1):
            return [A, B]
    return tri_eq(p)


def tri_eq(p):
    """position of entries in a lower triangle: with y <= x < n and v <= u < n,
    n*y - y*(y+1)/2 + x == n*v - v*(v+1)/2 + u  only if  y == v and x == u  (lemma `triangular numbering`, an obligation of C03)"""
    r = tri_match(p)
    return None if r is None else [r[0] - r[2], r[1] - r[3]]


def tri_le(p):
    """n*y - y*(y+1)/2 + x <= n*v - v*(v+1)/2 + u  iff  y < v or (y == v and x <= u)   (same lemma)"""
    for t in (0, 1):
        r = tri_match(p - t)
        if r is not None:
            y, x, v, u = r
            return norm(bracket('le', norm(y - v + 1)) + bracket('eq', norm(y - v)) * bracket('le', norm(x - u + t)))
    return None


def tri_match(p):
    """(y, x, v, u) with p = k*(position of (x, y) - position of (u, v)), k > 0"""
    if len(p.d) < 4: return None
    sq = [(T._byid[m[0][0]], c) for m, c in p.d.items() if len(m) == 1 and m[0][1] == 2 and T._byid[m[0][0]].op == 'sym']
    if len(sq) < 2 or len(sq) > 3: return None
    for (ya, cy) in sq:
        if cy > 0: continue
        for (va, cv) in sq:
            if cv + cy != 0: continue
            r = _tri_match(p.scale(-1 / cy), ya, va)
            if r is not None: return r
            # columns counted from the right
            for a in (ya, va):
                rg = C().ranges.get(a)
                if rg is None: continue
                rev = {a: rg[1] - 1 + rg[0] - atom_poly(a)}
                r = _tri_match(norm(T.subst_raw(p, rev)).scale(-1 / cy), ya, va)
                if r is not None: return tuple(T.subst_raw(x, rev) for x in r)
    return None


def _tri_match(q, ya, va):
    cx = C()
    y, v = atom_poly(ya), atom_poly(va)
    def lin(a):
        out = {}
        for m, c in q.d.items():
            e = dict(m).get(a.id, 0)
            if e == 1: out[tuple(x for x in m if x[0] != a.id)] = c
            elif e > 1 and (len(m) > 1 or e != 2): return None
        return Poly(out)
    ly, lv = lin(ya), lin(va)
    if ly is None or lv is None: return None
    def ok(b, x): return cx.le(b - x) and cx.le(x - n + 1)
    for e1 in (0, 1):
        for e2 in (0, 1):
            n = (ly + 1).scale(Fr(1, 2)) - e1
            if (n + e2 - (1 - lv).scale(Fr(1, 2))).d or ya in n.fv or va in n.fv: continue
            R = (q - (n * y.scale(2) - y * y - y) + (n * v.scale(2) - v * v - v)).scale(Fr(1, 2)) - y.scale(e1) + v.scale(e2)
            if ya in R.fv or va in R.fv: continue
            pos = [y] if e1 else [Poly({m: Fr(1)}) for m, c in R.d.items() if m and c == 1]
            neg = [v] if e2 else [Poly({m: Fr(1)}) for m, c in R.d.items() if m and c == -1]
            for x in pos:
                for u in neg:
                    rest = R - (ZERO if e1 else x) + (ZERO if e2 else u)
                    for sx, su in ((ZERO, -rest), (rest, ZERO), (P(-1), -rest - 1), (rest - 1, P(-1)), (P(1), 1 - rest), (rest + 1, P(1))):
                        if ok(y, x + sx) and ok(v, u + su): return y, x + sx, v, u + su
    return None


def divide(p, s):
    """p = n*A + B by monomials divisible by s"""
    A, B = {}, {}
    if isinstance(s[0], int):
        n = s[0]
        for m, c in p.d.items():
            q, r = divmod(int(c), n) if m == () or abs(c) >= n else (0, int(c))
            if c % n == 0: A[m] = Fr(c / n)
            else: B[m] = c
        return Poly({m: c for m, c in A.items() if c}), Poly(B)
    for m, c in p.d.items():
        d = dict(m)
        ok = True
        for aid, e in s:
            if d.get(aid, 0) >= e:
                d[aid] -= e
                if d[aid] == 0: del d[aid]
            else: ok = False
        if ok: A[tuple(sorted(d.items()))] = c
        else: B[m] = c
    return Poly(A), Poly(B)


# ---------------------------------------------------------------- div / mod
def intvalued(p, d):
    """is p/d an integer for all integer values of the symbols (polynomial p with integer coefficients)?"""
    vs = sorted(p.fv, key=lambda a: a.id)
    if any(a.op not in ('sym', 'bnd') for m in p.d for aid, e in m for a in [T._byid[aid]]) or len(vs) > 4 or d > 6: return False
    for vals in itertools.product(range(d), repeat=len(vs)):
        env = dict(zip([a.id for a in vs], vals))
        tot = 0
        for m, c in p.d.items():
            t = int(c)
            for aid, e in m: t *= env[aid] ** e
            tot += t
        if tot % d: return False
    return True


def idiv(p, q):
    """floor division"""
    p, q = norm(P(p)), norm(P(q))
    pc, qc = p.const(), q.const()
    if qc == 1 and _intc(p): return p
    if qc is not None and pc is not None: return P(pc // qc)
    cx = C()
    # clear denominators
    l = 1
    for c in p.d.values(): l = l * c.denominator // T.math.gcd(l, c.denominator)
    for c in q.d.values(): l = l * c.denominator // T.math.gcd(l, c.denominator)
    if l > 1: p, q = p.scale(l), q.scale(l)
    qc = q.const()
    if qc is not None and qc.denominator == 1 and qc > 0 and intvalued(p, int(qc)): return p.scale(1 / qc)
    # p = q*A + B with 0<=B<q
    s = q.mono1()
    if s:
        c, m = s
        if m and c == 1: A, B = divide(p, m)
        elif not m and c > 1: A, B = divide(p, (int(c),))
        elif m and c > 1:
            A, B = divide(p, m)
            A1 = Poly({mm: cc / c for mm, cc in A.d.items() if (cc / c).denominator == 1})
            B = p - q * A1
            A = A1
        else: A, B = ZERO, p
        if cx.le(-B) and cx.le(B - q + 1): return A
        if cx.le(-B - q) and cx.le(B + 1): return A - 1   # -q <= B < 0
        if A.d and not (B is p): return A + T.intdiv_atom(B, q)
    else:
        if cx.le(-p) and cx.le(p - q + 1): return ZERO
        # try exact quotient by polynomial long division on one variable
        qt = polydiv(p, q)
        if qt is not None: return qt
        # leading-term guess: p = q*A + B
        for a in sorted(q.fv, key=lambda a: a.id):
            qr = polydivmod(p, q, a)
            if qr and qr[0].d:
                A, B = qr
                if cx.le(-B) and cx.le(B - q + 1): return A
    return T.intdiv_atom(p, q)


def polydivmod(p, q, a):
    """divide w.r.t. variable a when the leading coefficient of q in a is constant"""
    def deg(r):
        return max([dict(m).get(a.id, 0) for m in r.d] or [0])
    dq = deg(q)
    if dq == 0: return None
    def lead(r, d):
        return Poly({tuple(x for x in m if x[0] != a.id): c for m, c in r.d.items() if dict(m).get(a.id, 0) == d})
    lq = lead(q, dq).const()
    if lq is None: return None
    A, R = ZERO, p
    for _ in range(8):
        d = deg(R)
        if not R.d or d < dq: break
        t = lead(R, d).scale(1 / lq) * atom_poly(a) ** (d - dq)
        A, R = A + t, R - t * q
    return A, R


def polydiv(p, q):
    for a in sorted(q.fv, key=lambda a: a.id):
        r = polydivmod(p, q, a)
        if r and not r[1].d and _intc(r[0]): return r[0]
    return None


def imod(p, q):
    p, q = norm(P(p)), norm(P(q))
    return p - q * idiv(p, q)


T.DIV_HOOK[0] = lambda p, q: idiv(p, q)

# ---------------------------------------------------------------- sums
MAXUNROLL = 12
SEL_HOOK = None
_depth = [0]


def mk_sum(binders, body):
    """sum over binders (sym atom, hi) of body; returns a normalised Poly"""
    cx = C()
    if not body.d: return ZERO
    binders = [(s, norm(h)) for s, h in binders]
    _depth[0] += 1
    if _depth[0] > 60:
        _depth[0] = 0
        raise Unsupported('sum nesting')
    try:
        out = ZERO
        cx.push()
        try:
            for s, h in binders: cx.rng(s, 0, h)
            nb = norm(body)
        finally:
            cx.pop()
        for m, c in nb.d.items():
            out = out + sum_mono(list(binders), Poly({m: Fr(1)})).scale(c)
        return out
    finally:
        _depth[0] -= 1


T.SUM_HOOK[0] = mk_sum


def sum_mono(binders, mono):
    """binders scoped; mono a single monomial with coefficient one, already normalised under the binder ranges"""
    cx = C()
    if not binders: return mono
    bset = {s for s, _ in binders}
    # zero-size / unit-size / concrete binders
    for i, (s, h) in enumerate(binders):
        c = h.const()
        if c is not None:
            if c <= 0: return ZERO
            if c <= MAXUNROLL or s not in mono.fv:
                if not (bset & set()) and s not in mono.fv and not any(s in hh.fv for _, hh in binders):
                    return mk_sum(binders[:i] + binders[i + 1:], mono).scale(c)
                out = ZERO
                for v in range(int(c)):
                    mp = {s: P(v)}
                    out = out + mk_sum([(x, T.subst_raw(y, mp)) for x, y in binders[:i] + binders[i + 1:]], T.subst_raw(mono, mp))
                return out
    (_, m), = [(c, m) for m, c in mono.d.items()]
    # factor independent atoms
    ind, dep = ONE, []
    for aid, e in m:
        a = T._byid[aid]
        if a.fv & bset: dep.append((a, e))
        else: ind = ind * Poly({((aid, e),): Fr(1)})
    if ind is not ONE:
        inner = ONE
        for a, e in dep: inner = inner * Poly({((a.id, e),): Fr(1)})
        return ind * mk_sum(binders, inner)
    # delta elimination on equality brackets
    for a, e in dep:
        if a.op == 'ind' and a.args[0] == 'eq':
            r = tri_delta(binders, mono, a)
            if r is not None: return r
    for a, e in dep:
        if a.op == 'ind' and a.args[0] == 'eq':
            r = elim_delta(binders, mono, a)
            if r is not None: return r
    for a, e in dep:
        if a.op == 'ind' and a.args[0] == 'le':
            r = elim_range(binders, mono, a)
            if r is not None: return r
    # two values of one term: the same value twice
    eqs = [a for a, e in dep if a.op == 'ind' and a.args[0] == 'eq']
    for i, a in enumerate(eqs):
        for b in eqs[i + 1:]:
            for d in (a.args[1] - b.args[1], a.args[1] + b.args[1]):
                if not d.fv & bset: return bracket('eq', norm(d)) * mk_sum(binders, _div_atom(mono, b))
    # flatten nested sums
    for a, e in dep:
        if a.op == 'sum' and e >= 1:
            bs, body = open_sum(a)
            rest = _div_atom(mono, a)
            return mk_sum(binders + bs, body * rest)
    if SEL_HOOK:
        r = SEL_HOOK(binders, mono, dep)
        if r is not None: return r
    # split binders with div/mod structure
    for a, e in dep:
        r = block_split(binders, mono, a)
        if r is not None: return r
    # unused binder: multiply by its size (must be non-negative)
    for i, (s, h) in reversed(list(enumerate(binders))):
        if s not in mono.fv and not any(s in hh.fv for _, hh in binders):
            rest = binders[:i] + binders[i + 1:]
            cx.push()
            for ss, hh in rest: cx.rng(ss, 0, hh)
            try: nn = cx.le(-h)
            finally: cx.pop()
            f = h if nn else ite(le0(-h), h, ZERO)
            return mk_sum(rest, f * mono)
    # polynomial summation (Faulhaber) when the innermost binder occurs only polynomially
    for i, (s, h) in reversed(list(enumerate(binders))):
        if any(s in hh.fv for _, hh in binders): continue
        if all((a is s) or (s not in a.fv) for a, e in dep):
            deg = dict((a, e) for a, e in dep).get(s, 0)
            if deg == 0 or deg > 6: continue
            rest = binders[:i] + binders[i + 1:]
            co = _div_atom_all(mono, s)
            cx.push()
            for ss, hh in rest: cx.rng(ss, 0, hh)
            try: nn = cx.le(-h)
            finally: cx.pop()
            f = faulhaber(deg, h)
            f = f if nn else ite(le0(-h), f, ZERO)
            return mk_sum(rest, f * co)
    # connected components
    comps = components(binders, dep)
    if len(comps) > 1:
        out = ONE
        for bs, atoms in comps:
            b = ONE
            for a, e in atoms: b = b * Poly({((a.id, e),): Fr(1)})
            out = out * mk_sum(bs, b)
        return out
    return atom_poly(T.raw_sum(binders, mono))


def components(binders, dep):
    par = {s: s for s, _ in binders}
    def find(x):
        while par[x] is not x: x = par[x]
        return x
    for s, h in binders:
        for b in h.fv:
            if b in par: par[find(s)] = find(b)
    for a, e in dep:
        bs = [b for b in a.fv if b in par]
        for b in bs[1:]: par[find(b)] = find(bs[0])
    groups = {}
    for s, h in binders: groups.setdefault(find(s), ([], []))[0].append((s, h))
    for a, e in dep:
        b = [b for b in a.fv if b in par][0]
        groups[find(b)][1].append((a, e))
    return list(groups.values())


def _div_atom(mono, a):
    (m, c), = mono.d.items()
    d = dict(m)
    d[a.id] -= 1
    if not d[a.id]: del d[a.id]
    return Poly({tuple(sorted(d.items())): c})


def _div_atom_all(mono, a):
    (m, c), = mono.d.items()
    d = dict(m)
    d.pop(a.id, None)
    return Poly({tuple(sorted(d.items())): c})


_faul = {}


def faulhaber(d, h):
    """sum_{k<h} k^d"""
    if d not in _faul:
        import sympy
        n, k = sympy.symbols('n k')
        e = sympy.Poly(sympy.summation(k ** d, (k, 0, n - 1)), n)
        _faul[d] = [(mm[0], Fr(int(c.p), int(c.q))) for mm, c in e.terms()]
    out = ZERO
    for e, c in _faul[d]: out = out + (h ** e).scale(c)
    return out


def linear_in(p, s):
    """p = co*s + rest with s not in co/rest, else None"""
    co, rest = {}, {}
    for m, c in p.d.items():
        e = 0
        mm = []
        for aid, ee in m:
            b = T._byid[aid]
            if b is s: e = ee
            elif s in b.fv: return None
            else: mm.append((aid, ee))
        if e == 0: rest[m] = c
        elif e == 1: co[tuple(mm)] = co.get(tuple(mm), 0) + c
        else: return None
    return Poly({k: v for k, v in co.items() if v}), Poly(rest)


def tri_delta(binders, mono, a):
    """triangular equation under the sibling conditions of the same term"""
    if sum(1 for m in a.args[1].d if len(m) == 1 and m[0][1] == 2) != 2: return None
    cx = C()
    cx.push()
    try:
        for s, h in binders: cx.rng(s, 0, h)
        (m, _), = mono.d.items()
        for aid, e in m:
            b = T._byid[aid]
            if b.op == 'ind' and b.args[0] == 'le': cx.assume_le(b.args[1])
        r = tri_eq(a.args[1])
    finally: cx.pop()
    if r is None: return None
    body = _div_atom(mono, a)
    for x in r: body = body * dec_eq(norm(x))
    return mk_sum(binders, body)


def elim_delta(binders, mono, a):
    p = a.args[1]
    # prefer binders that others' ranges do not depend on... choose last usable
    for i, (s, h) in reversed(list(enumerate(binders))):
        if s not in p.fv: continue
        lr = linear_in(p, s)
        if lr is None: continue
        co, rest = lr
        c = co.const()
        if c is None: continue
        e = rest.scale(-1 / c)
        if not (e.isint and _intc(e)):
            if not e.isint: continue
            d = 1
            for cc in e.d.values(): d = d * cc.denominator // T.math.gcd(d, cc.denominator)
            if not intvalued(e.scale(d), d): continue
        # later binders whose ranges depend on s, or e depends on a binder later than s whose hi depends on s: skip
        if any(b in e.fv and s in hh.fv for b, hh in binders): continue
        rest_b = binders[:i] + binders[i + 1:]
        # e may depend on binders after s in order: reorder so that s goes last conceptually (its hi must not depend on them)
        mp = {s: e}
        body = T.subst_raw(_div_atom(mono, a), mp)
        guard = le0(-e) * lt0(e - h)
        return mk_sum([(x, T.subst_raw(y, mp)) for x, y in rest_b], guard * body)
    return pairing_decode(binders, mono, a)


def pairing_decode(binders, mono, a):
    """[f(k1,k2..) == target] where f is injective and the target is f at a known tuple of index symbols:
    find the tuple by matching (renaming ranged symbols), prove injectivity, substitute."""
    cx = C()
    p = a.args[1]
    bs = [s for s, _ in binders if s in p.fv]
    if not bs or len(bs) > 3: return None
    hyp = {s: h for s, h in binders}
    part = Poly({m: c for m, c in p.d.items() if any(b in bs for aid, e in m for b in T._byid[aid].fv)})
    rest = p - part
    others = [x for x in cx.order if x not in hyp and x in p.fv and x.sort == 'I']
    for sign in (1, -1):
        for tup in itertools.permutations(others, len(bs)):
            mp = {b: atom_poly(t) for b, t in zip(bs, tup)}
            for shift in _shifts(len(bs)):
                mp2 = {b: mp[b] + sh for b, sh in zip(bs, shift)}
                if T.subst_raw(p, mp2) is not ZERO: continue
                # ranges of the candidate must be provable
                ok = True
                for b in bs:
                    h = T.subst_raw(hyp[b], mp2)
                    if not (cx.le(-mp2[b]) and cx.le(mp2[b] - h + 1)): ok = False
                if not ok: continue
                if not injective(bs, [hyp[b] for b in bs], p, mp2): continue
                body = T.subst_raw(_div_atom(mono, a), mp2)
                return mk_sum([(x, T.subst_raw(y, mp2)) for x, y in binders if x not in bs], body)
    return None


def _shifts(n):
    yield (0,) * n
    for v in itertools.product((0, 1, -1), repeat=n):
        if any(v): yield v


_inj = {}


def injective(bs, his, p, at):
    """p(bs)=0 has no other solution in range than `at`: lexicographic monotonicity argument.
    For the outermost binder k1 (others depending on it): for k1 < k1*, p(k1,max..) stays strictly on one side, for k1 > k1* on
    the other side, for k1 = k1* recursive.  Proved with z3 (nonlinear) on the difference."""
    cx = C()
    z = at
    x = {b: atom_poly(the_atom(fresh('u', 'I'))) for b in bs}
    cx.push()
    try:
        for b, h in zip(bs, his):
            cx.rng(x[b], 0, T.subst_raw(h, x))
        q = T.subst_raw(p, x)
        cx.assume_eq(q)
        # try: each coordinate equal
        for b in bs:
            for s in (1, -1):
                d = (x[b] - z[b]).scale(s)
                # show d >= 1 impossible
                if cx.check([('le', 1 - d)]) != 'unsat': 
                    if not mono_refute(cx, bs, his, p, x, z, b, s): return False
        return True
    finally:
        cx.pop()


def mono_refute(cx, bs, his, p, x, z, b, s):
    return False


def elim_range(binders, mono, a):
    """bracket [p<=0] linear in a binder with unit coefficient: tighten the range"""
    cx = C()
    p = a.args[1]
    for i, (s, h) in reversed(list(enumerate(binders))):
        if s not in p.fv: continue
        lr = linear_in(p, s)
        if lr is None: continue
        co, rest = lr
        c = co.const()
        if c is None or not (rest.isint and _intc(rest)) or c.denominator != 1: continue
        if any(b in rest.fv and b is not s and binders.index((b, hh)) > i and False for b, hh in binders): continue
        dependents = [b for b, hh in binders if s in hh.fv]
        if any(b in rest.fv for b in dependents): continue
        others = binders[:i] + binders[i + 1:]
        cx.push()
        for ss, hh in others:
            if s not in hh.fv: cx.rng(ss, 0, hh)
        try:
            if c > 0:
                # c*s + rest <= 0  <=>  s <= floor(-rest/c)  -> new hi = floor(-rest/c)+1
                e = (idiv(-rest, P(c)) if c != 1 else -rest) + 1
                dec_small = cx.le(e - h)       # e <= h
                dec_big = cx.le(h - e)
                pos = cx.le(-e)
            else:
                # s >= ceil(rest/-c) = e
                e = rest if c == -1 else idiv(rest - c.numerator * 0 + (-c) - 1, P(-c))
                low = cx.le(e)
                pos = cx.le(-e)
                fits = cx.le(e - h)
        finally:
            cx.pop()
        body = _div_atom(mono, a)
        if c > 0:
            if dec_big: return mk_sum(binders, body)
            if dec_small:
                nb = binders[:i] + [(s, e)] + binders[i + 1:]
                if pos is False: return ZERO
                return mk_sum(_reorder(nb), body)
            # undecided: split
            big = le0(h - e)
            nb = binders[:i] + [(s, e)] + binders[i + 1:]
            o_fv = {b for b, _ in binders}
            if (e.fv | h.fv) & o_fv - {s}:
                return None
            return big * mk_sum(binders, body) + (ONE - big) * mk_sum(nb, body)
        else:
            if low: return mk_sum(binders, body)
            if pos:
                k = the_atom(fresh('s'))
                mp = {s: atom_poly(k) + e}
                nb = [(x, T.subst_raw(y, mp)) if x is not s else (k, h - e) for x, y in binders]
                if fits is False: return ZERO
                return mk_sum(_reorder(nb), T.subst_raw(body, mp))
            if (e.fv | h.fv) & ({b for b, _ in binders} - {s}): return None
            neg = le0(e)
            k = the_atom(fresh('s'))
            mp = {s: atom_poly(k) + e}
            nb = [(x, T.subst_raw(y, mp)) if x is not s else (k, h - e) for x, y in binders]
            return neg * mk_sum(binders, body) + (ONE - neg) * mk_sum(nb, T.subst_raw(body, mp))
    return None


def _reorder(bs):
    """topological order: a binder after those its range depends on"""
    out, left = [], list(bs)
    while left:
        for b in left:
            if not any(o[0] in b[1].fv for o in left if o is not b):
                out.append(b)
                left.remove(b)
                break
        else:
            raise Unsupported('cyclic binder ranges')
    return out


def _divs(a, acc):
    if a.op == 'div': acc.append(a)
    if a.op in ('sym', 'bnd'): return
    for x in a.args:
        if isinstance(x, Poly):
            for m in x.d:
                for aid, e in m: _divs(T._byid[aid], acc)


def block_split(binders, mono, a):
    """binder s with div(s.., q): when hi = q*m split s = q*u + v"""
    acc = []
    _divs(a, acc)
    for d in acc:
        p, q = d.args
        for i, (s, h) in enumerate(binders):
            lr = linear_in(p, s)
            if lr is None or lr[0].const() is None or s in q.fv: continue
            A, B = None, None
            if q.const() is not None:
                qc = int(q.const())
                ok = all(c % qc == 0 for c in h.d.values())
                A = h.scale(Fr(1, qc)) if ok else None
            elif q.mono1() and q.mono1()[0] == 1:
                A, B = divide(h, q.mono1()[1])
                if B.d: A = None
            else:
                A = polydiv(h, q)
            if A is None: continue
            if any(s in hh.fv for _, hh in binders): continue
            u, v = the_atom(fresh('u')), the_atom(fresh('v'))
            mp = {s: atom_poly(u) * q + atom_poly(v)}
            nb = binders[:i] + [(u, A), (v, q)] + binders[i + 1:]
            return mk_sum(_reorder(nb), T.subst_raw(mono, mp))
    return None


# ---------------------------------------------------------------- proving equalities
class Result:
    def __init__(self, ok, how='', residual=None, case=None, model=None):
        self.ok, self.how, self.residual, self.case, self.model = ok, how, residual, case, model


def brackets_of(p, acc=None, top=True):
    if acc is None: acc = {}
    for m, c in p.d.items():
        for aid, e in m:
            a = T._byid[aid]
            _br(a, acc)
    return acc


def _br(a, acc):
    if a.op == 'ind':
        acc[a] = acc.get(a, 0) + 1
        return
    if a.op in ('sym', 'bnd', 'sum'): return
    for x in a.args:
        if isinstance(x, Poly): brackets_of(x, acc)


def clear_inv(p):
    """multiply out inv(..) atoms and negative powers; sound for p == 0 when denominators are non-zero"""
    for _ in range(6):
        den = None
        for m, c in p.d.items():
            for aid, e in m:
                a = T._byid[aid]
                if a.op == 'inv':
                    den = ('inv', a)
                    break
                if e < 0:
                    den = ('neg', a)
                    break
            if den: break
        if not den: return p
        kind, a = den
        if kind == 'inv':
            k = max(dict(m).get(a.id, 0) for m in p.d)
            out = ZERO
            q = a.args[0]
            for m, c in p.d.items():
                d = dict(m)
                e = d.pop(a.id, 0)
                out = out + Poly({tuple(sorted(d.items())): c}) * q ** (k - e)
        else:
            k = max(-dict(m).get(a.id, 0) for m in p.d)
            out = p * Poly({((a.id, k),): Fr(1)})
        p = out
    return p


def prove_zero(p, depth=0, budget=None):
    """prove p == 0 under the current context"""
    cx = C()
    if budget is None: budget = [400, time.time() + 40]
    p = norm(p)
    if not p.d: return Result(True, 'normal form')
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]: return Result(False, 'budget', p, list(cx.facts))
    br = brackets_of(p)
    br = {a: n for a, n in br.items() if not any(b.op == 'bnd' for b in a.fv)}
    if br and depth < 14:
        a = max(br, key=lambda x: (br[x], -x.id))
        kind, q = a.args
        res = None
        for val in (True, False):
            cx.push()
            try:
                lits = [(kind, q)] if val else [_neg(kind, q)]
                tight = []
                for k, pp in lits:
                    if k == 'le':
                        cx.assume_le(pp)
                        if pp.isint and cx.le(-pp) is True:
                            cx.assume_eq(pp)
                            tight.append(pp)
                    elif k == 'eq': cx.assume_eq(pp)
                    elif k == 'lt':
                        cx.nonzero.add(pp)
                        cx.assume_le(pp)
                        cx._touch()
                    else: cx.nonzero.add(pp); cx._touch()
                forced = ONE if val else ZERO
                if cx.check([]) == 'unsat':
                    continue
                p2 = force(p, a, forced)
                if val and kind == 'eq':
                    r = subst_eq(p2, q)
                    if r is not None: p2 = r
                for e in tight:
                    r = subst_eq(p2, e)
                    if r is not None: p2 = r
                res = prove_zero(p2, depth + 1, budget)
                if not res.ok: return res
            finally:
                cx.pop()
        return Result(True, 'cases')
    q = clear_inv(p)
    if q is not p:
        q = norm(q)
        if not q.d: return Result(True, 'denominators')
    # equalities in context as rewriting
    for e in cx.eqs:
        r = subst_eq(p, e)
        if r is not None and r is not p:
            res = prove_zero(r, depth + 1, budget)
            if res.ok: return res
    if not any(T._byid[aid].op in ('sum',) for m in q.d for aid, e in m) and len(q.d) < 60:
        if cx.check([('ne', q)]) == 'unsat': return Result(True, 'z3')
    return Result(False, 'residual', p, [str(f) for f in cx.facts] + [str(f) + '==0' for f in cx.eqs])


def force(p, a, val):
    return T.subst_raw(p, {}) if a is None else _force(p, a, val, {})


def _force(p, a, val, memo):
    r = memo.get(p)
    if r is not None: return r
    def fa(x):
        if x is a: return val
        if x.op in ('sym', 'bnd', 'sum'): return None
        if a.fv <= x.fv or not a.fv:
            return T.rebuild_atom(x, lambda y: _force(y, a, val, memo))
        return None
    r = rewrite(p, fa)
    memo[p] = r
    return r


def subst_eq(p, e):
    """use e == 0 to eliminate a symbol occurring linearly with unit coefficient"""
    best = None
    for m, c in e.d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = T._byid[m[0][0]]
            if a.op == 'sym' and a in p.fv:
                rest = e - Poly({m: c})
                if a in rest.fv: continue
                if best is None or a.id > best[0].id: best = (a, rest.scale(-1 / c))
    if best is None:
        # a count with a known value
        for m, c in e.d.items():
            if len(m) == 1 and m[0][1] == 1 and T._byid[m[0][0]].op == 'sum':
                rest = e - Poly({m: c})
                if rest.const() is not None and any(m[0][0] == aid for mm in p.d for aid, _ in mm): return norm(force(p, T._byid[m[0][0]], rest.scale(-1 / c)))
        return None
    return T.subst_raw(p, {best[0]: best[1]})


def new_ctx():
    _cur[0] = Ctx()
    T._fresh = itertools.count()
    return _cur[0]
