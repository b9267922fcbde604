"""undelete: loop invariant over an arbitrary insertion, stated for an arbitrary inserted index and an arbitrary surviving row"""
from engine.prove import *
from engine.npfake import *
from engine import npfake as NP

ASSUME = ['numpy.sort returns the increasing rearrangement of its argument: for k distinct integers in [0, n+k) the t-th value lies in [t, n+t] and consecutive values increase']


class Inv:
    """After t insertions the array has n+t rows; the row of every index inserted so far is zero; the surviving row that ends up
    at p (between the g-1-th and the g-th inserted index, hence originally row p-g) is at position p - g + min(t, g).
    Both statements are for one arbitrary index u and one arbitrary surviving position p."""
    always = False

    def __init__(self, h, x, s, k, axis, other, which):
        self.__dict__.update(h=h, x=x, s=s, k=k, axis=axis, other=other, which=which)
        self.n, self.o = dp(x.shape_[axis]), dp(x.shape_[1 - axis])
        self.ran = False

    def at(self, t): return toS(self.s.get((P(t),))).re

    def entry(self, m, p):
        p = norm(P(p))
        return m.get((p, self.other) if self.axis == 0 else (self.other, p))

    def value(self):
        if self.which == 'zero': return S(ZERO, ZERO, self.x.kind)
        return self.entry(self.x, self.p - self.g)

    def pos(self, t):
        """position of the watched row after t insertions (None: not inserted yet)"""
        if self.which == 'zero': return None if self.case == 'before' else self.at(self.u)
        return self.p - self.g + t if self.case == 'before' else self.p

    def iterate(self, ctl):
        h, k = self.h, dp(self.k)
        self.pre = dict(ctl.pre)
        names = [v for v in self.pre.values() if isinstance(v, A) and v.ndim == 2]
        if len(names) != 1 or names[0] is not self.x: raise Unsupported('the loop does not start with the given matrix alone')
        self.m0 = names[0]
        self.ran = True
        if self.which == 'zero': self.u = P(fresh('u', 'I')); C().rng(self.u, 0, k)
        else:
            self.g, self.p = P(fresh('g', 'I')), P(fresh('p', 'I'))
            C().rng(self.g, 0, k + 1)
            C().rng(self.p, 0, self.n + k)
        body = EXP_choose(2) == 0
        if not body:
            self.case = 'after'
            self.t = k
            if self.which != 'zero': self.gap()
            self.W = self.state(k)
            self.phase = 'done'
            return
        self.phase = 'body'
        t = self.t = P(fresh('t', 'I'))
        C().rng(t, 0, k)
        if self.which == 'zero':
            self.case = ('before', 'now', 'after')[EXP_choose(3)]
            if self.case == 'before': raise StopPath()          # nothing claimed before its insertion
            if self.case == 'now': self.u = t
            else:
                C().assume_le(self.u - t + 1)
                C().assume_le(self.at(self.u) - self.at(t) + 1)       # increasing
            if self.case == 'now': self.W = self.h.array('W', self.sh(t), self.x.kind)
            else: self.W = self.state(t)
        else:
            self.case = ('before', 'after')[EXP_choose(2)]
            if self.case == 'before':
                C().assume_le(t - self.g + 1)
                self.gap()
                C().assume_le(self.at(t) + (self.g - 1 - t) - self.at(self.g - 1))     # increasing integers
            else:
                C().assume_le(self.g - t)
                self.gap()
                C().assume_le(self.at(self.g) - self.at(t))
            self.W = self.state(t)
        yield ctl.f(t)
        ends = dict(ctl.ends)
        for nme, v in self.pre.items():
            e = ends.get(nme)
            if v is self.m0: out = e
            elif v is UNDEF: continue          # assigned in the body only
            elif e is not v and not isnum(e): raise Unsupported('variable %s changes over the insertions' % nme)
        if h.shape('one more row', out, self.sh(t + 1)):
            if self.which == 'zero': h.eq('inserted row is zero', self.entry(out, self.at(self.u)), self.value())
            else: h.eq('surviving row keeps its place among the others', self.entry(out, self.pos(t + 1)), self.value())
        raise StopPath()

    def gap(self):
        """the surviving position p lies after the first g inserted indexes and before the others"""
        k = dp(self.k)
        lo, hi = EXP_choose(2), EXP_choose(2)
        if lo: C().assume_eq(self.g)
        else:
            C().assume_le(ONE - self.g)
            C().assume_le(self.at(self.g - 1) - self.p + 1)
        if hi: C().assume_eq(self.g - k)
        else:
            C().assume_le(self.g - k + 1)
            C().assume_le(self.p - self.at(self.g) + 1)

    def sh(self, t):
        return tuple(dim(norm(d)) for d in ((self.n + t, self.o) if self.axis == 0 else (self.o, self.n + t)))

    def state(self, t):
        """an arbitrary array satisfying the invariant for the watched row"""
        W = self.h.array('W', self.sh(t), self.x.kind)
        f, q, w = W.snap(), self.pos(t), self.value()
        def el(*i):
            here = norm(X.dec_eq(P(i[self.axis]) - q) * X.dec_eq(P(i[1 - self.axis]) - self.other))
            return ssel(here, w, f(*i))
        return A(W.shape_, W.kind, el)

    def head(self, ctl, name, th):
        v = self.pre.get(name, UNDEF)
        return self.W if v is self.m0 else v

    def fin(self, ctl, name, th):
        if self.phase == 'body': raise Unsupported('the loop is left early')
        v = self.pre.get(name, UNDEF)
        return self.W if v is self.m0 else v


def EXP_choose(n): return Y.EXP[0].choose(n)


def run(B, L):
    m = L.load('src.models.matrix_operations')
    B.functions |= {'matrix_operations.undelete'}
    for axis in (0, 1):
        for kind in 'fc':
            for which in ('zero', 'kept'):
                def body(h, axis=axis, kind=kind, which=which):
                    r, c, k = h.size('r', 0), h.size('c', 0), h.size('k', 1)
                    x = h.array('M', (r, c), kind)
                    n = dp((r, c)[axis])
                    idx = h.indices('idx', (k,), 0, n + dp(k), inj=(0,))
                    s = A((k,), 'i', lambda i: S(app('s', [i], 'I'), ZERO, 'i'))
                    C().apprng['s'] = lambda t: (P(t), n + P(t) + 1)
                    C()._touch()
                    NP.SORTED[idx.oid] = s
                    o = h.index((c, r)[axis])
                    sp = Inv(h, x, s, k, axis, dp(o), which)
                    LD.LOOPSPEC[lambda site, q: norm(P(q)) is norm(dp(k))] = sp
                    out = m.undelete(x, idx, axis)
                    if not sp.ran: raise Unsupported('no loop over the inserted indexes')
                    if not h.shape('result', out, sp.sh(dp(k))): return
                    if which == 'zero': h.eq('zero at every inserted index', sp.entry(out, sp.at(sp.u)), sp.value())
                    else: h.eq('other rows in their original order', sp.entry(out, sp.p), sp.value())
                    h.unchanged('matrix not modified', x)
                    h.unchanged('indexes not modified', idx)
                B.verify('axis %d, %s rows [%s]' % (axis, which, kind), body)

            def none(h, axis=axis, kind=kind):
                x = h.array('M', (h.size('r', 0), h.size('c', 0)), kind)
                h.eq_arr('nothing inserted', m.undelete(x, h.array('idx', (0,), 'i'), axis), x)
            B.verify('axis %d, no index [%s]' % (axis, kind), none)
