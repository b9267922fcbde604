"""Invariant-based verification of the estimators' fit loops.

The loop is cut at its head: on one path it runs no iteration, on the other an arbitrary iteration number `it` starts from an
arbitrary state satisfying the invariant
    history has `it` entries, entry j is numbered j; the prior terms in use are prior.log_distribution(current parameters);
    the current matrix is an arbitrary n-by-n matrix; everything else assigned before the loop is as it was before it.
The invariant is checked on entry and re-established at the end of the body; leaving the loop happens by `break` or after the
last iteration.  Variables are recognised by the values they hold, not by their names."""
from .prove import *
from .npfake import *
from . import mx as M


class Prior:
    """stand-in for a prior: log_distribution is an arbitrary function of the parameters"""
    def __init__(self, h):
        self.h, self.calls = h, []

    def log_distribution(self, y):
        y = arr(y)
        for c in self.calls:
            if c['y'] is y or c['key'] == M.leaf_key(y): return c['M'], c['mu'], c['pen']
        p = y.shape_[0]
        k = len(self.calls)
        c = dict(y=y, key=M.leaf_key(y), M=self.h.array('M#%d' % k, (p, p)), mu=self.h.array('mu#%d' % k, (p,)), pen=self.h.real('pen#%d' % k))
        self.calls.append(c)
        return c['M'], c['mu'], c['pen']

    def find(self, y):
        k = M.leaf_key(arr(y))
        return next((c for c in self.calls if c['key'] == k), None)


class FitSpec:
    always = False

    def __init__(self, h, model, prior, n, y0, on_end, status):
        self.h, self.model, self.prior, self.n = h, model, prior, n
        self.y0 = y0            # expected parameters before the first iteration (array)
        self.on_end = on_end    # callback(self) at the end of the body
        self.status = status
        self.ran = False
        self.broke = None

    def attrs(self): return {k: v for k, v in self.model.__dict__.items()}

    # ---- classification of the variables alive at the loop head
    def role(self, v):
        if v is UNDEF or isinstance(v, Poison): return 'undef'
        last = self.prior.calls[-1]
        for r in ('M', 'mu', 'pen'):
            if v is last[r]: return r
        if isinstance(v, A):
            if v is last['y'] or v.ndim == 1 and same_dim(v.shape_[0], last['y'].shape_[0]) is True and M.leaf_key(v) == last['key']: return 'y'
            if v.ndim == 2 and same_dim(v.shape_[0], self.n) is True and same_dim(v.shape_[1], self.n) is True: return 'mat'
        return 'const'

    def iterate(self, ctl):
        h = self.h
        self.pre = {k: v for k, v in ctl.pre.items()}
        if len(self.prior.calls) != 1: raise Unsupported('prior evaluated %d times before the loop' % len(self.prior.calls))
        h.eq_arr('prior evaluated at the initial parameters', self.prior.calls[0]['y'], self.y0)
        hist = self.model.iterations
        if not isinstance(hist, SList) or hist.sym: raise Unsupported('history is not a list')
        h.true('history is empty when the iterations start', len(list(hist)) == 0)
        self.hist = hist
        self.roles = {k: self.role(v) for k, v in self.pre.items()}
        self.limit = ctl.n
        if EXP_choose(2) == 0:                # no iteration at all
            C().assume_le(P(self.limit))
            self.phase = 'none'
            return
        self.phase = 'body'
        self.ran = True
        self.it = fresh('it', 'I')
        C().rng(self.it, 0, P(self.limit))
        old = self.prior.calls[0]
        self.y_prev = h.array('yprev', old['y'].shape_)
        self.M, self.mu, self.pen = self.prior.log_distribution(self.y_prev)
        self.mat = h.array('Yprev', (self.n, self.n), 'c')
        self.prev_target = lambda k: S(app('target_prev', [k]))
        C().appnn.add('target_prev')         # targets are absolute values
        ms, it = self.status, self.it
        matj = lambda k: A((self.n, self.n), 'c', lambda i, j: S(app('Yhist', [k, i, j]), app('Yhisti', [k, i, j]), 'c'))
        list.clear(hist)
        hist.sym = (it, lambda k: ms(S(P(k), ZERO, 'i'), matj(P(k)), self.prev_target(P(k))))
        self.attr0 = self.attrs()
        self.ev0 = len(NP.EVENTS)
        Y.FREEZE[0] = next(Y._oid)
        yield S(self.it, ZERO, 'i')
        # normal end of the body
        self.ends = dict(ctl.ends)
        self.close()
        last = EXP_choose(2) == 1            # the obligations at the end of the body are the same on both paths
        if not last: self.on_end(self)
        # invariant re-established
        last = self.prior.calls[-1]
        for k, r in self.roles.items():
            v = self.ends.get(k)
            if r in ('M', 'mu', 'pen'): h.true('prior term "%s" belongs to the current parameters' % k, v is last[r])
            elif r == 'const':
                if v is not self.pre[k] and not (isnum(v) and isnum(self.pre[k]) and X.prove_zero(toS(v).re - toS(self.pre[k]).re).ok):
                    raise Unsupported('variable %s changes over the iterations' % k)
        if not last: raise StopPath()
        C().assume_eq(self.it + 1 - P(self.limit))
        self.phase = 'last'

    def close(self):
        """frame: the model object changed in nothing but its history"""
        Y.FREEZE[0] = None
        for k, v in self.attrs().items():
            if v is not self.attr0.get(k) and not (k == '_admittance_matrix' or k.startswith('_admittance')): raise Unsupported('attribute %s changes over the iterations' % k)
        if self.model.iterations is not self.hist: raise Unsupported('history object replaced')

    def events(self, kind): return [e for e in NP.EVENTS[self.ev0:] if e[0] == kind]

    def head(self, ctl, name, th):
        v = self.pre.get(name, UNDEF)
        r = self.roles.get(name)
        return dict(M=lambda: self.M, mu=lambda: self.mu, pen=lambda: self.pen, y=lambda: self.y_prev, mat=lambda: self.mat).get(r, lambda: v)()

    def fin(self, ctl, name, th):
        if self.phase == 'none': return self.pre.get(name, UNDEF)
        if self.phase == 'body':            # left by break
            if self.broke is None:
                self.broke = True
                self.close()
                self.phase_end = 'break'
                self.on_end(self)
            return LD.safe(th)
        return self.ends.get(name, UNDEF)


def EXP_choose(n): return Y.EXP[0].choose(n)
