"""priors of the identification: what every penalty row is, under the contracts of the prior classes (C06) and of the elimination and duplication matrices (C03, C04)"""
from .stages import *

ASSUME = ['duplication, transformation and elimination matrices are used through their contracts (C03, C04), the rows added by the prior classes through theirs (C06)',
          'known-line priors: the documented nodes have no lines other than the documented ones and the admittance matrix is symmetric']


class Pos:
    """numbering of the parameters: lower triangle column by column, with (sym) or without (lap) the diagonal"""
    def __init__(self, n, lap):
        self.n, self.lap, self.tag = n, lap, 'lap' if lap else 'sym'
        N = dp(n)
        self.m = dim(norm(X.idiv(N * (N - 1 if lap else N + 1), 2)))
        c = norm(N).const()
        if c is not None:
            self.list = [(i, j) for j in range(int(c)) for i in range(j + (1 if lap else 0), int(c))]
            self.index = {a: k for k, a in enumerate(self.list)}
        else: self.list = None
        if 1:
            C().apprng['pcol' + self.tag] = lambda k: (ZERO, N)
            C().apprng['prow' + self.tag] = lambda k: (norm(self.rc(k)[1] + (1 if lap else 0)), N)
            C().apprng['ppos' + self.tag] = lambda *a: (ZERO, dp(self.m))
            C()._touch()

    def rc(self, k):
        k = norm(P(k))
        if self.list is not None:
            c = k.const()
            if c is None: return app('prow' + self.tag, [k], 'I'), app('pcol' + self.tag, [k], 'I')
            return tuple(P(x) for x in self.list[int(c)])
        if T.is_atom(k):
            a = T.the_atom(k)
            if a.op == 'app' and a.args[0] == 'ppos' + self.tag: return a.args[1], a.args[2]
        return app('prow' + self.tag, [k], 'I'), app('pcol' + self.tag, [k], 'I')

    def pos(self, i, j):
        """position of the parameter of the unordered pair"""
        i, j = norm(P(i)), norm(P(j))
        if self.list is not None:
            if i.const() is None or j.const() is None: return app('ppos' + self.tag, [i, j], 'I')
            return P(self.index[max(int(i.const()), int(j.const())), min(int(i.const()), int(j.const()))])
        if C().le(j - i) is not True:
            if C().le(i - j) is not True: raise Unsupported('order of two nodes')
            i, j = j, i
        if T.is_atom(i) and T.is_atom(j):
            a, b = T.the_atom(i), T.the_atom(j)
            if a.op == b.op == 'app' and a.args[0] == 'prow' + self.tag and b.args[0] == 'pcol' + self.tag and norm(a.args[1] - b.args[1]) is ZERO: return a.args[1]
        return app('ppos' + self.tag, [i, j], 'I')


class Lin:
    """a matrix known by what it does to a vector"""
    def __init__(self, rows, cols, f, kind='f'): self.rows, self.cols, self.f, self.kind = rows, cols, f, kind
    @property
    def shape(self): return (self.rows, self.cols)
    def __matmul__(self, o):
        if isinstance(o, Lin):
            if Y.same_dim(self.cols, o.rows) is not True: raise ShapeError('matmul of %s and %s' % (self.shape, o.shape))
            return Lin(self.rows, o.cols, lambda v: self.f(o.f(v)), Y.kmax(self.kind, o.kind))
        v = arr(o)
        if v.ndim == 2 and Y._is_one(v.shape_[1]): return (self @ v[:, 0])[:, None]
        if v.ndim != 1: raise Unsupported('structure matrix times a matrix')
        r = Y.same_dim(self.cols, v.shape_[0])
        if r is False: raise ShapeError('matmul of %s and %s' % (self.shape, v.shape_))
        if r is None: raise Unsupported('matmul of %s and %s' % (self.shape, v.shape_))
        return self.f(v.copy())
    dot = __matmul__
    def __rmul__(self, s):
        if not isnum(s): raise Unsupported('scaling of a structure matrix')
        return Lin(self.rows, self.cols, lambda v: self.f(v) * s, 'c' if toS(s).kind == 'c' else self.kind)
    __mul__ = __rmul__
    def __truediv__(self, s): return self * (1 / s)
    def __neg__(self): return self * -1
    def copy(self): return self
    tocsr = tocsc = toarray = todense = copy


def vec_of(m, v, el):
    return A((m,), v.kind if v.kind == 'c' else 'f', lambda k: toS(el(P(k))))


def builders():
    def sq(n): return dim(norm(dp(n) * dp(n)))
    at = lambda v, i: toS(v.get((norm(P(i)),)))

    def dup(n):
        s, N = Pos(n, False), dp(n)
        def f(v):
            def el(q):
                j = norm(X.idiv(q, N))
                return at(v, s.pos(norm(q - j * N), j))
            return vec_of(sq(n), v, el)
        return Lin(sq(n), s.m, f)

    def esym(n):
        s, N = Pos(n, False), dp(n)
        def f(v):
            def el(k):
                r, c = s.rc(k)
                return (at(v, r + N * c) + at(v, c + N * r)) / 2
            return vec_of(s.m, v, el)
        return Lin(s.m, sq(n), f)

    def tra(n):
        s, l = Pos(n, False), Pos(n, True)
        def f(v):
            def el(k):
                r, c = s.rc(k)
                e = C().eq(norm(r - c))
                if e is None: raise Unsupported('diagonal or not')
                if not e: return -at(v, l.pos(r, c))
                if s.list is None: raise Unsupported('diagonal of a matrix of arbitrary size')
                out = toS(0)
                for b in range(int(norm(dp(n)).const())):
                    if norm(P(b) - r) is not ZERO: out = toS(out + at(v, l.pos(r, P(b))))
                return out
            return vec_of(s.m, v, el)
        return Lin(s.m, l.m, f)

    def elap(n):
        s, l = Pos(n, False), Pos(n, True)
        def f(v): return vec_of(l.m, v, lambda k: -at(v, s.pos(*l.rc(k))))
        return Lin(l.m, s.m, f)
    return dict(duplication_matrix=dup, transformation_matrix=tra, elimination_sym_matrix=esym, elimination_lap_matrix=elap)


def matrices(n, lap):
    b = builders()
    if lap: return b['elimination_lap_matrix'](n) @ b['elimination_sym_matrix'](n), b['duplication_matrix'](n) @ b['transformation_matrix'](n)
    return b['elimination_sym_matrix'](n), b['duplication_matrix'](n)


class Rows:
    """a prior seen through the contract of C06: every added row is a residual sum(coefficients*parameters) - centre, with its order"""
    LAPLACE, GAUSS = 1, 2
    def __init__(self, h, n, watch=None): self.__dict__.update(h=h, n=n, rows=[], watch=watch)
    def __setattr__(self, k, v): raise Unsupported('attribute %s of a prior' % k)

    def put(self, kind, indices, values, weights, orders, f):
        if self.watch is not None: return self.watch(kind, indices, values, weights, orders)
        ix = arr(indices)
        if kind != 'contrast': ix = ix[:, None]
        k, w = dconst(ix.shape_[0]), dconst(ix.shape_[1])
        if k is None or w is None: raise Unsupported('number of rows of a prior')
        def per(v, t, one=1):
            if v is None: return toS(one)
            if isnum(v): return toS(v)
            v = arr(v)
            if v.ndim == 0: return toS(v.get(()))
            if not self.h.shape('one value per row', v, (k,)): raise StopPath()
            return toS(v.get((P(t),)))
        for t in range(k):
            pr = []
            for j in range(w):
                c = norm(toS(ix.get((P(t), P(j)))).re).const()
                if c is None: raise Unsupported('unknown parameter in a row')
                pr.append(int(c))
            coef, mid = f(per(values, t), per(weights, t))
            o = norm(per(orders, t).re).const()
            self.rows.append((pr, toS(coef), toS(mid), o))
        return self

    def add_sparsity_prior(self, indices, weights=None, orders=2): return self.put('sparsity', indices, None, weights, orders, lambda v, w: (w, 0))
    def add_adaptive_sparsity_prior(self, indices, values, orders=2): return self.put('adaptive', indices, values, None, orders, lambda v, w: (1 / v, 0))
    def add_exact_prior(self, indices, values, weights=None, orders=2): return self.put('exact', indices, values, weights, orders, lambda v, w: (w, w * v))
    add_exact_adaptive_prior = add_exact_prior
    def add_contrast_prior(self, indices, values, weights=None, orders=2): return self.put('contrast', indices, values, weights, orders, lambda v, w: (w / v, w))

    def key(self): return sorted(tuple(sorted(r[0])) for r in self.rows)


def zero(p): return X.prove_zero(norm(p)).ok


def match(h, what, prior, want, extra=None):
    """every wanted (parameters, coefficient, centre) is one row, up to sign; the other rows satisfy extra"""
    left = list(prior.rows)
    for ps, coef, mid, nm in want:
        c = [r for r in left if sorted(r[0]) == sorted(ps)]
        same = [r for r in c if zero(r[1].re - toS(coef).re) and zero(r[2].re - toS(mid).re) or zero(r[1].re + toS(coef).re) and zero(r[2].re + toS(mid).re)]
        r = (same or c or [None])[0]
        if not h.true('%s: there is a row %s' % (what, nm), r is not None): return
        left.remove(r)
        if not same:
            h.eq('%s: coefficient of the row %s, relative to its centre' % (what, nm), r[1] * toS(mid), toS(coef) * r[2])
            h.eq('%s: coefficient of the row %s, up to sign' % (what, nm), r[1] * r[1], toS(coef) * toS(coef))
        else: h.eq('%s: row %s' % (what, nm), r[1] * r[1], toS(coef) * toS(coef))
        h.true('%s: absolute values are penalised' % what, r[3] == 1)
    h.true('%s: no other rows' % what, all(extra is not None and extra(r) for r in left))


def run(B, L):
    m1, m3 = L.load('src.identification.run'), L.load('src.identification.run3ph')
    B.functions |= {'identification.run.build_lasso_prior', 'identification.run3ph.build_lasso_prior', 'identification.run.build_complex_prior', 'identification.run.build_loads_id_prior', 'identification.run.add_known_lines'}

    def setup(h, m, watch=None):
        made = []
        class Made(Rows):
            def __init__(self, smoothness_param=None, n=None): Rows.__init__(self, h, n, watch); made.append(self)
        install(L, m, dict(builders(), SparseSmoothPrior=Made, SmoothPrior=Made))
        quiet(m)
        return made

    def lasso(m, n, y, lap):
        if m is m1: return m.build_lasso_prior(n, y, lap)
        E, DT = matrices(n, lap)
        return m.build_lasso_prior(n, y, E, DT)

    # ---------------- every size: one arbitrary penalised parameter
    def generic(h, what, m, lap, call, wanted):
        n = h.size('n', 2)
        y = h.array('Y', (n, n), 'c')
        pos = Pos(n, lap)
        seen = []

        def watch(kind, indices, values, weights, orders):
            if kind not in ('adaptive', 'sparsity', 'exact'): raise StopPath() if seen else Unsupported('other rows first')
            if not h.true('%s: one penalty per parameter' % what, not seen): raise StopPath()
            seen.append(kind)
            ix = arr(indices)
            k = P(h.index(ix.shape_[0]))
            u = norm(toS(ix.get((k,))).re)
            part = Y.EXP[0].choose(3)
            mm = dp(pos.m)
            if part < 2:
                if part == 0: C().assume_le(u - mm + 1)
                else: C().assume_le(mm - u)
                r, c = pos.rc(norm(u - part * mm))
                own = (toS(y.get((r, c))) + toS(y.get((c, r)))) / 2
                own = own.real if part == 0 else own.imag
                val = arr(weights if kind == 'sparsity' else values)
                if not h.shape('%s: one value per parameter' % what, val, (ix.shape_[0],)): raise StopPath()
                v = toS(val.get((k,)))
                if kind == 'sparsity': v = 1 / v
                if kind == 'exact':
                    h.eq('%s: centred on its own exact value' % what, v, own)
                    h.true('%s: in the unit of the parameters' % what, weights is None)
                else: h.eq('%s: relative to the absolute value of its own symmetrised estimate' % what, v, abs(own))
                if isnum(orders): h.eq('%s: absolute values are penalised' % what, orders, 1)
                else: h.eq('%s: absolute values are penalised' % what, toS(arr(orders).get((k,))), 1)
                h.true('%s: the prior is over all parameters' % what, norm(dp(prior_n(m)) - 2 * mm) is ZERO)
            else:
                x = dp(h.index(dim(norm(2 * mm))))
                half = Y.EXP[0].choose(2)
                if half == 0: C().assume_le(x - mm + 1)
                else: C().assume_le(mm - x)
                r, c = pos.rc(norm(x - half * mm))
                hits = SumS([ix.shape_[0]], lambda t: S(X.dec_eq(toS(ix.get((P(t),))).re - x), ZERO, 'i'))
                h.eq('%s: which parameters are penalised' % what, hits, S(norm(wanted(r, c)), ZERO, 'i'))
            if what == 'complex prior': raise StopPath()
            return made[0]
        made = setup(h, m, watch)
        prior_n = lambda m: made[0].n
        p = call(n, y)
        h.true('%s: the prior is returned' % what, len(made) == 1 and p is made[0] and len(seen) == 1)
        h.unchanged('estimate of the caller', y)

    for m in (m1, m3):
        for lap in (False, True):
            def body(h, m=m, lap=lap): generic(h, 'lasso prior', m, lap, lambda n, y: lasso(m, n, y, lap), lambda r, c: ONE)
            B.verify('%s lasso prior, every size[laplacian=%s]' % ('three-phase' if m is m3 else 'single-phase', lap), body)
    for lap in (False, True):
        def body(h, lap=lap): generic(h, 'complex prior', m1, lap, lambda n, y: m1.build_complex_prior(n, h.real('lam'), y, lap), lambda r, c: ONE if lap else ONE - X.dec_eq(r - c))
        B.verify('complex prior, sparsity, every size[laplacian=%s]' % lap, body)

    def body(h): generic(h, 'loads prior', m1, False, lambda n, y: m1.build_loads_id_prior(n, y), lambda r, c: ONE - X.dec_eq(r - c))
    B.verify('loads prior, every size', body)

    # ---------------- bounded number of nodes, every value: all rows
    def full(n, y, lap):
        """parameters of the symmetrised estimate, real parts then imaginary parts"""
        s = Pos(n, lap)
        z = [((toS(y.get((P(i), P(j)))) + toS(y.get((P(j), P(i))))) / 2) * (-1 if lap else 1) for i, j in s.list]
        return s, [toS(a.real) for a in z] + [toS(a.imag) for a in z]
    big = B.tier != 'quick'
    for n in (2, 3, 4, 5) + ((6, 7) if big else ()):
        for lap in (False, True):
            for m in (m1, m3):
                def body(h, n=n, lap=lap, m=m):
                    made = setup(h, m)
                    y = h.array('Y', (n, n), 'c')
                    p = lasso(m, n, y, lap)
                    s, par = full(n, y, lap)
                    h.eq('number of parameters', p.n, len(par))
                    match(h, 'lasso prior', p, [((k,), 1 / abs(v), 0, 'of parameter %d' % k) for k, v in enumerate(par)])
                    h.unchanged('estimate of the caller', y)
                B.verify('%s lasso prior, %d nodes[laplacian=%s]' % ('three-phase' if m is m3 else 'single-phase', n, lap), body)
            for each in (True, False):
                for diag in (False, True):
                    for reg in (False, True) if each and not lap else (False,):
                        def body(h, n=n, lap=lap, each=each, diag=diag, reg=reg):
                            setup(h, m1)
                            Y0 = h.array('Y', (n, n), 'c')
                            y = Y0
                            if diag:       # the diagonal carries the negated off-diagonal sum
                                off = lambda i, j: toS(Y0.get((i, j))) + toS(Y0.get((j, i)))
                                def el(i, j):
                                    i, j = norm(P(i)), norm(P(j))
                                    if i.const() is None or j.const() is None: raise Unsupported('entry of an unknown position')
                                    if norm(i - j) is not ZERO: return off(i, j)
                                    r = toS(0)
                                    for b in range(n):
                                        if norm(P(b) - i) is not ZERO: r = toS(r - off(i, P(b)))
                                    return r
                                y = A((n, n), 'c', el)
                            lam = h.real('lam', pos=True)
                            p = m1.build_complex_prior(n, lam, y, lap, diag, each, reg)
                            s, par = full(n, y, lap)
                            h.eq('number of parameters', p.n, len(par))
                            q = len(s.list)
                            offd = [k for k in range(q) if s.list[k][0] != s.list[k][1]]
                            want = [((b + k,), 1 / abs(par[b + k]), 0, 'of parameter %d' % (b + k)) for b in (0, q) for k in offd]
                            groups = [('contrasting row %d' % a, [k for k in offd if a in s.list[k]]) for a in range(n)] if each else [('contrasting all parameters', offd)]
                            for b in (0, q):
                                for nm, ks in groups:
                                    tot = toS(0)
                                    for k in ks: tot = toS(tot + par[b + k])
                                    want.append((tuple(b + k for k in ks), lam / tot, lam, '%s (%s part)' % (nm, 'imaginary' if b else 'real')))
                            dg = [b + k for b in (0, q) for k in range(q) if k not in offd]
                            match(h, 'complex prior', p, want, (lambda r: set(r[0]) <= set(dg)) if reg else None)
                            h.unchanged('estimate of the caller', Y0)
                        nm = 'complex prior, %d nodes[laplacian=%s, rows=%s, diagonal=%s, regularised=%s]' % (n, lap, each, diag, reg)
                        B.verify(nm, body)
                        B.bounded.append('contrast rows: ' + nm)

    # ---------------- known lines
    for n in (29, 30) + ((33,) if big else ()):
        for lap in (False, True):
            for typ in ('optimal', 'suboptimal', 'optimal wrong', 'suboptimal wrong'):
                def body(h, n=n, lap=lap, typ=typ):
                    setup(h, m1)
                    nodes = [0, 25, 26] if typ.startswith('optimal') else [7, 20, 21]
                    lines = [(0, 1), (24, 25), (25, 26), (26, 27), (26, 28)] if typ.startswith('optimal') else [(6, 7), (7, 8), (19, 20), (20, 21), (21, 22)]
                    Y0 = h.array('Y', (n, n), 'c')
                    def el(i, j):
                        i, j = norm(P(i)).const(), norm(P(j)).const()
                        if i is None or j is None: raise Unsupported('entry of an unknown position')
                        a, b = int(min(i, j)), int(max(i, j))
                        if a != b and (a in nodes or b in nodes) and (a, b) not in lines: return toS(0)
                        return toS(Y0.get((P(b), P(a))))
                    y = A((n, n), 'c', el)
                    lam = h.real('lam', pos=True)
                    p = Rows(h, n)
                    q = m1.add_known_lines(n, p, lam, y, lap, typ)
                    h.true('the prior is returned', q is p)
                    s, par = full(n, y, lap)
                    mm = len(s.list)
                    want = sorted(b + k for b in (0, mm) for k, (i, j) in enumerate(s.list) if i != j and (i in nodes or j in nodes))
                    h.true('one row for every documented line, and no other', sorted(r[0][0] for r in p.rows if len(r[0]) == 1) == want and len(p.rows) == len(want))
                    for (k, *more), w, mid, o in p.rows:
                        h.true('absolute values are penalised', o == 1)
                        if 'wrong' in typ: continue
                        h.eq('weight of a known line', w, lam)
                        h.eq('a known line is centred on its exact value', mid, w * par[k])
                B.verify('known lines, %d nodes[laplacian=%s, %s]' % (n, lap, typ), body)
                B.bounded.append('known lines, %d nodes[laplacian=%s, %s]' % (n, lap, typ))
