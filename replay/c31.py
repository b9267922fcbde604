from util import *
from src.identification import run, run3ph
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from src.models import matrix_operations as mo


def cases(rng, tier):
    for k in range(90 if tier == 'quick' else 900):
        kind = rng.choice(['lasso', 'lasso3', 'complex', 'complex', 'known'])
        yield dict(kind=kind, lap=rng.random() < .5, n=rng.choice([29, 30, 32]) if kind == 'known' else rng.choice([2, 3, 4, 5, 7]), diag=rng.random() < .3, each=rng.random() < .7, reg=rng.random() < .2,
                   type=rng.choice(['optimal', 'optimal', 'suboptimal', 'suboptimal', 'optimal wrong', 'suboptimal wrong']), sparse=rng.random() < .6, lam=rng.choice([20, 200, .5]), sym=rng.random() < .5, seed=rng.randrange(10 ** 6))


def pairs(n, lap):
    """(row, column) of every parameter: lower triangle column by column"""
    return [(i, j) for j in range(n) for i in range(j + (1 if lap else 0), n)]


def rows(p, start=0):
    L, mu, g = dense(p.L)[start:], np.asarray(p.mu).reshape(-1)[start:], np.asarray(p.gamma).reshape(-1)[start:]
    shape(mu, (L.shape[0],), 'centres')
    shape(g, (L.shape[0],), 'orders')
    return L, mu, g


def match(got, want, what, extra=None):
    """every wanted row (up to sign) is there once; the others satisfy extra"""
    L, mu, g = got
    A = np.hstack([L, mu[:, None]])
    left = list(range(len(A)))
    for r, name in want:
        r = np.asarray(r, dtype=float)
        if left:
            d = np.minimum(np.abs(A[left] - r).max(axis=1), np.abs(A[left] + r).max(axis=1))
            k = int(np.argmin(d))
        if not left or d[k] > 1e-8 * np.abs(r).max():
            raise AssertionError('%s: no row %s' % (what, name))
        true(g[left[k]] == 1, '%s: order of row %s' % (what, name))
        left.pop(k)
    for k in left:
        if extra is None or not extra(A[k]): raise AssertionError('%s: unexpected row %s' % (what, A[k][np.nonzero(A[k])[0]]))


def check(c):
    n, lap = c['n'], c['lap']
    P = pairs(n, lap)
    m = len(P)
    y = mat(n, n, 'c')
    if c['sym']: y = y + y.T
    if c['diag'] and c['kind'] == 'complex':
        y = y + y.T
        y = y - np.diag(y.sum(axis=1))      # the diagonal carries the negated off-diagonal sum
    ys = (y + y.T) / 2
    y0 = y.copy()
    par = np.array([-ys[a] if lap else ys[a] for a in P])
    full = np.r_[par.real, par.imag]
    N = 2 * m
    def unit(k, v):
        r = np.zeros(N + 1)
        r[k] = v
        return r
    if c['kind'].startswith('lasso'):
        if c['kind'] == 'lasso': p = run.build_lasso_prior(n, y, lap)
        else:
            if lap: DT, E = mo.duplication_matrix(n) @ mo.transformation_matrix(n), mo.elimination_lap_matrix(n) @ mo.elimination_sym_matrix(n)
            else: DT, E = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
            p = run3ph.build_lasso_prior(n, y, E, DT)
        same(y, y0, 'estimate of the caller', 0)
        true(p.n == N, 'parameter count')
        match(rows(p), [(unit(k, 1 / abs(full[k])), 'of parameter %d' % k) for k in range(N)], 'lasso prior')
        return
    if c['kind'] == 'complex':
        reg = c['reg'] and not lap and c['each']
        p = run.build_complex_prior(n, c['lam'], y, lap, c['diag'], c['each'], reg)
        same(y, y0, 'estimate of the caller', 0)
        true(p.n == N, 'parameter count')
        off = [k for k in range(m) if P[k][0] != P[k][1]]
        want = [(unit(k, 1 / abs(full[k])), 'of parameter %d' % k) for h in (0, m) for k in [h + q for q in off]]
        def contrast(ks, v, name):
            r = np.zeros(N + 1)
            r[ks] = c['lam'] / v
            r[N] = c['lam']
            want.append((r, name))
        for h in (0, m):
            if c['each']:
                for a in range(n):
                    ks = [h + k for k in off if a in P[k]]
                    contrast(ks, full[ks].sum(), 'contrasting row %d' % a)
            else:
                ks = [h + k for k in off]
                contrast(ks, full[ks].sum(), 'contrasting all parameters')
        dg = [h + k for h in (0, m) for k in range(m) if P[k][0] == P[k][1]]
        match(rows(p), want, 'complex prior', (lambda r: all(k in dg or k == N for k in np.nonzero(r)[0])) if reg else None)
        return
    # known lines
    nodes = [0, 25, 26] if c['type'].startswith('optimal') else [7, 20, 21]
    lines = [(0, 1), (24, 25), (25, 26), (26, 27), (26, 28)] if c['type'].startswith('optimal') else [(6, 7), (7, 8), (19, 20), (20, 21), (21, 22)]
    for a in nodes:     # the documented nodes have no other line
        for b in range(n):
            if b != a and (min(a, b), max(a, b)) not in lines: y[a, b] = y[b, a] = 0
    y = (y + y.T) / 2
    y0 = y.copy()
    p = (SparseSmoothPrior if c['sparse'] else SmoothPrior)(1e-8, N)
    k0 = int(np.random.randint(0, 3))
    if k0: p.add_adaptive_sparsity_prior(np.arange(k0), np.random.uniform(.5, 2, k0), SmoothPrior.LAPLACE)
    L0, mu0, g0 = (k.copy() for k in rows(p))
    q = run.add_known_lines(n, p, c['lam'], y, lap, c['type'])
    same(y, y0, 'exact admittances of the caller', 0)
    L, mu, g = rows(q)
    same(L[:k0], L0, 'earlier rows', 0)
    same(mu[:k0], mu0, 'earlier centres', 0)
    seen = []
    for r, u in zip(L[k0:], mu[k0:]):
        s = np.nonzero(r)[0]
        true(len(s) == 1, 'a known-line row has %d parameters' % len(s))
        k = int(s[0])
        a, b = P[k % m]
        true((a in nodes or b in nodes) and a != b, 'prior knowledge on line %d-%d' % (a, b))
        v = -y[a, b] if lap else y[a, b]
        v = v.real if k < m else v.imag
        if 'wrong' not in c['type']: true(abs(u / r[k] - v) <= 1e-9 * max(abs(v), 1e-3), 'centre of line %d-%d is %r instead of %r' % (a, b, u / r[k], v))
        seen.append(k)
    want = [h + k for h in (0, m) for k, (a, b) in enumerate(P) if a != b and (a in nodes or b in nodes)]
    true(sorted(seen) == want, 'documented lines are missing or repeated')
