"""runtime contracts of the iterative estimators: every recorded iteration is compared with the equations of the property"""
from util import *
import scipy.linalg
from src.models.regression import ComplexRegression, BayesianRegression
from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from src.models import matrix_operations as mo


def vec_(m): return np.asarray(m).flatten('F')
def unvec_(v, n): return np.reshape(v, (n, n), 'F')
def rv(v): return np.r_[np.real(v), np.imag(v)]
def cv(v): return v[:len(v) // 2] + 1j * v[len(v) // 2:]
def rm(m): return np.block([[m.real, -m.imag], [m.imag, m.real]])


def dtmat(kind, n):
    """reconstruction and elimination matrices, written independently of matrix_operations"""
    if kind == 'none': return np.eye(n * n), np.eye(n * n)
    low = [(i, j) for j in range(n) for i in range(j, n)]
    off = [(i, j) for j in range(n) for i in range(j + 1, n)]
    if kind == 'sym':
        D, E = np.zeros((n * n, len(low))), np.zeros((len(low), n * n))
        for k, (i, j) in enumerate(low):
            D[i + n * j, k] = D[j + n * i, k] = 1
            E[k, i + n * j] += .5; E[k, j + n * i] += .5
        return D, E
    D, E = np.zeros((n * n, len(off))), np.zeros((len(off), n * n))
    for k, (i, j) in enumerate(off):
        D[i + n * j, k] = D[j + n * i, k] = -1
        D[i + n * i, k] += 1; D[j + n * j, k] += 1
        E[k, i + n * j] -= .5; E[k, j + n * i] -= .5
    return D, E


def builders(kind, own):
    if own:
        return (lambda n: dtmat(kind, n)[0]), (lambda n: dtmat(kind, n)[1])
    if kind == 'none': return None, None
    if kind == 'sym': return mo.duplication_matrix, mo.elimination_sym_matrix
    return (lambda n: mo.duplication_matrix(n) @ mo.transformation_matrix(n)), (lambda n: mo.elimination_lap_matrix(n) @ mo.elimination_sym_matrix(n))


class Recorder:
    """hands out the answers of a real prior and records them"""
    def __init__(self, p): self.p, self.calls = p, []

    def log_distribution(self, x):
        M, mu, pen = self.p.log_distribution(x)
        self.calls.append((np.array(x), dense(M).astype(float), np.array(mu).ravel(), float(pen)))
        return M, mu, pen


def netdata(T, n, kind, noise):
    """well-conditioned data around a network of the requested structure"""
    r = np.random
    y = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(i):
            g = r.uniform(.5, 2) - 1j * r.uniform(.5, 2)
            y[i, j] = y[j, i] = -g
            y[i, i] += g; y[j, j] += g
    if kind != 'lap': y = y + np.diag(r.uniform(.2, 1, n))
    if kind == 'none': y = y + .3 * mat(n, n, 'c')
    x = mat(T, n, 'c') + .2
    z = x @ y
    return x + noise * mat(T, n, 'c'), z + noise * mat(T, n, 'c'), y


def fcases(rng, tier, eiv, q=120, full=4000, kinds=('none', 'sym', 'lap')):
    for k in range(q if tier == 'quick' else full):
        yield dict(kind=rng.choice(kinds), T=rng.randint(6, 11), n=rng.choice([2, 2, 3, 4]), own=rng.random() < .6, sparse=rng.random() < .5,
                   eiv=eiv, weights=rng.choice(['dense', 'csr', 'csc']), full=rng.random() < .5, lam=rng.choice([1e-3, .05, .7]), maxit=rng.choice([1, 2, 3, 4, 6]),
                   noise=rng.choice([0., 1e-3, .05]), again=rng.random() < .35, verbose=rng.random() < .15, tol=rng.choice([(1e-12, 1e-12), (1e-12, 1e-12), (1e-1, 1e-12), (1e-12, 1e-1), (1e-6, 1e-3)]),
                   order=rng.choice([1, 2, 0]), lasso=rng.random() < .7, seed=rng.randrange(10 ** 6))


def spd(N, full):
    """symmetric positive definite weights; full ones couple every pair of entries"""
    d = np.random.uniform(.5, 2, N)
    W = np.diag(d)
    if full:
        C = mat(N, max(2, N // 3))
        W = W + .1 * C @ C.T / N
    return W.astype(np.float32).astype(float)


def build(c):
    """model, arguments and recorder of a case"""
    n, T = c['n'], c['T']
    x, z, y = netdata(T, n, c['kind'], c['noise'])
    y0 = (y + .2 * mat(n, n, 'c'))
    D, E = dtmat(c['kind'], n)
    q = 2 * D.shape[1]
    p = (SparseSmoothPrior if c['sparse'] else SmoothPrior)(1e-3, q)
    if c['lasso']: p.add_sparsity_prior(np.arange(q), np.random.uniform(.3, 2, q), c['order'])
    p.add_exact_prior(np.array([0, q - 1]), np.array([.7, -.4]), np.array([1., 2.]), 2)
    rec = Recorder(p)
    dt, e = builders(c['kind'], c['own'])
    cls = BayesianEIVRegression if c['eiv'] else BayesianRegression
    kw = {} if dt is None else dict(dt_matrix_builder=dt, e_matrix_builder=e)
    m = cls(rec, lambda_value=c['lam'], abs_tol=c['tol'][0], rel_tol=c['tol'][1], max_iterations=c['maxit'], verbose=c['verbose'], **kw)
    W = [None, None]
    if c['eiv'] == 'weighted':
        N = 2 * T * n
        W = [spd(N, c['full']), 3 * spd(N, c['full'])]
    return m, rec, x, z, y0, D, E, W


def run(c):
    m, rec, x, z, y0, D, E, W = build(c)
    import io, contextlib
    with contextlib.redirect_stderr(io.StringIO()): return run_(c, m, rec, x, z, y0, D, E, W)


def run_(c, m, rec, x, z, y0, D, E, W):
    if c['again']:
        xa, za, ya = netdata(c['T'], c['n'], c['kind'], .1)
        m.fit(*([xa, za] + (W if c['eiv'] else []) + [ya]))
        rec.calls.clear()
    cast = (lambda a: a) if c['weights'] == 'dense' else (lambda a: None if a is None else sps.csr_matrix(a) if c['weights'] == 'csr' else sps.csc_matrix(a))
    Wc = [cast(a) for a in W]
    keep = [a.copy() for a in (x, z, y0)]
    m.fit(*([x, z] + (Wc if c['eiv'] else []) + [y0]))
    for a, k in zip((x, z, y0), keep): same(a, k, 'inputs after fit')
    for a, k in zip(Wc, W):
        if k is not None: same(a, k, 'weights after fit')
    return m, rec, x, z, y0, D, E, W


def history(m, c, y0=None):
    its = list(m.iterations)
    true(1 <= len(its) <= c['maxit'], 'history has %d entries with limit %d' % (len(its), c['maxit']))
    for k, e in enumerate(its): true(e.iteration == k, 'history entry %d is numbered %s' % (k, e.iteration))
    same(its[-1].fitted_parameters, m.fitted_admittance_matrix, 'last history entry against the returned matrix', tol=1e-12)
    return its


def stopping(m, c):
    its = [e.target_function for e in m.iterations]
    a, r = c['tol']
    def stat(k):
        d = abs(its[k] - its[k - 1])
        return its[k - 1] >= its[k] and (d < a or d < r * abs(its[k - 1]))
    for k in range(1, len(its)):
        if not np.isfinite(its[k]) or its[k - 1] == 0: raise Skip
        if stat(k) != (k == len(its) - 1):
            if k == len(its) - 1 and len(its) == c['maxit']: continue
            raise AssertionError('targets %s with tolerances %s, limit %d: %s at iteration %d' % (its, c['tol'], c['maxit'], 'went on' if stat(k) else 'stopped', k))
    true(len(its) == c['maxit'] or len(its) > 1 and stat(len(its) - 1), 'stopped after %d of %d iterations without meeting the criterion (targets %s, tolerances %s)' % (len(its), c['maxit'], its, c['tol']))


def residual(Am, y, bv, what, tol=1e-6):
    s = np.abs(Am) @ np.abs(y) + np.abs(bv)
    d = np.abs(Am @ y - bv)
    if np.any(~(d <= tol * max(1e-12, s.max()))): raise AssertionError('%s: residual %g against %g' % (what, d.max(), s.max()))


def equations(c, m, rec, x, z, y0, D, E, W):
    """the property's equations at every recorded iteration"""
    n, T = c['n'], c['T']
    its = history(m, c)
    calls = rec.calls
    true(len(calls) >= len(its) + 1, 'prior evaluated %d times for %d iterations' % (len(calls), len(its)))
    same(calls[0][0], rv(E @ vec_(y0)), 'parameters of the first prior evaluation', tol=1e-6)
    calls = calls[-len(its) - 1:]
    a, b = rv(vec_(x)), rv(vec_(z))
    Y = y0
    tol = 1e-5
    for k, e in enumerate(its):
        y = calls[k + 1][0]
        _, M, mu, _ = calls[k]
        pen = calls[k + 1][3]
        if c['eiv'] == 'weighted':
            Wx, Wz = W
            Yb = rm(np.kron(Y, np.eye(T)))
            S = Yb.T @ Wz @ Yb
            sysm = S + Wx
            if np.linalg.cond(sysm) > 1e8: raise Skip
            d = np.linalg.solve(sysm, S @ a - Yb.T @ Wz @ b)
            xc = x - np.reshape(cv(d), (T, n), 'F')
        elif c['eiv']:
            N = np.vstack([Y, -np.eye(n)])
            Pj = np.eye(2 * n) - N @ np.linalg.solve(N.conj().T @ N, N.conj().T)
            xc = (np.hstack([x, z]) @ Pj)[:, :n]
            d = rv(vec_(x - xc))
        else: xc = x
        Bm = rm(np.kron(np.eye(n), xc) @ D)
        Wb = W[1] if c['eiv'] == 'weighted' else np.eye(len(b))
        Am, bv = Bm.T @ Wb @ Bm + c['lam'] * M, Bm.T @ Wb @ b + c['lam'] * mu
        if np.linalg.cond(Am) > 1e8: raise Skip
        residual(Am, y, bv, 'normal equations at iteration %d' % k, tol)
        same(y, np.linalg.solve(Am, bv), 'parameters at iteration %d' % k, tol=1e-3)
        Y = unvec_(D @ cv(y), n)
        same(e.fitted_parameters, Y, 'recorded matrix at iteration %d' % k, tol=1e-6)
        r = b - Bm @ y
        t = r @ Wb @ r + c['lam'] * pen
        if c['eiv'] == 'weighted': t += d @ W[0] @ d
        elif c['eiv']: t += d @ d
        t = abs(t)
        if not abs(e.target_function - t) <= 1e-4 * max(t, 1e-6): raise AssertionError('target at iteration %d is %r instead of %r' % (k, e.target_function, t))
