"""shared harness of the iterative estimators: one arbitrary iteration of the real fit() from an arbitrary admissible state"""
from engine.prove import *
from engine.npfake import *
from engine import mx as M, load as LD, ctx as X
from engine.fitspec import *


def setup(h, L, cls, weights=None, dt=None, weighted=True, own_stop=False):
    """symbolic data and a model of the given class; returns a namespace"""
    s = type('St', (), {})()
    Y.OPAQUE_DOT[0] = True
    mod = L.load('src.models.regression' if cls == 'BayesianRegression' else 'src.models.error_in_variable')
    ms = L.load('src.models.abstract_models').IterationStatus
    s.mod, s.np, s.h, s.L = mod, L.np, h, L
    s.T, s.n, s.q = h.size('T'), h.size('n'), h.size('q')
    s.x, s.z, s.y0 = h.array('x', (s.T, s.n), 'c'), h.array('z', (s.T, s.n), 'c'), h.array('y0', (s.n, s.n), 'c')
    s.DT = dt(h, s) if dt else h.array('DT', (s.n * s.n, s.q))
    s.E = h.array('E', (s.q, s.n * s.n))
    s.lam, s.atol, s.rtol = h.real('lam', pos=True), h.real('abs_tol', pos=True), h.real('rel_tol', pos=True)
    s.maxit = h.int('max_iterations', 0)
    s.prior = Prior(h)
    s.sizes = []
    def dtb(n): s.sizes.append(n); return s.DT
    def eb(n): s.sizes.append(n); return s.E
    s.m = getattr(mod, cls)(s.prior, lambda_value=s.lam, abs_tol=s.atol, rel_tol=s.rtol, max_iterations=s.maxit, verbose=False,
                            dt_matrix_builder=dtb, e_matrix_builder=eb)
    # the stopping rule has its own contract (C18); here the iterations may stop at any time
    if not own_stop and hasattr(s.m, '_is_stationary_point'): s.m._is_stationary_point = lambda *a, **k: EXP_choose(2) == 1
    s.args = [s.x, s.z]
    s.Wx = s.Wz = None
    if cls == 'BayesianEIVRegression':
        if weighted:
            N = 2 * s.T * s.n
            fmt = weights
            s.Wx, s.Wz = h.array('Wx', (N, N), 'f', fmt), h.array('Wz', (N, N), 'f', fmt)
        s.args += [s.Wx, s.Wz]
    s.args.append(s.y0)
    # initial parameters: real stack of E vec(y0)
    s.p0 = rvec(s, s.E @ vec(s.y0))
    s.ms = ms
    return s


def vec(a):
    """column-major vectorisation, written down independently of the code under verification"""
    a = arr(a)
    r, c = a.shape_
    f = a.snap()
    return A((r * c,), a.kind, lambda k: f(k - dp(r) * X.idiv(k, dp(r)), X.idiv(k, dp(r))))


def rvec(s, v):
    v = arr(v)
    n = dp(v.shape_[0])
    f = v.snap()
    def el(k):
        b = norm(lt0(k - n))
        def re(): return toS(f(k)).re
        def im(): return toS(f(norm(k - n))).im
        if b is ONE: return S(re())
        if b is ZERO: return S(im())
        return S(ite(b, re(), im()))
    return A((v.shape_[0] * 2,), 'f', el)


def cvec(s, v):
    """first half + j second half"""
    v = arr(v)
    n = dim(norm(dp(v.shape_[0]).scale(Fr(1, 2))))
    f = v.snap()
    return A((n,), 'c', lambda k: S(toS(f(k)).re, toS(f(norm(k + dp(n)))).re, 'c'))


def unvec(v, sh):
    f = arr(v).snap()
    return A(sh, arr(v).kind, lambda i, j: f(norm(i + dp(sh[0]) * j)))


def design(s, x):
    """complex design (I kron x) DT: entry [t + T c, k] = sum_i x[t, i] DT[i + n c, k]"""
    fx, fd = arr(x).snap(), s.DT.snap()
    T_, n = dp(s.T), dp(s.n)
    def el(r, k):
        c = X.idiv(r, T_)
        t = r - T_ * c
        return SumS([s.n], lambda i: toS(sbin('mul', toS(fx(norm(t), i)), toS(fd(norm(i + n * c), k)))), 'c')
    return A((s.T * s.n, s.q), 'c', el)


def rmat(s, a):
    a = arr(a)
    f = a.snap()
    r, c = dp(a.shape_[0]), dp(a.shape_[1])
    np = s.np
    return np.block([[np.real(a), -np.imag(a)], [np.imag(a), np.real(a)]])


def start(s, on_end):
    spec = FitSpec(s.h, s.m, s.prior, s.n, s.p0, on_end, s.ms)
    s.spec = spec
    lim = norm(dp(s.maxit))
    LD.LOOPSPEC[lambda site, n: norm(P(n)) is lim] = spec
    return spec


def last_entry(s):
    """the history entry appended by the arbitrary iteration"""
    h, hist = s.h, s.spec.hist
    ln = hist.length()
    h.eq('one history entry per iteration', ln, S(s.spec.it + 1, ZERO, 'i'))
    return hist[S(s.spec.it, ZERO, 'i')]
