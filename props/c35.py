"""standard (and Bayesian) identification stages: data and settings handed to the estimators, order of the results"""
from .stages import *

ASSUME = STORE + ['ComplexRegression.fit, TotalLeastSquares.fit, BayesianRegression.fit and BayesianEIVRegression.fit are used through their contracts (C12 to C18)',
                  'build_lasso_prior and build_complex_prior are used through their contracts (C31)']


def setup(h, L, modname):
    s = type('Env', (), {})()
    s.store = Store(L)
    s.mod = L.load(modname)
    s.log = []
    s.n, s.T = h.size('n', 2), h.size('T', 1)
    mat = lambda nm: (lambda est, d, k: h.array('%s#%d' % (nm, k) if k else nm, (s.n, s.n), 'c'))
    s.b = opaque_builders(h)
    C = lambda kind, nm, fn, fd, i=(), idf=None, ex=None: recorder(h, s.log, kind, fn, fd, i, idf, mat(nm), ex)
    hist = lambda est, d, k: dict(iterations=Objects([object(), object()]))
    s.pri = []
    L.fakes['conf.identification'].__dict__.update(use_tls_diag=object(), contrast_each_row=object(), regularize_diag=object())
    dflt = dict(lambda_value=None, abs_tol=None, rel_tol=None, max_iterations=None, verbose=True, dt_matrix_builder=None, e_matrix_builder=None)
    names = dict(s.b, ComplexRegression=C('OLS', 'yols', ('x', 'y'), None), TotalLeastSquares=C('TLS', 'ytls', ('x', 'y'), None),
                 BayesianRegression=C('LASSO', 'ylasso', ('x', 'z', 'y_init'), dict(y_init=None), PRIOR_INIT, dflt),
                 BayesianEIVRegression=C('EIV', 'yeiv', ('x', 'z', 'x_weight', 'z_weight', 'y_init'), dict(x_weight=None, z_weight=None, y_init=None), PRIOR_INIT, dflt, hist))
    install(L, s.mod, names)
    quiet(s.mod)
    return s


class Stored:
    """a sparse covariance with arbitrary stored values"""
    def __init__(self, h, k):
        self.data0 = self.data = h.array('stored%d' % k, (h.size('nnz%d' % k),), 'f', pos=True)


def of(s, kind): return [e for e in s.log if e.kind == kind]


def one(h, s, kind):
    es = of(s, kind)
    h.true('one %s estimator, fitted once' % kind, len(es) == 1 and len(es[0].fits) == 1)
    return es[0] if len(es) == 1 and len(es[0].fits) == 1 else None


def settings(h, est, conf, lam, maxit, prior):
    d = est.init
    h.true('regularised estimator uses the prior built from the initial estimate', d['prior'] is prior)
    h.eq('penalty weight', d['lambda_value'], lam)
    h.eq('absolute tolerance', d['abs_tol'], conf.abs_tol)
    h.eq('relative tolerance', d['rel_tol'], conf.rel_tol)
    h.eq('iteration limit', d['max_iterations'], maxit)


def run(B, L):
    B.functions |= {'identification.run.standard_methods', 'identification.run3ph.standard_methods', 'identification.run.bayesian_eiv'}
    conf = L.load('conf.identification')

    for modname in ('src.identification.run', 'src.identification.run3ph'):
        for lap in (False, True):
            for verbose in (False, True):
                def body(h, modname=modname, lap=lap, verbose=verbose):
                    s = setup(h, L, modname)
                    np = L.np
                    x, z = h.array('V', (s.T, s.n), 'c'), h.array('I', (s.T, s.n), 'c')
                    maxit = h.int('maxit', 1)
                    tok = object()

                    def prior(nodes, y_ols, *rest):
                        h.eq('prior for the number of nodes', nodes, s.n)
                        s.pri.append(y_ols.copy())
                        if modname.endswith('3ph'):
                            E, DT = rest
                            D, Tm, Es, El = (s.b[k](s.n) for k in ('duplication_matrix', 'transformation_matrix', 'elimination_sym_matrix', 'elimination_lap_matrix'))
                            h.eq_arr('prior with the elimination matrix of the parametrisation', E, El @ Es if lap else Es)
                            h.eq_arr('prior with the reconstruction matrix of the parametrisation', DT, D @ Tm if lap else D)
                        else: h.true('prior of the requested parametrisation', rest[0] is lap)
                        return tok
                    install(L, s.mod, dict(build_lasso_prior=prior))
                    conf.lambda_lasso = h.real('lambda_lasso')
                    conf.abs_tol, conf.rel_tol = h.real('abs_tol'), h.real('rel_tol')
                    out = s.mod.standard_methods('net', x, z, None, lap, maxit, verbose)
                    xc, zc = centred(np, x, z, lap)
                    o, t, l = one(h, s, 'OLS'), one(h, s, 'TLS'), one(h, s, 'LASSO')
                    if not (o and t and l): return
                    for e, nm in ((o, 'ordinary'), (t, 'total'), (l, 'sparse')):
                        h.eq_arr('voltages given to the %s regression' % nm, e.fits[0]['x'], xc)
                        h.eq_arr('currents given to the %s regression' % nm, e.fits[0]['z' if e is l else 'y'], zc)
                    settings(h, l, conf, conf.lambda_lasso, maxit, tok)
                    if h.true('one prior', len(s.pri) == 1): h.eq_arr('prior built from the least-squares estimate', s.pri[0], o._res)
                    builders_match(h, s.b, l.init['dt_matrix_builder'], l.init['e_matrix_builder'], lap)
                    h.eq_arr('sparse regression starts from the symmetrised least-squares estimate', l.fits[0]['y_init'], (o._res + o._res.T) / 2)
                    if h.true('three results', len(out) == 3):
                        for v, e, nm in zip(out, (o, t, l), ('ordinary', 'total', 'sparse')): h.eq_arr('%s estimate in its place' % nm, v, e._res)
                    h.unchanged('voltages of the caller', x)
                    h.unchanged('currents of the caller', z)
                B.verify('%s standard_methods[laplacian=%s, verbose=%s]' % (modname.split('.')[-1], lap, verbose), body)

    for lap in (False, True):
        for weighted in (False, True):
            for pmu in ((True, False) if weighted else (True,)):
                def body(h, lap=lap, weighted=weighted, pmu=pmu):
                    s = setup(h, L, 'src.identification.run')
                    np = L.np
                    x, z, y0 = h.array('V', (s.T, s.n), 'c'), h.array('I', (s.T, s.n), 'c'), h.array('Y0', (s.n, s.n), 'c')
                    rat = h.array('ratings', (s.n,))
                    sdv, sdi = (S(h.real(a + '_m').re, h.real(a + '_p').re, 'c') for a in ('sdv', 'sdi'))
                    maxit = h.int('maxit', 1)
                    tok, cov = object(), []

                    def prior(nodes, lam, y, laplacian=False, tls_diag=False, rows=True, diag=False):
                        h.eq('prior for the number of nodes', nodes, s.n)
                        h.true('prior of the requested parametrisation', laplacian is lap)
                        h.eq_arr('prior built from the initial estimate', y, y0)
                        h.eq('relative weight of the prior', lam, conf.lambdaprime)
                        return tok

                    def noise(which):
                        def f(m, sm, sp, inverted=False):
                            r = Stored(h, len(cov))
                            cov.append((which, m.copy(), sm, sp, inverted, r))
                            return r
                        return f
                    install(L, s.mod, dict(build_complex_prior=prior, average_true_noise_covariance=noise('average'), naive_noise_covariance=noise('naive')))
                    for k in ('lambda_eiv', 'lambdaprime', 'abs_tol', 'rel_tol'): setattr(conf, k, h.real(k))
                    out = s.mod.bayesian_eiv('net', x, z, None, sdv, sdi, rat, y0, None, lap, weighted, maxit, pmu, False)
                    a, b = x, z
                    if weighted and not pmu: a, b = np.abs(x), z * x.conj() / np.abs(x)
                    xc, zc = centred(np, a, b, lap)
                    e = one(h, s, 'EIV')
                    if not e: return
                    f = e.fits[0]
                    h.eq_arr('voltages given to the error-in-variables regression', f['x'], xc)
                    h.eq_arr('currents given to the error-in-variables regression', f['z'], zc)
                    h.eq_arr('initial estimate', f['y_init'], y0)
                    settings(h, e, conf, conf.lambda_eiv, maxit, tok)
                    builders_match(h, s.b, e.init['dt_matrix_builder'], e.init['e_matrix_builder'], lap)
                    if not weighted: h.true('no weights', f['x_weight'] is None and f['z_weight'] is None and not cov)
                    elif pmu and h.true('two covariances', len(cov) == 2):
                        for (w, m, sm, sp, inv, r), src, sd, rt, key in ((cov[0], x, sdv, None, 'x_weight'), (cov[1], z, sdi, rat, 'z_weight')):
                            h.true('averaged covariance, inverted', w == 'average' and inv is True)
                            h.eq_arr('covariance of the measurements themselves', m, src)
                            if rt is None: h.eq('magnitude deviation', sm, S(sd.re))
                            else: h.eq_arr('magnitude deviation scaled by the ratings', sm, S(sd.re) * rat)
                            h.eq('phase deviation', sp, S(sd.im))
                            h.true('weights are the inverse covariances', f[key] is r and r.data is r.data0)
                    elif h.true('two covariances', len(cov) == 2):
                        # magnitudes and phases relative to the voltage of the same sensor
                        (w, m, sm, sp, inv, r), (w1, m1, sm1, sp1, inv1, r1) = cov
                        h.true('linearised covariances', w == w1 == 'naive' and inv is False and inv1 is True)
                        h.eq_arr('covariance of the voltage magnitudes', m, np.abs(x))
                        h.eq('magnitude deviation', sm, S(sdv.re))
                        h.eq('phase deviation', sp, S(sdv.im) * 100)
                        h.eq_arr('covariance of the currents', m1, z)
                        h.eq_arr('magnitude deviation scaled by the ratings', sm1, S(sdi.re) * rat)
                        h.eq('phase deviation of the currents', sp1, S(sdi.im))
                        h.true('weights are built from the covariances of their own measurements', f['x_weight'] is r and f['z_weight'] is r1)
                        h.eq_arr('stored voltage covariances are inverted one by one', r.data, 1 / r.data0)
                        h.true('current weights are used as returned', r1.data is r1.data0)
                    h.eq_arr('identified matrix is returned', out[0], e._res)
                    h.true('history is returned', len(out) == 2 and list(out[1]) == list(e.iterations))
                    for q, nm in ((x, 'voltages'), (z, 'currents'), (y0, 'initial estimate'), (rat, 'ratings')): h.unchanged('%s of the caller' % nm, q)
                B.verify('bayesian_eiv[laplacian=%s, weighted=%s, phases=%s]' % (lap, weighted, pmu), body)
