from util import *
import os, tempfile
from pathlib import Path
from conf import conf, identification
from src.identification import run, run3ph
from src.models import regression, error_in_variable
from src.models.regression import ComplexRegression, BayesianRegression
from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
from src.models import matrix_operations as mo


def cases(rng, tier):
    for k in range(60 if tier == 'quick' else 600):
        yield dict(kind=rng.choice(['standard', 'standard', 'standard3', 'bayes']), lap=rng.random() < .5, n=rng.choice([2, 3, 4]), T=rng.choice([12, 20]), iters=rng.choice([0, 1, 1, 3]), seed=rng.randrange(10 ** 6),
                   weighted=rng.random() < .5, pmu=rng.random() < .7, verbose=rng.random() < .2, ro=rng.random() < .3)


def scratch():
    d = Path(tempfile.mkdtemp(dir=os.environ['EIV_SCRATCH']))
    (d / 'simulations_output').mkdir()
    conf.DATA_DIR = d
    run.DATA_DIR = d
    run3ph.DATA_DIR = d
    return d


class Spy:
    """records the arguments of the estimators' fit methods"""
    def __init__(self, *classes): self.classes, self.calls = classes, []
    def __enter__(self):
        self.old = [(c, c.fit) for c in self.classes]
        for c, f in self.old:
            def fit(s, x, z, *a, __f=f, __c=c, **k):
                import inspect
                b = list(inspect.signature(__f).bind(s, x, z, *a, **k).arguments.items())
                self.calls.append((__c, s, dict({q: (w.copy() if hasattr(w, 'copy') else w) for q, w in b[3:]}, x=x.copy(), z=z.copy())))
                return __f(s, x, z, *a, **k)
            c.fit = fit
        return self
    def __exit__(self, *e):
        for c, f in self.old: c.fit = f
    def of(self, c): return [k for k in self.calls if k[0] is c]


def centred(x, z, lap):
    if lap: return x - x.mean(), z
    return x - x.mean(axis=0)[None, :], z - z.mean(axis=0)[None, :]


def check(c):
    n, T, lap = c['n'], c['T'], c['lap']
    scratch()
    identification.lambda_lasso = 1e-2
    x, z = mat(T, n, 'c') + np.random.uniform(-2, 2, (1, n)), mat(T, n, 'c') + 1
    y0 = mat(n, n, 'c')
    z = z * .05 + (x - x.mean()) @ (y0 + y0.T)
    x0, z0 = x.copy(), z.copy()
    if c['ro']: x.setflags(write=False); z.setflags(write=False)
    xc, zc = centred(x0, z0, lap)
    if lap: dt, el = (lambda k: mo.duplication_matrix(k) @ mo.transformation_matrix(k)), (lambda k: mo.elimination_lap_matrix(k) @ mo.elimination_sym_matrix(k))
    else: dt, el = mo.duplication_matrix, mo.elimination_sym_matrix
    if c['kind'] == 'bayes':
        sdv, sdi, rat = .01 + .005j, .02 + .004j, np.random.uniform(.5, 2, n)
        if lap: xc, zc = x0 - x0.mean(), z0
        if c['weighted'] and not c['pmu']:
            xc = np.abs(x0)
            zc = z0 * x0.conj() / np.abs(x0)
            xc, zc = centred(xc, zc, lap)
        yi = (y0 + y0.T)
        yi0 = yi.copy()
        with Spy(BayesianEIVRegression) as spy:
            run.bayesian_eiv('a', x, z, None, sdv, sdi, rat, yi, None, lap, c['weighted'], max(1, c['iters']), c['pmu'], c['verbose'])
        call = spy.of(BayesianEIVRegression)[0][2]
        same(call['x'], xc, 'voltages given to the error-in-variables estimator', 1e-9)
        same(call['z'], zc, 'currents given to the error-in-variables estimator', 1e-9)
        same(call['y_init'], yi0, 'initial estimate of the error-in-variables estimator')
        if c['weighted']:
            true(call.get('x_weight') is not None and call.get('z_weight') is not None, 'weights are missing')
        else: true(call.get('x_weight') is None and call.get('z_weight') is None, 'unweighted identification got weights')
        same(yi, yi0, 'initial estimate of the caller')
        same(x, x0, 'voltages of the caller', 0)
        same(z, z0, 'currents of the caller', 0)
        return
    mod = run3ph if c['kind'] == 'standard3' else run
    with Spy(ComplexRegression, TotalLeastSquares, BayesianRegression) as spy:
        yo, yt, yl = mod.standard_methods('a', x, z, None, lap, c['iters'], c['verbose'])
    same(x, x0, 'voltages of the caller', 0)
    same(z, z0, 'currents of the caller', 0)
    o, t = ComplexRegression(), TotalLeastSquares()
    o.fit(xc.copy(), zc.copy())
    t.fit(xc.copy(), zc.copy())
    same(yo, o.fitted_admittance_matrix, 'ordinary least squares estimate', 1e-7)
    same(yt, t.fitted_admittance_matrix, 'total least squares estimate', 1e-7)
    for k in (ComplexRegression, TotalLeastSquares):
        for q in spy.of(k):
            same(q[2]['x'], xc, 'voltages given to %s' % k.__name__, 1e-9)
            same(q[2]['z'], zc, 'currents given to %s' % k.__name__, 1e-9)
    if c['iters'] == 0:
        same(yl, yo, 'lasso estimate without iterations')
        return
    y1 = o.fitted_admittance_matrix
    prior = run.build_lasso_prior(n, y1, lap)
    l = BayesianRegression(prior, lambda_value=identification.lambda_lasso, abs_tol=identification.abs_tol, rel_tol=identification.rel_tol, max_iterations=c['iters'], verbose=False, dt_matrix_builder=dt, e_matrix_builder=el)
    l.fit(xc.copy(), zc.copy(), y_init=(y1 + y1.T) / 2)
    same(yl, l.fitted_admittance_matrix, 'sparse regression estimate', 1e-6)
    for q in spy.of(BayesianRegression):
        same(q[2]['x'], xc, 'voltages given to the sparse regression', 1e-9)
        same(q[2]['z'], zc, 'currents given to the sparse regression', 1e-9)
        same(q[2]['y_init'], (y1 + y1.T) / 2, 'start of the sparse regression', 1e-7)
