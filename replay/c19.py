from util import *
from src.models import error_metrics as em


def cases(rng, tier):
    for k in range(600 if tier == 'quick' else 20000):
        yield dict(kind=rng.choice(['vector', 'matrix']), r=rng.randint(1, 7), c=rng.randint(1, 7), cplx=rng.random() < .7, zeros=rng.choice([0, .3, .7]), parts=rng.random() < .5, scale=rng.choice([1, 1e-3, 1e4]), seed=rng.randrange(10 ** 6))


def check(c):
    k = 'c' if c['cplx'] else 'f'
    y, h = mat(c['r'], c['c'], k), mat(c['r'], c['c'], k)
    y[np.random.rand(*y.shape) < c['zeros']] = 0
    if c['cplx'] and c['parts']:        # purely real and purely imaginary entries, exact estimates of some parts
        for a in (y, h):
            a.real[np.random.rand(*y.shape) < .3] = 0
            a.imag[np.random.rand(*y.shape) < .3] = 0
        h = np.where(np.random.rand(*y.shape) < .2, y, h)
    if not np.any(y): y[0, 0] = 1
    if c['kind'] == 'vector': y, h = y.flatten(), h.flatten()
    y, h = y * c['scale'], h * c['scale']
    y0, h0 = y.copy(), h.copy()
    d = np.sqrt(sum(abs(a - b) ** 2 for a, b in zip(y.flat, h.flat)))
    nz = [(a, b) for a, b in zip(y.flat, h.flat) if a != 0]
    exp = dict(fro_error=d, max_error=max(abs(a - b) for a, b in zip(y.flat, h.flat)), rrms_error=100 * d / np.sqrt(sum(abs(a) ** 2 for a in y.flat)),
               map_error=100 * np.sqrt(sum(abs(a - b) ** 2 for a, b in nz)) / np.sqrt(sum(abs(a) ** 2 for a, b in nz)))
    r = em.error_metrics(y, h)
    for n, v in exp.items():
        eq(getattr(em, n)(y, h), v, n)
        eq(getattr(r, n), v, 'recorded ' + n)
    same(y, y0, 'true parameters'); same(h, h0, 'estimates')
