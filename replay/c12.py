from fits import *


def cases(rng, tier):
    for k in range(600 if tier == 'quick' else 20000):
        n = rng.randint(1, 6)
        yield dict(kind=rng.choice(['tall', 'tall', 'wide', 'deficient', 'exact', 'exact', 'near']), T=rng.randint(1, 9), n=n, p=rng.choice([1, n, n, 3]), cplx=rng.random() < .8, scale=rng.choice([1, 1, 1e-3, 1e3]), seed=rng.randrange(10 ** 6))


def near(c):
    """nearly constant voltages: full column rank, badly conditioned"""
    n, p = max(2, c['n']), c['p']
    T = c['T'] + n + 2
    k = 'c' if c['cplx'] else 'f'
    x = 1 + 10. ** -(c['seed'] % 6 + 2) * mat(T, n, k)
    s = np.linalg.svd(x, compute_uv=False)
    if s[0] / s[-1] > 1e9: raise Skip
    y0 = mat(n, p, k)
    m = ComplexRegression()
    m.fit(x, x @ y0)
    same(m.fitted_admittance_matrix, y0, 'exact model (condition %.1e)' % (s[0] / s[-1]), tol=1e-6 + 1e-13 * s[0] / s[-1] * 100)


def check(c):
    if c['kind'] == 'near': return near(c)
    n, T, p = c['n'], c['T'], c['p']
    k = 'c' if c['cplx'] else 'f'
    if c['kind'] in ('tall', 'exact'): T = max(T, n + 1)
    if c['kind'] == 'wide': T = min(T, n)
    x = mat(T, n, k)
    if c['kind'] == 'deficient':
        r = max(1, min(T, n) - 1)
        x = mat(T, r, k) @ mat(r, n, k)
    y0 = mat(n, p, k)
    z = x @ y0 if c['kind'] == 'exact' else mat(T, p, k)
    x, z = x * c['scale'], z * c['scale']
    s = np.linalg.svd(x, compute_uv=False)
    s = s[s > 1e-9 * s[0]]
    if s[0] / s[-1] > 1e4: raise Skip
    x0, z0 = x.copy(), z.copy()
    m = ComplexRegression()
    m.fit(x, z)
    y = m.fitted_admittance_matrix
    same(x, x0, 'x'); same(z, z0, 'z')
    shape(y, (n, p), 'estimate')
    same(x.conj().T @ (z - x @ y), np.zeros((n, p)), 'x^H (z - x y)', atol=1e-7 * np.abs(x).max() * np.abs(z).max() * T)
    # minimum norm: every column lies in the row space of x
    u, s_, vh = np.linalg.svd(x)
    N = vh[len(s):]
    same(N @ y, np.zeros((N.shape[0], p)), 'component of the estimate in the null space of x', atol=1e-7 * (np.abs(y).max() + 1e-12))
    if c['kind'] == 'exact': same(y, y0, 'exact model', tol=1e-6)
