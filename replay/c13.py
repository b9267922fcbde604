from fits import *


def cases(rng, tier):
    for k in range(600 if tier == 'quick' else 20000):
        n = rng.randint(1, 5)
        yield dict(kind=rng.choice(['noisy', 'exact']), T=rng.randint(1, 8), n=n, p=rng.choice([1, 1, n, 2, 3]), vector=rng.random() < .5, cplx=rng.random() < .8, scale=rng.choice([1, 1, 1e-2, 30]), seed=rng.randrange(10 ** 6))


def check(c):
    n, p = c['n'], c['p']
    T = c['T'] + n + p
    k = 'c' if c['cplx'] else 'f'
    x, y0 = mat(T, n, k), mat(n, p, k)
    z = x @ y0 + (0 if c['kind'] == 'exact' else .3 * mat(T, p, k))
    x, z = x * c['scale'], z * c['scale']
    a = np.hstack([x, z])
    u, s, vh = np.linalg.svd(a)
    if s[0] > 1e4 * s[n - 1] or c['kind'] == 'noisy' and s[n - 1] - s[n] < 1e-3 * s[0]: raise Skip
    if np.linalg.cond(vh.conj().T[n:, n:]) > 1e5: raise Skip
    zz = z[:, 0] if p == 1 and c['vector'] else z
    x0, z0 = x.copy(), zz.copy()
    m = TotalLeastSquares()
    m.fit(x, zz)
    y = m.fitted_admittance_matrix
    same(x, x0, 'x'); same(zz, z0, 'z')
    shape(y, (n,) if p == 1 else (n, p), 'estimate')
    y = np.reshape(y, (n, p))
    st = np.vstack([y, -np.eye(p)])
    # the first n right singular vectors of [x z] are orthogonal to the stacked columns
    same(vh[:n] @ st, np.zeros((n, p)), 'component outside the smallest singular directions', atol=1e-7 * np.abs(st).max())
    if c['kind'] == 'exact': same(y, y0, 'exact model', tol=1e-6)
