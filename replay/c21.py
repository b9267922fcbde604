from util import *
from src.simulation.network import NetData
from src.simulation.abstract_network import Net


def cases(rng, tier):
    for k in range(300 if tier == 'quick' else 5000):
        yield dict(kind=rng.choice(['lap', 'any', 'big']), n=rng.choice([2, 3, 4, 5, 6, 9, 12]), k=rng.randint(0, 5), as_=rng.choice(['list', 'array', 'tuple']), matrix=rng.random() < .3, own=rng.random() < .1, seed=rng.randrange(10 ** 6))


net = NetData()


class WithY(NetData):
    def make_y_bus(self): return self['_y']


def admittance(kind, n):
    Y = mat(n, n, 'c')
    if kind == 'lap':
        Y = -(np.abs(Y.real) + .5 + 1j * Y.imag)
        Y = (Y + Y.T) / 2
        Y -= np.diag(np.diag(Y))
        Y -= np.diag(Y.sum(axis=1))
    else: Y = Y + 3 * np.eye(n)
    return Y


def check(c):
    n = c['n']
    k = min(c['k'], n - 1)
    Y = admittance(c['kind'], n)
    red = np.random.permutation(n)[:k].tolist()
    keep = sorted(set(range(n)) - set(red))
    A = Y[np.ix_(red, red)]
    if k and np.linalg.cond(A) > 1e4: raise Skip
    tol = 1e-7 * np.abs(Y).max()
    Y0 = Y.copy()
    arg = dict(list=list(red), tuple=tuple(red), array=np.array(red, dtype=int))[c['as_']]
    Yin = np.matrix(Y) if c['matrix'] else Y
    if c['own']:
        w = WithY()
        w['_y'] = Yin
        R = w.kron_reduction(arg)
    else: R = net.kron_reduction(arg, Yin)
    same(Yin, Y0, 'admittance matrix after the reduction')
    shape(R, (n - k, n - k), 'reduced matrix')
    R = np.asarray(R)
    exp = Y[np.ix_(keep, keep)] - (Y[np.ix_(keep, red)] @ np.linalg.solve(A, Y[np.ix_(red, keep)]) if k else 0)
    same(R, exp, 'Schur complement', atol=tol)
    same(np.asarray(net.kron_reduction(list(reversed(red)), Y)), R, 'result for the reversed order', atol=tol)
    # equivalent network: voltages with zero injection at the eliminated nodes
    v = np.zeros(n, complex)
    v[keep] = mat(1, n - k, 'c')[0]
    if k: v[red] = -np.linalg.solve(A, Y[np.ix_(red, keep)] @ v[keep])
    same((Y @ v)[keep], R @ v[keep], 'currents at the kept nodes', atol=10 * tol * np.abs(v).max())
