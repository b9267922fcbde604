from util import *
from src.models import matrix_operations as mo


def cases(rng, tier):
    for k in range(600 if tier == 'quick' else 20000):
        yield dict(kind=rng.choice(['rows', 'columns']), r=rng.randint(0, 6), c=rng.randint(0, 6), k=rng.randint(0, 5), cplx=rng.random() < .5, as_=rng.choice(['list', 'array', 'tuple', 'float']), kw=rng.random() < .5, seed=rng.randrange(10 ** 6))


def check(c):
    m = mat(c['r'], c['c'], 'c' if c['cplx'] else 'f')
    axis = 0 if c['kind'] == 'rows' else 1
    N = m.shape[axis] + c['k']
    idx = np.random.permutation(N)[:c['k']].astype(int)
    m0 = m.copy()
    arg = dict(list=list(idx), tuple=tuple(idx), array=idx, float=idx.astype(float))[c['as_']]
    out = mo.undelete(m, arg, axis=axis) if c['kw'] or axis else mo.undelete(m, arg)
    same(m, m0, 'input matrix')
    same(idx, np.asarray(arg), 'index list')
    sh = list(m.shape); sh[axis] = N
    shape(out, sh, 'result')
    exp = np.zeros(sh, complex)
    keep = [i for i in range(N) if i not in set(idx.tolist())]
    if axis == 0: exp[keep, :] = m
    else: exp[:, keep] = m
    same(out, exp, 'result')
    if c['k']: same(np.delete(out, idx, axis=axis), m, 'deleting again')
