import sys, types
from util import *
from src.models import matrix_operations as cpu

# cupy is numpy and cupyx.scipy.sparse is scipy.sparse (contract of the accelerator library)
cp = types.ModuleType('cupy')
cp.__dict__.update({k: getattr(np, k) for k in dir(np) if not k.startswith('__')})
cpx, cpxs = types.ModuleType('cupyx'), types.ModuleType('cupyx.scipy')
cpx.scipy, cpxs.sparse = cpxs, sps
sys.modules.update({'cupy': cp, 'cupyx': cpx, 'cupyx.scipy': cpxs, 'cupyx.scipy.sparse': sps})
from src.models import gpu_matrix_operations as gpu


def cases(rng, tier):
    for k in range(500 if tier == 'quick' else 10000):
        yield dict(kind=rng.choice(['dense', 'csr', 'csc', 'coo']), r=rng.randint(1, 6), c=rng.randint(1, 6), cplx=rng.random() < .8, order=rng.choice('CF'), seed=rng.randrange(10 ** 6))


def both(name, *a):
    x, y = getattr(cpu, name)(*a), getattr(gpu, name)(*a)
    true(sps.issparse(x) == sps.issparse(y), name + ': sparse on one side only')
    if sps.issparse(x): true(x.format == y.format, '%s returns %s instead of %s' % (name, y.format, x.format))
    same(y, x, name)
    true((np.asarray(dense(x)).dtype.kind == 'c') == (np.asarray(dense(y)).dtype.kind == 'c'), name + ': real on one side only')


def check(c):
    m = mat(c['r'], c['c'], 'c' if c['cplx'] else 'f')
    m[np.random.rand(*m.shape) < .3] = 0
    if c['kind'] == 'dense':
        m = np.asarray(m, order=c['order'])
        m0 = m.copy()
        both('vectorize_matrix', m)
        v = m.flatten()
        both('unvectorize_matrix', v, (c['r'], c['c']))
        both('unvectorize_matrix', v, (c['c'], c['r']))
        both('make_real_vector', v)
        both('make_complex_vector', np.r_[v.real, v.imag])
        both('make_real_matrix', m)
        both('make_complex_matrix', dense(cpu.make_real_matrix(m)))
        same(m, m0, 'input')
        return
    s = dict(csr=sps.csr_matrix, csc=sps.csc_matrix, coo=sps.coo_matrix)[c['kind']](m)
    both('make_real_matrix', s)
    same(s, m, 'input')
    if c['kind'] != 'coo': both('make_complex_matrix', cpu.make_real_matrix(s).asformat(c['kind']))
