from nets import *
from c35 import scratch
from conf import identification
from src.simulation import run as srun, run3ph as srun3
from src.identification import run as irun, run3ph as irun3


def cases(rng, tier):
    for k in range(90 if tier == 'quick' else 900):
        yield dict(kind=rng.choice(['loads', 'loads3', 'simulation', 'simulation3', 'noise', 'noise3', 'standard', 'standard3', 'bayes', 'bayes3', 'fim']), n=rng.choice([2, 3, 4]), lap=rng.random() < .4, iters=rng.choice([1, 2, 4]), ph=rng.random() < .6,
                   weighted=rng.random() < .5, eq=rng.random() < .5, steps=rng.choice([5, 8]), const=rng.random() < .5, seed=rng.randrange(10 ** 6))


STORE = {}


class Sim1(Net1):
    def run(self, p, q, **k): return self
    def get_current_and_voltage(self): return STORE[self.name][0]
    def make_y_bus(self): return STORE[self.name][1].copy()


class Sim3(Net3):
    def run(self, p, q, a, **k): return self
    def get_current_and_voltage(self): return STORE[self.name][0]
    def make_y_bus(self): return STORE[self.name][1].copy()


def network(n, three, name):
    ids = np.random.permutation(40)[:n].tolist()
    if np.random.rand() < .5: ids.sort()
    loads = {i: (np.random.uniform(.2, 1, 3), np.random.uniform(.2, 1, 3)) if three and k % 2 else (float(np.random.uniform(.2, 1)), float(np.random.uniform(.2, 1))) for k, i in enumerate(ids)}
    bd = buses(ids, ids[0], loads)
    net = Sim3({}, bd, []) if three else Sim1(bd, [])
    net.name = name
    return net, ids


def plain(x):
    """nested results as a list of named arrays"""
    if x is None: return [None]
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0: x = x.item()
    if hasattr(x, 'iteration') and hasattr(x, 'target_function'): return [np.asarray(float(x.iteration)), np.asarray(x.fitted_parameters).copy(), np.asarray(float(x.target_function))]
    if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.dtype == object: return [k for q in x for k in plain(q)]
    return [np.asarray(x).copy()]


def equal(first, again, what):
    true(len(first) == len(again), '%s returns %d values instead of %d' % (what, len(again), len(first)))
    for k, (a, b) in enumerate(zip(first, again)):
        pb = plain(b)
        if len(a) > 1 and len(pb) == 1 and pb[0].ndim: pb = list(pb[0])
        if len(pb) > 1 and len(a) == 1 and a[0].ndim: a = list(a[0])
        true(len(a) == len(pb), 'value %d reloaded by %s has %d parts instead of %d' % (k, what, len(pb), len(a)))
        for u, v in zip(a, pb):
            if u.size == 1 and v.size == 1: u, v = u.reshape(()), v.reshape(())
            true(u.shape == v.shape, 'value %d reloaded by %s has shape %s instead of %s' % (k, what, v.shape, u.shape))
            true(np.array_equal(u, v), 'value %d reloaded by %s differs by %g' % (k, what, np.max(np.abs(u - v)) if u.size else 0))


def check(c):
    scratch()
    kind, n = c['kind'], c['n']
    three = kind.endswith('3')
    k0 = kind.rstrip('3')
    m = 3 if three else 1
    N = n * m
    identification.lambda_lasso = 1e-3
    mod = srun3 if three else srun
    jobs = {}
    for name in ('one', 'two'):
        if k0 in ('loads', 'simulation', 'noise'): net, ids = network(n, three, name)
        T = 6
        x, z = mat(T, N, 'c') + 2, mat(T, N, 'c')
        if k0 == 'loads':
            par = (None, None, .1, 1, [ids[1]] if c['const'] else None)
            comp, again = (lambda net=net, par=par: mod.generate_loads(net, par, False)), (lambda net=net: mod.generate_loads(net, None, False))
        elif k0 == 'simulation':
            STORE[name] = (mat(T, N, 'c'), mat(T, N, 'c')), mat(N, N, 'c')
            p = [mat(T, n), mat(T, n), tuple(mat(T, n) for _ in range(6))][:3 if three else 2]
            comp, again = (lambda net=net, p=p: mod.simulate_net(net, *p, verbose=False)), (lambda net=net, p=p: mod.simulate_net(net, *[None for _ in p], verbose=False))
        elif k0 == 'noise':
            sf = np.random.uniform(1, 6, 3) if three else float(np.random.uniform(1, 6))
            t = np.arange(T) * 60
            par = (.01, .02, .003, .004, c['eq'], sf)
            f = (c['steps'] * 3 + 1) / t.max()
            comp = lambda net=net, x=x, z=z, t=t, par=par, f=f: mod.add_noise_and_filter(net, x, z, t, f, c['steps'], par, False)
            again = lambda net=net, x=x, z=z, t=t, f=f: mod.add_noise_and_filter(net, x, z, t, f, c['steps'], None, False)
        else:
            T = 4 * n + 6
            x, z = mat(T, N, 'c') + 2, mat(T, N, 'c')
            yi = mat(N, N, 'c')
            yi = yi + yi.T
            z = .1 * z + x @ yi
            ids = np.tile([0, 1, 2], n)
            np.random.shuffle(ids)
            rat = np.random.uniform(.5, 2, N)
            im = irun3 if three else irun
            if k0 == 'standard':
                pid = ids if three and c['ph'] else None
                comp = lambda name=name, x=x, z=z, pid=pid: im.standard_methods(name, x, z, pid, c['lap'], c['iters'], False)
                again = lambda name=name, pid=pid: im.standard_methods(name, None, None, pid, c['lap'], c['iters'], False)
            elif k0 == 'bayes':
                pid = ids if three else None
                a = (.01 + .02j, .03 + .02j, rat, yi, None, c['lap'], c['weighted'])
                comp = lambda name=name, x=x, z=z, pid=pid, a=a: im.bayesian_eiv(name, x, z, pid, *a, max_iterations=c['iters'], verbose=False)
                again = lambda name=name, x=x, z=z, pid=pid, a=a: im.bayesian_eiv(name, x, z, pid, *a, max_iterations=0, verbose=False)
            else:
                comp = lambda name=name, x=x, z=z, rat=rat, yi=yi: im.eiv_fim(name, x, z, .01 + .02j, .03 + .02j, rat, yi, 50, c['lap'], False)
                again = lambda name=name, rat=rat, yi=yi: im.eiv_fim(name, None, None, .01 + .02j, .03 + .02j, rat, yi, 50, c['lap'], False)
        jobs[name] = (comp, again)
    first = {}
    for name in ('one', 'two'):
        try: first[name] = [plain(k) for k in jobs[name][0]()]
        except np.linalg.LinAlgError: raise Skip()
    for name in ('two', 'one', 'one'):
        equal(first[name], jobs[name][1](), '%s of network %s' % (kind, name))
