from nets import *
import os, tempfile
from pathlib import Path
from conf import conf
from src.simulation import run, run3ph


def cases(rng, tier):
    for k in range(90 if tier == 'quick' else 900):
        yield dict(kind=rng.choice(['noise', 'clean', 'ratings']), three=rng.random() < .5, eq=rng.random() < .5, n=rng.choice([2, 3, 4]), steps=rng.choice([1200, 2000]), f=rng.choice([1, 2, 3, 5]), extra=rng.choice([0, 0, 1, 2, 7]), pcc=rng.choice(['first', 'last', 'middle']),
                   safety=rng.choice([4, 1.5, 6]), T=rng.choice([2, 3, 5]), seed=rng.randrange(10 ** 6))


def block(v, old, new, f):
    r = np.array([np.interp(new, old, v[:, i].real) + 1j * np.interp(new, old, v[:, i].imag) for i in range(v.shape[1])]).T
    k = len(new) // f
    return r[:k * f].reshape(k, f, -1).mean(axis=1)


def check(c):
    n, three = c['n'], c['three']
    m = 3 if three else 1
    ids = np.random.permutation(40)[:n].tolist()
    if np.random.rand() < .5: ids.sort()
    pi = dict(first=0, last=n - 1, middle=n // 2)[c['pcc']]
    loads = {i: (np.random.uniform(.2, 1, 3), np.random.uniform(.2, 1, 3)) if three and k % 3 != 2 else (float(np.random.uniform(.2, 1)), float(np.random.uniform(.2, 1))) for k, i in enumerate(ids)}
    bd = buses(ids, ids[pi], loads)
    net = Net3({}, bd, []) if three else Net1(bd, [])
    net.name = 'x'
    d = Path(tempfile.mkdtemp(dir=os.environ['EIV_SCRATCH']))
    (d / 'simulations_output').mkdir()
    conf.DATA_DIR = d
    mod = run3ph if three else run
    sf = c['safety'] * np.array([1., 1.3, .8]) if three else c['safety']
    rate = np.zeros((n, m))
    for k, i in enumerate(ids):
        if k != pi:
            for p in range(m): rate[k, p] = (sf[p] if three else sf) * (np.broadcast_to(loads[i][0], m)[p] ** 2 + np.broadcast_to(loads[i][1], m)[p] ** 2)
    rate[pi] = rate.sum(axis=0)
    rate = rate.reshape(-1)
    T, N = c['T'], n * m
    steps = c['steps'] if c['kind'] == 'noise' else int(np.random.randint(2, 40))
    times = np.arange(T) * 60 if T > 1 else np.array([0, 60])
    size = steps * c['f'] + min(c['extra'], steps - 1)
    fmeas = size / times.max()
    if c['kind'] == 'noise':    # constant phasors
        v = np.repeat(np.random.uniform(.5, 2, (1, N)) * np.exp(1j * np.random.uniform(.4, 1.2, (1, N))), T, axis=0)
        i = np.repeat(np.random.uniform(.5, 2, (1, N)) * np.exp(1j * np.random.uniform(.4, 1.2, (1, N))), T, axis=0)
        sds = [float(x) for x in np.random.uniform(.002, .01, 4)]
    else:
        v, i = mat(T, N, 'c'), mat(T, N, 'c')
        sds = [0., 0., 0., 0.]
    v0, i0, t0 = v.copy(), i.copy(), times.copy()
    if c['kind'] == 'ratings':
        # reading saved results, with the default safety factor
        np.savez(d / 'simulations_output/filtered_results_x.npz', i=i, v=v, j=2 * i, w=2 * v)
        out = mod.add_noise_and_filter(net, v, i, times, fmeas, steps, None, verbose=False)
        same(out[4], rate / np.tile(sf if three else [sf], n) * 4, 'ratings')
        true(out[5] == size // steps, 'averaging factor %s instead of %d' % (out[5], size // steps))
        return
    par = (sds[0], sds[1], sds[2], sds[3], c['eq'], sf)
    np.random.seed(c['seed'] % 1000)
    nv, ni, cv, ci, r, f = mod.add_noise_and_filter(net, v, i, times, fmeas, steps, par, verbose=False)
    same(v, v0, 'voltages'); same(i, i0, 'currents'); same(times, t0, 'times')
    same(r, rate, 'ratings')
    F = size // steps
    true(f == F, 'averaging factor %s instead of %d' % (f, F))
    if c['eq']: new, ff = np.linspace(0, times.max(), size // F), 1
    else: new, ff = np.linspace(0, times.max(), size), F
    for a, x, w in ((cv, v, 'noise-free voltages'), (ci, i, 'noise-free currents')): same(a, block(x, times, new, ff), w)
    if c['kind'] == 'clean':
        same(nv, cv, 'voltages without noise'); same(ni, ci, 'currents without noise')
        return
    for x, cl, sm, sp, w in ((nv, cv, np.full(N, sds[0]), sds[2], 'voltage'), (ni, ci, sds[1] * rate, sds[3], 'current')):
        shape(x, cl.shape, 'noisy ' + w)
        lim = 6.5 / np.sqrt(len(x))
        for k in range(N):
            zm, zp = np.abs(x[:, k]) / np.abs(cl[:, k]) - 1, np.angle(x[:, k]) / np.angle(cl[:, k]) - 1
            for z, s, q in ((zm, sm[k], 'magnitude'), (zp, sp, 'phase')):
                s = s / np.sqrt(F)
                true(abs(z.std() / s - 1) < lim + 2e-2, '%s noise on the %s of channel %d has deviation %g instead of %g' % (q, w, k, z.std(), s))
                true(abs(z.mean() / s) < lim + 5e-2, '%s noise on the %s of channel %d has mean %g' % (q, w, k, z.mean()))
