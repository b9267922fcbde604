from nets import *
import os, tempfile
from pathlib import Path
from conf import conf, simulation
from src.simulation import run, run3ph, load_profile as lp


def cases(rng, tier):
    for k in range(70 if tier == 'quick' else 700):
        yield dict(kind=rng.choice(['gauss', 'gauss', 'profile', 'profile', 'csv', 'stage gauss', 'stage gauss 3', 'stage profile', 'stage profile 3'][:9 if k % 3 else 4]), phases=rng.choice([1, 3]), n=rng.choice([1, 2, 3, 5]), weeks=rng.choice([1, 2, 3]), hh=rng.choice([4, 6]), seed=rng.randrange(10 ** 6))


def gauss(x, ref, sd, what):
    T, n = x.shape
    lim = 6.5 / np.sqrt(T)
    for i in range(n):
        s = abs(ref[i]) * sd
        if s == 0: same(x[:, i], np.full(T, ref[i]), what + ' without deviation', atol=1e-12)
        else:
            true(abs(x[:, i].mean() - ref[i]) < lim * s, '%s of node %d has mean %g instead of %g' % (what, i, x[:, i].mean(), ref[i]))
            true(abs(x[:, i].std() / s - 1) < lim, '%s of node %d has deviation %g instead of %g' % (what, i, x[:, i].std(), s))


def indep(cols):
    C = np.corrcoef(np.array([c for c in cols if np.std(c) > 1e-12]))
    if C.ndim == 2: true(np.max(np.abs(C - np.eye(len(C)))) < 6.5 / np.sqrt(len(cols[0])), 'random loads are correlated')


def refs(n, neg=False):
    r = np.random.uniform(.2, 3, n) * (np.random.choice([1, -1], n) if neg else 1)
    if n > 1: r[np.random.randint(n)] = 0
    return r


def decode(x, H, count, what):
    """x is the sum of `count` columns of H (with repetition)"""
    if count == 0: return same(x, np.zeros(len(x)), what, atol=1e-12)
    w = np.linalg.lstsq(H, x, rcond=None)[0]
    k = np.round(w)
    same(H @ k, x, '%s is not a sum of household profiles' % what, tol=1e-7)
    true(np.all(k >= 0) and k.sum() == count, '%s sums %s households instead of %d' % (what, k.sum(), count))


def profile(rows, hh): return np.random.uniform(50, 3000, (rows, hh))


def windows(P, skip, length): return np.vstack([P[s:s + length] for s in skip]) / 1e6


def pct(H): return np.mean(np.percentile(np.abs(H), 90, axis=0))


def asym(net): return [net.asymmetric_load[k].values.astype(float) for k in ('p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar')]


def check(c):
    n = c['n']
    d = Path(tempfile.mkdtemp(dir=os.environ['EIV_SCRATCH']))
    if c['kind'] == 'gauss':
        R = [refs(n, True) for _ in range(6)]
        R0 = [r.copy() for r in R]
        sd = float(np.random.uniform(.05, .5))
        if c['phases'] == 1: L = lp.generate_gaussian_load(sd, 4000, R[0], R[1])
        else: L = lp.generate_gaussian_load(sd, 4000, *R)
        true(len(L) == (2 if c['phases'] == 1 else 6), 'number of load matrices')
        for x, r, r0 in zip(L, R, R0):
            shape(x, (4000, n), 'loads')
            same(r, r0, 'nominal powers after the call')
            gauss(np.asarray(x), r, sd, 'load')
        indep([np.asarray(x)[:, i] for x in L for i in range(n)])
        return
    if c['kind'] in ('profile', 'csv'):
        rows, length = 60, int(np.random.randint(8, 15))
        P_, Q_ = profile(rows, c['hh']), profile(rows, c['hh']) * .4
        skip = np.sort(np.random.permutation((rows - length) // 3)[:c['weeks']] * 3)
        pw, qw = windows(P_, skip, length), windows(Q_, skip, length)
        R = [np.random.uniform(0, 6, n) * (pct(pw) if k < 1 or k in (2, 4) else pct(qw)) for k in range(6)]
        kw = dict(load_p_reference=R[0], load_q_reference=R[1])
        if c['phases'] == 3: kw.update(load_p_rb=R[2], load_q_rb=R[3], load_p_rc=R[4], load_q_rc=R[5])
        if c['kind'] == 'profile':
            np.save(d / 'p.npy', P_); np.save(d / 'q.npy', Q_)
            L = lp.load_profile_from_numpy(str(d / 'p.npy'), str(d / 'q.npy'), skip, np.array(length), **kw)
        else:
            for f, x in (('p.csv', P_), ('q.csv', Q_)): np.savetxt(d / f, x, delimiter=';', fmt='%.10f')
            L = lp.load_profile_from_csv(str(d / 'p.csv'), str(d / 'q.csv'), skip, rows - length - skip, **kw)
        exp = [(R[0], 0), (R[1], 1)] if c['phases'] == 1 else [(R[0], 0), (R[2], 0), (R[4], 0), (R[1], 1), (R[3], 1), (R[5], 1)]
        true(len(L) == len(exp), 'number of load matrices')
        for x, (r, q) in zip(L, exp):
            H = qw if q else pw
            shape(x, (len(H), n), 'loads')
            for i in range(n): decode(x[:, i], H, round(r[i] / pct(H)), 'load of node %d' % i)
        return
    # the stage
    three, prof = c['kind'].endswith('3'), 'profile' in c['kind']
    n = max(n, 2)
    ids = np.random.permutation(40)[:n + 1].tolist()
    if np.random.rand() < .5: ids.sort()
    np.random.shuffle(ids)
    conf.DATA_DIR = d
    (d / 'simulations_output').mkdir()
    loads = {}
    for k, i in enumerate(ids):
        if three and k % 3: loads[i] = (np.random.uniform(.1, 2, 3), np.random.uniform(.1, 2, 3))
        else: loads[i] = (float(np.random.uniform(.1, 2)), float(np.random.uniform(.1, 2)))
    if prof:
        weeks = np.sort(np.random.permutation(2)[:min(c['weeks'], 2)])
        days = len(weeks)
        rows = (weeks.max() * 7 + 1) * 1440 + 300
        P_, Q_ = profile(rows, c['hh']), profile(rows, c['hh']) * .4
        np.save(d / 'p.npy', P_); np.save(d / 'q.npy', Q_)
        pw, qw = windows(P_, weeks * 7 * 1440, 1440), windows(Q_, weeks * 7 * 1440, 1440)
        sc = lambda v, h: v * 5 * pct(h)
        loads = {i: (sc(p, pw), sc(q, qw)) for i, (p, q) in loads.items()}
        params = lambda const: (str(d / 'p.npy'), str(d / 'q.npy'), weeks, days, const)
    else:
        sd, days = float(np.random.uniform(.05, .5)), 2
        params = lambda const: (None, None, sd, days, const)
    pcc = ids[np.random.randint(len(ids))]
    bd = buses(ids, pcc, loads)
    net = Net3({}, bd, []) if three else Net1(bd, [])
    net.name = 'x'
    mod = run3ph if three else run
    simulation.load_constantness = a = float(np.random.uniform(.1, .9))
    const = [int(i) for i in np.random.permutation(ids)[:np.random.randint(1, n)]]
    outs = []
    for k in (None, const):
        np.random.seed(c['seed'] % 1000)
        r = mod.generate_loads(net, params(k), verbose=False)
        outs.append([np.array(r[0]), np.array(r[1])] + ([np.array(x) for x in r[2]] if three else []))
        same(r[-1], np.arange(days * 1440) * 60., 'time steps')
    nom = [net.load.p_mw.values, net.load.q_mvar.values] + (asym(net) if three else [])
    bus = [net.load.bus.values] * 2 + ([net.asymmetric_load.bus.values] * 6 if three else [])
    true(len(outs[0]) == len(nom), 'number of load matrices')
    react = [0, 1, 0, 0, 0, 1, 1, 1]
    T = days * 1440
    for k, (x, y, v, b) in enumerate(zip(outs[0], outs[1], nom, bus)):
        shape(x, (T, len(v)), 'loads %d' % k)
        if prof:
            H = qw if react[k] else pw
            for i in range(len(v)): decode(x[:, i], H, round(v[i] / pct(H)), 'load %d of node %d' % (k, b[i]))
        else: gauss(x, v, sd, 'load %d' % k)
        for i in range(len(v)):
            if b[i] in const: same(y[:, i], (1 - a) * x[:, i] + a * v[i], 'load %d of the constant node %d' % (k, b[i]), atol=1e-9)
            else: same(y[:, i], x[:, i], 'load %d of node %d (not constant)' % (k, b[i]), atol=1e-12)
    if not prof: indep([x[:, i] for x in outs[0] for i in range(x.shape[1])])
