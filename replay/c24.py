from util import *
from src.simulation import noise


def cases(rng, tier):
    for k in range(60 if tier == 'quick' else 800):
        yield dict(kind=rng.choice(['polar', 'polar', 'cartesian', 'polar zero', 'polar wrapper', 'cartesian wrapper']), n=rng.choice([1, 2, 3, 5]), T=rng.choice([3000, 6000]), sd=rng.choice(['scalar', 'one', 'channels']), sp=rng.choice(['scalar', 'one', 'channels']),
                   oned=rng.random() < .2, seed=rng.randrange(10 ** 6))


def white(z, sd, what):
    """columns of z: zero mean, the given deviation, independent over time and channels"""
    T, n = z.shape
    lim = 6.5 / np.sqrt(T)
    for i in range(n):
        if sd[i] == 0:
            true(np.max(np.abs(z[:, i])) < 1e-9, '%s of channel %d is not zero' % (what, i))
            continue
        m, s = z[:, i].mean() / sd[i], z[:, i].std() / sd[i]
        true(abs(m) < lim, '%s of channel %d has mean %g deviations' % (what, i, m))
        true(abs(s - 1) < lim, '%s of channel %d has deviation %g times the requested one' % (what, i, s))
        true(abs(np.mean((z[:, i] / sd[i]) ** 4) - 3) < 80 / np.sqrt(T), '%s of channel %d is not normal (kurtosis)' % (what, i))
        true(abs(np.corrcoef(z[1:, i], z[:-1, i])[0, 1]) < lim, '%s of channel %d is correlated in time' % (what, i))
        for j in range(i):
            if sd[j] == 0: continue
            true(abs(np.corrcoef(z[:, i], z[:, j])[0, 1]) < lim, '%s of channels %d and %d is correlated' % (what, j, i))


def uncorrelated(a, b, sa, sb, what):
    for i in range(a.shape[1]):
        for j in range(a.shape[1]):
            if sa[i] and sb[j]: true(abs(np.corrcoef(a[:, i], b[:, j])[0, 1]) < 6.5 / np.sqrt(a.shape[0]), '%s %d and %d are correlated' % (what, i, j))


def dev(kind, n, zero=False):
    """deviation as passed, per channel"""
    if kind == 'scalar':
        s = 0. if zero else float(np.random.uniform(.005, .03))
        return s, np.full(n, s)
    if kind == 'one':
        s = np.array([0. if zero else np.random.uniform(.005, .03)])
        return s, np.full(n, s[0])
    s = np.zeros(n) if zero else np.random.uniform(.002, .03, n)
    return s, s.copy()


def check(c):
    n, T = c['n'], c['T']
    if c['oned'] and c['kind'].startswith('polar') and c['kind'] != 'polar wrapper': n = 1
    mag, ang = np.random.uniform(.5, 3, (T, n)), np.random.uniform(.3, 1.5, (T, n)) * np.random.choice([-1, 1], (T, n))
    x = mag * np.exp(1j * ang)
    x0 = x.copy()
    if c['kind'] in ('polar', 'polar zero'):
        sm, em = dev(c['sd'], n, c['kind'] == 'polar zero')
        sp, ep = dev(c['sp'], n, c['kind'] == 'polar zero')
        xin = x[:, 0] if c['oned'] else x
        y = noise.add_polar_noise_to_measurement(xin, sm, sp)
        shape(y, xin.shape, 'noisy measurement')
        same(x, x0, 'measurement after adding noise')
        y = y.reshape(T, n)
        if c['kind'] == 'polar zero':
            same(y, x, 'measurement without noise')
            return
        zm, zp = np.abs(y) / mag - 1, np.angle(y) / ang - 1
        white(zm, em, 'magnitude noise')
        white(zp, ep, 'phase noise')
        uncorrelated(zm, zp, em, ep, 'magnitude and phase noise of channels')
    elif c['kind'] == 'cartesian':
        x = x * np.random.uniform(.1, 10, n)
        x0 = x.copy()
        a, b = np.random.uniform(.1, .5, 2)
        if np.random.rand() < .2: a = 0.
        if np.random.rand() < .2: b = 0.
        y, sa, sb = noise.add_cartesian_noise_to_measurement(x, a, b)
        shape(y, x.shape, 'noisy measurement')
        same(x, x0, 'measurement after adding noise')
        ea, eb = np.mean(np.abs(x.real), axis=0) * a / 3, np.mean(np.abs(x.imag), axis=0) * b / 3
        same(sa, ea, 'reported real deviation'); same(sb, eb, 'reported imaginary deviation')
        if a == 0: same(y.real, x.real, 'real part without noise')
        if b == 0: same(y.imag, x.imag, 'imaginary part without noise')
        white((y - x).real if a else 0 * x.real, ea, 'real noise')
        white((y - x).imag if b else 0 * x.real, eb, 'imaginary noise')
        uncorrelated((y - x).real, (y - x).imag, ea, eb, 'real and imaginary noise of channels')
    else:
        v = np.random.uniform(.5, 3, (T, n)) * np.exp(1j * np.random.uniform(.3, 1.5, (T, n)))
        v0 = v.copy()
        polar = c['kind'].startswith('polar')
        if polar:
            sm, em = dev('scalar', n)
            sp, ep = dev('scalar', n)
            nv, nc = noise.add_noise_in_polar_coordinates(x, v, sm, sp)
        else:
            ac, av = np.random.uniform(.1, .3), np.random.uniform(.4, .6)
            nv, nc = noise.add_noise_in_cartesian_coordinates(x, v, ac, av)
        same(v, v0, 'voltages'); same(x, x0, 'currents')
        for s_, o, w, acc in ((nv, v, 'voltage', None if polar else av), (nc, x, 'current', None if polar else ac)):
            shape(s_, (T, n), w)
            if polar:
                white(np.abs(s_) / np.abs(o) - 1, em, w + ' magnitude noise')
                white(np.angle(s_) / np.angle(o) - 1, ep, w + ' phase noise')
            else:
                white((s_ - o).real, np.mean(np.abs(o.real), axis=0) * acc / 3, w + ' real noise')
                white((s_ - o).imag, np.mean(np.abs(o.imag), axis=0) * acc / 3, w + ' imaginary noise')
        uncorrelated(np.abs(nv) / np.abs(v), np.abs(nc) / np.abs(x), np.ones(n), np.ones(n), 'voltage and current noise of channels')
