from util import *
from src.simulation.noise import filter_and_resample_measurement as frm


def cases(rng, tier):
    for k in range(400 if tier == 'quick' else 6000):
        yield dict(kind=rng.choice(['noise', 'plain', 'partial']), n=rng.choice([1, 2, 3, 5]), T=rng.choice([2, 3, 5, 9]), new=rng.choice(['none', 'same', 'fine', 'fine', 'irregular']), old=rng.choice(['none', 'uniform', 'irregular']), m=rng.choice([1, 2, 5, 7, 12, 30]), f=rng.choice([1, 1, 2, 3, 4, 7]),
                   sd=rng.choice(['scalar', 'array', 'list']), sp=rng.choice(['scalar', 'array', 'list']), cplx=rng.random() < .8, seed=rng.randrange(10 ** 6))


def interp(old, col, new):
    old, out = np.asarray(old, float), []
    for t in new:
        k = min(max(int(np.searchsorted(old, t)), 1), len(old) - 1)
        a = (t - old[k - 1]) / (old[k] - old[k - 1])
        out.append(col[k - 1] * (1 - a) + col[k] * a)
    return np.array(out)


def fn(x, sm, sp): return x * (1 + sm) + (3 + 1j) * np.abs(x) * sp + .25 * sm * np.conj(x)


def check(c):
    n, T = c['n'], c['T']
    x = mat(T, n, 'c' if c['cplx'] else 'f')
    x0 = x.copy()
    old = None if c['old'] == 'none' else np.arange(T) * 60. if c['old'] == 'uniform' else np.cumsum(np.random.uniform(.1, 2, T))
    o = np.arange(T) if old is None else old
    new = None if c['new'] == 'none' else o.copy() if c['new'] == 'same' else np.linspace(o[0], o[-1], c['m']) if c['new'] == 'fine' else np.sort(np.random.uniform(o[0], o[-1], c['m']))
    w = o if new is None else new
    dev = lambda kind: float(np.random.uniform(0, 1)) if kind == 'scalar' else np.random.uniform(0, 1, n) if kind == 'array' else np.random.uniform(0, 1, n).tolist()
    sm, sp = dev(c['sd']), dev(c['sp'])
    kw = dict(oldtimes=old, newtimes=new, fparam=c['f'])
    noisy = c['kind'] == 'noise'
    if noisy: kw.update(std_m=sm, std_p=sp, noise_fcn=fn)
    elif c['kind'] == 'partial':
        drop = np.random.randint(3)
        if drop != 0: kw['std_m'] = sm
        if drop != 1: kw['std_p'] = sp
        if drop != 2: kw['noise_fcn'] = fn
    y = frm(x, **kw)
    same(x, x0, 'measurement after resampling')
    steps = len(w) // c['f']
    exp = np.zeros((steps, n), complex)
    for i in range(n):
        r = interp(o, x[:, i], w)
        if noisy: r = fn(r, sm if c['sd'] == 'scalar' else sm[i], sp if c['sp'] == 'scalar' else sp[i])
        for t in range(steps): exp[t, i] = np.mean(r[t * c['f']:(t + 1) * c['f']])
    same(y, exp, 'resampled measurement')
