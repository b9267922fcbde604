from nets import *
from src.simulation import run, run3ph
from src.simulation.lines import admittance_sequence_to_phase


def cases(rng, tier):
    for k in range(60 if tier == 'quick' else 600):
        yield dict(kind=rng.choice(['single', 'single laplacian', 'three']), n=rng.choice([4, 5, 6, 8]), nh=rng.randint(0, 2), npas=rng.randint(0, 2), pcc=rng.choice(['first', 'last', 'middle']),
                   listed=rng.random() < .7, order=rng.choice(['sorted', 'shuffled']), pas_how=rng.choice(['zero load', 'no load']), single=rng.random() < .5, unsorted=rng.random() < .4, both=rng.random() < .3, seed=rng.randrange(10 ** 6))


def check(c):
    n = c['n']
    three, keep_slack = c['kind'] == 'three', c['kind'].endswith('laplacian')
    ids = list(range(1, n + 1)) if np.random.rand() < .5 else sorted(np.random.permutation(40)[:n].tolist())
    if c['unsorted']: np.random.shuffle(ids)        # buses created in any order of their numbers
    pp_ = dict(first=0, last=n - 1, middle=n // 2)[c['pcc']]
    others = [i for i in range(n) if i != pp_]
    np.random.shuffle(others)
    k = min(c['nh'] + c['npas'], n - 2)
    pas, hid = others[:min(c['npas'], k)], others[min(c['npas'], k):k]
    loads = {ids[i]: (0., 0.) if i in pas else (.1 * (1 + i), .05 * (1 + i)) for i in range(n)}
    if three: loads = {i: (np.array([p, p, p]), np.array([q, q, q])) for i, (p, q) in loads.items()}
    single = not three or c['single']
    if three and not single:        # loads on some phases only: these nodes stay
        for i in range(n):
            if i not in pas and np.random.rand() < .7:
                on = np.random.choice([1, 2, 4, 1, 2, 4, 3, 5, 6])
                f = np.array([on & 1, on >> 1 & 1, on >> 2 & 1]) * 1.
                loads[ids[i]] = (loads[ids[i]][0] * f, loads[ids[i]][1] * f)
    bd = buses(ids, ids[pp_], loads)
    for b, i in zip(bd, range(n)):
        if i in pas and c['pas_how'] == 'no load': b.type = 2      # no load element at all
    net = Net3({}, bd, []) if three else Net1(bd, [])
    m = 3 if three else 1
    ex = lambda l: [m * i + p for i in l for p in range(m)]
    Y1 = [lap(n, .3) for _ in range(m)]
    if three: Y1[2] = Y1[1]        # positive and negative sequences of lines are equal
    Y = admittance_sequence_to_phase(sum(np.kron(Y1[s], np.diag(np.eye(3)[s])) for s in range(3))) if three else Y1[0]
    type(net).Y = np.matrix(Y) if np.random.rand() < .5 else Y
    red = sorted(pas + hid)
    kept = [i for i in range(n) if i not in red and (keep_slack or i != pp_)]
    s = np.zeros(n, complex)
    for i in hid: s[i] = -(np.random.uniform(.1, .5) + 1j * np.random.uniform(-.3, .3))
    R, K, P = ex(red), ex(kept), ex([pp_] if not keep_slack else [])
    Yt = Y - np.diag(np.kron(s, np.ones(m)))
    T = 5
    V = 1 + .1 * mat(T, n * m, 'c')
    if P: V[:, P] = np.random.uniform(.9, 1.1, len(P)) + .1j
    if R:
        if np.linalg.cond(Yt[np.ix_(R, R)]) > 1e5: raise Skip
        V[:, R] = np.linalg.solve(Yt[np.ix_(R, R)], -(Yt[np.ix_(R, K + P)] @ V[:, K + P].T)).T
    I = V @ Y
    V0, I0 = V.copy(), I.copy()
    hidden = [ids[i] for i in hid]
    if (c['listed'] or not three) and not keep_slack: hidden = hidden + [ids[pp_]]
    if c['both']: hidden = hidden + [ids[i] for i in pas[:1]]       # a hidden node may be load-free
    hidden = sorted(hidden) if c['order'] == 'sorted' else [hidden[i] for i in np.random.permutation(len(hidden))]
    if three: idx, y = run3ph.reduce_network(net, V, I, hidden, False, single, verbose=False)
    else: idx, y = run.reduce_network(net, V, I, hidden, keep_slack, verbose=False)
    same(V, V0, 'voltages'); same(I, I0, 'currents'); same(type(net).Y, Y, 'admittance matrix of the network')
    want = sorted(set(R + ([] if keep_slack else P)))
    true(sorted(set(int(i) for i in idx)) == want, 'positions to delete are %s instead of %s' % (sorted(set(int(i) for i in idx)), want))
    shape(y, (len(K), len(K)), 'reduced matrix')
    y = np.asarray(y)
    a, b = V[:, K], I[:, K]
    if P: a, b = a - a.mean(axis=0), b - b.mean(axis=0)
    same(a @ y, b, 'currents at the remaining nodes', tol=1e-6)
    d = np.delete(V, idx, axis=1)
    same(d, V[:, K], 'data without the deleted positions')
