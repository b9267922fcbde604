from nets import *


def cases(rng, tier):
    for k in range(80 if tier == 'quick' else 800):
        yield dict(kind=rng.choice(['single', 'three', 'mixed']), n=rng.choice([1, 2, 3, 5, 8]), labels=rng.choice(['same', 'shifted', 'permuted']), grids=rng.choice([0, 1, 1, 2]), ids=rng.choice(['range', 'sparse', 'shuffled']), seed=rng.randrange(10 ** 6))


def check(c):
    n = c['n']
    ids = dict(range=list(range(n)), sparse=sorted(np.random.permutation(50)[:n].tolist()), shuffled=np.random.permutation(50)[:n].tolist())[c['ids']]
    net = Net3({}) if c['kind'] != 'single' else Net1()
    for i in ids: pp.create_bus(net, 4.16, index=i)
    order = list(ids)
    if c['labels'] != 'same': np.random.shuffle(order)
    lab = iter(np.random.permutation(100).tolist() if c['labels'] == 'permuted' else range(7, 200) if c['labels'] == 'shifted' else range(200))
    sym, asy = {}, {}
    val = lambda: float(np.random.choice([0, 0, .1, -.2]))
    for i in order:
        if c['kind'] != 'three' and np.random.rand() < .7:
            sym[i] = (val(), val())
            pp.create_load(net, i, *sym[i], index=next(lab))
        if c['kind'] != 'single' and np.random.rand() < .7:
            asy[i] = [val() for _ in range(6)]
            pp.create_asymmetric_load(net, i, *asy[i], index=next(lab))
    grids = np.random.permutation(ids)[:c['grids']].tolist()
    for g in grids: pp.create_ext_grid(net, g)
    got = net.give_passive_nodes()
    true(len(got) == 3, 'three phases')
    for p in range(3):
        exp = [i for i in net.bus.index if i not in grids and (i not in sym or sym[i] == (0., 0.)) and (i not in asy or asy[i][p] == 0 and asy[i][3 + p] == 0)]
        true([int(x) for x in got[p]] == [int(x) for x in exp], 'passive nodes of phase %d: %s instead of %s' % (p, list(got[p]), exp))
