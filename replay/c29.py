from nets import *
from src.simulation.lines import LineData
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P

TYPES = {'a': dict(r_ohm_per_km=.3, x_ohm_per_km=.5, c_nf_per_km=0, max_i_ka=1., r0_ohm_per_km=.4, x0_ohm_per_km=1., c0_nf_per_km=0),
         'b': dict(r_ohm_per_km=.7, x_ohm_per_km=.2, c_nf_per_km=0, max_i_ka=1., r0_ohm_per_km=.9, x0_ohm_per_km=.6, c0_nf_per_km=0)}


def cases(rng, tier):
    for k in range(60 if tier == 'quick' else 600):
        yield dict(kind=rng.choice(['single', 'single', 'three', 'ybus', 'remove', 'incremental']), n=rng.choice([2, 3, 4, 6]), ids=rng.choice(['range', 'sparse', 'shuffled']), seed=rng.randrange(10 ** 6))


def check(c):
    n, three = c['n'], c['kind'] == 'three'
    ids = dict(range=list(range(1, n + 1)), sparse=sorted(np.random.permutation(50)[:n].tolist()), shuffled=np.random.permutation(50)[:n].tolist())[c['ids']]
    pcc = ids[np.random.randint(n)]
    R = lambda a=.1, b=1.: float(np.random.uniform(a, b))
    bd = []
    for i in ids:
        p, q = (np.array([R(), R(), R()]), np.array([R(), R(), R()])) if three and i != pcc and np.random.rand() < .6 else (R(), R())
        t = 3 if i == pcc else 2 if np.random.rand() < .15 else 1
        bd.append(BusData(i, t, p, q, kv=R(1, 20), z_perc=R(0, 40), i_perc=R(0, 40)))
    ld = []
    for a in range(n):
        for b in range(a):
            if np.random.rand() < .7:
                f, t = (ids[a], ids[b]) if np.random.rand() < .5 else (ids[b], ids[a])
                ld.append(LineData(f, t, R(.2, 3), ['a', 'b'][np.random.randint(2)], R(), R(), s=int(np.random.rand() < .7)))
    want = {frozenset((l.start_bus, l.end_bus)): l for l in ld if l.status}
    if c['kind'] == 'ybus':
        ids_s = sorted(ids)
        net = NetData(bd)
        nm = len(net.bus.index)
        W = np.triu(np.random.uniform(.5, 2, (n, n)) - 1j * np.random.uniform(1, 3, (n, n)), 1)
        mask = np.triu(np.random.rand(n, n) < .7, 1)
        W = W * mask
        W = W + W.T
        net.sn_mva = R(.5, 5)
        Y = np.diag(W.sum(axis=1)) - W
        net.bus.vn_kv = kv = 4.16 if np.random.rand() < .5 else R(1, 20)
        Y0 = Y.copy()
        net.create_lines_from_ybus(Y)
        same(Y, Y0, 'given admittance matrix')
        true(len(net.line) == mask.sum(), '%d lines instead of %d' % (len(net.line), mask.sum()))
        pos = {i: k for k, i in enumerate(net.bus.index)}
        got = np.zeros((n, n), complex)
        for l in net.line.itertuples():
            y = 1 / ((l.r_ohm_per_km + 1j * l.x_ohm_per_km) * l.length_km) * kv ** 2 / net.sn_mva / 1
            a, b = pos[l.from_bus], pos[l.to_bus]
            got[a, b] += y
            got[b, a] += y
            true(l.c_nf_per_km == 0, 'line with a shunt')
        same(got, W, 'line admittances in per unit')
        return
    if three: net = NetData3P(TYPES, bd, ld)
    elif c['kind'] == 'incremental':
        net = NetData()
        for b in bd: net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, b.Z, b.I)
        for l in ld:
            if l.status: net.create_line(l.start_bus, l.end_bus, l.R, l.X, l.length)
    else: net = NetData(bd, ld)
    true(sorted(net.bus.index) == sorted(ids), 'buses %s instead of %s' % (sorted(net.bus.index), sorted(ids)))
    for b in bd:
        eq(net.bus.vn_kv[b.id], b.baseKV, 'voltage level of bus %d' % b.id)
        L, A = net.load[net.load.bus == b.id], net.asymmetric_load[net.asymmetric_load.bus == b.id]
        sc = np.isscalar(b.Pd)
        true((len(L), len(A)) == ((0, 0) if b.type == 2 else (1, 0) if sc else (0, 1)), 'bus %d has %d loads and %d unbalanced loads' % (b.id, len(L), len(A)))
        if b.type == 2: continue
        if sc:
            exp = (0., 0.) if b.type == 3 else (b.Pd, b.Qd)
            same(L[['p_mw', 'q_mvar']].values[0], np.array(exp), 'load of bus %d' % b.id)
            if b.type == 1: same(L[['const_z_percent', 'const_i_percent']].values[0], np.array([b.Z, b.I]), 'load type of bus %d' % b.id)
        else: same(A[['p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar']].values[0].astype(float), np.concatenate((b.Pd, b.Qd)), 'load of bus %d' % b.id)
    true(list(net.ext_grid.bus) == [pcc], 'external grids at %s instead of %s' % (list(net.ext_grid.bus), [pcc]))
    true(net.load.bus.tolist() + net.asymmetric_load.bus.tolist() == [b.id for b in bd if b.type != 2 and np.isscalar(b.Pd)] + [b.id for b in bd if b.type != 2 and not np.isscalar(b.Pd)] or sorted(ids) != ids, 'order of the loads')
    lines(net, want, three)
    if c['kind'] == 'remove':
        k = np.random.permutation(n)[:np.random.randint(1, n)]
        rm = [ids[j] for j in k if ids[j] != pcc][:2]
        li = net.line.index.tolist()
        rl = [li[j] for j in np.random.permutation(len(li))[:min(2, len(li))]]
        ends = {i: frozenset((net.line.from_bus[i], net.line.to_bus[i])) for i in li}
        if len(rl) == 1: net.remove_line(rl[0])
        elif rl: net.remove_lines(rl)
        want = {e: want[e] for i, e in ends.items() if i not in rl}
        lines(net, want, three)
        true(sorted(net.bus.index) == sorted(ids), 'removing lines removed buses')
        if len(rm) == 1: net.remove_bus(rm[0])
        elif rm: net.remove_buses(rm)
        true(sorted(net.bus.index) == sorted(set(ids) - set(rm)), 'buses after removing %s: %s' % (rm, sorted(net.bus.index)))
        lines(net, {e: l for e, l in want.items() if not e & set(rm)}, three)


def lines(net, want, three):
    got = {}
    for l in net.line.itertuples(): got.setdefault(frozenset((l.from_bus, l.to_bus)), []).append(l)
    true(set(got) == set(want), 'lines between %s instead of %s' % (sorted(map(sorted, got)), sorted(map(sorted, want))))
    for e, l in want.items():
        true(len(got[e]) == 1, 'several lines between %s' % sorted(e))
        g = got[e][0]
        if three: r, x = TYPES[l.t]['r_ohm_per_km'] * l.length, TYPES[l.t]['x_ohm_per_km'] * l.length
        else: r, x = l.R, l.X
        eq(g.r_ohm_per_km * g.length_km, r, 'total resistance of the line %s' % sorted(e))
        eq(g.x_ohm_per_km * g.length_km, x, 'total reactance of the line %s' % sorted(e))
        eq(g.length_km, l.length, 'length of the line %s' % sorted(e))
        true(g.in_service, 'line %s out of service' % sorted(e))
        if three:
            eq(g.r0_ohm_per_km, TYPES[l.t]['r0_ohm_per_km'], 'zero-sequence resistance')
            eq(g.x0_ohm_per_km, TYPES[l.t]['x0_ohm_per_km'], 'zero-sequence reactance')
