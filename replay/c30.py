from nets import *
import pandas as pd, os
from pathlib import Path
from src.simulation.simulation import SimulationResult
from src.simulation.simulation_3ph import SimulationResult3P
COLS3 = ['%s_%s_%s' % (v, p, u) for p in 'abc' for v, u in (('vm', 'pu'), ('va', 'degree'), ('p', 'mw'), ('q', 'mvar'))]


def cases(rng, tier):
    for k in range(60 if tier == 'quick' else 800):
        yield dict(kind='run three' if k == 1 else rng.choice(['single', 'three', 'three', 'single files', 'three files', 'none'] + (['run'] if k % 20 == 3 else ['run three'] if k % 20 == 7 else [])), n=rng.choice([1, 2, 3, 5]), T=rng.choice([1, 2, 4, 11]), matrix=rng.random() < .4, seed=rng.randrange(10 ** 6))


def check(c):
    n, T = c['n'], c['T']
    if c['kind'] == 'none':
        for N in (Net1([], []), Net3({}, [], [])): true(tuple(N.get_current_and_voltage()) == (None, None), 'a network without simulation returned data')
        return
    if c['kind'] == 'run':
        from src.simulation.lines import LineData
        order = np.random.permutation([1, 2, 3]).tolist()
        net = SimulatedNet(buses(order, 1, {2: (.02, .01), 3: (.03, .02)}), [LineData(1, 2, r=.1, x=.2), LineData(2, 3, r=.1, x=.3)])
        p, q = np.random.uniform(.01, .05, (2, 3)), np.random.uniform(.005, .02, (2, 3))
        k = order.index(1)
        p[:, k] = q[:, k] = 0
        v, i = net.run(p, q, output_path=Path(os.environ['EIV_SCRATCH']), verbose=False, calculate_voltage_angles=True).get_current_and_voltage()
        for t in range(2):
            one = net.deepcopy()
            one.load.p_mw, one.load.q_mvar = p[t], q[t]
            pp.runpp(one, numba=False, calculate_voltage_angles=True)
            same(v[t], one.res_bus.vm_pu.values * np.exp(1j * np.deg2rad(one.res_bus.va_degree.values)), 'simulated voltage', tol=1e-6)
        same(i, v @ np.asarray(net.make_y_bus()), 'simulated currents')
        return
    if c['kind'] == 'run three': return run3(c)
    three = c['kind'].startswith('three')
    net = (Net3 if three else Net1)
    net = net({}, [], []) if three else net([], [])
    m = 3 if three else 1
    Y = mat(n * m, n * m, 'c')
    type(net).Y = np.matrix(Y) if c['matrix'] else Y
    names = COLS3 if three else ['vm_pu', 'va_degree', 'p_mw', 'q_mvar', 'loading_percent']
    d = {k: np.random.uniform(.5, 1.5, (T, n)) if k.startswith('vm') else np.random.uniform(-400, 400, (T, n)) for k in names}
    df = {k: pd.DataFrame(v, columns=np.sort(np.random.permutation(50)[:n])) for k, v in d.items()}
    if c['kind'].endswith('files'):
        import tempfile
        p = Path(tempfile.mkdtemp(dir=os.environ['EIV_SCRATCH']))
        for k, v in df.items():
            f = p / ('res_bus_3ph' if three else 'res_line' if 'loading' in k else 'res_bus')
            f.mkdir(exist_ok=True)
            v.to_csv(f / (k + '.csv'), sep=';')
        net.sim_result = (SimulationResult3P if three else SimulationResult).from_dir(p)
    else: net.sim_result = (SimulationResult3P if three else SimulationResult)(result_path=None, **df)
    v, i = net.get_current_and_voltage()
    exp = np.zeros((T, n * m), complex)
    for p in range(m):
        s = '_' + 'abc'[p] if three else ''
        exp[:, p::m] = d['vm%s_pu' % s] * np.exp(1j * np.deg2rad(d['va%s_degree' % s]))
    same(v, exp, 'voltages')
    same(i, exp @ Y, 'currents')
    for k in d: same(getattr(net.sim_result, k).values, d[k], 'simulation result ' + k)


def run3(c):
    """three-phase simulation: admittances against the line data, and power balance at the loads"""
    from src.simulation.lines import LineData
    typ = dict(a=dict(r_ohm_per_km=.3, x_ohm_per_km=.5, c_nf_per_km=0, max_i_ka=1., r0_ohm_per_km=.4, x0_ohm_per_km=1., c0_nf_per_km=0))
    bd = [BusData(1, 3, 5., 5.), BusData(2, 1, np.array([.1, .2, .1]), np.array([.05, .1, .02])), BusData(3, 1, .1, .2)]
    net = SimulatedNet3P(typ, bd, [LineData(1, 2, .5, 'a'), LineData(2, 3, .7, 'a')])

    def blocks(N, lines):
        Y = np.asarray(N.make_y_bus())
        true(Y.shape == (9, 9), 'shape of the admittance matrix')
        al = np.exp(2j * np.pi / 3)
        A = np.array([[1, 1, 1], [1, al ** 2, al], [1, al, al ** 2]])
        for i in range(3):
            for j in range(3):
                ls = [l for a, b, l in lines if {a, b} == {i, j}] if i != j else [l for a, b, l in lines if i in (a, b)]
                if i == j == 0: continue        # the slack also carries the external grid
                y0, y1 = sum(1 / ((.4 + 1j) * l) for l in ls), sum(1 / ((.3 + .5j) * l) for l in ls)
                e = (A @ np.diag([y0, y1, y1]) @ np.linalg.inv(A)) * (1 if i == j else -1) * 4.16 ** 2 / 3 / N.sn_mva
                same(Y[3*i:3*i+3, 3*j:3*j+3], e, 'admittances between nodes %d and %d' % (i, j), tol=1e-6)
        return Y
    blocks(net, [(0, 1, .5), (1, 2, .7)])
    p, q = np.random.uniform(.01, .05, (2, len(net.load))), np.random.uniform(.005, .02, (2, len(net.load)))
    asym = np.random.uniform(.02, .2, (6, 2, len(net.asymmetric_load)))
    v, i = net.run(p, q, asym, output_path=Path(os.environ['EIV_SCRATCH']), verbose=False).get_current_and_voltage()
    v, i = np.asarray(v), np.asarray(i)
    S = (v * np.conj(i)).reshape(2, 3, 3) * net.sn_mva
    at = {int(b): k for k, b in enumerate(net.bus.index)}
    for k, b in enumerate(net.load.bus):
        if at[int(b)]: same(S[:, at[int(b)], :], -np.repeat((p[:, k] + 1j * q[:, k])[:, None] / 3, 3, axis=1), 'power of a balanced load', tol=1e-5)
    for k, b in enumerate(net.asymmetric_load.bus):
        same(S[:, at[int(b)], :], -(asym[:3, :, k] + 1j * asym[3:, :, k]).T, 'power of an unbalanced load', tol=1e-5)
    N = net.deepcopy()
    pp.runpp_3ph(N, numba=False)
    N.create_lines([LineData(1, 3, .3, 'a')])
    blocks(N, [(0, 1, .5), (1, 2, .7), (0, 2, .3)])
