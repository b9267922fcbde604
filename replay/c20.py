from util import *
from src.simulation import lines as ln

a = np.exp(2j * np.pi / 3)
ABC = np.array([[1, 1, 1], [1, a ** 2, a], [1, a, a ** 2]])      # sequence to phase


def cases(rng, tier):
    for k in range(300 if tier == 'quick' else 5000):
        yield dict(kind='convert', n=rng.randint(1, 5), T=rng.randint(1, 6), cplx=rng.random() < .8, seed=rng.randrange(10 ** 6))


def check(c):
    n, T = c['n'], c['T']
    k = 'c' if c['cplx'] else 'f'
    m, Y = mat(T, 3 * n, k), mat(3 * n, 3 * n, k)
    m0, Y0 = m.copy(), Y.copy()
    mp, ms = ln.measurement_sequence_to_phase(m), ln.measurement_phase_to_sequence(m)
    same(ln.measurement_phase_to_sequence(mp), m, 'sequence to phase and back')
    same(ln.measurement_sequence_to_phase(ms), m, 'phase to sequence and back')
    Yp, Ys = ln.admittance_sequence_to_phase(Y), ln.admittance_phase_to_sequence(Y)
    same(ln.admittance_phase_to_sequence(Yp), Y, 'admittance to phase and back')
    same(ln.admittance_sequence_to_phase(Ys), Y, 'admittance to sequence and back')
    same(m, m0, 'measurements'); same(Y, Y0, 'admittances')
    # each node on its own: perturbing a node changes nothing elsewhere, and the conversion of a node is that of its own columns
    for i in range(n):
        s = slice(3 * i, 3 * i + 3)
        for f in (ln.measurement_sequence_to_phase, ln.measurement_phase_to_sequence): same(f(m)[:, s], f(m[:, s]), '%s of node %d' % (f.__name__, i))
        for j in range(n):
            r = slice(3 * j, 3 * j + 3)
            for f in (ln.admittance_sequence_to_phase, ln.admittance_phase_to_sequence): same(f(Y)[s, r], f(Y[s, r]), '%s of nodes %d,%d' % (f.__name__, i, j))
        bal = np.zeros((1, 3 * n), complex)
        v = complex(*np.random.uniform(.5, 2, 2))
        bal[0, s] = v * np.array([1, a ** 2, a])
        q = np.zeros((1, 3 * n), complex)
        q[0, 3 * i + 1] = v
        same(ln.measurement_phase_to_sequence(bal), q, 'balanced positive-sequence triple at node %d' % i)
        same(ln.measurement_sequence_to_phase(q), bal, 'positive sequence component at node %d' % i)
    # power-flow products: currents of a time step are the admittance matrix times its voltages
    same(ln.measurement_sequence_to_phase((Y @ m.T).T), (Yp @ mp.T).T, 'phase currents of sequence products')
    same(ln.measurement_phase_to_sequence((Y @ m.T).T), (Ys @ ms.T).T, 'sequence currents of phase products')
