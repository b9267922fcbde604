"""sequence/phase conversions against the exact Fortescue matrix, node by node, any number of nodes and time steps"""
from engine.prove import *
from engine.npfake import *
from engine import ctx as X, terms as T
ASSUME = ['the angles of +-120 degrees are exact (rational multiples of pi)']

H = Fr(1, 2)


def fortescue():
    """3x3 matrix F[q][p] = a^(-q p), a = exp(2 pi j / 3), as exact pairs (re, im)"""
    r3 = T.sqrt(P(3))
    w = [(ONE, ZERO), (P(-H), r3.scale(-H)), (P(-H), r3.scale(H))]      # a^0, a^-1, a^-2
    return [[w[q * p % 3] for p in range(3)] for q in range(3)]


def I(p): return S(norm(P(p)), ZERO, 'i')


def comb(cs, vs):
    """sum of constants (re, im) times symbolic scalars"""
    re, im = ZERO, ZERO
    for (a, b), v in zip(cs, vs):
        v = toS(v)
        re, im = re + a * v.re - b * v.im, im + a * v.im + b * v.re
    return S(norm(re), norm(im), 'c')


def run(B, L):
    m = L.load('src.simulation.lines')
    B.functions |= {'lines.' + f for f in ('admittance_sequence_to_phase', 'admittance_phase_to_sequence', 'measurement_sequence_to_phase', 'measurement_phase_to_sequence')}
    F = fortescue()
    G = [[(F[q][p][0].scale(Fr(1, 3)), -F[q][p][1].scale(Fr(1, 3))) for p in range(3)] for q in range(3)]      # conj(F)/3 = inverse

    MEAS = ((m.measurement_sequence_to_phase, F), (m.measurement_phase_to_sequence, G))
    ADM = ((m.admittance_sequence_to_phase, F, G), (m.admittance_phase_to_sequence, G, F))
    conv = lambda M, v: [comb([M[q][p] for q in range(3)], v) for p in range(3)]
    cadm = lambda Lm, Rm, Y_: [[comb([Lm[p][a] for a in range(3)], [comb([Rm[b][q] for b in range(3)], Y_[a]) for a in range(3)]) for q in range(3)] for p in range(3)]

    # contracts of the functions: node by node, pair by pair
    for kind in ('f', 'c'):
        for f, M in MEAS:
            def meas(h, kind=kind, f=f, M=M):
                Tn, N = h.size('T'), h.size('N')
                x = h.array('x', (Tn, 3 * N), kind)
                t, i = h.index(Tn), h.index(N)
                own = [x[I(t), I(P(i) * 3 + q)] for q in range(3)]
                y = f(x)
                if not h.shape(f.__name__, y, (Tn, 3 * N)): return
                want = conv(M, own)
                for p in range(3): h.eq('component %d from the columns of its own node' % p, y[I(t), I(P(i) * 3 + p)], want[p])
                h.unchanged('measurements not modified', x)
            B.verify('%s[%s]' % (f.__name__, kind), meas)
        for f, Lm, Rm in ADM:
            def adm(h, kind=kind, f=f, Lm=Lm, Rm=Rm):
                N = h.size('N')
                Y0 = h.array('Y', (3 * N, 3 * N), kind)
                i, j = h.index(N), h.index(N)
                own = [[Y0[I(P(i) * 3 + a), I(P(j) * 3 + b)] for b in range(3)] for a in range(3)]
                y = f(Y0)
                if not h.shape(f.__name__, y, (3 * N, 3 * N)): return
                want = cadm(Lm, Rm, own)
                for p in range(3):
                    for q in range(3): h.eq('entry %d,%d from the block of its own pair of nodes' % (p, q), y[I(P(i) * 3 + p), I(P(j) * 3 + q)], want[p][q])
                h.unchanged('admittances not modified', Y0)
            B.verify('%s[%s]' % (f.__name__, kind), adm)

    # lemmas over these contracts, for the components of an arbitrary node (pair)
    def lemmas(h):
        x, y = h.array('x', (3,), 'c'), h.array('Y', (3, 3), 'c')
        v, Y_ = [x[q] for q in range(3)], [[y[a, b] for b in range(3)] for a in range(3)]
        for n, M, W in (('sequence to phase', F, G), ('phase to sequence', G, F)):
            z = conv(W, conv(M, v))
            for p in range(3): h.eq('measurements %s and back, component %d' % (n, p), z[p], v[p])
            Z = cadm(W, M, cadm(M, W, Y_))
            for p in range(3):
                for q in range(3): h.eq('admittances %s and back, entry %d,%d' % (n, p, q), Z[p][q], Y_[p][q])
            mul = lambda A_, u: [comb_s(A_[p], u) for p in range(3)]
            a, b = conv(M, mul(Y_, v)), mul(cadm(M, W, Y_), conv(M, v))
            for p in range(3): h.eq('%s: power-flow product of a pair of nodes, component %d' % (n, p), a[p], b[p])
        bal = conv(G, [comb([F[1][p]], [v[0]]) for p in range(3)])
        for p in range(3): h.eq('balanced positive-sequence voltages have one sequence component (%d)' % p, bal[p], v[0] if p == 1 else S(ZERO, ZERO, 'c'))
    B.verify('lemmas', lemmas)


def comb_s(row, u):
    r = S(ZERO, ZERO, 'c')
    for a, b in zip(row, u): r = toS(sbin('add', r, toS(sbin('mul', a, b))))
    return S(norm(r.re), norm(r.im), 'c')
