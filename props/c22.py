"""reduction of a network: positions, the matrix handed to the Kron reduction and the eliminated positions"""
from .stages import *
from engine import load as LD, sym as Y, ctx as X

ASSUME = TABLES + ['kron_reduction is used through its contract (C21), give_passive_nodes and make_y_bus return arbitrary duplicate-free lists of buses and an arbitrary matrix',
                   'the network has one external connection']


def hit(n, ix, p):
    """p is among the (distinct) values ix"""
    return toS(SumS([ix.shape_[0]], lambda j: S(X.dec_eq(toS(ix.get((P(j),))).re - p), ZERO, "i"))).re


def same_set(h, label, got, n, want, image, split=lambda q: None):
    """the list holds exactly image(q) for the positions q < n with want(q), in any order"""
    if isinstance(got, A) and hasattr(got, 'setlist'): got = got.setlist
    if isinstance(got, SSet): got = set_elements(got)
    if not isinstance(got, SetList) or got.sset.hi is None or norm(got.sset.hi - n).d: raise Unsupported('list of positions of an unknown form')
    q = dp(h.index(n))
    split(q)
    h.zero('%s: exactly these nodes' % label, norm(got.sset.mask(q) - want(q)))
    C().assume(norm(got.sset.mask(q)), True)
    h.eq('%s: at their positions' % label, toS(got.f(S(q, ZERO, 'i'))), S(norm(image(q)), ZERO, 'i'))


def run(B, L):
    m = L.load('src.simulation.run')
    quiet(m)
    B.functions |= {'simulation.run.reduce_network'}
    def go(h, lap, slack):
        n, k, g, T_ = h.size('n', 2), h.size('hidden', 1), h.size('passive', 1), h.size('T', 1)
        N = dp(n)
        lab = h.indices('buslabel', (n,), 0, 10 ** 6, inj=(0,))
        hp, ps, pc = h.indices('hp', (k,), 0, N, inj=(0,)), h.indices('pp', (g,), 0, N, inj=(0,)), P(h.index(n))
        at = lambda ix: A(ix.shape_, 'i', lambda j: toS(lab.get((toS(ix.get((P(j),))).re,))))
        C().assume_eq(norm(hit(N, ps, pc)))             # a bus with the external connection is never passive (C23)
        if slack == 'hidden': C().assume_eq(norm(hit(N, hp, pc) - 1))
        else: C().assume_eq(norm(hit(N, hp, pc)))
        V, I, Yb = h.array('V', (T_, n), 'c'), h.array('I', (T_, n), 'c'), h.array('Y', (n, n), 'c')
        rec = {}

        class W:
            bus = Frame(dict(vn_kv=h.array('kv', (n,))), lab)
            ext_grid = Frame(dict(bus=A((1,), 'i', lambda j: toS(lab.get((pc,))))), A((1,), 'i', lambda j: S(ZERO, ZERO, 'i')))
            def make_y_bus(self): return Yb.copy()
            def give_passive_nodes(self): return (LabelList(at(ps)),) * 3
            def kron_reduction(self, idx, y=None):
                rec.update(idx=idx, y=arr(y), n=rec.get('n', 0) + 1)
                rec['out'] = h.array('R', (h.size('m'), h.size('m')), 'c')
                return rec['out']
        out = m.reduce_network(W(), V, I, LabelList(at(hp)), lap, False)
        if rec.get('n') != 1: h.fail('one Kron reduction', 'kron_reduction called %d times' % rec.get('n', 0)); raise StopPath()
        return N, k, lab, hp, ps, pc, out, rec, (n, T_, V, I, Yb)

    for lap in (False, True):
        for slack in ('hidden', 'not hidden'):
            def body(h, lap=lap, slack=slack):
                N, k, lab, hp, ps, pc, out, rec, data = go(h, lap, slack)
                n, T_, V, I, Yb = data
                h.true('one Kron reduction', rec.get('n') == 1)
                h.true('the reduced matrix is returned', isinstance(out, (tuple, list)) and len(out) == 2 and out[1] is rec['out'])
                M_ = N if lap else N - 1
                y = rec['y']
                if h.shape('matrix handed to the reduction', y, (dim(norm(M_)),) * 2):
                    def spot(nm, hidden):
                        """a remaining position before the reduction: (place in the matrix, position in the network)"""
                        if hidden: x = toS(hp.get((P(h.index(k)),))).re
                        else:
                            x = dp(h.index(n))
                            C().assume_eq(norm(hit(N, hp, x)))
                            C().assume_eq(norm(SumS([k], lambda j: (lambda v: S(X.dec_eq(v - x) * X.dec_eq(v - pc), ZERO, 'i'))(toS(hp.get((P(j),))).re)).re))      # implied
                        if lap and Y.EXP[0].choose(2): return pc, pc
                        if Y.EXP[0].choose(2):
                            C().assume_le(norm(x - pc + 1))
                            return x, x
                        C().assume_le(norm(pc - x + 1))
                        return (x if lap else x - 1), x
                    which = Y.EXP[0].choose(3)
                    a, ka = spot('a', which == 0)
                    if not lap: h.selected(a, ka)
                    me = lambda x, q: SumS([T_], lambda t: toS(x.get((P(t), q))), 'c') / mk('i', dp(T_))
                    if which < 2:
                        want = toS(Yb.get((ka, ka)))
                        if which == 0 and ka is not pc: want = want - me(I, ka) / me(V, ka)
                        h.eq('hidden nodes are constant admittances' if which == 0 else 'own admittance of the other nodes', y.get((a, a)), want)
                    else:
                        b, kb = spot('b', False)
                        if not lap: h.selected(b, kb)
                        C().assume_eq(X.dec_eq(ka - kb))
                        h.eq('admittance between two nodes', y.get((a, b)), toS(Yb.get((ka, kb))))
            def idxs(h, lap=lap, slack=slack):
                N, k, lab, hp, ps, pc, out, rec, _ = go(h, lap, slack)
                either = lambda q: ONE - (ONE - hit(N, hp, q)) * (ONE - hit(N, ps, q))
                def side(q):
                    c = Y.EXP[0].choose(3)
                    if c == 0: C().assume_le(norm(q - pc + 1))
                    elif c == 1: C().assume_le(norm(pc - q + 1))
                    else: C().assume_eq(norm(q - pc))
                if Y.EXP[0].choose(2): same_set(h, 'reported nodes', out[0], N, either, lambda q: q)
                else: same_set(h, 'eliminated nodes', rec['idx'], N, lambda q: either(q) * (ONE - X.dec_eq(q - pc)), (lambda q: q) if lap else (lambda q: q - (ONE - X.dec_le(q - pc))), side)
            B.verify('single phase[laplacian=%s, slack %s]: positions' % (lap, slack), idxs)
            B.verify('single phase[laplacian=%s, slack %s]: matrix' % (lap, slack), body)
