"""passive nodes: an arbitrary bus is appended to the list of a phase exactly when it is passive on that phase"""
from .stages import *
from engine import load as LD, sym as Y, ctx as X

ASSUME = TABLES
COLS = ('p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar')


class Out(SList):
    """list under construction: only appending is part of the contract"""
    def __init__(self):
        SList.__init__(self)
        self.new = []
    def append(self, v): self.new.append(v)
    def _no(self, *a, **k): raise Unsupported('the list of passive nodes is read while it is built')
    __iter__ = __len__ = __getitem__ = __contains__ = length = extend = insert = remove = pop = sort = _no


class Each:
    """loop over the buses: contract of one arbitrary iteration"""
    always = False
    def __init__(self, h, start, check): self.h, self.start, self.check, self.ran = h, start, check, False
    def accept(self, ctl):
        if self.ran: return False
        fr = caller_locals()
        self.lists = None
        for k, v in fr.items():
            if isinstance(v, (list, tuple)) and len(v) == 3 and all(isinstance(x, list) and len(x) == 0 for x in v): self.lists = v
        return self.lists is not None
    def iterate(self, ctl):
        self.ran = True
        self.pre = dict(ctl.pre)
        self.outs = list(self.lists)
        for x in self.outs: x.__class__, x.new = Out, []
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            self.start(t)
            yield ctl.f(t)
            self.check(t, self.outs)
            raise StopPath()
        return
    def head(self, ctl, name, th): return self.pre.get(name, UNDEF)
    def fin(self, ctl, name, th): return self.pre.get(name, UNDEF)


def run(B, L):
    m = L.load('src.simulation.network')
    B.functions |= {'Net.give_passive_nodes'}
    for sym in ('no symmetric load', 'symmetric loads'):
        for asy in ('no unbalanced load', 'unbalanced loads'):
            def body(h, sym=sym == 'symmetric loads', asy=asy == 'unbalanced loads'):
                n, k, g, e = h.size('n', 2), h.size('loads', 2), h.size('asym', 2), h.size('ext', 2)
                ix = lambda nm, d, **o: h.indices(nm, (d,), 0, 10 ** 6, **o)
                lab = ix('bus', n, inj=(0,))
                load = Frame(dict({c: h.array(c, (k,)) for c in ('p_mw', 'q_mvar')}, bus=ix('loadbus', k)), ix('loadlab', k, inj=(0,)))
                asym = Frame(dict({c: h.array(c, (g,)) for c in COLS}, bus=ix('asymbus', g)), ix('asymlab', g, inj=(0,)))
                ext = Frame(dict(bus=ix('extbus', e)), ix('extlab', e, inj=(0,)))

                class W(m.NetData):
                    def __init__(self): self.__dict__.update(bus=Frame(dict(vn_kv=h.array('kv', (n,))), lab), load=load, asymmetric_load=asym, ext_grid=ext)
                net = W()
                # number of rows of a table at a bus (for which a quantity is not zero)
                def rows(tab, b, col=None):
                    def el(q):
                        r = X.dec_eq(toS(tab.cols['bus'].get((P(q),))).re - b)
                        if col is not None: r = r * (ONE - X.dec_eq(toS(tab.cols[col].get((P(q),))).re))
                        return S(norm(r), ZERO, 'i')
                    return SumS([tab.idx.shape_[0]], el).re
                some_ = lambda *a: toS(Y.sbin('ge', S(rows(*a), ZERO, 'i'), 1)).re
                none = lambda *a: not bool(mk('b', some_(*a)))

                def start(t):
                    b = toS(lab.get((t,))).re
                    for tab, some in ((load, sym), (asym, asy)): C().assume(norm(some_(tab, b)), some)

                def check(t, outs):
                    b = toS(lab.get((t,))).re
                    idle = none(ext, b)
                    if idle and sym:
                        for c in ('p_mw', 'q_mvar'): idle = idle and none(load, b, c)
                    for p in range(3):
                        want = idle
                        if want and asy:
                            for c in (COLS[p], COLS[3 + p]): want = want and none(asym, b, c)
                        new = outs[p].new
                        if want:
                            h.true('passive bus reported once on phase %d' % p, len(new) == 1)
                            if len(new) == 1: h.eq('bus reported by its index on phase %d' % p, new[0], S(b, ZERO, 'i'))
                        else: h.true('bus with load or external connection not reported on phase %d' % p, len(new) == 0)

                sp = Each(h, start, check)
                LD.LOOPSPEC[lambda site, q: norm(P(q)) is norm(dp(n))] = sp
                out = net.give_passive_nodes()
                if h.true('loop over the buses', sp.ran): h.true('the three lists are returned in phase order', isinstance(out, (tuple, list)) and len(out) == 3 and all(a is b for a, b in zip(out, sp.outs)))
            B.verify('%s, %s' % (sym, asy), body)
