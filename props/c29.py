"""construction of networks: the table entries created for an arbitrary bus record, line record and matrix entry"""
from .stages import *
from engine import load as LD, sym as Y, ctx as X

ASSUME = ['pandapower create_bus/create_load/create_asymmetric_load/create_ext_grid/create_line/create_line_from_parameters add exactly one row with the given values to the table of that element (create_bus returns the requested index), create_std_type stores the type under its name, drop_buses/drop_lines remove exactly the given rows, get_element_index returns the index of the bus of that name',
          'bus names are unique: different bus records have different indexes', 'the loops over records act on the tables only, so that the state after the loop is the sequence of the effects of its iterations']
NODEF = object()
NAN = float('nan')
SIG = dict(
    create_bus=dict(vn_kv=NODEF, name=None, index=None, geodata=None, type='b', zone=None, in_service=True, max_vm_pu=NAN, min_vm_pu=NAN, coords=None),
    create_load=dict(bus=NODEF, p_mw=NODEF, q_mvar=0, const_z_percent=0, const_i_percent=0, sn_mva=NAN, name=None, scaling=1.0, index=None, in_service=True, type='wye', max_p_mw=NAN, min_p_mw=NAN, max_q_mvar=NAN, min_q_mvar=NAN, controllable=NAN),
    create_ext_grid=dict(bus=NODEF, vm_pu=1.0, va_degree=0.0, name=None, in_service=True, s_sc_max_mva=NAN, s_sc_min_mva=NAN, rx_max=NAN, rx_min=NAN, max_p_mw=NAN, min_p_mw=NAN, max_q_mvar=NAN, min_q_mvar=NAN, index=None, r0x0_max=NAN, x0x_max=NAN, controllable=NAN, slack_weight=1.0),
    create_asymmetric_load=dict(bus=NODEF, p_a_mw=0, p_b_mw=0, p_c_mw=0, q_a_mvar=0, q_b_mvar=0, q_c_mvar=0, sn_mva=NAN, name=None, scaling=1.0, index=None, in_service=True, type='wye'),
    create_line=dict(from_bus=NODEF, to_bus=NODEF, length_km=NODEF, std_type=NODEF, name=None, index=None, geodata=None, df=1.0, parallel=1, in_service=True, max_loading_percent=NAN, alpha=NAN, temperature_degree_celsius=NAN),
    create_line_from_parameters=dict(from_bus=NODEF, to_bus=NODEF, length_km=NODEF, r_ohm_per_km=NODEF, x_ohm_per_km=NODEF, c_nf_per_km=NODEF, max_i_ka=NODEF, name=None, index=None, type=None, geodata=None, in_service=True, df=1.0, parallel=1, g_us_per_km=0.0, max_loading_percent=NAN, alpha=NAN, temperature_degree_celsius=NAN, r0_ohm_per_km=NAN, x0_ohm_per_km=NAN, c0_nf_per_km=NAN, g0_us_per_km=0, endtemp_degree=NAN),
    create_std_type=dict(data=NODEF, name=NODEF, element='line', overwrite=True, check_required=True),
    drop_buses=dict(buses=NODEF, drop_elements=True), drop_lines=dict(lines=NODEF), add_zero_impedance_parameters=dict())


class Name:
    """text made of constant parts and of printed numbers"""
    def __init__(self, *parts): self.parts = parts
    def __add__(self, o): return Name(*self.parts, o)
    def __radd__(self, o): return Name(o, *self.parts)


def text(x=''):
    return Name(x) if isinstance(x, S) else x if isinstance(x, Name) else str(x)


class PP:
    """pandapower as its contract: element creation is recorded"""
    def __init__(self, net=None): self.log = []
    def __getattr__(self, f):
        if f not in SIG:
            if f.startswith('__'): raise AttributeError(f)
            raise Unsupported('pandapower.%s' % f)
        sig = SIG[f]
        def call(net, *a, **k):
            d = bind(list(sig), a, k, {n: v for n, v in sig.items() if v is not NODEF})
            self.log.append((f, net, d))
            if f == 'create_bus': return d['index']
        return call
    def get_element_index(self, net, element, name, exact_match=True):
        if element != 'bus' or exact_match is not True: raise Unsupported('get_element_index')
        if not isinstance(name, Name) or len(name.parts) != 1: raise Unsupported('name of a bus')
        return name.parts[0]
    def take(self):
        r, self.log[:] = list(self.log), []
        return r


class Records(SList):
    """a list of records of symbolic length"""
    def __init__(self, n, f):
        SList.__init__(self)
        self.sym = (dp(n), f)


class Rec:
    def __init__(self, **k): self.__dict__.update(k)


class Each:
    """loop over records (or rows): contract of one arbitrary iteration"""
    always = False
    def __init__(self, start, check): self.start, self.check, self.ran = start, check, 0
    def accept(self, ctl):
        return True
    def iterate(self, ctl):
        self.ran += 1
        self.pre = dict(ctl.pre)
        if Y.EXP[0].choose(2) == 0:
            t = P(fresh('t', 'I'))
            C().rng(t, 0, P(ctl.n))
            self.start(t, ctl)
            yield ctl.f(t)
            self.check(t)
            raise StopPath()
        return
    def head(self, ctl, name, th): return self.pre.get(name, UNDEF)
    def fin(self, ctl, name, th): return self.pre.get(name, UNDEF)


def only(h, log, net, *fs):
    """exactly the named calls, on the network itself; returns their arguments"""
    ok = h.true('elements created: %s' % (', '.join(fs) or 'none'), [x[0] for x in log] == list(fs))
    if not ok: return None
    return [x[2] for x in log] if h.true('created in the network itself', all(x[1] is net for x in log)) else None


def plain(h, d, **k):
    """remaining electrical arguments at their neutral values"""
    for n, v in k.items():
        if n in d: h.eq('neutral %s' % n, d[n], v) if isnum(d[n]) or isinstance(d[n], S) else h.true('neutral %s' % n, d[n] == v)


def bus_spec(h, log, net, m, r, three, scalar):
    """elements of one bus record"""
    N = m.Net
    kind = 'load' if bool(r.type == N.TYPE_LOAD) else 'slack' if bool(r.type == N.TYPE_PCC) else 'none'
    fs = sorted(x[0] for x in log)
    want = dict(load=['create_load' if scalar else 'create_asymmetric_load'], slack=['create_ext_grid', 'create_load'], none=[])[kind]
    if not h.true('elements of a bus record', fs == sorted(['create_bus'] + want)): return
    if not h.true('created in the network itself, the bus first', all(x[1] is net for x in log) and log[0][0] == 'create_bus'): return
    d = {x[0]: x[2] for x in log}
    b = d['create_bus']
    h.eq('index of the bus', b['index'], r.id)
    h.eq('voltage level of the bus', b['vn_kv'], r.baseKV)
    if not isinstance(b['name'], Name) or len(b['name'].parts) != 1: raise Unsupported('name of a bus')
    h.eq('name of the bus', b['name'].parts[0], r.id)
    plain(h, b, in_service=True)
    if 'create_load' in d:
        l = d['create_load']
        h.eq('the load is at the bus', l['bus'], r.id)
        h.eq('active load', l['p_mw'], r.Pd if kind == 'load' else 0)
        h.eq('reactive load', l['q_mvar'], r.Qd if kind == 'load' else 0)
        if kind == 'load':
            h.eq('constant impedance share', l['const_z_percent'], r.Z)
            h.eq('constant current share', l['const_i_percent'], r.I)
        plain(h, l, in_service=True, scaling=1.0, type='wye')
    if 'create_asymmetric_load' in d:
        l = d['create_asymmetric_load']
        h.eq('the load is at the bus', l['bus'], r.id)
        for i, p in enumerate('abc'):
            h.eq('active load of phase %s' % p, l['p_%s_mw' % p], r.Pd.get((P(i),)))
            h.eq('reactive load of phase %s' % p, l['q_%s_mvar' % p], r.Qd.get((P(i),)))
        plain(h, l, in_service=True, scaling=1.0, type='wye')
    if 'create_ext_grid' in d:
        l = d['create_ext_grid']
        h.eq('the external connection is at the bus', l['bus'], r.id)
        plain(h, l, in_service=True, vm_pu=1.0, va_degree=0.0)


def line_spec(h, log, net, f, t, l, three, r=None, x=None, ty=None):
    a = only(h, log, net, 'create_line' if three else 'create_line_from_parameters')
    if a is None: return
    a = a[0]
    h.either(lambda: (h.eq('line between its two buses', a['from_bus'], f), h.eq('line between its two buses (other end)', a['to_bus'], t)),
             lambda: (h.eq('line between its two buses', a['from_bus'], t), h.eq('line between its two buses (other end)', a['to_bus'], f)))
    if l is not None: h.eq('length', a['length_km'], l)
    if three: h.true('line type', a['std_type'] is ty)
    else:
        h.eq('total resistance', a['r_ohm_per_km'] * a['length_km'], r)
        h.eq('total reactance', a['x_ohm_per_km'] * a['length_km'], x)
        plain(h, a, c_nf_per_km=0, g_us_per_km=0.0)
    plain(h, a, in_service=True, parallel=1)


def run(B, L):
    m1, m3, ma = L.load('src.simulation.network'), L.load('src.simulation.network_3ph'), L.load('src.simulation.abstract_network')
    lp, ln = L.load('src.simulation.load_profile'), L.load('src.simulation.lines')
    r1, r3 = L.load('src.simulation.run'), L.load('src.simulation.run3ph')
    B.functions |= {'NetData.__init__', 'NetData.create_bus', 'NetData.create_line', 'NetData.create_lines', 'NetData.create_lines_from_ybus', 'NetData3P.__init__', 'NetData3P.create_bus',
                    'NetData3P.create_line', 'NetData3P.create_lines', 'Net.create_buses', 'Net.remove_bus', 'Net.remove_buses', 'Net.remove_line', 'Net.remove_lines', 'BusData.__init__', 'LineData.__init__',
                    'simulation.run.make_net', 'simulation.run3ph.make_net'}

    def setup(h, three, init=False, **attrs):
        pp = PP()
        for m in (m1, m3, ma):
            m.__dict__['pp'] = pp
            m.__dict__['str'] = text
        m = m3 if three else m1
        base = m.NetData3P if three else m.NetData

        class W(base):
            def __init__(self): self.__dict__.update(attrs)
        return pp, m, W(), base

    def record(h, three, scalar, k=None):
        one = (lambda n: h.real(n)) if k is None else (lambda n: S(app(n, [k]), ZERO, 'f'))
        def three_of(n):
            return A((3,), 'f', lambda i: S(app(n, [P(i)] + ([] if k is None else [k])), ZERO, 'f'))
        num = lambda n: h.int(n, 0) if k is None else S(app(n, [k], 'I'), ZERO, 'i')
        pq = one if scalar else three_of
        return Rec(id=num('id'), type=num('type'), Pd=pq('Pd'), Qd=pq('Qd'), baseKV=one('kv'), Z=one('Zp'), I=one('Ip'))

    for three in (False, True):
        ph = 'three phases' if three else 'single phase'
        for scalar in ((True, False) if three else (True,)):
            nm = ph + ('' if scalar else ', unbalanced load')

            def body(h, three=three, scalar=scalar):
                pp, m, net, _ = setup(h, three)
                r = record(h, three, scalar)
                if not scalar and bool(r.type == m.Net.TYPE_PCC): return           # external connections take scalar limits
                net.create_bus(r.id, r.type, r.Pd, r.Qd, r.baseKV, r.Z, r.I)
                bus_spec(h, pp.log, net, m, r, three, scalar)
            B.verify('create_bus, %s' % nm, body)

            def body(h, three=three, scalar=scalar):
                pp, m, net, _ = setup(h, three)
                n = h.size('n', 2)
                recs = {}
                def at(k):
                    k = norm(P(k))
                    if k not in recs: recs[k] = record(h, three, scalar, k)
                    return recs[k]
                cur = []
                def start(t, ctl):
                    if not scalar: C().assume(norm(X.dec_eq(toS(at(t).type).re - m.Net.TYPE_PCC)), False)
                sp = Each(start, lambda t: bus_spec(h, pp.log, net, m, at(t), three, scalar))
                LD.LOOPSPEC[lambda site, q: norm(P(q)) is norm(dp(n))] = sp
                net.create_buses(Records(n, at))
                if sp.ran != 1: raise Unsupported('loop over the bus records')
                h.true('nothing else created', pp.log == [])
            B.verify('create_buses, %s' % nm, body)

        def body(h, three=three):
            pp, m, net, _ = setup(h, three)
            f, t, l = h.int('f', 0), h.int('t', 0), h.real('l', pos=True)
            C().assume(norm(X.dec_eq(toS(f).re - toS(t).re)), False)
            if three:
                ty = object()
                net.create_line(f, t, l, ty)
                line_spec(h, pp.log, net, f, t, l, True, ty=ty)
            else:
                r, x = h.real('r'), h.real('x')
                net.create_line(f, t, r, x, l)
                line_spec(h, pp.log, net, f, t, l, False, r, x)
                pp.take()
                net.create_line(f, t, r, x)
                line_spec(h, pp.log, net, f, t, None, False, r, x)
        B.verify('create_line, %s' % ph, body)

        def body(h, three=three):
            pp, m, net, _ = setup(h, three)
            n = h.size('n', 2)
            recs = {}
            C().apppos.add('len')
            def at(k):
                k = norm(P(k))
                if k not in recs:
                    num = lambda q: S(app(q, [k], 'I'), ZERO, 'i')
                    one = lambda q: S(app(q, [k]), ZERO, 'f')
                    recs[k] = Rec(start_bus=num('start'), end_bus=num('end'), R=one('R'), X=one('X'), length=one('len'), status=num('status'), t=Rec())
                    recs[k].orig = dict(recs[k].__dict__)
                return recs[k]
            def start(t, ctl): pass
            def check(t):
                o = at(t).orig
                if bool(o['status'] > 0): line_spec(h, pp.log, net, o['start_bus'], o['end_bus'], o['length'], three, o['R'], o['X'], o['t'])
                else: only(h, pp.log, net)
            sp = Each(start, check)
            LD.LOOPSPEC[lambda site, q: norm(P(q)) is norm(dp(n))] = sp
            net.create_lines(Records(n, at))
            if sp.ran != 1: raise Unsupported('loop over the line records')
            h.true('nothing else created', pp.log == [])
        B.verify('create_lines, %s' % ph, body)

        def body(h, three=three):
            pp, m, net, base = setup(h, three)
            for f, arg, call in (('remove_bus', 'one', 'drop_buses'), ('remove_buses', 'many', 'drop_buses'), ('remove_line', 'one', 'drop_lines'), ('remove_lines', 'many', 'drop_lines')):
                pp.take()
                k = h.int('k') if arg == 'one' else h.array('k', (h.size('c', 1),), 'i')
                getattr(net, f)(k)
                a = only(h, pp.log, net, call)
                if a is None: return
                got = a[0]['buses' if 'bus' in f else 'lines']
                if arg == 'many': h.true('%s removes the given rows' % f, got is k) if got is k else h.eq_arr('%s removes the given rows' % f, arr(got), k)
                else:
                    g = arr(got)
                    if h.shape('%s removes one row' % f, g, (1,)): h.eq('%s removes the given row' % f, g.get((ZERO,)), k)
                if 'bus' in f: h.true('elements at a removed bus go with it', a[0]['drop_elements'] is True)
        B.verify('removal, %s' % ph, body)

        for given in ('records', 'nothing'):
            def body(h, three=three, given=given):
                pp, m, _, base = setup(h, three)
                calls = []

                class Net0:
                    def __init__(self, other=None): calls.append(('base', self, other))
                old = m.Net.__init__
                m.Net.__init__ = lambda self, other=None: calls.append(('base', self, other))
                try:
                    class W(base):
                        def create_buses(self, ns): calls.append(('buses', self, ns)); return self
                        def create_lines(self, ls): calls.append(('lines', self, ls)); return self
                    ns, ls, other = (SList([Rec()]), SList([Rec()]), Rec()) if given == 'records' else (None, None, None)
                    ta, tb = Rec(), Rec()
                    w = W(*(({'a': ta, 'b': tb},) if three else ()), ns, ls, other) if given == 'records' else W(*(({},) if three else ()))
                finally: m.Net.__init__ = old
                h.true('network set up first, then all buses, then all lines', [c[0] for c in calls] == ['base', 'buses', 'lines'] and all(c[1] is w for c in calls))
                if len(calls) == 3:
                    if given == 'records': h.true('from the given network and records', calls[0][2] is other and calls[1][2] is ns and calls[2][2] is ls)
                    else: h.true('without records an empty network is built', calls[0][2] is None and len(calls[1][2]) == 0 and len(calls[2][2]) == 0)
                log = [x for x in pp.take() if x[0] != 'add_zero_impedance_parameters']
                if not three or given == 'nothing': h.true('no further element', log == [])
                elif h.true('every line type is declared', len(log) == 2 and all(x[0] == 'create_std_type' and x[1] is w and x[2]['element'] == 'line' for x in log)):
                    h.true('each under its own name', sorted((x[2]['name'], id(x[2]['data'])) for x in log) == sorted([('a', id(ta)), ('b', id(tb))]))
            B.verify('constructor, %s, %s given' % (ph, given), body)

        def body(h, three=three):
            r = r3 if three else r1
            calls = []

            class SN:
                def __init__(self, *a, **k):
                    d = bind((['ts'] if three else []) + ['ns', 'ls', 'other'], a, k, dict(ns=None, ls=None, other=None))
                    self.__dict__['d'] = d
                    calls.append(('new', self, d))
                def create_lines_from_ybus(self, y): calls.append(('ybus', self, y))
            bus, line, types = SList([Rec()]), SList([Rec()]), {'a': Rec()}
            tn = Rec(grid_bus=bus, grid_net=line, other_bus=SList(), other_net=SList())
            install(L, r, dict(SimulatedNet3P=SN, net_templates_3ph=tn, ieee123_types=types) if three else dict(SimulatedNet=SN, net_templates=tn))
            net, b, l = r.make_net('grid')
            h.true('built from the records of the requested grid', [c[0] for c in calls] == ['new'] and calls[0][2]['ns'] is bus and calls[0][2]['ls'] is line and calls[0][2]['other'] is None)
            if three: h.true('with the known line types', calls and calls[0][2].get('ts') is types)
            h.true('network and records are returned', net is calls[0][1] and b is bus and l is line and net.name == 'grid')
            del calls[:]
            y = h.array('Y', (h.size('n', 1),) * 2, 'c')
            net, b, l = r.make_net('grid', y)
            h.true('lines come from the admittance matrix alone', [c[0] for c in calls] == ['new', 'ybus'] and calls[0][2]['ns'] is bus and len(calls[0][2]['ls']) == 0 and calls[1][1] is net and calls[1][2] is y)
            h.true('network and records are returned', b is bus and len(l) == 0 and net.name == 'grid')
        B.verify('make_net, %s' % ph, body)

    def body(h):
        n = h.size('n', 2)
        lab = h.indices('bus', (n,), 0, 10 ** 6, inj=(0,))
        kv = h.array('kv', (n,), pos=True)
        sn = h.real('sn', pos=True)
        pp, m, net, _ = setup(h, False, bus=Frame(dict(vn_kv=kv), lab), sn_mva=sn)
        Yb = h.array('Y', (n, n), 'c')
        st = {}
        def start_i(t, ctl): st['i'] = t
        def start_j(t, ctl):
            st['j'] = t
        def check_j(t):
            i, j = st['i'], t
            y = Yb.get((i, j))
            zero = norm(X.dec_eq(toS(y).re) * X.dec_eq(toS(y).im))
            hit = C().decide(zero)
            if hit is None: hit = bool(mk('b', zero))
            if hit: only(h, pp.log, net); return
            a = only(h, pp.log, net, 'create_line_from_parameters')
            if a is None: return
            a = a[0]
            f, t_ = lab.get((i,)), lab.get((j,))
            h.either(lambda: (h.eq('line between the two buses', a['from_bus'], f), h.eq('line between the two buses (other end)', a['to_bus'], t_)),
                     lambda: (h.eq('line between the two buses', a['from_bus'], t_), h.eq('line between the two buses (other end)', a['to_bus'], f)))
            R_, X_ = a['r_ohm_per_km'] * a['length_km'], a['x_ohm_per_km'] * a['length_km']
            z = R_ + 1j * X_
            k = kv.get((i,))
            # (-Y_ij) z = vn^2 / sn
            h.eq('per unit admittance of the line is the negated entry', -toS(y) * z, k * k / sn)
            plain(h, a, c_nf_per_km=0, g_us_per_km=0.0, in_service=True, parallel=1)

        class Outer(Each):
            def accept(self, ctl): return self.ran == 0

        def check_i(t):
            if si.ran != 1: raise Unsupported('loop over the columns before the diagonal')
        so = Outer(start_i, check_i)
        si = Each(start_j, check_j)
        LD.LOOPSPEC[lambda site, q: norm(P(q)) is norm(dp(n))] = so
        LD.LOOPSPEC[lambda site, q: 'i' in st and norm(P(q) - st['i']) is ZERO] = si
        net.create_lines_from_ybus(Yb)
        if so.ran != 1: raise Unsupported('loop over the rows')
        h.true('nothing else created', pp.log == [])
        h.unchanged('admittance matrix', Yb)
    B.verify('create_lines_from_ybus', body)

    def body(h):
        v = {k: h.real(k) for k in 'p q g b vm va kv vmax vmin z_perc i_perc'.split()}
        v.update({k: h.int(k) for k in 'i t a z'.split()})
        d = lp.BusData(**v)
        for f, k in dict(id='i', type='t', Pd='p', Qd='q', baseKV='kv', Z='z_perc', I='i_perc').items(): h.eq('bus record field %s' % f, getattr(d, f), v[k])
        d = lp.BusData(v['i'], v['t'], v['p'], v['q'])
        for f, k in dict(id='i', type='t', Pd='p', Qd='q').items(): h.eq('bus record field %s by position' % f, getattr(d, f), v[k])
        h.eq('no constant impedance share by default', d.Z, 0)
        h.eq('no constant current share by default', d.I, 0)
        v = {k: h.real('l' + k) for k in 'l r x'.split()}
        v.update({k: h.int('l' + k) for k in 'f t s'.split()}, typ=Rec())
        d = ln.LineData(**v)
        for f, k in dict(start_bus='f', end_bus='t', length='l', R='r', X='x', status='s').items(): h.eq('line record field %s' % f, getattr(d, f), v[k])
        h.true('line record type', d.t is v['typ'])
        d = ln.LineData(v['f'], v['t'])
        h.eq('in service by default', d.status, 1)
        h.eq('unit length by default', d.length, 1)
    B.verify('records', body)
