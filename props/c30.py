"""phasors extracted from simulation results"""
from .stages import *

ASSUME = ['the simulation results are tables whose .values is the time-by-bus array of the simulated quantity', 'make_y_bus returns an arbitrary matrix where phasors are extracted', 'pandapower runpp and runpp_3ph leave the bus admittance matrices of the network they are given (per sequence for runpp_3ph, only on request and without rebuilding tables that exist already when the request is made) in its _ppc tables, dense or sparse, in bus order',
          'pandapower ConstControl drives the given variable of the given elements by the column of the data source named by the profile; run_timeseries runs the controllers of the network it is given and its output writer stores every logged table as a file']


class Table:
    """result table known only by its values"""
    def __init__(self, a): self.a = a
    @property
    def values(self): return self.a.copy()
    def to_numpy(self, *a, **k): return self.a.copy()
    @property
    def shape(self): return self.a.shape
    def __symarray__(self): return self.a


def net_of(base, result, Y_):
    class W(base):
        def __init__(self): self.__dict__['sim_result'] = result
        def make_y_bus(self): return Y_
    return W()


class Csv:
    """a result file: its name and its content"""
    def __init__(self, stem, tab): self.stem, self.tab, self.name, self.suffix = stem, tab, stem + '.csv', '.csv'
    def __symarray__(self): raise Unsupported('file')


class Dir:
    def __init__(self, fs): self.fs = fs
    def rglob(self, pat):
        if pat not in ('*.csv', '**/*.csv'): raise Unsupported('pattern')
        return list(self.fs)
    glob = rglob


class Rec:
    def __init__(self, **k): self.__dict__.update(k)


def ybus_net(base, run, fill, empty, stale):
    """a network whose power flow leaves the given matrices; the previous content of its tables is stale"""
    names = list(fill)

    class W(base):
        def __init__(self, tab): self.__dict__['tab'] = tab
        def deepcopy(self): return W(dict(self.tab))
        def __getitem__(self, k):
            if k not in self.tab: raise Unsupported('table %s of the network' % k)
            return self.tab[k]
        def __setitem__(self, k, v):
            if k not in self.tab: raise Unsupported('table %s of the network' % k)
            self.tab[k] = v
        __setattr__ = __setitem__
        def __getattr__(self, k):
            if k.startswith('_ppc'): return self[k]
            raise AttributeError(k)
        def get(self, k, d=None): return self.tab.get(k, d)
        def keys(self): return self.tab.keys()
        def __contains__(self, k): return k in self.tab
        def pop(self, k, *d): return self.tab.pop(k, *d)

    def pf(net, *a, recycle=None, **k):
        if a or set(k) - {'numba', 'algorithm', 'calculate_voltage_angles', 'init', 'max_iteration', 'tolerance_mva', 'trafo_model'}: raise Unsupported('options of a power flow')
        if run == 'runpp' and recycle is not None: raise Unsupported('recycled power flow')
        for nm in names:
            old = net.tab.get(nm) if recycle else None
            if old is not None: net.tab[nm] = old      # pandapower starts from the tables it finds
            elif run == 'runpp' or recycle and recycle['Ybus']: net.tab[nm] = fill[nm]
            else: net.tab[nm] = {'internal': {'Ybus': empty}}
    pp = type('pp', (), {run: staticmethod(pf)})()
    net = W({nm: {'internal': {'Ybus': stale}} if stale is not None else None for nm in names})
    return net, pp


class Path_:
    def __init__(self, p=()): self.p = p
    def __truediv__(self, o): return Path_(self.p + (o,))


def simulate(h, m, base, three, with_asym=True, own_run=False):
    """run() against recorded controllers, writer and time series run"""
    log = []
    T_, k, g, nb = h.size('T', 2), h.size('loads', 2), h.size('asym', 2), h.size('bus', 2)
    ix = lambda nm, d: h.indices(nm, (d,), 0, 10 ** 6, inj=(0,))
    tabs = dict(load=Frame(dict(p_mw=h.array('p_mw', (k,))), ix('loadlab', k)), asymmetric_load=Frame(dict(p_a_mw=h.array('pa', (g,))), ix('asymlab', g)), bus=Frame(dict(vn_kv=h.array('kv', (nb,))), ix('buslab', nb)))
    done = Rec()

    class W(base):
        def __init__(self): self.__dict__.update(tabs, sim_result=None)
        def deepcopy(self):
            w = W()
            return w

    def control(net, element, variable, element_index, profile_name=None, data_source=None, scale_factor=1.0, in_service=True, **k):
        if set(k) - {'recycle', 'order', 'level', 'drop_same_existing_ctrl'}: raise Unsupported('options of a controller')
        log.append(('control', net, dict(element=element, variable=variable, index=element_index, profile=profile_name, data=data_source, scale=scale_factor, on=in_service)))

    class Writer:
        def __init__(self, net, time_steps=None, output_path=None, output_file_type='.p', write_time=None, log_variables=None, csv_separator=';'):
            self.__dict__.update(net=net, path=output_path, typ=output_file_type, sep=csv_separator, vars=[(v[0], v[1]) for v in (log_variables or [])], all=time_steps is None)
            log.append(('writer', net, self))
        def log_variable(self, table, variable, index=None, eval_function=None, eval_name=None):
            if eval_function is not None or eval_name is not None: raise Unsupported('evaluated output')
            self.vars.append((table, variable))
            if index is not None: h.eq_arr('results of every bus are written', arr(index.a if isinstance(index, Index) else index), tabs['bus'].idx)

    def series(net, time_steps=None, continue_on_divergence=False, verbose=True, **k): log.append(('run', net, dict(k, time_steps=time_steps, diverge=continue_on_divergence)))
    frame = lambda data, columns=None, **k: Rec(data=data, columns=columns)
    pf3, other = Rec(), Rec()
    cls = 'SimulationResult3P' if three else 'SimulationResult'
    m.__dict__.update(ConstControl=control, DFData=lambda df, multi=False: Rec(df=df), OutputWriter=Writer, run_timeseries=series, pd=Rec(DataFrame=frame), pp=Rec(runpp_3ph=pf3))

    class Res:
        @staticmethod
        def from_dir(p):
            log.append(('read', None, p))
            return done
    m.__dict__[cls] = Res
    net = W()
    lp, lq = h.array('LP', (T_, k)), h.array('LQ', (T_, k))
    la = tuple(h.array('LA%d' % i, (T_, g)) for i in range(6))
    out = Path_()
    kw = dict(run=other) if own_run else {}
    r = net.run(lp, lq, *((la if with_asym else None,) if three else ()), output_path=out, verbose=False, **kw)
    h.true('the network itself is returned, with the new results', r is net and net.sim_result is done)
    runs = [x for x in log if x[0] == 'run']
    if not h.true('one simulation', len(runs) == 1): return
    sim = runs[0][1]
    ir = log.index(runs[0])
    ctl = [x for x in log if x[0] == 'control']
    h.true('controllers and output belong to the simulated network and precede the simulation', all(x[1] is sim for x in log if x[0] in ('control', 'writer')) and all(log.index(x) < ir for x in log if x[0] in ('control', 'writer')))
    h.true('all time steps are simulated', runs[0][2]['time_steps'] is None and runs[0][2]['diverge'] is False)
    want = {('load', 'p_mw'): (lp, 'load'), ('load', 'q_mvar'): (lq, 'load')}
    if three and with_asym:
        for i, v in enumerate(['p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar']): want['asymmetric_load', v] = (la[i], 'asymmetric_load')
    if h.true('one controller per quantity', sorted((x[2]['element'], x[2]['variable']) for x in ctl) == sorted(want)):
        for x in ctl:
            c = x[2]
            q = '%s of %s' % (c['variable'], c['element'])
            data, tab = want[c['element'], c['variable']]
            lab = tabs[tab].idx
            ar = lambda v: arr(v.a if isinstance(v, Index) else v)
            if not isinstance(c['data'], Rec) or not hasattr(c['data'], 'df'): raise Unsupported('data source')
            df = c['data'].df
            h.eq_arr('given values drive the %s' % q, arr(df.data), data)
            h.eq_arr('columns are the elements, %s' % q, ar(df.columns), lab)
            h.eq_arr('elements driven, %s' % q, ar(c['index']), lab)
            h.eq_arr('profile of each element, %s' % q, ar(c['profile']), lab)
            h.eq('values not scaled, %s' % q, c['scale'], 1.0)
            h.true('controller active, %s' % q, c['on'] is True)
    w = [x[2] for x in log if x[0] == 'writer']
    if h.true('one output writer', len(w) == 1):
        need = {('res_bus_3ph', '%s_%s_%s' % (a, p, u)) for p in 'abc' for a, u in (('vm', 'pu'), ('va', 'degree'))} if three else {('res_bus', 'vm_pu'), ('res_bus', 'va_degree')}
        h.true('magnitudes and angles of every bus are written', need <= set(w[0].vars))
        h.true('for all time steps, in the format that is read', w[0].all and w[0].typ == '.csv' and w[0].sep == ';')
        rd = [x for x in log if x[0] == 'read']
        h.true('results are read from where they were written, after the simulation', len(rd) == 1 and rd[0][2] is w[0].path and log.index(rd[0]) > ir)
    if three: h.true('three-phase power flow unless another is requested', runs[0][2].get('run') is (other if own_run else pf3))
    for q, v in (('active', lp), ('reactive', lq)) + tuple(('unbalanced', a) for a in la): h.unchanged('%s loads' % q, v)


def run(B, L):
    n1, n3 = L.load('src.simulation.network'), L.load('src.simulation.network_3ph')
    B.functions |= {'NetData.make_y_bus', 'NetData3P.make_y_bus', 'SimulatedNet.run', 'SimulatedNet3P.run'}
    for fmt, again in ((None, False), ('csr', False), (None, True), ('csr', True)):
        def body(h, fmt=fmt, again=again):
            n = h.size('n', 2)
            Yb = h.array('Y', (n, n), 'c', fmt)
            net, n1.__dict__['pp'] = ybus_net(n1.NetData, 'runpp', {'_ppc': {'internal': {'Ybus': Yb}}}, None, h.array('Yold', (n, n), 'c', fmt) if again else None)
            before = dict(net.tab)
            h.eq_arr('admittance matrix of the power flow', arr(net.make_y_bus()), h.array('Y', (n, n), 'c'))
            h.true('network left as it was', all(net.tab[k] is before[k] for k in before) and len(net.tab) == len(before))
        B.verify('make_y_bus, single phase%s%s' % (', sparse' if fmt else '', ', again' if again else ''), body)

        def body(h, fmt=fmt, again=again):
            n = h.size('n', 2)
            Ys = [h.array('Y%d' % i, (n, n), 'c', fmt) for i in range(3)]
            net, n3.__dict__['pp'] = ybus_net(n3.NetData3P, 'runpp_3ph', {'_ppc%d' % i: {'internal': {'Ybus': Ys[i]}} for i in range(3)}, h.array('empty', (0,), 'c'), h.array('Yold', (n, n), 'c', fmt) if again else None)
            before = dict(net.tab)
            seen, ret = [], h.array('Yabc', (3 * n, 3 * n), 'c')
            def conv(y):
                seen.append(arr(y).copy())
                return ret
            n3.__dict__['admittance_sequence_to_phase'] = conv
            out = net.make_y_bus()
            if len(seen) != 1: raise Unsupported('conversion of the sequence matrices')
            h.true('network left as it was', all(net.tab[k] is before[k] for k in before) and len(net.tab) == len(before))
            h.true('phase representation is returned', out is ret)
            y = seen[0]
            if h.shape('sequence admittances', y, (3 * n, 3 * n)):
                a, b = P(h.index(n)), P(h.index(n))
                for p in range(3):
                    for q in range(3):
                        h.eq('sequence %d of a node, sequence %d of another' % (p, q), y.get((norm(3 * a + p), norm(3 * b + q))), Ys[p].get((a, b)) if p == q else 0)
        B.verify('make_y_bus, three phases%s%s' % (', sparse' if fmt else '', ', again' if again else ''), body)

    def sim(B, L, nm, mod, cls, **k):
        def body(h):
            m = L.load(mod)
            old = dict(m.__dict__)
            try: simulate(h, m, getattr(m, cls), **k)
            finally: m.__dict__.update(old)
        B.verify(nm, body)
    sim(B, L, 'run, single phase', 'src.simulation.simulation', 'SimulatedNet', three=False)
    sim(B, L, 'run, three phases', 'src.simulation.simulation_3ph', 'SimulatedNet3P', three=True)
    sim(B, L, 'run, three phases, no unbalanced load', 'src.simulation.simulation_3ph', 'SimulatedNet3P', three=True, with_asym=False)
    sim(B, L, 'run, three phases, other power flow', 'src.simulation.simulation_3ph', 'SimulatedNet3P', three=True, own_run=True)
    s1, s3 = L.load('src.simulation.simulation'), L.load('src.simulation.simulation_3ph')
    np = L.np
    B.functions |= {'SimulatedNet.get_current_and_voltage', 'SimulatedNet3P.get_current_and_voltage', 'SimulationResult.from_dir', 'SimulationResult3P.from_dir'}

    def reader(m, h):
        def read_csv(f, *a, **k):
            if a or k.get('sep', k.get('delimiter')) != ';' or k.get('index_col') != 0 or set(k) - {'sep', 'delimiter', 'index_col'}: raise Unsupported('read_csv options')
            return f.tab
        m.pd = type('pd', (), dict(read_csv=staticmethod(read_csv), DataFrame=object))()

    def result(h, m, cls, names, T_, n, files):
        """results as read back from their files"""
        tabs = {k: Table(h.array(k, (T_, n))) for k in names}
        if not files:
            r = type('Res', (), {})()
            r.__dict__.update(tabs)
            return r, tabs
        reader(m, h)
        fs = [Csv(k, tabs[k]) for k in names]
        r = cls.from_dir(Dir(fs[1:] + fs[:1]))
        for k in names: h.true('table %s is read from the file of the same name' % k, getattr(r, k, None) is tabs[k])
        return r, tabs

    for files in (False, True):
        def body(h, files=files):
            T_, n = h.size('T', 1), h.size('n', 1)
            r, t = result(h, s1, s1.SimulationResult, ('vm_pu', 'va_degree', 'p_mw', 'q_mvar', 'loading_percent'), T_, n, files)
            Yb = h.array('Y', (n, n), 'c')
            v, i = net_of(s1.SimulatedNet, r, Yb).get_current_and_voltage()
            if h.shape('voltages', v, (T_, n)):
                k, b = h.index(T_), h.index(n)
                a = t['va_degree'].a[k, b] * np.pi / 180
                m = t['vm_pu'].a[k, b]
                h.eq('voltage has the simulated magnitude and angle', v[k, b], m * np.cos(a) + 1j * (m * np.sin(a)))
            h.eq_arr('currents are the voltages times the admittance matrix', i, v @ Yb)
            for q in ('vm_pu', 'va_degree'): h.unchanged('result table', t[q].a)
        B.verify('single phase%s' % (' [from files]' if files else ''), body)

        def body(h, files=files):
            T_, n = h.size('T', 1), h.size('n', 1)
            names = ['%s_%s_%s' % (a, p, u) for p in 'abc' for a, u in (('vm', 'pu'), ('va', 'degree'), ('p', 'mw'), ('q', 'mvar'))]
            r, t = result(h, s3, s3.SimulationResult3P, names, T_, n, files)
            Yb = h.array('Y', (3 * n, 3 * n), 'c')
            v, i = net_of(s3.SimulatedNet3P, r, Yb).get_current_and_voltage()
            if h.shape('voltages', v, (T_, 3 * n)):
                k, b = P(h.index(T_)), P(h.index(n))
                for p in range(3):
                    a = S(toS(t['va_%s_degree' % 'abc'[p]].a.get((k, b))).re) * np.pi / 180
                    m = t['vm_%s_pu' % 'abc'[p]].a.get((k, b))
                    h.eq('column of phase %d of a bus' % p, v.get((k, norm(3 * b + p))), m * np.cos(a) + 1j * (m * np.sin(a)))
            h.eq_arr('currents are the voltages times the admittance matrix', i, v @ Yb)
            for q in t: h.unchanged('result table', t[q].a)
        B.verify('three phases%s' % (' [from files]' if files else ''), body)

    for m, base, nm in ((s1, s1.SimulatedNet, 'single phase'), (s3, s3.SimulatedNet3P, 'three phases')):
        def body(h, base=base):
            out = net_of(base, None, None).get_current_and_voltage()
            h.true('nothing is returned without a simulation', isinstance(out, tuple) and len(out) == 2 and out[0] is None and out[1] is None)
        B.verify('%s without simulation' % nm, body)
