"""Obligation book-keeping: a contract harness runs the real functions on symbolic inputs and states postconditions;
every postcondition on every path is one obligation, discharged by the engine (normal forms + z3) or refuted numerically."""
import time, random, math, traceback, hashlib, os
from fractions import Fraction as Fr
from .sym import *
from . import sym as Y, ctx as X, terms as T, load as LD, npfake as NP
from .load import generic_index, StopPath, UNDEF, Poison
from .npfake import make_loader
from . import mx as M


class Abort(Exception): pass


class Book:
    def __init__(self, prop, tier='quick', seed=1, budget=600):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obl = []           # dicts
        self.functions = set()
        self.notes = []
        self.t0 = time.time()
        self.budget = budget
        self.loader = None
        self.paths = 0
        self.bounded = []
        self.covers = {}
        self.tasks = []
        self.times = {}

    # ---------------- running a harness body over all paths
    def verify(self, name, body, extra=None, maxpaths=60):
        """queue a harness; finish() runs all of them"""
        self.tasks.append((name, body, maxpaths))

    def finish(self, jobs=None):
        import multiprocessing as mp, pickle
        jobs = jobs or int(os.environ.get('EIV_JOBS', '6'))
        tasks, self.tasks = self.tasks, []
        if jobs <= 1 or len(tasks) <= 1:
            for t in tasks: self._verify(*t)
            return
        cx = mp.get_context('fork')
        nxt = cx.Value('i', 0)
        pipes, procs = [], []

        def work(w):
            out = []
            while True:
                with nxt.get_lock():
                    k = nxt.value
                    nxt.value += 1
                if k >= len(tasks): break
                self.obl, self.covers, self.notes, self.paths = [], {}, [], 0
                t0 = time.time()
                self._verify(*tasks[k])
                out.append((k, [dict(o, refuted=o.get('refuted') and repr(o['refuted'])[:3000]) for o in self.obl], self.covers, self.notes, self.paths, time.time() - t0))
            return pickle.dumps((out, NP.USED, X.STATS))
        for w in range(min(jobs, len(tasks))):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (4500 << 20, resource.RLIM_INFINITY))
                    NP.USED.clear()
                    for k in X.STATS: X.STATS[k] = 0
                    try: d = work(w)
                    except BaseException:
                        traceback.print_exc()
                        d = b''
                    with os.fdopen(wr, 'wb') as f: f.write(d)
                finally: os._exit(0)
            os.close(wr)
            pipes.append((pid, r))
        res = {}
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f: d = f.read()
            os.waitpid(pid, 0)
            if not d: continue
            out, used, stats = pickle.loads(d)
            for k, o, c, n, p, dt in out: res[k] = (o, c, n, p, dt)
            for k, v in used.items(): NP.USED[k] = NP.USED.get(k, 0) + v
            for k, v in stats.items(): X.STATS[k] = X.STATS.get(k, 0) + v
        for k, (name, body, _) in enumerate(tasks):
            if k not in res:
                self.add(name, 'undecided', 'prover process ended without a result')
                continue
            o, c, n, p, dt = res[k]
            self.obl += o
            self.covers.update(c)
            self.notes += n
            self.paths += p
            self.times[name] = dt

    def _verify(self, name, body, maxpaths=60):
        """body(h) is executed on every symbolic path"""
        Y.EXP[0] = Y.Explorer()
        e = Y.EXP[0]
        self.cur = name
        n = 0
        done, covertime = 0, [0]
        while True:
            if time.time() - self.t0 > self.budget:
                self.add(name, 'undecided', 'time budget exhausted')
                break
            cx = reset()
            del NP.EVENTS[:]
            NP._ops.clear()
            del NP._solves[:]
            NP._ikeys.clear()
            M.reset()
            T.INJ.clear()
            NP.SORTED.clear()
            Y.FREEZE[0] = None
            Y.OPAQUE_DOT[0] = False
            LD.LOOPSPEC.clear()
            h = H(self, name, n)
            try:
                body(h)
                done += 1
                if self.covers.get(name, 0) < 3:
                    self.covers.setdefault(name, 0)
                    t1 = time.time()
                    hard = self.covers[name] == 0 and covertime[0] < 8
                    if find_model(**(dict(attempts=6000, limit=4) if hard else {})) is not None: self.covers[name] += 1
                    elif hard: covertime[0] += time.time() - t1
            except StopPath: done += 1
            except Abort: pass
            except CodeError as ex:
                if C().feasible():
                    self.add('%s/path%d: executes without error' % (name, n), 'failed', 'raises: %s' % ex, refuted=self.feasible_model(), tb=tb(ex))
                else: done += 1
            except Unsupported as ex:
                self.add('%s/path%d' % (name, n), 'undecided', 'outside the supported subset: %s' % ex, tb=tb(ex))
            except (ZeroDivisionError, RecursionError, NotImplementedError, MemoryError) as ex:
                self.add('%s/path%d' % (name, n), 'undecided', '%s: %s' % (type(ex).__name__, ex), tb=tb(ex))
            except (TypeError, AttributeError, KeyError, IndexError, ValueError, NameError, AssertionError) as ex:
                # error of the code or of the engine; not a verdict on its own
                self.add('%s/path%d' % (name, n), 'undecided', '%s: %s' % (type(ex).__name__, ex), tb=tb(ex))
            n += 1
            if n > maxpaths:
                self.add(name, 'undecided', 'too many paths')
                break
            if not e.next(): break
        self.paths += n
        if done and name in self.covers and self.covers[name] == 0: self.notes.append('no concrete model found for the preconditions of ' + name)
        return done

    def feasible_model(self):
        m = find_model()
        return m

    def add(self, name, status, how='', **kw):
        self.obl.append(dict(name=name, status=status, how=how, **kw))

    @property
    def counts(self):
        c = dict(proved=0, failed=0, undecided=0)
        for o in self.obl: c[o['status']] += 1
        return c


def tb(ex):
    fr = traceback.extract_tb(ex.__traceback__)
    out = []
    for f in fr:
        if f.filename.startswith(LD.REPO): out.append('%s:%d %s' % (f.filename[len(LD.REPO) + 1:], f.lineno, f.name))
    last = fr[-1] if fr else None
    return (out[-4:] + (['engine %s:%d' % (last.filename.split('/')[-1], last.lineno)] if last else []))


class H:
    def __init__(self, book, name, path):
        self.book, self.name, self.path = book, name, path
        self.kinds = {}

    # ---------------- symbolic inputs
    def size(self, nm, lo=1):
        s = sym(nm, 'I')
        C().assume_le(P(lo) - s)
        return mk('i', s)

    def int(self, nm, lo=None, hi=None):
        s = sym(nm, 'I')
        if lo is not None: C().assume_le(dp(lo) - s)
        if hi is not None: C().assume_le(s - dp(hi) + 1)
        return mk('i', s)

    def real(self, nm, pos=False, nonneg=False, nonzero=False):
        s = sym(nm, 'R')
        if pos:
            C().assume_le(-s)
            C().nonzero.add(s)
            C()._touch()
        if nonneg: C().assume_le(-s)
        if nonzero:
            C().nonzero.add(s)
            C()._touch()
        return mk('f', s)

    def array(self, nm, shape, kind='f', fmt=None, pos=False):
        def el(*i):
            if kind == 'c': return S(app(nm + '_re', list(i)), app(nm + '_im', list(i)), 'c')
            return S(app(nm, list(i), 'I' if kind in 'ib' else 'R'), ZERO, kind)
        r = A(shape, kind, el, fmt)
        r.tag = ('in', nm)
        if pos:
            C().apppos.add(nm)
            C()._touch()
        return r

    def indices(self, nm, shape, lo, hi, inj=None):
        """integer array with entries in [lo, hi); inj: positions of the subscripts in which entries are distinct"""
        r = A(shape, 'i', lambda *i: S(app(nm, list(i), 'I'), ZERO, 'i'))
        r.tag = ('in', nm)
        lo, hi = dp(lo), dp(hi)
        C().apprng[nm] = lambda *a: (lo, hi)
        if inj is not None:
            T.INJ[nm] = tuple(inj)
            # distinct values fit in the range
            for k in inj: C().assume_le(dp(shape[k]) - (hi - lo))
        C()._touch()
        return r

    def polar(self, nm, shape):
        """complex array given by magnitude and angle (every complex number has such a form)"""
        def el(*i):
            m, f = app(nm + '_m', list(i)), app(nm + '_f', list(i))
            return S(m * T.cos(f), m * T.sin(f), 'c', (m, f))
        return A(shape, 'c', el)

    def pyfloat(self, nm, **k): return self.real(nm, **k)

    def index(self, d): return generic_index(d)

    def selected(self, k, v):
        """ghost witness: in selections where this can be proved, the k-th selected position is v"""
        Y.SELW.append((norm(dp(k)), norm(dp(v))))

    # ---------------- obligations
    def ob(self, label): return '%s/path%d: %s' % (self.name, self.path, label)

    def zero(self, label, p, case=None):
        t0 = time.time()
        p = norm(P(p))
        r = X.prove_zero(p)
        if r.ok:
            self.book.add(self.ob(label), 'proved', r.how, t=time.time() - t0)
            return True
        m = refute(p)
        st = 'failed'
        if m is None:
            # inner products kept opaque, or equal at every sampled assignment: not discharged, but no verdict
            if any(x.startswith(('bil#', 'let#')) for x in opaque_app(p)): st = 'undecided'
            elif holds_sampled(p): st = 'undecided'
        self.book.add(self.ob(label), st, '%s: residual %s' % (r.how, str(r.residual)[:1500]), refuted=m, t=time.time() - t0)
        return False

    def true(self, label, c):
        """c: bool or symbolic boolean"""
        if isinstance(c, bool):
            if c: self.book.add(self.ob(label), 'proved', 'concrete')
            else: self.book.add(self.ob(label), 'failed', 'false', refuted=find_model())
            return c
        return self.zero(label, ONE - toS(c).re)

    def fail(self, label, why):
        self.book.add(self.ob(label), 'failed', why, refuted=find_model())

    def either(self, *alternatives):
        """the first alternative (a callable stating obligations) all of whose obligations are discharged; otherwise the obligations of the first"""
        n0, first = len(self.book.obl), None
        for f in alternatives:
            try: f()
            except Unsupported:
                del self.book.obl[n0:]
                continue
            new = self.book.obl[n0:]
            if all(o['status'] == 'proved' for o in new): return True
            del self.book.obl[n0:]
            if first is None: first = new
        if first is None: raise Unsupported('no form of the specification applies')
        self.book.obl.extend(first)
        return False

    def eq(self, label, a, b):
        if isinstance(a, A) or isinstance(b, A): return self.eq_arr(label, a, b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None: return self.true(label, a == b and type(a) == type(b))
        a, b = toS(a), toS(b)
        ok = self.zero(label + ' (re)' if a.kind == 'c' or b.kind == 'c' else label, a.re - b.re)
        if a.kind == 'c' or b.kind == 'c': ok = self.zero(label + ' (im)', a.im - b.im) and ok
        return ok

    def shape(self, label, a, sh):
        if not isinstance(a, A):
            self.fail(label + ' shape', 'not an array: %r' % (a,))
            return False
        if len(a.shape_) != len(sh):
            self.fail(label + ' shape', '%s instead of %s' % (a.shape_, sh))
            return False
        ok = True
        for i, (x, y) in enumerate(zip(a.shape_, sh)):
            ok = self.zero('%s shape[%d]' % (label, i), dp(x) - dp(y)) and ok
        return ok

    def eq_arr(self, label, a, b):
        """equal shapes and equal entries at an arbitrary index"""
        a, b = arr(a), arr(b)
        if not self.shape(label, a, b.shape_): return False
        if a.ndim == 2 or a.ndim == 1:
            if M.nc_equal(a, b):
                self.book.add(self.ob(label + ' (matrix identity)'), 'proved', 'matrix algebra')
                return True
        cx = C()
        cx.push()
        try:
            idx = [generic_index(d) for d in b.shape_]
            x, y = a.get(tuple(idx)), b.get(tuple(idx))
            return self.eq(label, S(x.re, x.im, x.kind), S(y.re, y.im, y.kind))
        finally: cx.pop()

    def kind(self, label, a, kinds):
        self.true(label, (a.kind if isinstance(a, A) else toS(a).kind) in kinds)

    def unchanged(self, label, a, name=None):
        """the input array still holds its original entries"""
        self.true(label, a.ver == 0)


# ---------------------------------------------------------------- numeric refutation
def rfun(name, seed, isint=False):
    cache = {}

    def f(*args):
        key = tuple(round(float(x), 9) for x in args)
        if key not in cache:
            r = random.Random('%s|%s|%s' % (name, key, seed))
            cache[key] = r.randint(-3, 3) if isint else r.choice([-2.5, -1.25, -0.75, 0.5, 0.8, 1.5, 2.25]) + r.random() * 0.1
        return cache[key]
    return f


class Env(dict):
    def __init__(self, seed):
        self.seed = seed
    def __missing__(self, k):
        cx = C()
        if k in cx.apprng:
            inj = T.INJ.get(k, ())

            def v(*args):
                args = [int(round(float(x))) for x in args]
                lo, hi = cx.apprng[k](*[P(x) for x in args])
                lo, hi = int(T.neval(P(lo), self)), int(T.neval(P(hi), self))
                if hi <= lo: raise ValueError('empty range')
                o = [x for i, x in enumerate(args) if i not in inj]
                off = random.Random('%s|%s|%s' % (k, o, self.seed)).randrange(1000)
                return lo + (off + sum(x for i, x in enumerate(args) if i in inj)) % (hi - lo)
        elif k in cx.apppos:
            g = rfun(k, self.seed)
            v = lambda *a: abs(g(*a))
        else: v = rfun(k, self.seed, k.startswith(('sel', 'rint')))
        self[k] = v
        return v


def all_syms(ps):
    out = {}
    def go(p):
        for a in p.fv:
            if a.op == 'sym': out[a] = 1
    for p in ps: go(p)
    return list(out)


def sample_env(rng, seed, extra=(), attempts=60, limit=None):
    """random assignment satisfying the context (rejection sampling); None if not found"""
    cx = C()
    facts = list(cx.facts) + list(cx.eqs)
    ranges = [(a, lo, hi) for a, (lo, hi) in cx.ranges.items()]
    syms = all_syms(facts + list(extra) + [x for _, lo, hi in ranges for x in (lo, hi)] + list(cx.nonzero))
    ranged = {a for a, _, _ in ranges}
    t0 = time.time()
    for attempt in range(attempts):
        if limit is not None and time.time() - t0 > limit: break
        env = Env(seed * 1000 + attempt)
        for a in syms:
            if a in ranged or a.args[0] == 'pi': continue
            if a.sort == 'I': env[a.args[0]] = rng.choice([1, 2, 3, 4]) if attempt % 60 < 40 else rng.choice([0, 1, 2, 3, 4, 5, 6])
            else: env[a.args[0]] = rng.choice([0.3, 0.7, 1.1, 1.9, -0.4, -1.3]) + rng.random() * 0.05
        ok = True
        pend = list(ranges)
        try:
            for _ in range(len(pend) + 1):
                rest = []
                for a, lo, hi in pend:
                    if all((b.op != 'sym') or (b not in ranged) or b.args[0] in env for b in lo.fv | hi.fv):
                        l, h = T.neval(lo, env), T.neval(hi, env)
                        if h <= l: raise ValueError
                        env[a.args[0]] = rng.randrange(int(l), int(h))
                    else: rest.append((a, lo, hi))
                pend = rest
            for f in cx.facts:
                if T.neval(f, env) > 1e-9: raise ValueError
            for f in cx.eqs:
                if abs(T.neval(f, env)) > 1e-9: raise ValueError
            for f in cx.nonzero:
                if abs(T.neval(f, env)) < 1e-9: raise ValueError
            return env
        except (ValueError, ZeroDivisionError, KeyError, OverflowError, TypeError): continue
    return None


def opaque_app(p):
    """names whose random interpretation would ignore an assumed contract"""
    seen = set()
    bad = []
    def go(p):
        if id(p) in seen: return
        seen.add(id(p))
        for m in p.d:
            for aid, e in m: ga(T._byid[aid])
    def ga(a):
        if a.op == 'app' and ('#' in a.args[0] or a.args[0].startswith('sel')): bad.append(a.args[0])
        if a.op == 'fun' and a.args[0] not in T.FUNEVAL: bad.append(a.args[0])
        if a.op == 'sum':
            go(a.args[1])
            for h in a.args[0]: go(h)
            return
        for x in a.args:
            if isinstance(x, Poly): go(x)
    go(p)
    return bad


def refute(p, tries=12):
    """a concrete assignment where p != 0 (functions interpreted randomly), or None"""
    if opaque_app(p): return None
    rng = random.Random(7)
    for t in range(tries):
        env = sample_env(rng, t, [p])
        if env is None: return None
        try: v = T.neval(p, env)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
        if isinstance(v, complex) or v != v: continue
        if abs(v) > 1e-6: return dict(value=float(v), env={k: (float(x) if not isinstance(x, int) else x) for k, x in env.items() if isinstance(x, (int, float, Fr))})
    return None


def holds_sampled(p, wanted=40, limit=6.0):
    """the obligation evaluates to zero at `wanted` sampled assignments of its precondition (not a proof; only withholds the verdict)"""
    if opaque_app(p): return False
    rng, n, t0 = random.Random(11), 0, time.time()
    for t in range(4 * wanted):
        if time.time() - t0 > limit: break
        env = sample_env(rng, 100 + t, [p])
        if env is None: break
        try: v = T.neval(p, env)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
        if isinstance(v, complex) or v != v: continue
        if abs(v) > 1e-6: return False
        n += 1
        if n >= wanted: return True
    return n >= wanted // 4


def find_model(**k):
    env = sample_env(random.Random(3), 5, **k)
    if env is None: return None
    return dict(env={k: (float(x) if not isinstance(x, int) else x) for k, x in env.items() if isinstance(x, (int, float, Fr))})
