"""Mechanical instrumentation of the real Python source and loading with assumed-contract libraries.
The instrumentation keeps every statement; it only reroutes control constructs (for, if, conditional expressions, and/or/not,
in, chained comparisons, comprehensions, list displays) to helpers that accept symbolic operands and fall back to the
plain Python meaning on concrete ones."""
import ast, os, sys, types, builtins, hashlib
from .sym import *
from . import sym as Y
from . import ctx as X
from . import terms as T

DEBUG = os.environ.get('EIV_DEBUG')
REPO = os.environ.get('EIV_REPO', '/repo')
HNAMES = '_eiv_'


def stored_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ClassDef(self, n): out.add(n.name)
        def _comp(self, n): pass
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    for s in body: V().visit(s)
    return sorted(out)


def has_jump(body, kinds, loops=True):
    """does the body contain break/continue/return that leaves it"""
    class V(ast.NodeVisitor):
        def __init__(self): self.found, self.depth = False, 0
        def visit_Break(self, n):
            if 'break' in kinds and self.depth == 0: self.found = True
        def visit_Continue(self, n):
            if 'continue' in kinds and self.depth == 0: self.found = True
        def visit_Return(self, n):
            if 'return' in kinds: self.found = True
        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_While = visit_For
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_Yield(self, n): self.found = True
    v = V()
    for s in body: v.visit(s)
    return v.found


def N(id, ctx=None): return ast.Name(id=id, ctx=ctx or ast.Load())


def call(f, *args): return ast.Call(func=N(HNAMES + f), args=list(args), keywords=[])


def lam(e, params=()):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def target_params(t):
    """lambda parameters for a comprehension target; returns (params, unpack pattern)"""
    return t


class Tr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname, self.fn, self.cnt, self.loopn = fname, [], 0, {}

    def tmp(self, p):
        self.cnt += 1
        return '%s%s%d' % (HNAMES, p, self.cnt)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.globs = getattr(self, 'globs', [])
        n.body = self.block(n.body)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs: a.annotation = None
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        n.body = self.block(n.body)
        self.fn.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        return n

    def block(self, body):
        out = []
        for i, s in enumerate(body):
            # `if c: continue` (or ending in continue) followed by rest  ->  if c: ... else: rest
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Continue) and self.fn_loop():
                rest = body[i + 1:]
                if not has_jump(s.body[:-1], ('continue', 'break', 'return')):
                    s = ast.copy_location(ast.If(test=s.test, body=s.body[:-1] or [ast.Pass()], orelse=rest or [ast.Pass()]), s)
                    r = self.visit(s)
                    out += r if isinstance(r, list) else [r]
                    return out
            r = self.visit(s)
            if r is None: continue
            out += r if isinstance(r, list) else [r]
        return out

    def fn_loop(self): return getattr(self, 'inloop', 0) > 0

    def names_dict(self, names):
        return ast.Dict(keys=[ast.Constant(x) for x in names], values=[lam(N(x)) for x in names])

    def visit_For(self, n):
        it = self.visit(n.iter)
        names = [x for x in stored_names(n.body) if not x.startswith(HNAMES)]
        tnames = stored_names([ast.Assign(targets=[n.target], value=ast.Constant(0))])
        names = [x for x in names if x not in tnames]
        key = '.'.join(self.fn)
        k = self.loopn.get(key, 0)
        self.loopn[key] = k + 1
        jumps = has_jump(n.body, ('break', 'return'))
        self.inloop = getattr(self, 'inloop', 0) + 1
        body = self.block(n.body)
        self.inloop -= 1
        L = self.tmp('L')
        out = [ast.Assign(targets=[N(L, ast.Store())], value=call('loop', it, ast.Constant('%s:%s#%d' % (self.fname, key, k)), ast.Constant(jumps),
                                                                   self.names_dict(names)))]
        head = [ast.Assign(targets=[N(x, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(L), attr='val', ctx=ast.Load()),
                                                                         args=[ast.Constant(x), lam(N(x))], keywords=[])) for x in names]
        end = ast.Expr(ast.Call(func=ast.Attribute(value=N(L), attr='end', ctx=ast.Load()), args=[self.names_dict(names)], keywords=[]))
        body = head + body + [end]
        # `continue` at this level must still reach end(): handled by end() being re-run lazily in the controller
        orelse = self.block(n.orelse)
        out.append(ast.For(target=n.target, iter=N(L), body=body, orelse=orelse))
        for x in names:
            out.append(ast.Assign(targets=[N(x, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(L), attr='fin', ctx=ast.Load()),
                                                                                args=[ast.Constant(x), lam(N(x))], keywords=[])))
        if getattr(n, 'type_comment', None): pass
        for o in out: ast.copy_location(o, n)
        return out

    def visit_While(self, n):
        n.test = call('truth', self.visit(n.test))
        self.inloop = getattr(self, 'inloop', 0) + 1
        n.body = self.block(n.body)
        self.inloop -= 1
        n.orelse = self.block(n.orelse)
        return n

    def visit_If(self, n):
        test = self.visit(n.test)
        if has_jump(n.body + n.orelse, ('break', 'continue', 'return')):
            n.test = call('truth', test)
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            return n
        names = [x for x in stored_names(n.body + n.orelse) if not x.startswith(HNAMES)]
        glob = set(getattr(self, 'cur_globals', ()))
        body, orelse = self.block(n.body), self.block(n.orelse)
        I, b = self.tmp('I'), self.tmp('b')
        out = [ast.Assign(targets=[N(I, ast.Store())], value=call('if', test, self.names_dict(names)))]
        head = [ast.Assign(targets=[N(x, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(I), attr='val', ctx=ast.Load()),
                                                                         args=[ast.Constant(x), lam(N(x))], keywords=[])) for x in names]
        end = ast.Expr(ast.Call(func=ast.Attribute(value=N(I), attr='end', ctx=ast.Load()), args=[self.names_dict(names)], keywords=[]))
        inner = head + [ast.If(test=N(b), body=body or [ast.Pass()], orelse=orelse)] + [end]
        out.append(ast.For(target=N(b, ast.Store()), iter=N(I), body=inner, orelse=[]))
        for x in names:
            out.append(ast.Assign(targets=[N(x, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(I), attr='fin', ctx=ast.Load()),
                                                                                args=[ast.Constant(x), lam(N(x))], keywords=[])))
        for o in out: ast.copy_location(o, n)
        return out

    def visit_IfExp(self, n):
        return ast.copy_location(call('ifexp', self.visit(n.test), lam(self.visit(n.body)), lam(self.visit(n.orelse))), n)

    def visit_BoolOp(self, n):
        vs = [self.visit(v) for v in n.values]
        return ast.copy_location(call('and' if isinstance(n.op, ast.And) else 'or', vs[0], *[lam(v) for v in vs[1:]]), n)

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not): return ast.copy_location(call('not', n.operand), n)
        return n

    def visit_Compare(self, n):
        left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        def one(l, op, r):
            if isinstance(op, ast.In): return call('in', l, r)
            if isinstance(op, ast.NotIn): return call('not', call('in', l, r))
            return ast.Compare(left=l, ops=[op], comparators=[r])
        if len(comps) == 1: return ast.copy_location(one(left, n.ops[0], comps[0]), n)
        parts = []
        l = left
        for op, r in zip(n.ops, comps):
            parts.append(one(l, op, r))
            l = r
        return ast.copy_location(call('and', parts[0], *[lam(p) for p in parts[1:]]), n)

    def visit_Assert(self, n):
        n.test = call('truth', self.visit(n.test))
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return ast.copy_location(call('list', n), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return n

    def visit_Constant(self, n): return n

    def comp(self, elt, gens, kind):
        g = gens[0]
        names = stored_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])
        single = isinstance(g.target, ast.Name)
        p = g.target.id if single else self.tmp('p')

        def wrap(e):
            if single: return lam(e, [p])
            # tuple target: lambda p: (lambda a, b: e)(*unpack)
            if not all(isinstance(x, ast.Name) for x in g.target.elts): raise Unsupported('nested comprehension target')
            inner = lam(e, [x.id for x in g.target.elts])
            return lam(ast.Call(func=inner, args=[ast.Starred(value=N(p), ctx=ast.Load())], keywords=[]), [p])
        it = self.visit(g.iter)
        conds = [self.visit(c) for c in g.ifs]
        if len(gens) == 1: body, flat = elt, False
        else: body, flat = self.comp(elt, gens[1:], 'list'), True
        cond = wrap(conds[0] if len(conds) == 1 else call('and', conds[0], *[lam(c) for c in conds[1:]])) if conds else ast.Constant(None)
        return call('comp', wrap(body), it, cond, ast.Constant(flat), ast.Constant(kind))

    def visit_ListComp(self, n): return ast.copy_location(self.comp(self.visit(n.elt), n.generators, 'list'), n)
    def visit_GeneratorExp(self, n): return ast.copy_location(self.comp(self.visit(n.elt), n.generators, 'gen'), n)
    def visit_SetComp(self, n): return ast.copy_location(self.comp(self.visit(n.elt), n.generators, 'set'), n)
    def visit_DictComp(self, n):
        e = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        return ast.copy_location(self.comp(e, n.generators, 'dict'), n)


# ------------------------------------------------------------------ runtime helpers
class Poison:
    """value that is not available on this path"""
    def __init__(self, why): self.__dict__['why'] = why
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Unsupported(self.why)
    def __bool__(self): raise Unsupported(self.why)
    def _no(self, *a): raise Unsupported(self.why)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __setitem__ = __iter__ = __call__ = __len__ = __matmul__ = _no


UNDEF = Poison('variable not assigned')


def safe(th):
    try: return th()
    except NameError: return UNDEF


def numeric(v): return isinstance(v, (S, bool, int, float, complex)) and not isinstance(v, str)


def h_truth(c):
    if isinstance(c, S): return bool(c)
    if isinstance(c, A): return bool(c)
    if isinstance(c, SList): return c.length() != 0 if not isinstance(c.length(), S) else bool(c.length() > 0)
    return bool(c)


def in_map(): return any(l.mode == 'map' for l in LOOPS)


def undecided(c):
    """the 0/1 Poly when the condition is symbolic and undecided inside a summarised loop"""
    if isinstance(c, A) and all(Y._is_one(d) for d in c.shape_): c = toS(c)
    if isinstance(c, S):
        p = norm(c.re)
        if c.kind != 'b': p = norm(b_not(X.dec_eq(p)))
        k = p.const()
        if k is not None: return bool(k)
        r = C().decide(p)
        if r is not None: return r
        return p
    return h_truth(c)


class IfCtl:
    def __init__(self, c, pre):
        self.merge = False
        c = undecided(c) if isinstance(c, (S, A)) else h_truth(c)
        if isinstance(c, bool): self.c = c
        elif in_map(): self.c, self.merge = c, True
        else: self.c = branch(c)
        if self.merge:
            self.pre = {k: safe(t) for k, t in pre.items()}
            self.ends = {}

    def __iter__(self):
        if not self.merge:
            yield self.c
            return
        cx = C()
        l = LOOPS[-1]
        for v in (True, False):
            self.cur = v
            g = self.c if v else b_not(self.c)
            cx.push()
            cx.assume(self.c, v)
            l.guards.append(g)
            try: yield v
            finally:
                l.guards.pop()
                cx.pop()

    def val(self, n, th):
        if not self.merge: return safe(th)
        return self.pre[n]

    def end(self, d):
        if self.merge: self.ends[self.cur] = {k: safe(t) for k, t in d.items()}

    def fin(self, n, th):
        if not self.merge: return safe(th)
        a, b = self.ends[True][n], self.ends[False][n]
        return merge(self.c, a, b)


def merge(c, a, b):
    if a is b: return a
    if numeric(a) and numeric(b): return mk_elem(ssel(c, a, b))
    if isinstance(a, A) and isinstance(b, A) and len(a.shape_) == len(b.shape_) and all(same_dim(x, y) is True for x, y in zip(a.shape_, b.shape_)):
        f, g = a.snap(), b.snap()
        return A(a.shape_, kmax(a.kind, b.kind), lambda *i: ssel(c, toS(f(*i)), toS(g(*i))), a.fmt if a.fmt == b.fmt else None)
    if isinstance(a, (SList, tuple)) and isinstance(b, (SList, tuple)) and len(a) == len(b) and not getattr(a, 'sym', None):
        r = [merge(c, x, y) for x, y in zip(a, b)]
        return tuple(r) if isinstance(a, tuple) else SList(r)
    return Poison('merge of different objects')


def h_if(c, pre): return IfCtl(c, pre)


def h_ifexp(c, ta, tb):
    c = undecided(c) if isinstance(c, (S, A)) else h_truth(c)
    if c is True: return ta()
    if c is False: return tb()
    if not in_map():
        # evaluate both when both are plain scalars without side conditions, otherwise fork
        return ta() if branch(c) else tb()
    cx = C()
    l = LOOPS[-1]
    out = []
    for v, t in ((True, ta), (False, tb)):
        cx.push()
        cx.assume(c, v)
        l.guards.append(c if v else b_not(c))
        try: out.append(t())
        finally:
            l.guards.pop()
            cx.pop()
    return merge(c, out[0], out[1])


def h_and(a, *ths):
    for th in ths:
        if isinstance(a, S) and a.kind == 'b':
            c = undecided(a)
            if c is False: return False
            if c is True:
                a = th()
                continue
            cx = C()
            cx.push()
            try:
                cx.assume(c, True)
                b = th()
            finally: cx.pop()
            if isinstance(b, (S, bool)): a = mk('b', c * toS(b).re)
            else: return b if branch(c) else False
        else:
            if not h_truth(a): return a
            a = th()
    return a


def h_or(a, *ths):
    for th in ths:
        if isinstance(a, S) and a.kind == 'b':
            c = undecided(a)
            if c is True: return True
            if c is False:
                a = th()
                continue
            cx = C()
            cx.push()
            try:
                cx.assume(c, False)
                b = th()
            finally: cx.pop()
            if isinstance(b, (S, bool)): a = mk('b', T.b_or(c, toS(b).re))
            else: return True if branch(c) else b
        else:
            if h_truth(a): return a
            a = th()
    return a


def h_not(a):
    if isinstance(a, S):
        c = undecided(a)
        return (not c) if isinstance(c, bool) else mk('b', b_not(c))
    return not h_truth(a)


def h_in(a, b):
    if isinstance(b, (SList, list, tuple, set)) and not getattr(b, 'sym', None):
        if isinstance(a, S) or any(isinstance(x, S) for x in b):
            r = False
            for x in b:
                e = a == x
                if e is True: return True
                r = h_or(r, lambda: e)
            return r
        return a in b
    if isinstance(b, (A, RangeS)) or getattr(b, 'sym', None):
        b = arr(b)
        return aany(aop('eq', b, a))
    if isinstance(a, S) and hasattr(b, 'mask'):      # set with a symbolic membership predicate
        return mk('b', norm(b.mask(a.re)))
    if isinstance(b, range) and isinstance(a, S):
        return h_and(a >= b.start, lambda: a < b.stop)
    return a in b


def h_list(l): return SList(l)


class GenList(SList):
    pass


def h_comp(f, it, cond, flat, kind):
    if hasattr(it, 'images') or hasattr(it, 'mask') and hasattr(it, 'box'):
        from . import npfake
        if cond is not None or flat or kind in ('set', 'dict'): raise Unsupported('comprehension over a set')
        return (it if hasattr(it, 'images') else npfake.set_elements(it)).images(f)
    s = symiter(it)
    if s is None:
        out = []
        for x in concrete_iter(it):
            if cond is not None:
                c = cond(x)
                c = undecided(c) if isinstance(c, (S, A)) else h_truth(c)
                if not isinstance(c, bool):
                    c = branch(c)
                if not c: continue
            v = f(x)
            if flat: out.extend(list(v))
            else: out.append(v)
        if kind == 'set': return set(out)
        if kind == 'dict': return dict(out)
        return SList(out)
    if kind in ('set', 'dict'): raise Unsupported('symbolic set/dict comprehension')
    n, g = s
    k = fresh('k', 'I')
    ka = the_atom(k)
    cx = C()
    cx.push()
    try:
        cx.rng(k, 0, n)
        if cond is not None:
            c = cond(g(k))
            cp = toS(c).re
            sel = make_sel([dim(n)], lambda i: norm(T.subst(cp, {ka: i})))
            v = f(g(k))
            r = SList()
            r.sym = (sel.count, lambda j: subst_obj(v, ka, sel.at(j)[0]))
            if flat: raise Unsupported('nested filtered comprehension')
            return r
        v = f(g(k))
        if flat:
            m = v.length() if isinstance(v, SList) else len(v)
            mp = dp(m)
            if ka in mp.fv: raise Unsupported('nested comprehension of varying length')
            j = fresh('k', 'I')
            cx.push()
            cx.rng(j, 0, mp)
            e = v[S(j, ZERO, 'i')] if isinstance(v, SList) else v[j]
            cx.pop()
            ja = the_atom(j)
    finally: cx.pop()
    r = SList()
    if flat:
        def at(q):
            a = X.idiv(q, mp)
            return subst_obj(subst_obj(e, ja, norm(q - a * mp)), ka, a)
        r.sym = (norm(n * mp), at)
    else:
        r.sym = (n, lambda q: subst_obj(v, ka, q))
    return r


def subst_obj(v, a, q):
    """value v with atom a replaced by q"""
    if isinstance(v, S):
        if a not in v.re.fv and a not in v.im.fv and not (v.polar and any(a in x.fv for x in v.polar)): return v
        s = lambda p: norm(T.subst(p, {a: q}))
        return mk(v.kind, s(v.re), s(v.im), tuple(s(x) for x in v.polar) if v.polar else None)
    if isinstance(v, A):
        f = v.snap()
        idx_depth = v.ndim
        def el(*i):
            qs = [sym('qi%d_%d' % (t, v.oid), 'I') for t in range(idx_depth)]
            clash = any(a in x.fv for x in i)
            if clash:
                cx = C()
                cx.push()
                try: r = toS(f(*qs))
                finally: cx.pop()
                r = toS(subst_obj(r, a, q))
                mp = {the_atom(x): y for x, y in zip(qs, i)}
                return S(norm(T.subst(r.re, mp)), norm(T.subst(r.im, mp)), r.kind)
            cx = C()
            return toS(subst_obj(toS(f(*i)), a, q))
        sh = tuple(dim(T.subst(dp(d), {a: q})) for d in v.shape_)
        return A(sh, v.kind, el, v.fmt)
    if isinstance(v, tuple): return tuple(subst_obj(x, a, q) for x in v)
    if isinstance(v, SList):
        r = SList([subst_obj(x, a, q) for x in list.__iter__(v)])
        if v.sym: r.sym = (norm(T.subst(v.sym[0], {a: q})), lambda k: subst_obj(v.sym[1](k), a, q))
        return r
    if isinstance(v, (int, float, complex, str, bool)) or v is None: return v
    if hasattr(v, '__substobj__'): return v.__substobj__(lambda x: subst_obj(x, a, q))
    if hasattr(v, '__dataclass_fields__'):
        import copy as _c
        r = _c.copy(v)
        for k in v.__dict__: setattr(r, k, subst_obj(v.__dict__[k], a, q))
        return r
    raise Unsupported('cannot generalise %s' % type(v))


def symiter(it):
    """(length, element) when the iteration count is symbolic"""
    if isinstance(it, RangeS):
        if dconst(it.len) is not None: return None
        return it.__symiter__()
    if isinstance(it, SList) and it.sym:
        if norm(it.sym[0]).const() is not None: return None
        return it.sym
    if isinstance(it, A):
        if it.ndim == 0: raise CodeError('iteration over a 0-d array')
        if dconst(it.shape_[0]) is not None: return None
        return dp(it.shape_[0]), lambda k: it[S(k, ZERO, 'i')]
    if hasattr(it, '__symiter__'): return it.__symiter__()
    return None


def concrete_iter(it): return iter(it)


class StopPath(Exception):
    """end of this symbolic path (loop body re-established the invariant)"""


LOOPSPEC = {}      # site suffix -> spec factory


class LoopCtl:
    """controller of one execution of a for statement"""
    mode = 'concrete'

    def __init__(self, it, site, jumps, pre):
        self.site, self.jumps = site, jumps
        self.it = it
        s = symiter(it)
        spec = next((v for k, v in LOOPSPEC.items() if (site.endswith(k) if isinstance(k, str) else s is not None and k(site, s[0]))), None)
        self.guards = []
        if spec is not None and (s is not None or spec.always):
            self.mode, self.spec = 'havoc', spec
            self.n, self.f = s if s is not None else (P(len(it)), lambda k: it[int(k.const())])
        elif s is not None:
            n = s[0]
            if C().le(n): self.it = []
            else:
                self.mode = 'map'
                self.n, self.f = s
                if jumps: raise Unsupported('jump out of a loop of symbolic length at ' + site)
        if self.mode != 'concrete':
            self.pre = {k: safe(t) for k, t in pre.items()}
        if self.mode == 'havoc' and hasattr(spec, 'accept') and not spec.accept(self):
            if s is None: self.mode = 'concrete'
            elif C().le(s[0]): self.mode, self.it = 'concrete', []
            else:
                self.mode = 'map'
                if jumps: raise Unsupported('jump out of a loop of symbolic length at ' + site)

    # ---- python protocol
    def __iter__(self):
        if self.mode == 'concrete': return concrete_iter(self.it)
        if self.mode == 'havoc': return self.spec.iterate(self)
        return self.map_iter()

    def val(self, n, th):
        if self.mode == 'concrete': return safe(th)
        if self.mode == 'havoc': return self.spec.head(self, n, th)
        return self.heads[n]

    def end(self, d):
        if self.mode == 'concrete': return
        self.ends = {k: safe(t) for k, t in d.items()}
        self.ended = True

    def fin(self, n, th):
        if self.mode == 'concrete': return safe(th)
        if self.mode == 'havoc': return self.spec.fin(self, n, th)
        return self.final[n]

    # ---- summarised loop
    def map_iter(self):
        cx = C()
        self.k = fresh('k', 'I')
        self.ka = the_atom(self.k)
        self.depth = len(LOOPS)
        self.idx_active = False
        self.prev_written = {}
        kinds = {}
        for attempt in range(3):
            # pass 1: arbitrary state at the head
            self.heads, self.marks = {}, {}
            for nme, v in self.pre.items():
                if numeric(v):
                    kd = kinds.get(nme, toS(v).kind)
                    h = sym('$h_%s_%d' % (nme, id(self) % 100003), 'I' if kd in 'ib' else 'R')
                    hi = sym('$hi_%s_%d' % (nme, id(self) % 100003), 'R') if kd == 'c' else ZERO
                    self.heads[nme] = S(h, hi, kd)
                    self.marks[nme] = {the_atom(h)} | ({the_atom(hi)} if kd == 'c' else set())
                elif isinstance(v, A):
                    self.heads[nme] = self.opaque(nme, v)
                else: self.heads[nme] = v
            self.start(1)
            yield self.f(self.k)
            self.finish_pass()
            again = False
            for nme, v in self.pre.items():
                if numeric(v) and numeric(self.ends[nme]):
                    k0, k1 = self.heads[nme].kind, toS(self.ends[nme]).kind
                    if KORD[k1] > KORD[k0]:
                        kinds[nme] = k1
                        again = True
            if not again: break
        writes1 = self.writes
        self.rollback()
        self.classify()
        self.prev_written = {}
        for a, m, v in writes1: self.prev_written.setdefault(a.oid, []).append(m)
        # pass 2
        self.heads = dict(self.heads2)
        self.start(2)
        self.idx_active = True
        yield self.f(self.k)
        self.idx_active = False
        self.finish_pass()
        self.rollback()
        self.finalize()

    def opaque(self, nme, v):
        tag = '$H_%s_%d' % (nme, id(self) % 100003)
        def el(*i):
            r = app(tag, list(i), 'I' if v.kind in 'ib' else 'R')
            return S(r, app(tag + 'i', list(i)) if v.kind == 'c' else ZERO, v.kind)
        h = A(v.shape_, v.kind, el, v.fmt)
        h.hmark = tag
        return h

    def start(self, phase):
        self.phase = phase
        self.writes, self.saved, self.appends = [], {}, []
        self.guards = []
        self.ended = False
        cx = C()
        cx.push()
        cx.rng(self.k, 0, self.n)
        if self.phase == 1: pass
        LOOPS.append(self)

    def finish_pass(self):
        assert LOOPS[-1] is self
        LOOPS.pop()
        C().pop()
        if not self.ended: raise Unsupported('continue in a summarised loop')

    def before_write(self, a):
        if id(a) not in self.saved: self.saved[id(a)] = (a, a.fn, a.memo, a.mxf, a.tag, a.ver)

    def record_write(self, a, match, val): self.writes.append((a, match, val))
    def record_append(self, l, v):
        if self.guards: raise Unsupported('conditional append in a summarised loop')
        self.appends.append((l, v))
    def record_mut(self, l): raise Unsupported('list mutation in a summarised loop')

    def rollback(self):
        for a, fn, memo, mxf, tag, ver in self.saved.values():
            a.fn, a.memo, a.mxf, a.tag, a.ver = fn, {}, mxf, tag, ver

    def mentions(self, p, what):
        """does p mention one of the marks (atoms or app names)"""
        seen = set()
        def go(p):
            if id(p) in seen: return False
            seen.add(id(p))
            for a in p.fv:
                if a in what: return True
            for m in p.d:
                for aid, e in m:
                    if ga(T._byid[aid]): return True
            return False
        def ga(a):
            if a.op == 'app' and a.args[0] in what: return True
            if a.op == 'sum':
                return go(a.args[1]) or any(go(h) for h in a.args[0])
            return any(isinstance(x, Poly) and go(x) for x in a.args)
        return go(p)

    def classify(self):
        allmarks = set()
        for nme, v in self.pre.items():
            if nme in self.marks: allmarks |= self.marks[nme]
            elif isinstance(v, A): allmarks |= {self.heads[nme].hmark, self.heads[nme].hmark + 'i'}
        self.acc, self.last, self.heads2 = {}, {}, {}
        k, ka = self.k, self.ka
        unk = set()
        cx = C()
        pending = []
        for nme, v in self.pre.items():
            e, h = self.ends[nme], self.heads[nme]
            if e is h:
                self.heads2[nme] = v
                self.last[nme] = ('same', v)
            elif nme in self.marks and numeric(e):
                e = toS(e)
                d = (norm(e.re - h.re), norm(e.im - h.im))
                if not d[0].d and not d[1].d:
                    self.heads2[nme] = v
                    self.last[nme] = ('same', v)
                elif not any(self.mentions(x, allmarks) for x in d):
                    self.acc[nme] = d
                    v = toS(v)
                    self.heads2[nme] = self.accum(v, d, k, h.kind)
                    self.last[nme] = ('acc', v, d, h.kind)
                elif not any(self.mentions(x, self.marks[nme]) for x in (e.re, e.im)):
                    pending.append(nme)
                else: unk.add(nme)
            elif isinstance(v, A) and isinstance(e, A) and not isinstance(e, Poison):
                pending.append(nme)
            else: pending.append(nme)
        for nme in unk:
            self.heads2[nme] = Poison('loop-carried variable %s has no closed form' % nme)
        for nme in pending:
            # assigned in the body; usable at the head only if re-reading is never needed
            v = self.pre[nme]
            self.heads2[nme] = v if v is UNDEF or isinstance(v, SList) else Poison('value of %s from the previous iteration' % nme)
            if isinstance(v, A) and isinstance(self.ends[nme], A):
                self.heads2[nme] = self.array_acc(nme, v, allmarks)
        self.unk = unk

    def array_acc(self, nme, v, allmarks):
        e = self.ends[nme]
        if len(e.shape_) != len(v.shape_) or any(same_dim(x, y) is not True for x, y in zip(e.shape_, v.shape_)):
            return Poison('array %s changes shape in a summarised loop' % nme)
        cx = C()
        qs = [sym('$q%d' % t, 'I') for t in range(e.ndim)]
        cx.push()
        try:
            cx.rng(self.k, 0, self.n)
            for q, d in zip(qs, e.shape_): cx.rng(q, 0, dp(d))
            ev, hv = e.get(tuple(qs)), self.heads[nme].get(tuple(qs))
            d = (norm(ev.re - hv.re), norm(ev.im - hv.im))
        finally: cx.pop()
        if any(self.mentions(x, allmarks) for x in d): return Poison('array %s carried by a summarised loop' % nme)
        f = v.snap()
        qa = [the_atom(q) for q in qs]
        kd = kmax(e.kind, v.kind)
        def at(hi):
            def el(*i):
                b = toS(f(*i))
                mp = dict(zip(qa, i))
                dd = [norm(T.subst(x, mp)) for x in d]
                r = self.accum(b, dd, hi, kd)
                return toS(r)
            return A(v.shape_, kd, el, v.fmt)
        self.last[nme] = ('arr', at)
        return at(self.k)

    def accum(self, v, d, hi, kind):
        """v + sum_{t<hi} d(t)"""
        t = fresh('s', 'I')
        cx = C()
        cx.push()
        try:
            cx.rng(t, 0, hi)
            b = [norm(T.subst(x, {self.ka: t})) for x in d]
        finally: cx.pop()
        bs = [(the_atom(t), P(hi))]
        return mk(kind, norm(v.re + mk_sum(bs, b[0])), norm(v.im + mk_sum(bs, b[1])) if b[1].d or v.im.d else ZERO)

    def at_last(self, v):
        """value at the last iteration"""
        return subst_obj(v, self.ka, norm(self.n - 1))

    def check_read(self, a, idx):
        """entry idx of a is read in iteration k: no other iteration may write it"""
        ms = self.prev_written.get(a.oid)
        if not ms: return
        self.idx_active = False
        cx = C()
        try:
            for m in ms:
                k2 = fresh('k', 'I')
                for lo, hi in ((ZERO, self.k), (self.k + 1, self.n)):
                    cx.push()
                    try:
                        cx.rng(k2, lo, hi)
                        p = self.match_at(m, idx, k2)
                        if p is ZERO: continue
                        if C().decide(p) is not False: raise Unsupported('loop iteration reads an entry written by another iteration')
                    finally: cx.pop()
        finally: self.idx_active = True

    def match_at(self, m, idx, k2):
        qs = [sym('$w%d' % t, 'I') for t in range(len(idx))]
        cx = C()
        p = m(*qs)
        mp = dict(zip([the_atom(q) for q in qs], idx))
        mp[self.ka] = k2
        return norm(T.subst(norm(p), mp))

    def finalize(self):
        cx = C()
        byarr = {}
        for a, m, v in self.writes: byarr.setdefault(a.oid, (a, []))[1].append((m, v))
        for a, ws in byarr.values(): self.final_write(a, ws)
        # lists
        bl = {}
        for l, v in self.appends: bl.setdefault(id(l), (l, []))[1].append(v)
        for l, vs in bl.values():
            base = list(list.__iter__(l))
            if l.sym: raise Unsupported('append to a symbolic list')
            nb, m, ka = len(base), len(vs), self.ka
            def at(j, base=base, vs=vs, nb=nb, m=m):
                if nb:
                    c = norm(j).const()
                    if c is not None and c < nb: return base[int(c)]
                    if C().le(nb - j) is not True:
                        return sel_any(X.dec_le(j - nb + 1), arr_pick(base, j), lambda: at2(norm(j - nb)))
                return at2(norm(j - nb))
            def at2(j, vs=vs, m=m):
                if m == 1: return subst_obj(vs[0], ka, j)
                q = X.idiv(j, P(m))
                r = norm(j - q * m)
                c = r.const()
                if c is not None: return subst_obj(vs[int(c)], ka, q)
                return mk_elem(Y.pick(r, [lambda v=v: toS(subst_obj(v, ka, q)) for v in vs]))
            l.sym = (norm(self.n * m + nb), at)
            list.clear(l)
        self.final = {}
        pos = cx.le(1 - self.n)
        for nme, v in self.pre.items():
            t = self.last.get(nme)
            e = self.ends[nme]
            if t and t[0] == 'same': self.final[nme] = v
            elif t and t[0] == 'acc': self.final[nme] = self.accum(t[1], t[2], self.n, t[3])
            elif t and t[0] == 'arr': self.final[nme] = t[1](self.n)
            elif nme in self.unk: self.final[nme] = Poison('loop-carried variable %s has no closed form' % nme)
            else:
                try:
                    lastv = e if e is v or isinstance(e, (SList, Poison)) or callable(e) else self.at_last(e)
                    if e is v: self.final[nme] = v
                    elif pos: self.final[nme] = lastv
                    elif numeric(v) and numeric(lastv): self.final[nme] = merge(norm(le0(1 - self.n)), lastv, v)
                    elif v is UNDEF: self.final[nme] = lastv
                    else: self.final[nme] = Poison('value of %s after the loop' % nme)
                except Unsupported as u:
                    self.final[nme] = Poison('value of %s after the loop: %s' % (nme, u))

    def final_write(self, a, ws):
        """a[idx] := last matching write over all iterations"""
        cx = C()
        n, ka = self.n, self.ka
        nd = a.ndim

        def at_generic(idx, f):
            """evaluate f(*idx) with the loop index as a ranged symbol (f yields Poly or S)"""
            clash = any(ka in x.fv for x in idx)
            mp = None
            if clash:
                qs = [sym('$z%d' % t, 'I') for t in range(nd)]
                mp = dict(zip([the_atom(q) for q in qs], idx))
                ii = qs
            else: ii = idx
            cx = C()
            cx.push()
            try:
                cx.rng(self.k, 0, n)
                r = f(*ii)
                if isinstance(r, Poly): return norm(r), mp
                r = toS(r)
                return S(norm(r.re), norm(r.im), r.kind), mp
            finally: cx.pop()

        def kill(p, mp):
            return norm(T.subst(p, mp)) if mp else p
        # independence of iterations: two different iterations never write the same entry, or they write the same value
        k1, k2 = fresh('k', 'I'), fresh('k', 'I')
        inj = True
        cx.push()
        try:
            qs = [generic_index(d) for d in a.shape_]
            ms = []
            cx.push()
            cx.rng(self.k, 0, n)
            for m, v in ws: ms.append(norm(m(*qs)))
            cx.pop()
            cx.rng(k1, 0, n)
            cx.rng(k2, k1 + 1, n)
            for x in ms:
                for y in ms:
                    p = T.subst(x, {ka: k1}) * T.subst(y, {ka: k2})
                    p = norm(p)
                    if p is ZERO: continue
                    if not exclusive(p): inj = False
            const = None
            if not inj:
                vals = []
                cx.push()
                cx.rng(self.k, 0, n)
                for m, v in ws:
                    cx.push()
                    s = toS(v(*qs))
                    vals.append((norm(s.re), norm(s.im), s.kind))
                    cx.pop()
                cx.pop()
                if any(ka in p.fv for t in vals for p in t[:2]) or any(t[:2] != vals[0][:2] for t in vals):
                    raise Unsupported('iterations of a summarised loop write the same entry')
        finally: cx.pop()
        if inj:
            for wi, (m, v) in enumerate(ws):
                later = [x for x, _ in ws[wi + 1:]]
                def eff(*i, m=m):
                    return m(*i)
                def match(*i, m=m):
                    p, mp = at_generic(i, m)
                    return kill(mk_sum([(ka, n)], p), mp)
                def val(*i, m=m, v=v):
                    def g(*j):
                        p = norm(m(*j))
                        if p is ZERO: return S(ZERO, ZERO, a.kind)
                        C().push()
                        try:
                            C().assume(p, True)
                            s = toS(v(*j))
                        finally: C().pop()
                        return S(p * s.re, p * s.im, s.kind)
                    s, mp = at_generic(i, g)
                    return S(kill(mk_sum([(ka, n)], s.re), mp), kill(mk_sum([(ka, n)], s.im), mp), s.kind)
                a.write(match, val)
        else:
            m0, v0 = ws[0]
            def match(*i):
                tot = ZERO
                none = ONE
                def g(*j):
                    nn = ONE
                    for m, v in ws: nn = nn * b_not(norm(m(*j)))
                    return b_not(nn)
                p, mp = at_generic(i, g)
                return b_not(X.dec_eq(kill(mk_sum([(ka, n)], p), mp)))
            a.write(match, v0)


def arr_pick(base, j):
    return mk_elem(Y.pick(j, [lambda v=v: toS(v) for v in base]))


def generic_index(d):
    """an arbitrary index below d; products are split in mixed radix so that index arithmetic can be decoded"""
    cx = C()
    d = norm(dp(d))
    if d is ONE: return ZERO
    m = d.mono1()
    if m and m[0].denominator == 1:
        fs = ([P(m[0])] if m[0] != 1 else []) + [atom_poly(T._byid[aid]) for aid, e in m[1] for _ in range(e)]
        if len(fs) >= 1:
            out = ZERO
            for f in fs:
                q = fresh('q', 'I')
                cx.rng(q, 0, f)
                out = out * f + q
            return out
    q = fresh('q', 'I')
    cx.rng(q, 0, d)
    return q


def exclusive(p):
    """p (product of brackets in two iterations) is identically zero"""
    cx = C()
    if cx.decide(p) is False: return True
    for m, c in p.d.items():
        q = Poly({m: Fr(1)})
        if cx.decide(q) is not False and not X.prove_zero(q).ok:
            if DEBUG: print('not exclusive:', q, X.prove_zero(q).residual)
            return False
    return True


def h_loop(it, site, jumps, pre): return LoopCtl(it, site, jumps, pre)


HELPERS = {HNAMES + k: v for k, v in dict(truth=h_truth, loop=h_loop, ifexp=h_ifexp, comp=h_comp, list=h_list, **{'if': h_if, 'and': h_and, 'or': h_or, 'not': h_not, 'in': h_in}).items()}


# ------------------------------------------------------------------ module loading
class Loader:
    def __init__(self, fakes, bi, repo=None):
        self.repo = repo or REPO
        self.fakes, self.mods, self.bi = fakes, {}, bi
        self.sources = {}

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.fakes:
            m = self.fakes[name]
            if not fromlist:
                return self.fakes[name.split('.')[0]]
            return m
        top = name.split('.')[0]
        if top in ('src', 'conf'):
            if fromlist:
                path = os.path.join(self.repo, *name.split('.'))
                if os.path.isdir(path):
                    ns = types.SimpleNamespace()
                    for f in fromlist: setattr(ns, f, self.load(name + '.' + f))
                    return ns
                return self.load(name)
            raise Unsupported('plain import of ' + name)
        if top in ('typing', 'dataclasses', 'abc', 'pathlib', 'datetime', 'math', 'itertools', 'functools', 'copy', 'os', 'sys', 'pkgutil', 'collections', 'operator', 'ctypes', 're', '__future__', 'enum', 'warnings', 'contextlib', 'types', 'numbers', 'string', 'time'):
            return builtins.__import__(name, globals, locals, fromlist, level)
        return self.fakes['*'](name)

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.fakes: return self.fakes[name]
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        src = open(path).read()
        self.sources[name] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, path)
        tree = Tr(name).visit(tree)
        body = []
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        b = dict(vars(builtins))
        b.update(self.bi)
        b['__import__'] = self.importer
        m.__dict__['__builtins__'] = b
        m.__dict__.update(HELPERS)
        sys.modules.setdefault(name, m)     # dataclasses look their module up
        exec(code, m.__dict__)
        return m
