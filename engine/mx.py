"""Matrix algebra: normal forms of matrix expressions over non-commuting letters (leaves identified by their entries)."""
from .sym import *
from . import sym as Y, ctx as X, terms as T

_keys = {}
_canon = []
FULLCOL = set()      # leaf keys of matrices assumed to have full column rank
INVERT = True


def reset():
    _keys.clear()
    FULLCOL.clear()
    _rep.clear()
    _NF.clear()
    _words.clear()
    _lets.clear()


def canon(k, d, tagless='κ'):
    """fixed generic index number k in [0, d)"""
    s = sym('%s%d' % (tagless, k), 'I')
    C().rng(s, 0, dp(d))
    return s


def leaf_key(a):
    """canonical key of the entries of an array: two arrays with equal keys are equal entry by entry"""
    a = arr(a)
    if a.oid in _keys and _keys[a.oid][0] is a and _keys[a.oid][1] == a.ver: return _keys[a.oid][2]
    cx = C()
    cx.push()
    try:
        idx = tuple(canon(k, d) for k, d in enumerate(a.shape_))
        cx.assume_le(ZERO)
        v = a.get(idx)
        key = (tuple(norm(dp(d)).key for d in a.shape_), v.re.key, v.im.key)
    finally: cx.pop()
    _keys[a.oid] = (a, a.ver, key)
    return key


# ------------------------------------------------------------------ normal form: {word: (re, im)}; word: tuple of letters
# letter: (base, transposed, conjugated); base: ('L', key) | ('inv', nfkey) | ('pinv', nfkey)
_NF = {}


def cadd(d, w, c):
    re, im = d.get(w, (ZERO, ZERO))
    re, im = norm(re + c[0]), norm(im + c[1])
    if re is ZERO and im is ZERO: d.pop(w, None)
    else: d[w] = (re, im)


def cmul(a, b): return (norm(a[0] * b[0] - a[1] * b[1]), norm(a[0] * b[1] + a[1] * b[0]))


def is_identity(key, a):
    return False


def nfkey(nf): return frozenset((w, c[0].key, c[1].key) for w, c in nf.items())


def leaf(a):
    a = arr(a)
    # identity and zero matrices
    cx = C()
    if a.ndim == 2:
        cx.push()
        try:
            i, j = canon(0, a.shape_[0]), canon(1, a.shape_[1])
            v = a.get((i, j))
            if v.re is ZERO and v.im is ZERO: return {}
            if same_dim(*a.shape_) is True and v.im is ZERO and norm(v.re - X.dec_eq(i - j)) is ZERO: return {(): (ONE, ZERO)}
        finally: cx.pop()
        # a matrix whose conjugate / transpose is already known shares its letter
        k = leaf_key(a)
        rl = int(k[2] == ZERO.key)
        for t, c in ((1, 0),) if rl else ((1, 0), (0, 1), (1, 1)):
            k2 = leaf_key(var(a, t, c))
            if k2 in _rep and k2 != k: return {((('L', k2, rl), t, c & (1 - rl)),): (ONE, ZERO)}
        _rep.add(k)
        return {((('L', k, rl), 0, 0),): (ONE, ZERO)}
    k = leaf_key(a)
    rl = int(k[2] == ZERO.key)
    return {((('L', k, rl), 0, 0),): (ONE, ZERO)}


_rep = set()


def var(a, t, c):
    if t: a = A(tuple(reversed(a.shape_)), a.kind, (lambda f: lambda i, j: f(j, i))(a.snap()))
    if c: a = uf(lambda v: S(v.re, -v.im, v.kind), a, a.kind)
    return a


def flip(nf, t, c):
    out = {}
    for w, k in nf.items():
        ww = tuple((b, tt ^ t, cc ^ (c & (1 - b[2]))) for b, tt, cc in (reversed(w) if t else w))
        cadd(out, ww, (k[0], -k[1] if c else k[1]))
    return out


def nmul(x, y):
    out = {}
    for w1, c1 in x.items():
        for w2, c2 in y.items():
            for w, c in simp(w1 + w2).items(): cadd(out, w, cmul(cmul(c1, c2), c))
    return out


def simp(w):
    """rewrite a word"""
    for i in range(len(w)):
        for rule in (r_inv, r_pinv):
            r = rule(w, i)
            if r is not None:
                i0, i1, rep = r
                out = {}
                for mid, c in rep.items():
                    for ww, cc in simp(w[:i0] + mid + w[i1:]).items(): cadd(out, ww, cmul(c, cc))
                return out
    return {w: (ONE, ZERO)}


def invarg(letter):
    """the single word (and coefficient) a letter inverts, adjusted for its flags"""
    b, t, c = letter
    if b[0] != 'inv': return None
    nf = flip(_NF[b[1]], t, c)
    if len(nf) != 1: return None
    return next(iter(nf.items()))


def r_inv(w, i):
    r = invarg(w[i])
    if r is None: return None
    word, k = r
    n = len(word)
    d = norm(k[0] * k[0] + k[1] * k[1])
    inv = (norm(k[0] * T.inv(d)), norm(-k[1] * T.inv(d))) if k != (ONE, ZERO) else (ONE, ZERO)
    if w[i + 1:i + 1 + n] == word: return i, i + 1 + n, {(): inv}
    if i >= n and w[i - n:i] == word: return i - n, i + 1, {(): inv}
    return None


def r_pinv(w, i):
    b, t, c = w[i]
    if b[0] != 'pinv': return None
    nf = flip(_NF[b[1]], t, c)
    if len(nf) != 1: return None
    word, k = next(iter(nf.items()))
    if k != (ONE, ZERO): return None
    n = len(word)
    H = tuple((bb, tt ^ 1, cc ^ (1 - bb[2])) for bb, tt, cc in reversed(word))
    # pinv(X)^(flags) X ... rules (X stands for the word):  X P X = X,  P X P = P,  X^H X P = X^H,  P X X^H = X^H
    if i >= n and w[i - n:i] == word:
        if w[i + 1:i + 1 + n] == word: return i - n, i + 1 + n, {word: (ONE, ZERO)}
        if i >= 2 * n and w[i - 2 * n:i - n] == H: return i - 2 * n, i + 1, {H: (ONE, ZERO)}
    if w[i + 1:i + 1 + n] == word:
        if w[i + 1 + n:i + 2 + n] == (w[i],): return i, i + 2 + n, {(w[i],): (ONE, ZERO)}
        if w[i + 1 + n:i + 1 + 2 * n] == H: return i, i + 1 + 2 * n, {H: (ONE, ZERO)}
        if n == 1 and word[0][0][0] == 'L' and word[0][0][1] in FULLCOL and not t: return i, i + 2, {(): (ONE, ZERO)}
    return None


def nf(a):
    a = arr(a) if not isinstance(a, A) else a
    m = a.mxf
    if m is None or a.ndim > 2: return leaf(a)
    op = m[0]
    if op == 'T': return flip(nf(m[1]), 1, 0)
    if op == 'C': return flip(nf(m[1]), 0, 1)
    if op == 'same': return nf(m[1])
    if op in ('add', 'sub', 'scale') and COLLAPSE and entrywise(a): return leaf(a)
    if op in ('add', 'sub'):
        out = dict(nf(m[1]))
        for w, c in nf(m[2]).items(): cadd(out, w, c if op == 'add' else (-c[0], -c[1]))
        return out
    if op == 'scale':
        s = toS(m[1])
        out = {}
        for w, c in nf(m[2]).items(): cadd(out, w, cmul(c, (s.re, s.im)))
        return out
    if op == 'mul': return product(factors(a))
    if op == 'mulv': return nmul(flip(nf(m[2]), 1, 0), nf(m[1]))
    if op in ('inv', 'pinv'):
        k = nf(m[1])
        kk = nfkey(k)
        _NF[kk] = k
        if op == 'inv' and len(k) == 1 and () in k:
            c = k[()]
            return {(): (ONE, ZERO)} if c == (ONE, ZERO) else {(((op, kk, int(a.kind != 'c')), 0, 0),): (ONE, ZERO)}
        return {(((op, kk, int(a.kind != 'c')), 0, 0),): (ONE, ZERO)}
    return leaf(a)


COLLAPSE = False     # sums of leaves as one letter


def entrywise(a):
    m = a.mxf
    if m is None: return True
    if m[0] == 'block': return True
    if m[0] in ('T', 'C', 'same'): return entrywise(m[1])
    if m[0] in ('add', 'sub'): return entrywise(m[1]) and entrywise(m[2])
    if m[0] == 'scale': return entrywise(m[2])
    return False


def factors(a):
    m = a.mxf
    if m is not None and m[0] == 'mul': return factors(m[1]) + factors(m[2])
    if m is not None and m[0] == 'same': return factors(m[1])
    return [a]


def product(fs):
    """product of factors, cancelling inv(K) next to a run of factors whose product is K"""
    ns = [nf(f) if isinstance(f, A) else f for f in fs]
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(ns):
            if len(x) != 1: continue
            w, c = next(iter(x.items()))
            if len(w) != 1 or c != (ONE, ZERO) or w[0][0][0] != 'inv': continue
            K = nfkey(flip(_NF[w[0][0][1]], w[0][1], w[0][2]))
            for lo, hi in [(i + 1, j) for j in range(i + 2, len(ns) + 1)] + [(j, i) for j in range(0, i)]:
                p = {(): (ONE, ZERO)}
                for y in ns[lo:hi]: p = nmul(p, y)
                if nfkey(p) == K:
                    a, b = min(lo, i), max(hi, i + 1)
                    ns[a:b] = []
                    changed = True
                    break
            if changed: break
    p = {(): (ONE, ZERO)}
    for y in ns: p = nmul(p, y)
    return p


def nc_equal(a, b):
    """equal by matrix algebra (sound, incomplete)"""
    try:
        if a.mxf is None and b.mxf is None: return leaf_key(a) == leaf_key(b)
        x, y = nf(a), nf(b)
        if nfkey(x) == nfkey(y): return True
    except Unsupported: pass
    global COLLAPSE
    COLLAPSE = True
    try:
        x, y = nf(a), nf(b)
        return nfkey(x) == nfkey(y)
    except Unsupported: return False
    finally: COLLAPSE = False


_words = {}


def scalar(a, b, k):
    """inner product of two vectors as a sum of opaque scalars, one per word of its normal form"""
    global COLLAPSE
    out_re, out_im = ZERO, ZERO
    COLLAPSE = True
    try: prod = product([flip_leaf(a)] + factors_nf(b))
    finally: COLLAPSE = False
    for w, c in prod.items():
        r = tuple((bb, t ^ 1, cc) for bb, t, cc in reversed(w))
        w = min(w, r, key=repr)
        n = _words.setdefault(w, len(_words))
        re, im = app('bil#%d' % n, []), ZERO if k != 'c' else app('bil#%di' % n, [])
        v = cmul(c, (re, im))
        out_re, out_im = out_re + v[0], out_im + v[1]
    return S(norm(out_re), norm(out_im), k)


def flip_leaf(a): return flip(nf(a), 1, 0)
def factors_nf(a): return [nf(a)]


def zero_product(fs):
    """is the product of the matrices the zero matrix, by the rules"""
    return not product(fs)


def has_inv(a, d=0):
    m = getattr(a, 'mxf', None)
    if m is None: return False
    if m[0] in ('inv', 'pinv'): return True
    return any(has_inv(x, d + 1) for x in m[1:] if isinstance(x, A))


_lets = {}


def let(a):
    """the same matrix with entries named by its normal form: two products with equal normal forms share their entries"""
    n = _lets.setdefault(nfkey(nf(a)), len(_lets))
    nm = 'let#%d' % n
    r = A(a.shape_, a.kind, lambda i, j: S(app(nm, [i, j]), app(nm + 'i', [i, j]) if a.kind == 'c' else ZERO, a.kind), a.fmt)
    r.mxf = a.mxf
    return r
