"""duplication_matrix / elimination_sym_matrix"""
from engine.prove import *
from engine.npfake import *


def vech_index(n, i, j):
    """position of entry (i, j), i >= j, in the column-by-column lower triangle"""
    return n * j - (j * (j + 1)).scale(Fr(1, 2)) + i


def I(p): return S(norm(p), ZERO, 'i')


def run(B, L):
    m = L.load('src.models.matrix_operations')
    B.functions |= {'matrix_operations.duplication_matrix', 'matrix_operations.elimination_sym_matrix'}

    def lemma(h):
        # if the column differs, so does the position
        n = dp(h.size('n'))
        y, d = dp(h.int('y', 0)), dp(h.int('d', 1))
        x, u = dp(h.int('x')), dp(h.int('u'))
        for q in (y - x, x - n + 1, y + d - u, u - n + 1): C().assume_le(norm(q))
        h.true('the position in the lower triangle determines row and column', S(X.dec_le(norm(vech_index(n, x, y) - vech_index(n, u, y + d) + 1)), ZERO, 'b'))
    B.verify('triangular numbering', lemma)

    def body(h):
        n = h.size('n')
        N = dp(n)
        D = m.duplication_matrix(n)
        if not h.shape('D', D, (n * n, n * (n + 1) // 2)): return
        v = h.array('v', (n * (n + 1) // 2,), 'f')
        out = D @ v
        a = h.index(n)
        b = fresh('b', 'I')
        C().rng(b, 0, a + 1)
        h.eq('(D v)[a+n b] = v[vech(a,b)] for a >= b', out[I(a + N * b)], v[I(vech_index(N, a, b))])
        h.eq('(D v)[b+n a] = v[vech(a,b)] for a >= b', out[I(b + N * a)], v[I(vech_index(N, a, b))])
    B.verify('duplication', body)

    def body2(h):
        n = h.size('n')
        N = dp(n)
        E = m.elimination_sym_matrix(n)
        if not h.shape('E', E, (n * (n + 1) // 2, n * n)): return
        x = h.array('X', (n * n,), 'f')
        out = E @ x
        a = h.index(n)
        b = fresh('b', 'I')
        C().rng(b, 0, a + 1)
        h.eq('(E x)[vech(a,b)] = (x[a+n b] + x[b+n a])/2', out[I(vech_index(N, a, b))],
             (x[I(a + N * b)] + x[I(b + N * a)]) / 2)
    B.verify('elimination_sym', body2)
