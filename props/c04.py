"""transformation_matrix / elimination_lap_matrix"""
from engine.prove import *
from engine.npfake import *
from props.c03 import vech_index, I


def ve_index(n, i, j):
    """position of entry (i, j), i > j, in the column-by-column strictly lower triangle"""
    return vech_index(n, i, j) - j - 1


def run(B, L):
    m = L.load('src.models.matrix_operations')
    B.functions |= {'matrix_operations.transformation_matrix', 'matrix_operations.elimination_lap_matrix'}

    def pair(h, N, nm, strict):
        a, b = fresh(nm, 'I'), fresh(nm + 'c', 'I')
        C().rng(a, 1 if strict else 0, N)
        C().rng(b, 0, a + (0 if strict else 1))
        return a, b

    def off(h):
        n = h.size('n', 2)
        N = dp(n)
        T_ = m.transformation_matrix(n)
        if not h.shape('T', T_, (n * (n + 1) // 2, n * (n - 1) // 2)): return
        a, b = pair(h, N, 'a', True)
        c, d = pair(h, N, 'c', True)
        h.eq('entry between a line and an off-diagonal parameter', T_[I(vech_index(N, a, b)), I(ve_index(N, c, d))], S(-X.dec_eq(a - c) * X.dec_eq(b - d), ZERO, 'i'))
    B.verify('transformation: off-diagonal entries', off)

    def dia(h):
        n = h.size('n', 2)
        N = dp(n)
        T_ = m.transformation_matrix(n)
        a = dp(h.index(n))
        c, d = pair(h, N, 'c', True)
        h.eq('entry between a line and a diagonal parameter', T_[I(vech_index(N, a, a)), I(ve_index(N, c, d))], S(X.dec_eq(a - c) + X.dec_eq(a - d), ZERO, 'i'))
    B.verify('transformation: diagonal entries', dia)

    def elim(h):
        n = h.size('n', 2)
        N = dp(n)
        E = m.elimination_lap_matrix(n)
        if not h.shape('E', E, (n * (n - 1) // 2, n * (n + 1) // 2)): return
        a, b = pair(h, N, 'a', True)
        c, d = pair(h, N, 'c', False)
        h.selected(ve_index(N, a, b), vech_index(N, a, b))
        h.eq('entry of an off-diagonal parameter', E[I(ve_index(N, a, b)), I(vech_index(N, c, d))], S(-X.dec_eq(a - c) * X.dec_eq(b - d), ZERO, 'i'))
    B.verify('elimination: entries', elim)
