"""vectorize_matrix / unvectorize_matrix"""
from engine.prove import *
from engine.npfake import *


def run(B, L):
    m = L.load('src.models.matrix_operations')
    B.functions |= {'matrix_operations.vectorize_matrix', 'matrix_operations.unvectorize_matrix'}
    for kind in 'fc':
        def body(h, kind=kind):
            r, c = h.size('r'), h.size('c')
            x = h.array('M', (r, c), kind)
            v = m.vectorize_matrix(x)
            i, j = h.index(r), h.index(c)
            if not h.shape('vec length', v, (r * c,)): return
            h.kind('element type kept', v, kind)
            h.eq('vec(M)[i+r*j] = M[i,j]', v[S(i + dp(r) * j, ZERO, 'i')], x[S(i, ZERO, 'i'), S(j, ZERO, 'i')])
            h.eq_arr('unvec(vec(M)) = M', m.unvectorize_matrix(v, (r, c)), x)
            w = h.array('w', (r * c,), kind)
            u = m.unvectorize_matrix(w, (r, c))
            h.shape('unvec shape', u, (r, c))
            h.eq('unvec(w)[i,j] = w[i+r*j]', u[S(i, ZERO, 'i'), S(j, ZERO, 'i')], w[S(i + dp(r) * j, ZERO, 'i')])
            h.eq_arr('vec(unvec(w)) = w', m.vectorize_matrix(u), w)
            h.unchanged('M not modified', x)
            h.unchanged('w not modified', w)
        B.verify('roundtrip[%s]' % kind, body)
