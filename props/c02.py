"""make_real_vector / make_complex_vector / make_real_matrix / make_complex_matrix"""
from engine.prove import *
from engine.npfake import *


def I(p): return S(norm(dp(p)), ZERO, 'i')


def run(B, L):
    m = L.load('src.models.matrix_operations')
    B.functions |= {'matrix_operations.' + f for f in ('make_real_vector', 'make_complex_vector', 'make_real_matrix', 'make_complex_matrix')}

    def vectors(h):
        n = h.size('n')
        v, w = h.array('v', (n,), 'c'), h.array('w', (n,), 'c')
        r = m.make_real_vector(v)
        if not h.shape('make_real_vector', r, (2 * n,)): return
        h.kind('real result', r, 'f')
        i = h.index(n)
        h.eq('first half is the real part', r[I(i)], v[I(i)].real)
        h.eq('second half is the imaginary part', r[I(i) + n], v[I(i)].imag)
        h.eq_arr('make_complex_vector inverts make_real_vector', m.make_complex_vector(r), v)
        s = h.real('s')
        h.eq_arr('additive', m.make_real_vector(v + w), r + m.make_real_vector(w))
        h.eq_arr('commutes with real scaling', m.make_real_vector(v * s), r * s)
        u = h.array('u', (2 * n,), 'f')
        h.eq_arr('make_real_vector inverts make_complex_vector', m.make_real_vector(m.make_complex_vector(u)), u)
        for a in (v, w, u): h.unchanged('input not modified', a)
    B.verify('vectors', vectors)

    for fmt in (None, 'csr', 'csc', 'coo'):
        def mats(h, fmt=fmt):
            r, c = h.size('r'), h.size('c')
            x, y = h.array('M', (r, c), 'c', fmt), h.array('N', (r, c), 'c', fmt)
            b = m.make_real_matrix(x)
            if not h.shape('make_real_matrix', b, (2 * r, 2 * c)): return
            h.true('format kept', b.fmt == fmt)
            h.kind('real result', b, 'f')
            i, j = h.index(r), h.index(c)
            bd = b.todense() if fmt == 'coo' else b
            xd = x.todense() if fmt == 'coo' else x
            e = xd[I(i), I(j)]
            h.eq('upper left', bd[I(i), I(j)], e.real)
            h.eq('upper right', bd[I(i), I(j) + c], -e.imag)
            h.eq('lower left', bd[I(i) + r, I(j)], e.imag)
            h.eq('lower right', bd[I(i) + r, I(j) + c], e.real)
            v = h.array('v', (c,), 'c')
            h.eq_arr('block form times stacked vector = stacked product', b @ m.make_real_vector(v), m.make_real_vector(x @ v))
            s = h.real('s')
            h.eq_arr('additive', m.make_real_matrix(x + y), b + m.make_real_matrix(y))
            h.eq_arr('commutes with real scaling', m.make_real_matrix(x * s), b * s)
            h.unchanged('input not modified', x)
            if fmt != 'coo':          # coo arrays have no slicing in scipy; callers convert first
                back = m.make_complex_matrix(b)
                h.true('format kept by make_complex_matrix', back.fmt == fmt)
                h.eq_arr('make_complex_matrix inverts make_real_matrix', back, x)
        B.verify('matrices[%s]' % (fmt or 'dense'), mats)
