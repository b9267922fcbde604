"""gpu_matrix_operations against matrix_operations, with the accelerator library's array functions under the same contracts as numpy's"""
from engine.prove import *
from engine.npfake import *

ASSUME = ['cupy and cupyx.scipy.sparse functions satisfy the contracts of the numpy and scipy.sparse functions of the same name (no accelerator in the sandbox)']


def same(h, what, a, b):
    """same container, storage format, element kind, shape and entries"""
    if isinstance(a, A) != isinstance(b, A): return h.fail(what, 'array on one side only')
    h.true(what + ': storage format', a.fmt == b.fmt)
    h.true(what + ': element type', a.kind == b.kind)
    if a.fmt == 'coo' and b.fmt == 'coo': a, b = a.todense(), b.todense()
    h.eq_arr(what, a, b)


def run(B, L):
    for k in ('cupy',): L.fakes[k] = L.np
    L.fakes['cupyx'] = Mod('cupyx', dict(scipy=Mod('cupyx.scipy', dict(sparse=L.sp))))
    L.fakes['cupyx.scipy'] = L.fakes['cupyx'].scipy
    L.fakes['cupyx.scipy.sparse'] = L.sp
    cpu, gpu = L.load('src.models.matrix_operations'), L.load('src.models.gpu_matrix_operations')
    B.functions |= {'%s.%s' % (m, f) for m in ('matrix_operations', 'gpu_matrix_operations') for f in
                    ('vectorize_matrix', 'unvectorize_matrix', 'make_real_vector', 'make_complex_vector', 'make_real_matrix', 'make_complex_matrix')}
    for kind in 'fc':
        def vecs(h, kind=kind):
            r, c = h.size('r'), h.size('c')
            x, w = h.array('M', (r, c), kind), h.array('w', (r * c,), kind)
            same(h, 'vectorize_matrix', gpu.vectorize_matrix(x), cpu.vectorize_matrix(x))
            same(h, 'unvectorize_matrix', gpu.unvectorize_matrix(w, (r, c)), cpu.unvectorize_matrix(w, (r, c)))
            same(h, 'make_real_vector', gpu.make_real_vector(w), cpu.make_real_vector(w))
            for a in (x, w): h.unchanged('input not modified', a)
        B.verify('vectors[%s]' % kind, vecs)

    def cplx(h):
        n = h.size('n')
        u = h.array('u', (2 * n,), 'f')
        same(h, 'make_complex_vector', gpu.make_complex_vector(u), cpu.make_complex_vector(u))
        h.unchanged('input not modified', u)
    B.verify('complex vectors', cplx)

    for fmt in (None, 'csr', 'csc', 'coo'):
        for kind in 'cf':
            def mats(h, fmt=fmt, kind=kind):
                r, c = h.size('r'), h.size('c')
                x = h.array('M', (r, c), kind, fmt)
                same(h, 'make_real_matrix', gpu.make_real_matrix(x), cpu.make_real_matrix(x))
                h.unchanged('input not modified', x)
                if fmt != 'coo':
                    b = h.array('B', (2 * r, 2 * c), 'f', fmt)
                    same(h, 'make_complex_matrix', gpu.make_complex_matrix(b), cpu.make_complex_matrix(b))
                    h.unchanged('input not modified', b)
            B.verify('matrices[%s,%s]' % (fmt or 'dense', kind), mats)
