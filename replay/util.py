"""contract assertions of the runtime replay"""
import os, sys
import numpy as np
import scipy.sparse as sps
try: from __main__ import Skip
except ImportError:
    class Skip(Exception): pass


def mat(r, c, kind='f', lo=-2, hi=2):
    x = np.random.uniform(lo, hi, (r, c))
    if kind == 'c': x = x + 1j * np.random.uniform(lo, hi, (r, c))
    return x


def vec(n, kind='f', lo=-2, hi=2): return mat(n, 1, kind, lo, hi)[:, 0]


def dense(x):
    if sps.issparse(x): return np.asarray(x.todense())
    return np.asarray(x)


def shape(x, sh, what):
    got = tuple(x.shape)
    if got != tuple(sh): raise AssertionError('%s has shape %s instead of %s' % (what, got, tuple(sh)))


def same(a, b, what, tol=1e-9, atol=None):
    a, b = dense(a), dense(b)
    if a.shape != b.shape: raise AssertionError('%s has shape %s instead of %s' % (what, a.shape, b.shape))
    if a.size == 0: return
    d = np.abs(a.astype(complex) - b.astype(complex))
    s = np.max(np.abs(b)) + 1e-300
    lim = tol * max(s, 1e-12) if atol is None else atol
    if not np.all(d <= lim):
        k = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        raise AssertionError('%s: entry %s is %r instead of %r (largest difference %g)' % (what, tuple(int(i) for i in k), a[k], b[k], d[k]))


def eq(a, b, what, tol=1e-9):
    if not (abs(a - b) <= tol * max(1e-12, abs(a), abs(b))): raise AssertionError('%s is %r instead of %r' % (what, a, b))


def true(c, what):
    if not c: raise AssertionError(what)
