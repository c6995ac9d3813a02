"""Reference side: plain NumPy values, complex-step Jacobians, and comparison helpers."""
import sys, os, itertools
import numpy as np
import scipy.sparse as sp
from core import REPO
import chumpy as ch
np.seterr(all='ignore')

H = 1e-25


def vals(shape, k=0, dom='any'):
    """Deterministic, distinct, generic values of the given shape in the given domain."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n)
    v = np.sin(1.3 * i + 0.71 * k + 0.3) * 1.7 + 0.05 * np.cos(3.1 * i + k)
    if dom == 'pos':
        v = 0.3 + np.abs(v)
    elif dom == 'unit':
        v = 0.45 * v
    elif dom == 'big':
        v = v * 40
    elif dom == 'nz':
        v = np.where(v < 0, v - 0.4, v + 0.4)
    return v.reshape(shape)


def dense(J, nout, nin):
    """A Jacobian in whatever representation the library chose, as a plain array. None means no dependence."""
    if J is None:
        return np.zeros((nout, nin))
    if sp.issparse(J):
        return np.asarray(J.toarray(), dtype=np.float64)
    if hasattr(J, 'matvec'):
        return np.asarray(J.dot(np.eye(J.shape[1])))
    return np.atleast_2d(np.asarray(J, dtype=np.float64))


def close(a, b, rtol=1e-8, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def cjac(f, args, wrt):
    """Complex-step Jacobian of f(*args) with respect to args[wrt] (all positions, if wrt is a tuple, move together)."""
    pos = wrt if isinstance(wrt, tuple) else (wrt,)
    base = [np.array(a, dtype=np.complex128) for a in args]
    n = base[pos[0]].size
    cols = []
    for j in range(n):
        aa = [b.copy() for b in base]
        for p in pos:
            aa[p].reshape(-1)[j] += 1j * H
        cols.append(np.imag(np.asarray(f(*aa))).ravel() / H)
    return np.array(cols).T.reshape((-1, n))


def fdjac(f, args, wrt, eps=1e-6):
    """4th-order central differences (only for functions without a complex extension)."""
    pos = wrt if isinstance(wrt, tuple) else (wrt,)
    base = [np.array(a, dtype=np.float64) for a in args]
    n = base[pos[0]].size
    cols = []
    for j in range(n):
        ev = []
        for s in (-2, -1, 1, 2):
            aa = [b.copy() for b in base]
            for p in pos:
                aa[p].reshape(-1)[j] += s * eps
            ev.append(np.asarray(f(*aa)).ravel())
        cols.append((ev[0] - 8 * ev[1] + 8 * ev[2] - ev[3]) / (12 * eps))
    return np.array(cols).T.reshape((-1, n))


def summ(a):
    return np.array2string(np.asarray(a), precision=6, threshold=24, separator=',').replace('\n', '')


def check_value(ctx, key, node, want, what=''):
    got = node.r
    want = np.atleast_1d(np.asarray(want, dtype=np.float64))
    ctx.seen('r', got.shape, got.tobytes())
    if not close(got, want):
        ctx.fail(key + '|value', '%s value: got shape %s %s, reference shape %s %s'
                 % (what or key, got.shape, summ(got), want.shape, summ(want)))
        return False
    return True


class Mode(object):
    prop = None         # the operation sweeps of C05-C08 inside another property: what is observed there (see sweep.py)


def left(m, n):
    """a left-hand matrix (m rows, n columns) without structure"""
    return np.cos(1. + 1.7 * np.arange(m * n)).reshape((m, n))


def check_jac(ctx, key, node, wrt, want, what='', mask=None, rtol=1e-7, atol=1e-8, J=False):
    if Mode.prop == 'C01':
        return True
    want = np.asarray(want)
    if J is False and Mode.prop == 'C04':
        J = node.dr_wrt(wrt, reverse_mode=True)
        what, key = (what or key) + ' reverse mode', key + '|reverse'
        if want.size and mask is None:
            for L in (left(2, want.shape[0]), sp.csc_matrix(np.eye(want.shape[0]))):
                got = node.lop(wrt, L)
                w = np.asarray(L.dot(want))
                got = dense(got, *w.shape)
                ctx.seen('L', got.tobytes())
                if got.shape != w.shape or not close(got, w, rtol * 10, atol * 10):
                    ctx.fail(key + '|lop', '%s left product: got %s, reference %s' % (what, summ(got), summ(w)))
                    return False
    if J is False:
        J = node.dr_wrt(wrt)
    got = dense(J, want.shape[0], want.shape[1])
    ctx.seen('J', got.shape, got.tobytes())
    if got.shape != want.shape:
        ctx.fail(key + '|jacshape', '%s Jacobian has shape %s, reference %s' % (what or key, got.shape, want.shape))
        return False
    g, w = got, want
    if mask is not None:
        g, w = np.where(mask, got, 0), np.where(mask, want, 0)
    if not close(g, w, rtol, atol):
        ctx.fail(key + '|jac', '%s Jacobian: got %s, reference %s' % (what or key, summ(got), summ(want)))
        return False
    return True


def bcast_ok(s1, s2):
    for a, b in zip(s1[::-1], s2[::-1]):
        if a != b and a != 1 and b != 1:
            return False
    return True
