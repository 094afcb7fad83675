"""Oracle helpers (PyPy side)."""
import numpy as np

from vlib.common import Fail, require

BUF = 256
FS = 44100


def signal(desc):
    """Expand signal descriptor to float array. Pure function."""
    n, a, k = desc['n'], desc.get('a', 1.), desc['k']
    i = np.arange(n)
    if k == 'noise':
        return np.random.RandomState(desc['s']).uniform(-a, a, n)
    if k == 'imp':
        x = np.zeros(n)
        if n:
            x[desc['at'] % n] = a
        return x
    if k == 'ramp':
        return a * (i + 1.) / max(n, 1)
    if k == 'const':
        return np.full(n, float(a))
    if k == 'sine':
        return a * np.sin(2 * np.pi * desc['p'] * i)
    if k == 'nyq':
        return a * (1. - 2. * (i % 2))
    raise ValueError(k)


def close(got, exp, what, tol=1e-9, rtol=1e-9):
    """Arrays agree up to tolerance, including shape."""
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        raise Fail('%s: shape %s instead of %s' % (what, got.shape, exp.shape))
    if not got.size:
        return
    bad = ~(np.abs(got - exp) <= tol + rtol * np.abs(exp))
    if bad.any():
        idx = (tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ())
        raise Fail('%s: differs at %s of %d values, first at %s: '
                   'got %r, expected %r' % (
                       what, int(bad.sum()), got.size, idx,
                       float(got[idx]), float(exp[idx])))


def finite(x, what):
    x = np.asarray(x, dtype=float)
    require(np.isfinite(x).all(), '%s: not finite', what)
    return x


def raises(exc, func, *args, **kwargs):
    """Does func raise (a subclass of) exc?"""
    try:
        func(*args, **kwargs)
    except exc:
        return True
    return False


def near(a, b, tol=1e-9, rtol=1e-9):
    return abs(a - b) <= tol + rtol * abs(b)


def dress(x, k):
    """Equal array in another memory layout (1: as from the sound card)."""
    x = np.array(x)
    k %= 5
    if k == 1 and x.ndim == 2:
        return np.ascontiguousarray(x.T).T
    if k == 2:
        x.setflags(write=False)
    if k in (1, 3):
        buf = np.full(x.shape + (2,), 7.)
        buf[..., 0] = x
        return buf[..., 0]
    if k == 4:
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    return x
