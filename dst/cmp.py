"""Deep comparison, freezing and copying of results."""

import hashlib

import numpy as np
import scipy.sparse as sps

SKIP = ("date", "duration", "seconds")


def diff(a, b, rel=1e-6, abs_=0.0, path="", skip=SKIP, scale=None, exact_type=False, top=True):
    """
    First difference between two results (None if equal up to the tolerance).
    Arrays are compared with a tolerance relative to the largest item of the arrays.
    """
    if isinstance(a, dict) and isinstance(b, dict):
        ka = [k for k in a if k not in skip] if skip else list(a)
        kb = [k for k in b if k not in skip] if skip else list(b)
        if set(ka) != set(kb):
            return "%s: keys %s != %s" % (path, sorted(map(str, ka)), sorted(map(str, kb)))
        for k in ka:
            d = diff(a[k], b[k], rel, abs_, "%s/%s" % (path, k), skip, scale, exact_type, False)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if exact_type and type(a) is not type(b):
            return "%s: type %s != %s" % (path, type(a), type(b))
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        if len(a) and all(isinstance(x, (int, float, complex, np.number, bool)) for x in list(a)+list(b)):
            return diff(np.array(a), np.array(b), rel, abs_, path, skip, scale, False, False)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rel, abs_, "%s[%d]" % (path, i), skip, scale, exact_type, False)
            if d:
                return d
        return None
    if sps.issparse(a) and sps.issparse(b):
        return diff(a.toarray(), b.toarray(), rel, abs_, path, skip, scale, exact_type, False)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if exact_type and (type(a) is not type(b)):
            return "%s: type %s != %s" % (path, type(a), type(b))
        a = np.asarray(a)
        b = np.asarray(b)
        if exact_type and a.dtype != b.dtype:
            return "%s: dtype %s != %s" % (path, a.dtype, b.dtype)
        if a.shape != b.shape:
            return "%s: shape %s != %s" % (path, a.shape, b.shape)
        if a.size == 0:
            return None
        if a.dtype.kind in "iub" and b.dtype.kind in "iub" or a.dtype.kind in "OUS":
            if not np.array_equal(a, b):
                return "%s: %s != %s" % (path, _short(a), _short(b))
            return None
        na = np.isnan(a)
        nb = np.isnan(b)
        if not np.array_equal(na, nb):
            return "%s: NaN pattern: %s != %s" % (path, _short(a), _short(b))
        ok = ~na
        if not np.any(ok):
            return None
        (x, y) = (a[ok], b[ok])
        if not np.array_equal(np.isinf(x), np.isinf(y)):
            return "%s: inf pattern" % path
        fin = ~np.isinf(x)
        if not np.any(fin):
            return None
        (x, y) = (x[fin], y[fin])
        ref = max(np.max(np.abs(x)), np.max(np.abs(y)))
        err = np.max(np.abs(x-y))
        tol = rel*ref+abs_
        if scale is not None:
            tol = max(tol, scale(path))
        if err > tol:
            return "%s: err=%.3e tol=%.3e: %s != %s" % (path, err, tol, _short(a), _short(b))
        return None
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, np.bool_) or isinstance(b, np.bool_):
        if bool(a) != bool(b):
            return "%s: %r != %r" % (path, a, b)
        if exact_type and type(a) is not type(b):
            return "%s: type %s != %s" % (path, type(a), type(b))
        return None
    num = (int, float, complex, np.number)
    if isinstance(a, num) and isinstance(b, num):
        if exact_type and type(a) is not type(b):
            return "%s: type %s != %s" % (path, type(a), type(b))
        return diff(np.array([a]), np.array([b]), rel, abs_, path, skip, scale, False, False)
    if type(a) is not type(b):
        return "%s: type %s != %s (%s / %s)" % (path, type(a), type(b), _short(a), _short(b))
    if a != b:
        return "%s: %s != %s" % (path, _short(a), _short(b))
    return None


def _short(x):
    txt = repr(x)
    return txt if len(txt) < 160 else txt[:160]+"..."


def exact(a, b, skip=()):
    """First difference (exact comparison of values and types)."""
    return diff(a, b, rel=0.0, abs_=0.0, skip=skip, exact_type=True)


def digest(obj, skip=SKIP):
    """Digest of a result (exact)."""
    h = hashlib.sha1()

    def walk(x):
        if isinstance(x, dict):
            h.update(b"{")
            for k in sorted(x, key=repr):
                if k in skip:
                    continue
                h.update(repr(k).encode())
                walk(x[k])
            h.update(b"}")
        elif isinstance(x, (list, tuple)):
            h.update(type(x).__name__.encode())
            for y in x:
                walk(y)
        elif isinstance(x, np.ndarray):
            h.update(("%s%s" % (x.dtype, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, np.generic):
            h.update(type(x).__name__.encode())
            h.update(x.tobytes())
        elif sps.issparse(x):
            walk(x.toarray())
        else:
            h.update(type(x).__name__.encode())
            h.update(repr(x).encode())
    walk(obj)
    return h.hexdigest()
