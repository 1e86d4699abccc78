"""Strict, self-contained structural equality used by every oracle.

It never calls into the code under test.  ``diff(a, b)`` returns ``None`` when
``b`` is an exact copy of ``a`` (same types, dtypes, shapes, element bits up to
NaN equality, same container order where order is part of the value) and a
human readable description of the first difference otherwise.
"""
import collections
import datetime
import math
import struct
import threading

import numpy as np


def _float_diff(a, b):
    if math.isnan(a) and math.isnan(b):
        return False
    return struct.pack("<d", a) != struct.pack("<d", b)


def _tname(x):
    t = type(x)
    return t.__module__ + "." + t.__name__


def short(x, n=160):
    try:
        s = repr(x)
    except Exception as e:  # e.g. int digit limits
        s = "<unreprable %s: %s>" % (_tname(x), type(e).__name__)
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[: n - 3] + "..."


def group_stored(options):
    """Which structured dtypes the storage format stores as Groups, whose
    field dtypes are then inferred from the elements when reading."""
    struct = bool(options.get("matlab_compatible", True) or options.get("structured_numpy_ndarray_as_struct", True))

    def zero(dt):
        if dt.subdtype is not None:
            return 0 in dt.shape or zero(dt.base)
        if dt.names is not None:
            return any(zero(dt.fields[n][0]) for n in dt.names)
        return False

    def f(dt):
        return struct or dt.hasobject or "\\x00" in str(dt) or zero(dt)

    # only the shape of an empty array may be stored
    f.empty = struct or bool(options.get("matlab_compatible", True) or options.get("store_shape_for_empty", True))
    return f


class _Lax(threading.local):
    f = None


_LAX = _Lax()


def same(a, b, lax=None):
    """diff() where the field dtypes of the structured arrays whose dtype
    fulfills lax may differ as long as the elements are equal."""
    old = _LAX.f
    _LAX.f = lax
    try:
        return diff(a, b)
    finally:
        _LAX.f = old


def diff(a, b, path="$", depth=0):
    if depth > 60:
        return None
    if isinstance(a, np.dtype) or isinstance(b, np.dtype):
        if not (isinstance(a, np.dtype) and isinstance(b, np.dtype)):
            return "%s: %s became %s" % (path, _tname(a), _tname(b))
        if a != b or a.names != b.names:
            return "%s: dtype %r became %r" % (path, a, b)
        return None
    if isinstance(a, np.void) and isinstance(b, np.void) and a.dtype.names and _LAX.f is not None and _LAX.f(a.dtype):
        return _voiddiff(a, b, path, depth)
    if type(a) is not type(b):
        return "%s: type %s became %s (%s -> %s)" % (
            path, _tname(a), _tname(b), short(a, 60), short(b, 60))
    if a is b and not isinstance(a, (float, complex, np.generic, np.ndarray)):
        return None
    if isinstance(a, np.ndarray):
        return _nddiff(a, b, path, depth)
    if isinstance(a, np.generic):
        if not _samedt(a.dtype, b.dtype):
            return "%s: scalar dtype %s became %s" % (path, a.dtype, b.dtype)
        if isinstance(a, np.void):
            return _voiddiff(a, b, path, depth)
        if isinstance(a, (np.str_, np.bytes_)):
            return None if a == b else "%s: %s became %s" % (path, short(a), short(b))
        return _nddiff(np.asarray(a), np.asarray(b), path, depth)
    if isinstance(a, bool) or a is None or a is Ellipsis or a is NotImplemented:
        return None if a is b else "%s: %r became %r" % (path, a, b)
    if isinstance(a, float):
        return ("%s: %r became %r" % (path, a, b)) if _float_diff(a, b) else None
    if isinstance(a, complex):
        if _float_diff(a.real, b.real) or _float_diff(a.imag, b.imag):
            return "%s: %r became %r" % (path, a, b)
        return None
    if isinstance(a, (int, str, bytes, bytearray)):
        return None if a == b else "%s: %s became %s" % (path, short(a), short(b))
    if isinstance(a, (collections.OrderedDict,)):
        return _mapdiff(a, b, path, depth, ordered=True)
    if isinstance(a, dict):
        return _mapdiff(a, b, path, depth, ordered=True)
    if isinstance(a, collections.ChainMap):
        return diff(list(a.maps), list(b.maps), path + ".maps", depth + 1)
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return "%s: length %d became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), depth + 1)
            if d:
                return d
        return None
    if isinstance(a, (set, frozenset)):
        return _setdiff(a, b, path, depth)
    if isinstance(a, (slice, range)):
        return diff((a.start, a.stop, a.step), (b.start, b.stop, b.step),
                    path + ".(start,stop,step)", depth + 1)
    if isinstance(a, datetime.timezone):
        return diff(tuple(a.__reduce__()[1]), tuple(b.__reduce__()[1]), path, depth + 1)
    if isinstance(a, datetime.datetime):
        f = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        d = diff(tuple(getattr(a, k) for k in f), tuple(getattr(b, k) for k in f), path, depth + 1)
        return d or diff(a.tzinfo, b.tzinfo, path + ".tzinfo", depth + 1)
    if isinstance(a, datetime.time):
        f = ("hour", "minute", "second", "microsecond")
        d = diff(tuple(getattr(a, k) for k in f), tuple(getattr(b, k) for k in f), path, depth + 1)
        return d or diff(a.tzinfo, b.tzinfo, path + ".tzinfo", depth + 1)
    return None if a == b else "%s: %s became %s" % (path, short(a), short(b))


def _mapdiff(a, b, path, depth, ordered):
    if len(a) != len(b):
        return "%s: %d items became %d: keys %s -> %s" % (
            path, len(a), len(b), short(list(a)), short(list(b)))
    ka, kb = list(a), list(b)
    if not ordered:
        ka = sorted(ka, key=lambda k: (_tname(k), repr(k)))
        kb = sorted(kb, key=lambda k: (_tname(k), repr(k)))
    for i, (x, y) in enumerate(zip(ka, kb)):
        d = diff(x, y, "%s.key#%d" % (path, i), depth + 1)
        if d:
            return d
        d = diff(a[x], b[y], "%s[%s]" % (path, short(x, 30)), depth + 1)
        if d:
            return d
    return None


def _setdiff(a, b, path, depth):
    if len(a) != len(b):
        return "%s: set of %d became %d: %s -> %s" % (path, len(a), len(b), short(a), short(b))
    left = list(b)
    for x in a:
        for j, y in enumerate(left):
            if diff(x, y, path, depth + 1) is None:
                del left[j]
                break
        else:
            return "%s: element %s missing from %s" % (path, short(x), short(b))
    return None


def _voiddiff(a, b, path, depth):
    if a.dtype.names is None:
        return None if a.tobytes() == b.tobytes() else "%s: %s became %s" % (path, short(a), short(b))
    if a.dtype.names != b.dtype.names:
        return "%s: fields %r became %r" % (path, a.dtype.names, b.dtype.names)
    for n in a.dtype.names:
        d = _fdiff(a[n], b[n], "%s.%s" % (path, short(n, 30)), depth + 1)
        if d:
            return d
    return None


def _fdiff(x, y, path, depth):
    # an array put into a field takes on the type of the field
    if _LAX.f is not None and isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        x, y = x.view(np.ndarray), y.view(np.ndarray)
        if x.dtype.char != y.dtype.char or x.dtype.char not in "SU":
            return _nddiff(x, y, path, depth)
    if _LAX.f is not None:
        if isinstance(x, np.ndarray) and x.shape == () and isinstance(y, np.generic):
            x = x.view(np.ndarray)[()]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype.char in "SU":
            return diff(x.tolist(), y.tolist(), path, depth)
    return diff(x, y, path, depth)


def _samedt(a, b):
    return a == b or a.newbyteorder("=") == b.newbyteorder("=")


def _nddiff(a, b, path, depth):
    if a.dtype.names is not None and _LAX.f is not None and (_LAX.f(a.dtype) or a.size == 0 and getattr(_LAX.f, "empty", False)):
        if a.dtype.names != b.dtype.names:
            return "%s: fields %r became %r" % (path, a.dtype.names, b.dtype.names)
        if a.shape != b.shape:
            return "%s: shape %s became %s" % (path, a.shape, b.shape)
        aa, bb = np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)
        for i in np.ndindex(*a.shape):
            for n in a.dtype.names:
                d = _fdiff(aa[n][i], bb[n][i], "%s%s.%s" % (path, list(i), short(n, 30)), depth + 1)
                if d:
                    return d
        return None
    if not _samedt(a.dtype, b.dtype) or a.dtype.names != b.dtype.names:
        return "%s: dtype %s became %s" % (path, a.dtype, b.dtype)
    if a.shape != b.shape:
        return "%s: shape %s became %s" % (path, a.shape, b.shape)
    if a.dtype.names is not None:
        aa, bb = np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)
        for n in a.dtype.names:
            d = _nddiff(np.asarray(aa[n]), np.asarray(bb[n]), "%s.%s" % (path, short(n, 30)), depth + 1)
            if d:
                return d
        return None
    if a.dtype.hasobject:
        fa, fb = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
        for i in range(fa.size):
            d = diff(fa[i], fb[i], "%s{%d}" % (path, i), depth + 1)
            if d:
                return d
        return None
    fa, fb = np.asarray(a), np.asarray(b)
    if fa.dtype.newbyteorder("=") != fa.dtype:
        fa = fa.astype(fa.dtype.newbyteorder("="))
    if fb.dtype.newbyteorder("=") != fb.dtype:
        fb = fb.astype(fb.dtype.newbyteorder("="))
    if fa.dtype.kind in "fc":
        w = fa.dtype.itemsize if fa.dtype.kind == "f" else fa.dtype.itemsize // 2
        ft = np.dtype(fa.dtype.byteorder + "f%d" % w)
        fa = np.ascontiguousarray(fa).reshape(-1).view(ft)
        fb = np.ascontiguousarray(fb).reshape(-1).view(ft)
        bad = ~((np.isnan(fa) & np.isnan(fb)) | ((fa == fb) & (np.signbit(fa) == np.signbit(fb))))
        if bad.any():
            i = int(np.argmax(bad))
            return "%s: element %d %r became %r" % (path, i, fa[i], fb[i])
        return None
    if fa.dtype.kind in "SUV":
        ba, bb = np.ascontiguousarray(fa).tobytes(), np.ascontiguousarray(fb).tobytes()
        if ba != bb:
            return "%s: %s became %s" % (path, short(a), short(b))
        return None
    bad = fa != fb
    if np.any(bad):
        i = int(np.argmax(np.asarray(bad).reshape(-1)))
        return "%s: element %d %r became %r" % (path, i, fa.reshape(-1)[i], fb.reshape(-1)[i])
    return None
