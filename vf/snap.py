"""Deep snapshots of values: identities, types, flags, memory and content."""
import collections
import datetime
import fractions

import numpy as np


def _base(a):
    b = a
    while isinstance(b.base, np.ndarray):
        b = b.base
    return b


def _mem(a):
    if a.dtype.names is not None:
        # Padding isn't kept by copies.
        return tuple(_mem(a[n]) for n in a.dtype.names)
    if a.dtype.hasobject:
        return tuple(id(x) for x in a.reshape(-1).tolist()) if a.dtype == object else repr(a.dtype)
    return np.array(a, order="K", copy=True).view(np.ndarray).tobytes()


def snap(v, memo=None, keep=None):
    """A value that is equal before and after iff nothing in v changed.

    keep holds references so that identities stay meaningful.
    """
    out = []
    seen = {}
    stack = [v]
    keep = [] if keep is None else keep
    while stack:
        x = stack.pop()
        keep.append(x)
        if id(x) in seen:
            out.append(("again", seen[id(x)]))
            continue
        seen[id(x)] = len(seen)
        t = type(x)
        e = [id(x), t.__module__ + "." + t.__name__]
        d = getattr(x, "__dict__", None)
        if d and isinstance(d, dict) and not isinstance(x, type):
            e.append(sorted((k, id(y)) for k, y in d.items()))
        if isinstance(x, np.ndarray):
            e += [x.shape, x.strides, str(x.dtype), repr(x.dtype.metadata), id(x.dtype) if x.dtype.names is None else x.dtype.names, str(x.flags), x.__array_interface__["data"]]
            e.append(_mem(np.ndarray.view(x, np.ndarray)))
            b = _base(x)
            if b is not x:
                e += [id(b), b.shape, b.strides, str(b.dtype), str(b.flags), _mem(np.ndarray.view(b, np.ndarray))]
            elif isinstance(x.base, (bytearray, bytes)):
                e.append(bytes(x.base))
            if x.dtype == object:
                stack += x.reshape(-1).tolist()
            elif x.dtype.names:
                for n in x.dtype.names:
                    if x.dtype.fields[n][0] == object:
                        y = np.ndarray.view(x, np.ndarray)[n].reshape(-1).tolist()
                        e += [id(z) for z in y]
                        stack += y
        elif isinstance(x, np.void) and x.dtype.names:
            e += [str(x.dtype), repr(x.tolist()) if not x.dtype.hasobject else ""]
            for n in x.dtype.names:
                if x.dtype.fields[n][0] == object:
                    e.append(id(x[n]))
                    stack.append(x[n])
        elif isinstance(x, np.generic):
            e += [str(x.dtype), x.tobytes()]
        elif isinstance(x, collections.ChainMap):
            e += [id(x.maps), [id(m) for m in x.maps]]
            stack += x.maps
        elif isinstance(x, dict):
            e += [[(id(k), id(y)) for k, y in x.items()]]
            if isinstance(x, collections.defaultdict):
                e.append(id(x.default_factory))
            for k, y in x.items():
                stack += [k, y]
        elif isinstance(x, (list, tuple, collections.deque)):
            e += [[id(y) for y in x]]
            stack += list(x)
        elif isinstance(x, (set, frozenset)):
            e += [sorted(id(y) for y in x)]
            stack += list(x)
        elif isinstance(x, (bytes, bytearray)):
            e.append(bytes(x))
        elif isinstance(x, (str, int, float, complex, range, slice, datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo, fractions.Fraction)):
            try:
                e.append(repr(x))
            except ValueError:
                e.append(hash(x))
        out.append(tuple(map(repr, e)))
    return out


def differs(a, b):
    """The first difference of two snapshots, or None."""
    if a == b:
        return None
    if len(a) != len(b):
        return "%d objects became %d" % (len(a), len(b))
    for x, y in zip(a, b):
        if x != y:
            return "%.400s became %.400s" % (" ".join(p for p, q in zip(x, y) if p != q) or x, " ".join(q for p, q in zip(x, y) if p != q) or y)
    return None


def arrays(v):
    """All arrays (and structured scalars) reachable through containers."""
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            out.append(x)
            if x.dtype == object:
                stack += x.reshape(-1).tolist()
            elif x.dtype.names and x.dtype.hasobject:
                for n in x.dtype.names:
                    if x.dtype.fields[n][0] == object:
                        stack += np.ndarray.view(x, np.ndarray)[n].reshape(-1).tolist()
        elif isinstance(x, np.void) and x.dtype.names:
            for n in x.dtype.names:
                if x.dtype.fields[n][0] == object:
                    stack.append(x[n])
        elif isinstance(x, collections.ChainMap):
            stack += x.maps
        elif isinstance(x, dict):
            stack += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            stack += list(x)
    return out


def mutables(v, twice=None):
    """Identities of the mutable objects in v; those found at more than one
    place are put into the list twice."""
    out, seen, stack = {}, set(), [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            if twice is not None and id(x) in out:
                twice.append(x)
            continue
        seen.add(id(x))
        if isinstance(x, (list, dict, set, bytearray, collections.deque, np.ndarray, collections.ChainMap)):
            out[id(x)] = x
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                stack += x.reshape(-1).tolist()
            elif x.dtype.names and x.dtype.hasobject:
                for n in x.dtype.names:
                    if x.dtype.fields[n][0] == object:
                        stack += np.ndarray.view(x, np.ndarray)[n].reshape(-1).tolist()
        elif isinstance(x, collections.ChainMap):
            stack += x.maps
        elif isinstance(x, dict):
            stack += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            stack += list(x)
    return out


def shared(xs, ys=None):
    """Two of the arrays (one of xs, one of ys) that overlap in memory."""
    def bounds(a):
        try:
            return np.byte_bounds(np.ndarray.view(a, np.ndarray))
        except Exception:
            return None

    items = [(bounds(a) + (0, a)) for a in xs if a.size and bounds(a)]
    if ys is not None:
        items += [(bounds(a) + (1, a)) for a in ys if a.size and bounds(a)]
    items.sort(key=lambda t: (t[0], t[1]))
    active = []
    for lo, hi, side, a in items:
        active = [t for t in active if t[1] > lo]
        for t in active:
            if ys is not None and t[2] == side:
                continue
            if t[3] is a:
                continue
            try:
                if np.shares_memory(t[3], a, max_work=100000):
                    return t[3], a
            except Exception:
                return t[3], a
        active.append((lo, hi, side, a))
    return None


def scramble(v, r):
    """Changes everything in v that can be changed, in place."""
    for x in mutables(v).values():
        if isinstance(x, np.ndarray):
            if not x.flags.writeable:
                continue
            if x.dtype == object:
                x[...] = "scrambled"
            elif x.dtype.hasobject:
                for n in x.dtype.names:
                    if x.dtype.fields[n][0] == object:
                        np.ndarray.view(x, np.ndarray)[n] = "scrambled"
            elif x.size:
                b = np.ndarray.view(x, np.ndarray)
                b[...] = np.frombuffer(bytes([r.randrange(1, 127)]) * b.dtype.itemsize, "V%d" % b.dtype.itemsize)[0].view(b.dtype) if b.dtype.itemsize and b.dtype.kind != "U" else np.zeros((), b.dtype)
        elif isinstance(x, collections.ChainMap):
            x.maps.append({"scrambled": 1})
        elif isinstance(x, list):
            x.append("scrambled")
            if len(x) > 1:
                x[0] = "scrambled"
        elif isinstance(x, dict):
            x.clear()
        elif isinstance(x, set):
            x.add("scrambled")
        elif isinstance(x, bytearray):
            x.extend(b"!")
        elif isinstance(x, collections.deque):
            x.append("scrambled")
