"""Independent view of an HDF5 file through h5py alone.

``tree(fn)`` gives a Node tree in which object references are replaced by the
Nodes they refer to, so that two files (or two moments of one file) can be
compared without regard to the randomized names in the references Group.
"""
import hashlib

import h5py
import numpy as np


class Node:
    __slots__ = ("kind", "path", "addr", "dtype", "shape", "data", "refs", "items", "attrs", "filt", "error", "refpaths")

    def __init__(self, kind, path):
        self.kind, self.path = kind, path
        self.dtype = self.shape = self.data = self.refs = self.items = self.filt = self.error = self.refpaths = None
        self.attrs = {}
        self.addr = None


def _attrs(obj):
    out = {}
    for k in obj.attrs.keys():
        try:
            out[k] = obj.attrs[k]
        except Exception as e:  # pragma: no cover
            out[k] = "<unreadable %s>" % type(e).__name__
    return out


def node(f, obj, memo):
    addr = h5py.h5o.get_info(obj.id).addr
    if addr in memo:
        return memo[addr]
    n = memo[addr] = Node("G" if isinstance(obj, h5py.Group) else "D", obj.name)
    n.addr = addr
    n.attrs = _attrs(obj)
    if n.kind == "G":
        n.items = {}
        for k in obj:
            c = obj.get(k)
            n.items[k] = None if c is None else node(f, c, memo)
        return n
    if not isinstance(obj, h5py.Dataset):
        n.kind = type(obj).__name__
        return n
    n.dtype, n.shape = obj.dtype, obj.shape
    n.filt = (obj.compression, obj.compression_opts, bool(obj.shuffle), bool(obj.fletcher32), obj.chunks is not None)
    n.data = obj[...] if obj.shape is not None else None
    if h5py.check_dtype(ref=obj.dtype) is h5py.Reference:
        n.refs, n.refpaths = [], []
        for r in np.asarray(n.data, dtype=object).reshape(-1):
            if not r:
                n.refs.append(None)
                n.refpaths.append(None)
                continue
            try:
                t = f[r]
            except Exception as e:
                m = Node("X", "?")
                m.error = repr(e)
                n.refs.append(m)
                n.refpaths.append(None)
                continue
            n.refs.append(node(f, t, memo))
            n.refpaths.append(t.name)
        n.data = None
    return n


def tree(fn):
    with h5py.File(fn, "r") as f:
        return node(f, f["/"], {})


def sub(fn, parts):
    """The Node of one object and what it refers to, or None."""
    with h5py.File(fn, "r") as f:
        o = f["/"]
        for p in parts:
            if not isinstance(o, h5py.Group) or p not in o:
                return None
            o = o[p]
        return node(f, o, {})


def attr_canon(v):
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, h5py.Empty):
        return ("empty", str(v.dtype))
    if isinstance(v, bytes):
        return ("S", bytes(v))
    a = np.asarray(v)
    if a.dtype == object:
        return ("o", a.shape, tuple(attr_canon(x) for x in a.reshape(-1)))
    return (str(a.dtype), a.shape, a.tobytes())


def canon(n, parent=None, filt=True, seen=(), skip=(), attrs=True):
    """Nested tuple of everything about a Node but where it and what it
    refers to are."""
    if n is None:
        return None
    if n.addr in seen:
        return ("cycle",)
    seen = seen + (n.addr,)
    at = ()
    if attrs:
        at = tuple(sorted((k, "<parent>" if k == "H5PATH" and parent is not None and _path(v) == parent else attr_canon(v))
                          for k, v in n.attrs.items()))
    if n.kind == "G":
        return ("G", at, tuple(sorted((k, canon(c, n.path, filt, seen, skip, attrs)) for k, c in n.items.items() if k not in skip or n.path != "/")))
    if n.kind != "D":
        return (n.kind, n.error, at)
    fl = n.filt if filt else None
    if n.refs is not None:
        d = tuple(canon(x, p.rsplit("/", 1)[0] or "/" if p else None, filt, seen, skip, attrs) for x, p in zip(n.refs, n.refpaths))
        return ("R", n.shape, d, at, fl)
    return ("D", str(n.dtype), n.shape, _bytes(n.data), at, fl)


def _path(v):
    if isinstance(v, bytes):
        v = v.decode("utf-8", "replace")
    return v if isinstance(v, str) else None


def _bytes(a):
    if a is None:
        return None
    a = np.asarray(a)
    if a.dtype.hasobject:
        return repr(a.tolist())
    b = np.ascontiguousarray(a).tobytes()
    return b if len(b) < 200 else hashlib.blake2b(b).digest()


def digest(fn):
    h = hashlib.blake2b()
    with open(fn, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.digest()


def get(root, parts):
    n = root
    for p in parts:
        if n is None or n.kind != "G":
            return None
        n = n.items.get(p)
    return n


def diff(a, b, where="", depth=0):
    """Where two canonical tuples differ first."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            ka = [x[0] if isinstance(x, tuple) and x else x for x in a]
            kb = [x[0] if isinstance(x, tuple) and x else x for x in b]
            return "%s: %d entries became %d: %.300s -> %.300s" % (where, len(a), len(b), ka, kb)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = str(i)
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                    lab = repr(x[0])
                return diff(x, y, where + "/" + lab, depth + 1)
    return "%s: %.300r became %.300r" % (where, a, b)
