"""Copies an HDF5 file object by object, encoding the same content another way."""
import h5py
import numpy as np
from h5py import h5a, h5d, h5p, h5s, h5t


class Enc:
    """What may differ.  Every choice is made anew for every object with the given probabilities."""

    def __init__(self, r, **p):
        self.r = r
        self.p = dict(text=0, ints=0, order=0, layout=0, hard=0, soft=0)
        self.p.update(p)
        self.n = {}
        # one for the whole file: fields of which the elements have the same type keep having it
        self.order = r.choice("><") if r.random() < self.p["order"] else None
        self.track = r.random() < 0.5

    def yes(self, what):
        if self.r.random() < self.p[what]:
            self.n[what] = self.n.get(what, 0) + 1
            return True
        return False


def _strtype(r, size, vlen):
    if vlen:
        t = h5t.TypeID.copy(h5t.C_S1)
        t.set_size(h5t.VARIABLE)
    else:
        t = h5t.TypeID.copy(h5t.C_S1)
        pad = r.choice([h5t.STR_NULLTERM, h5t.STR_NULLPAD])
        t.set_size(max(1, size + (1 if pad == h5t.STR_NULLTERM else r.choice([0, 0, 3]))))
        t.set_strpad(pad)
    return t


def _text(x):
    return x.encode("utf-8", "surrogateescape") if isinstance(x, str) else bytes(x)


def _putstr(enc, obj, name, val, shape):
    """Text in another kind of string."""
    r = enc.r
    bs = [_text(x) for x in val]
    if any(b"\0" in b for b in bs):
        return False
    utf8 = any(x > 127 for b in bs for x in b) or r.random() < 0.5
    if r.random() < 0.5:
        d = np.empty(shape, dtype=object)
        d.reshape(-1)[:] = bs
        obj.attrs.create(name, d if shape != () else bs[0], shape=shape, dtype=h5py.string_dtype("utf-8" if utf8 else "ascii"))
        return True
    t = _strtype(r, max([len(b) for b in bs], default=1), False)
    t.set_cset(h5t.CSET_UTF8 if utf8 else h5t.CSET_ASCII)
    a = h5a.create(obj.id, name.encode("utf-8"), t, h5s.create(h5s.SCALAR) if shape == () else h5s.create_simple(shape))
    a.write(np.ascontiguousarray(np.array(bs, dtype="S%d" % t.get_size()).reshape(shape)), mtype=t)
    return True


def attr(enc, src, dst, name):
    r = enc.r
    a = h5a.open(src.id, name.encode("utf-8"))
    t = a.get_type()
    v = src.attrs[name]
    if isinstance(t, h5t.TypeStringID):
        n = v.size if isinstance(v, np.ndarray) else 1
        if n and enc.yes("text"):
            vals = list(v.flat) if isinstance(v, np.ndarray) and v.shape != () else [v[()] if isinstance(v, np.ndarray) else v]
            if _putstr(enc, dst, name, vals, v.shape if isinstance(v, np.ndarray) else ()):
                return
    elif isinstance(t, h5t.TypeIntegerID) and enc.yes("ints"):
        x = np.asarray(v)
        ts = [d for d in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "bool")
              if (d != "bool" or name.endswith("mpty")) and np.array_equal(x.astype(d), x)]
        d = np.dtype(r.choice(ts))
        if d != np.dtype(bool):
            d = d.newbyteorder(r.choice("<>"))
        dst.attrs.create(name, x.astype(d), dtype=d)
        return
    if isinstance(t, h5t.TypeVlenID):
        x = np.empty(v.shape, dtype=object)
        for i, y in enumerate(v.flat):
            x.reshape(-1)[i] = y
        dst.attrs.create(name, x, shape=v.shape, dtype=a.dtype)
        return
    # as it is
    if isinstance(t, h5t.TypeStringID) and t.is_variable_str():
        d = v
        if isinstance(v, np.ndarray):
            d = np.empty(v.shape, dtype=object)
            d.reshape(-1)[:] = [_text(x) for x in v.flat]
        dst.attrs.create(name, d if isinstance(v, np.ndarray) else _text(v), shape=a.shape, dtype=h5py.string_dtype("utf-8" if t.get_cset() else "ascii"))
        return
    b = h5a.create(dst.id, name.encode("utf-8"), t, a.get_space())
    x = np.empty(a.shape, dtype=a.dtype)
    if x.size:
        a.read(x, mtype=t)
        b.write(x, mtype=t)


def dataset(enc, src, parent, name, refs):
    r = enc.r
    isref = h5py.check_dtype(ref=src.dtype) is not None
    t = src.id.get_type()
    dt = src.dtype
    if src.shape is None or t.get_class() not in (h5t.INTEGER, h5t.FLOAT, h5t.COMPOUND, h5t.STRING, h5t.REFERENCE, h5t.ENUM, h5t.ARRAY, h5t.OPAQUE):
        raise NotImplementedError(str(dt))
    data = src[()]
    if dt.kind == "S" and src.size:
        data = np.empty(src.shape, dtype=dt)
        src.id.read(h5s.ALL, h5s.ALL, data, mtype=t)
    if isref:
        data = np.asarray(data)
        todo = data
        data = None
    kw = {}
    shape = src.shape
    big = shape != () and 0 not in shape
    if enc.yes("layout"):
        k = r.randrange(6)
        if k and big:
            kw["chunks"] = True if r.random() < 0.5 else tuple(r.randint(1, max(1, n)) for n in shape)
            if np.prod(kw["chunks"] if kw["chunks"] is not True else 1) < 3 and np.prod(shape) > 500:
                kw["chunks"] = True
            if k > 1 and not isref:
                kw["compression"] = r.choice(["gzip", "lzf", None])
                kw["shuffle"] = r.random() < 0.5
                kw["fletcher32"] = r.random() < 0.5
            if k > 3:
                kw["maxshape"] = tuple(r.choice([None, n, n + 2]) for n in shape)
        elif src.size * max(1, t.get_size()) < 30000 and not isref:
            kw["compact"] = True
    if not isref and t.get_class() in (h5t.INTEGER, h5t.FLOAT, h5t.COMPOUND) and dt.kind in "iufcV" and not _odd(dt) and enc.order:
        enc.n["order"] = enc.n.get("order", 0) + 1
        dt = dt.newbyteorder(enc.order)
        t = h5t.py_create(dt, logical=True)
    if kw.pop("compact", None):
        dcpl = h5p.create(h5p.DATASET_CREATE)
        dcpl.set_layout(h5d.COMPACT)
        sp = h5s.create(h5s.SCALAR) if shape == () else h5s.create_simple(shape)
        ds = h5py.Dataset(h5d.create(parent.id, name.encode("utf-8"), t, sp, dcpl))
        if src.size:
            ds[...] = np.asarray(data)
    elif isref:
        ds = parent.create_dataset(name, shape=shape, dtype=h5py.ref_dtype, **kw)
        refs.append((ds, todo))
    elif kw:
        ds = parent.create_dataset(name, shape=shape, dtype=dt, **kw)
        if src.size:
            ds[...] = np.asarray(data)
    else:
        sp = h5s.create(h5s.SCALAR) if shape == () else h5s.create_simple(shape)
        ds = h5py.Dataset(h5d.create(parent.id, name.encode("utf-8"), t, sp))
        if src.size:
            ds[...] = np.asarray(data)
    if dt.kind == "S" and src.size:
        ds.id.write(h5s.ALL, h5s.ALL, data, mtype=t)
    return ds


def _odd(dt):
    """Whether enums (stored bools) or other specials are in the type."""
    if dt.metadata:
        return True
    if dt.subdtype:
        return _odd(dt.subdtype[0])
    if dt.fields:
        return any(_odd(dt[n]) for n in dt.names)
    return dt.kind in "bO"


def copy(enc, src, dst, rename=None):
    """Copies everything in the File src to the File dst.

    rename maps paths (of Groups in the root) to other names.
    """
    r = enc.r
    seen = {}
    refs = []
    rename = rename or {}
    spare = [0]

    def key(o):
        i = h5py.h5o.get_info(o.id)
        return (i.fileno, i.addr)

    def attrs(a, b):
        names = list(a.attrs)
        r.shuffle(names)
        for n in names:
            attr(enc, a, b, n)

    def put(o, parent, name):
        k = key(o)
        if k in seen:
            parent[name] = seen[k]
            return
        where, there = parent, name
        if enc.yes("soft"):
            # the object lives somewhere else
            spare[0] += 1
            where, there = dst.require_group("spare"), "o%d" % spare[0]
        if isinstance(o, h5py.Dataset):
            n = dataset(enc, o, where, there, refs)
        else:
            n = where.create_group(there, track_order=True if enc.track and r.random() < 0.5 else None)
        seen[k] = n
        if where is not parent:
            parent[name] = h5py.SoftLink(n.name)
        elif enc.yes("hard"):
            dst.require_group("spare")["h%d" % len(seen)] = n
        attrs(o, n)
        if isinstance(o, h5py.Group):
            members(o, n)

    def members(a, b):
        names = list(a)
        r.shuffle(names)
        for n in names:
            m = n
            if a.name == "/" and n in rename:
                m = rename[n]
            put(a[n], b, m)

    seen[key(src)] = dst
    attrs(src, dst)
    members(src, dst)
    for ds, old in refs:
        new = np.empty(old.shape, dtype=h5py.ref_dtype)
        for i in range(old.size):
            x = old.reshape(-1)[i]
            o = src[x]
            k = key(o)
            if k not in seen:
                raise NotImplementedError("reference to an object without a name")
            new.reshape(-1)[i] = seen[k].ref
        if new.size:
            ds[...] = new if ds.shape != () else new[()]
    return seen
