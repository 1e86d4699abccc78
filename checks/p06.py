"""P06: overwrite histories compared with a single write to an empty file."""
import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work

ID = "P06"
TITLE = "overwriting"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: after every step of an overwrite history the raw content of the path (types, shapes, bytes, attributes, filters, followed references) is compared with that of a fresh file"
LEVEL_NOTE = "histories of 2 to 6 writes of arbitrary values under arbitrary options in one or several sessions are sampled, biased towards related values; every ordered pair of value kinds is enumerated"
RULE = "one evaluation = the raw content of a path after a write over something else compared with that of the same write to an empty file; distinct = (structure of the earlier and of the later value, options)"
ASSUMPTIONS = ["h5py reports what is in the file", "a fresh write is right (P01, P03, P04 check that)"]

KINDS = ["bool", "int", "bigint", "float", "complex", "str", "bytes", "bytearray", "none", "slice", "range", "timedelta", "timezone",
         "time", "datetime", "fraction", "npscalar", "npstr", "npbytes", "ndarray", "bigarray", "strarray", "bytesarray", "matrix", "dtype",
         "struct", "recarray", "structscalar", "list", "tuple", "deque", "set", "dict", "ordereddict", "counter", "mixdict", "chainmap",
         "objarray", "objstruct"]


def plan(tier):
    k = 6 if tier == "thorough" else 1
    return [("pair", 2 * len(KINDS) ** 2 * (2 if tier == "thorough" else 1)), ("hist", 2500 * k), ("related", 1800 * k), ("nested", 600 * k), ("foreign", 800 * k)]


def twin(r, v):
    """An array of the same shape whose dtype differs only a little."""
    dt = v.dtype
    k = r.random()
    if dt.names is not None:
        if dt.hasobject or len(set(dt.names)) != len(dt.names):
            return None
        items = [(n, dt.fields[n][0]) for n in dt.names]
        if r.random() < 0.3:
            # fields Matlab cannot have, which are discarded if told to,
            # and not many elements
            gone = r.sample(dt.names, r.randrange(1, len(dt.names) + 1)) if dt.names else ()
            w = np.zeros(r.choice([(1,), (1,), (), (2,), (1, 1), v.shape]), [(n, r.choice(["f2", "O"]) if n in gone else t) for n, t in items])
            for n in gone:
                if w.dtype[n].hasobject:
                    for i in np.ndindex(w.shape):
                        w[n][i] = np.float16(1.5)
            return w
        if k < 0.3:
            items = [(n + "x", t) for n, t in items]
        elif k < 0.5:
            items = items[::-1]
        elif k < 0.8:
            items = [(n, t.newbyteorder() if t.kind in "iufc" else t) for n, t in items]
        else:
            items = [(n, np.dtype("i4") if t == np.dtype("f4") else np.dtype("i8") if t == np.dtype("f8") else t) for n, t in items]
        w = np.zeros(v.shape, items)
        for (n, t), m in zip(items, [n for n in dt.names] if k < 0.3 or k >= 0.5 else dt.names[::-1]):
            with np.errstate(all="ignore"):
                w[n] = v[m] if t.kind not in "V" and v[m].shape == w[n].shape else w[n]
        return w
    if dt.kind in "iufc":
        if k < 0.5 and dt.itemsize > 1:
            return v.astype(dt.newbyteorder())
        kinds = {"i": "uf", "u": "if", "f": "iu", "c": ""}[dt.kind]
        if kinds and dt.itemsize in (2, 4, 8):
            return np.ones(v.shape, r.choice(kinds) + str(dt.itemsize))
        if dt.kind == "c" and v.size < 50:
            return np.ones(v.shape, [(x, "f%d" % (dt.itemsize // 2)) for x in r.choice(["ri", "ab", "ir", ["real", "imag"]])])
    if dt.kind == "U" and dt.itemsize:
        return v.astype(dt.newbyteorder()) if k < 0.5 else v.view(np.dtype("u4").newbyteorder(dt.byteorder)) if v.flags.c_contiguous and v.ndim else None
    if dt.kind == "b":
        return v.astype("u1") if k < 0.5 else v.astype("i1")
    if dt.kind == "S" and dt.itemsize == 1:
        return np.ones(v.shape, "u1")
    return None


def mutate(r, g, v):
    """Something that looks much like v."""
    k = r.random()
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and r.random() < 0.35:
        w = twin(r, v)
        if w is not None:
            return w
    if isinstance(v, np.ndarray) and v.dtype.names is None and not v.dtype.hasobject and type(v) is np.ndarray:
        if k < 0.2:
            return v.astype(r.choice(["f8", "i4", "u1", "c16", "?"])) if v.dtype.kind in "iufb" else v.copy()
        if k < 0.4 and v.size:
            return v.reshape(-1)[:r.randrange(v.size)]
        if k < 0.5:
            return v.reshape(v.shape + (1,))
        if k < 0.6:
            return np.zeros(v.shape, v.dtype)
        if k < 0.7 and v.ndim:
            return v.T
        if k < 0.8:
            return v.tolist() if v.dtype.kind in "iub" and v.size < 50 else v.copy()
        return v.copy()
    if isinstance(v, dict) and v and all(type(x) is str for x in v) and type(v) is dict:
        v = dict(v)
        for _ in range(r.choice([1, 1, 2])):
            if not v:
                break
            q = r.choice(list(v))
            if k < 0.3:
                del v[q]
            elif k < 0.6:
                v[q] = g.value(2)
            elif k < 0.8:
                v[gen.name(r, nul=False)] = v[q]
            else:
                v = {a: v[a] for a in sorted(v, key=lambda x: r.random())}
        return v
    if isinstance(v, str):
        return r.choice([v + "x", v[:-1], v.encode("utf-8", "surrogatepass"), "", np.str_("ab"), v + "\U0001f600"])
    if isinstance(v, (bytes, bytearray)):
        return r.choice([bytes(v) + b"\xff", bytes(v[:-1]), "", "q", bytearray(v)])
    if isinstance(v, (list, tuple)):
        x = list(v)
        if k < 0.3 and x:
            x.pop(r.randrange(len(x)))
        elif k < 0.6:
            x.insert(r.randrange(len(x) + 1), g.value(2))
        elif k < 0.7:
            x = x[::-1]
        return r.choice([list, tuple])(x)
    return g.value()


def options(r, mat=None):
    kw = opts.gen(r, matlab=mat, meta=r.random() < 0.7)
    if kw["matlab_compatible"]:
        kw["action_for_matlab_incompatible"] = r.choice(["ignore", "discard"])
    kw.setdefault("group_for_references", "/#refs#") if not kw["matlab_compatible"] else None
    return kw


def subset(new, fresh, where="$"):
    """Items of Groups may be there in addition."""
    if new == fresh:
        return None
    if isinstance(new, tuple) and isinstance(fresh, tuple) and new[:1] == ("G",) and fresh[:1] == ("G",):
        if new[1] != fresh[1]:
            return raw.diff(fresh[1], new[1], where + "@")
        a, b = dict(new[2]), dict(fresh[2])
        for k in b:
            if k not in a:
                return "%s: %r is missing" % (where, k)
            d = subset(a[k], b[k], where + "/" + k)
            if d:
                return d
        return None
    return raw.diff(fresh, new, where)


def at(fn, parts):
    n = raw.sub(fn, parts)
    return None if n is None else raw.canon(n)


def attempt(c, kw, fn, p, v):
    try:
        work.write(c, kw, fn, [(p, v)])
        return None
    except (NotImplementedError, hs.exceptions.TypeNotMatlabCompatibleError, ValueError, TypeError) as e:
        return type(e).__name__


def typed(fn, parts):
    """The HDF5 types of the Datasets at a path, by the names in it."""
    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            pl = o.id.get_create_plist()
            out[name] = (o.id.get_type().encode() if not isinstance(o.id.get_type(), h5py.h5t.TypeReferenceID) else "ref %d" % o.id.get_type().get_size(),
                         pl.get_nfilters(), pl.get_layout() == h5py.h5d.VIRTUAL, pl.get_external_count())
    with h5py.File(fn, "r") as f:
        o = f["/".join(parts)]
        visit("", o)
        if isinstance(o, h5py.Group):
            o.visititems(visit)
    return out


def foreign(r, f, grp, name, like, tmp):
    """Put something of another HDF5 writer to grp[name] that looks much
    like the Dataset like."""
    sh = like.shape if like is not None and like.shape is not None else r.choice([(), (1,), (3,), (2, 3)])
    dt = like.dtype if like is not None else np.dtype("f8")
    size = int(np.prod(sh))
    kinds = ["group", "type", "empty", "links"]
    plain = dt.kind in "iuf"
    if plain:
        kinds += ["enum", "virtual", "fill", "compact", "order"]
        if sh and size:
            kinds += ["external", "filters", "sparse"] + ["scale"] * 2 * (dt.kind != "f" or dt.itemsize > 2)
    if dt.kind == "O":
        kinds += ["vlenstr", "vlenstr", "vlen", "region", "nullref"]
    if dt.kind == "S" and dt.itemsize:
        kinds += ["charset", "padding"]
    if dt.names:
        kinds += ["member", "order"]
    k = r.choice(kinds)
    own = {}
    if k == "group":
        grp.create_group(name)["inside"] = 4
    elif k == "type":
        grp[name] = np.dtype("f4")
    elif k == "empty":
        grp[name] = h5py.Empty(dt if dt.kind in "iufS" and dt.itemsize else "f8")
    elif k == "links":
        d = grp.create_dataset(name, data=np.zeros(sh, "i2"))
        d.attrs["r"] = d.ref
    elif k == "enum":
        grp.create_dataset(name, sh, h5py.enum_dtype({"A": 0, "B": 1}, basetype=dt if dt.kind in "iu" else "i4"))
    elif k == "virtual":
        own["src"] = f.create_dataset("src", data=np.ones(sh, dt))[()]
        lay = h5py.VirtualLayout(sh, dt)
        if sh:
            lay[...] = h5py.VirtualSource(f["src"])
            grp.create_virtual_dataset(name, lay)
        else:
            grp[name] = 3
    elif k == "external":
        x = tmp + "/ext.bin"
        with open(x, "wb") as b:
            b.write(b"\7" * (size * dt.itemsize))
        grp.create_dataset(name, sh, dt, external=[(x, 0, size * dt.itemsize)])
    elif k == "fill":
        grp.create_dataset(name, sh, dt, fillvalue=5)
    elif k == "sparse":
        grp.create_dataset(name, sh, dt, chunks=True, fillvalue=3)
    elif k == "compact":
        pl = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        pl.set_layout(h5py.h5d.COMPACT)
        if size * dt.itemsize < 30000:
            h5py.h5d.create(grp.id, name.encode(), h5py.h5t.py_create(dt), h5py.h5s.create_simple(sh) if sh else h5py.h5s.create(h5py.h5s.SCALAR), dcpl=pl)
    elif k == "order":
        try:
            grp.create_dataset(name, sh, dt.newbyteorder())
        except (TypeError, OSError):
            grp[name] = 1
    elif k == "scale":
        grp.create_dataset(name, sh, dt, scaleoffset=2 if dt.kind == "f" else r.choice([0, 1, 3]))
    elif k == "filters":
        grp.create_dataset(name, sh, dt, compression=r.choice(["gzip", "lzf", None]), shuffle=r.random() < 0.5, fletcher32=r.random() < 0.5, chunks=True)
    elif k == "vlenstr":
        grp.create_dataset(name, sh, h5py.string_dtype(r.choice(["utf-8", "ascii"])))
    elif k == "vlen":
        grp.create_dataset(name, sh, h5py.vlen_dtype(r.choice(["i4", "f8", "S1"])))
    elif k == "region":
        grp.create_dataset(name, sh, h5py.regionref_dtype)
    elif k == "nullref":
        grp.create_dataset(name, sh, h5py.ref_dtype)
    elif k == "charset":
        grp.create_dataset(name, sh, h5py.string_dtype("utf-8", dt.itemsize))
    elif k == "padding":
        t = h5py.h5t.C_S1.copy()
        t.set_size(dt.itemsize)
        t.set_strpad(r.choice([h5py.h5t.STR_SPACEPAD, h5py.h5t.STR_NULLTERM]))
        h5py.h5d.create(grp.id, name.encode(), t, h5py.h5s.create_simple(sh) if sh else h5py.h5s.create(h5py.h5s.SCALAR))
    elif k == "member":
        n = r.choice(dt.names)
        t = dt[n]
        alt = h5py.enum_dtype({"A": 0, "B": 1}, basetype=t) if t.kind in "iu" and not t.shape else h5py.string_dtype("utf-8", t.itemsize) if t.kind == "S" and t.itemsize else None
        if alt is not None:
            grp.create_dataset(name, sh, np.dtype([(m, alt if m == n else dt[m]) for m in dt.names]))
    o = grp.get(name)
    if o is not None and r.random() < 0.4:
        for a, x in r.sample([("units", "m"), ("Python.Type", "nonsense"), ("MATLAB_class", np.bytes_(b"char")), ("H5PATH", np.bytes_(b"/no")), ("x", h5py.Empty("i4")), ("v", np.arange(3))], r.choice([1, 2])):
            o.attrs[a] = x
    return k, own


def do_foreign(c):
    r = c.r
    g = gen.Gen(r, maxdepth=1, deny=())
    kw = options(r)
    kw["delete_unused_variables"] = True
    v = g.make(r.choice(["ndarray", "ndarray", "ndarray", "npscalar", "list", "tuple", "objarray", "bytesarray", "struct", "str", "bytes", "dict", "bool", "int", "float", "set", "none"]), 1)
    p = r.choice(["/v", "/a/b"])
    parts = p.strip("/").split("/")
    fn, f2 = c.path(), c.path("fresh.h5")
    c.note("options %r" % (kw,))
    c.note("  value %s" % same.short(v, 1500))
    e2 = attempt(c, kw, f2, p, v)
    if e2 or at(f2, parts) is None:
        c.count("first write refused")
        return
    with h5py.File(f2, "r") as f:
        o = f[p]
        like, key = o, None
        if isinstance(o, h5py.Group):
            sets = [k for k in o if isinstance(o[k], h5py.Dataset)]
            key = r.choice(sets) if sets and r.random() < 0.8 else None
            like = o[key] if key is not None else None
        with h5py.File(fn, "w", userblock_size=512) as q:
            grp = q.require_group("/".join(parts[:-1]) or "/")
            name = parts[-1]
            if key is not None:
                grp, name = grp.create_group(name), key
            k, own = foreign(r, q, grp, name, like, c.tmp)
            q.create_dataset("other", data=np.arange(4.0), compression="gzip")
    c.note("  over a foreign %s%s" % (k, " as member %r" % key if key is not None else ""))
    had = {n: raw.canon(raw.sub(fn, [n])) for n in ["other"] + sorted(own)}
    e1 = attempt(c, kw, fn, p, v)
    c.ok(e1 is None, "writing over what another writer made (%s) fails with %s" % (k, e1), value=same.short(v, 800), options=kw)
    d = raw.diff(raw.canon(raw.sub(f2, parts), filt=False), raw.canon(raw.sub(fn, parts), filt=False))
    c.ok(d is None, "what is in the file after writing over what another writer made (%s) differs from what a fresh write gives: %s" % (k, d), value=same.short(v, 800), options=kw)
    t1, t2 = typed(fn, parts), typed(f2, parts)
    c.ok(t1 == t2, "the HDF5 types, number of filters and kinds of storage after writing over what another writer made (%s) differ from those of a fresh write: %.600s" % (
        k, {n: (t1.get(n), t2.get(n)) for n in set(t1) | set(t2) if t1.get(n) != t2.get(n)}), value=same.short(v, 800), options=kw)
    for n, x in had.items():
        d = raw.diff(x, raw.canon(raw.sub(fn, [n])))
        c.ok(d is None, "writing over what another writer made (%s) changed /%s: %s" % (k, n, d), value=same.short(v, 800), options=kw)
    if k == "external":
        with open(c.tmp + "/ext.bin", "rb") as b:
            c.ok(not b.read().strip(b"\7"), "writing over a Dataset with external storage changed the other file", value=same.short(v, 800))
    try:
        a, b = hs.read(p, filename=f2, **kw), hs.read(p, filename=fn, **kw)
    except hs.exceptions.CantReadError:
        c.count("unreadable")
    else:
        d = same.same(a, b)
        c.ok(d is None, "what is read after writing over what another writer made (%s) differs from what is read after a fresh write: %s" % (k, d), options=kw, value=same.short(v, 800))
    c.ev(("foreign", k, work.shape_sig(v), opts.sig(kw)))
    c.count("over foreign " + k)
    c.sample("%s over a foreign %s" % (same.short(v, 60), k))


def run(c):
    r = c.r
    if c.kind == "foreign":
        return do_foreign(c)
    fn = c.path()
    p = r.choice(["/v", "/v", "v", "/a/b", "/g/\u4e00/x"])
    parts = [x for x in p.split("/") if x]
    kw = options(r)
    g = gen.Gen(r, maxdepth=2, deny=())
    if c.kind == "pair":
        i = c.idx % (len(KINDS) ** 2)
        steps = [(kw, g.make(KINDS[i // len(KINDS)])), (kw if r.random() < 0.6 else options(r), g.make(KINDS[i % len(KINDS)]))]
    elif c.kind == "hist":
        steps = []
        for _ in range(r.choice([2, 3, 4, 6])):
            steps.append((kw, g.value()))
            if r.random() < 0.6:
                kw = options(r)
    elif c.kind == "related":
        v = g.make(r.choice(["ndarray", "ndarray", "struct", "dict", "str", "bytes", "list", "tuple", "bigarray", "npstr", "dict"]))
        steps = [(kw, v)]
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.4:
                kw = options(r, kw["matlab_compatible"] if r.random() < 0.5 else None)
            v = mutate(r, g, v) if r.random() < 0.8 else v
            steps.append((kw, v))
    else:
        # values nested in dicts
        steps = []
        names = [gen.name(r, nul=False) for _ in range(3)]
        for _ in range(r.choice([2, 3, 4])):
            if r.random() < 0.5:
                kw = options(r)
            v = {}
            for n in names:
                if r.random() < 0.7:
                    v[n] = g.make(r.choice(["ndarray", "str", "list", "dict", "none", "float", "struct", "bytes"]), 1) if r.random() < 0.6 else {n: g.value(2)}
            steps.append((kw, v))
    # some steps within one session
    kept = False  # fields of earlier Groups may have been kept
    sig = []
    for i, (kw, v) in enumerate(steps):
        before = at(fn, parts) if i else None
        c.note("step %d options %r" % (i, kw))
        c.note("  value %s" % same.short(v, 1500))
        e1 = attempt(c, kw, fn, p, v)
        sig.append(work.shape_sig(v))
        if i == 0:
            if e1:
                c.count("first write refused")
                return
            continue
        f2 = c.path("fresh%d.h5" % i)
        e2 = attempt(c, kw, f2, p, v)
        if e1 or e2:
            c.ok(e1 == e2, "the write %s over something else but %s on an empty file" % (e1 and "fails with " + e1 or "succeeds", e2 and "fails with " + e2 or "succeeds"),
                 options=kw, value=same.short(v, 800))
            c.count("write refused both times")
            return
        new, fresh = at(fn, parts), at(f2, parts)
        if fresh is None:
            c.ok(new == before, "a discarded write changed what was there", options=kw, value=same.short(v, 800))
            c.count("discarded write")
            continue
        e = opts.effective(kw)
        if not e["delete_unused_variables"]:
            kept = True
            d = subset(new, fresh)
        else:
            kept = False
            d = raw.diff(fresh, new)
        c.ok(d is None, "what is in the file after overwriting differs from what a fresh write gives: %s" % d, options=kw, value=same.short(v, 800),
             earlier=same.short(steps[i - 1][1], 500), earlier_options=steps[i - 1][0])
        c.ev((sig[-2:], opts.sig(kw)))
        c.count("kept fields allowed" if kept else "compared exactly")
        if not kept:
            # and so is what is read
            try:
                a = hs.read(p, filename=f2, **kw)
                b = hs.read(p, filename=fn, **kw)
            except hs.exceptions.CantReadError:
                c.count("unreadable")
            else:
                d = same.same(a, b)
                c.ok(d is None, "what is read after overwriting differs from what is read after a fresh write: %s" % d, options=kw, value=same.short(v, 800))
                c.count("read compared")
        work.rm(f2)
    c.sample("%s: %s" % (p, " then ".join(same.short(v, 60) for _, v in steps)))
