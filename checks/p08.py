"""P08: queries must not change the file; read-only and closed Files."""
import os
import pathlib

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work
from checks.p07 import foreign

ID = "P08"
TITLE = "reading does not write"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: hooks on every modifying h5py call trip during queries, bytes of the file are compared around sessions of queries, repeated reads are compared with each other; outcome oracle for modifications of read-only and closed Files"
LEVEL_NOTE = "sequences of queries on files with generated, foreign and damaged contents are sampled, on read-only and on writable handles"
RULE = "one evaluation = one query with its bytes and h5py calls watched, or one refused modification; distinct = (query, kind of content, outcome, handle)"
ASSUMPTIONS = ["HDF5 does not itself write to files opened read-only"]

WRITES = []
ON = [False]


def _hook(cls, name):
    old = getattr(cls, name)

    def wrap(self, *a, **k):
        if ON[0]:
            WRITES.append("%s.%s%.200r" % (cls.__name__, name, a))
        return old(self, *a, **k)
    wrap._vf = True
    if not getattr(old, "_vf", False):
        setattr(cls, name, wrap)


def worker_init():
    G, D, A = h5py.Group, h5py.Dataset, h5py.AttributeManager
    for n in ("create_group", "create_dataset", "create_dataset_like", "create_virtual_dataset", "__setitem__", "__delitem__", "copy", "move"):
        _hook(G, n)
    for n in ("__setitem__", "write_direct", "resize", "make_scale"):
        _hook(D, n)
    for n in ("__setitem__", "__delitem__", "create", "modify"):
        _hook(A, n)


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("query", 600 * k), ("foreign", 300 * k), ("damaged", 300 * k), ("refuse", 300 * k), ("closed", 150 * k)]


def build(c, kw, g, fn):
    """name -> value"""
    r = c.r
    have = {}
    paths = ["/a", "/b", "/c d", "/g/x", "/g/y/z", "/\u4e00", "/#", "/zz"]
    with hs.File(fn, writable=True, **kw) as f:
        for p in r.sample(paths, r.choice([1, 3, 5])):
            v = g.value()
            f[p] = v
            have[p] = v
    return have


def damage(r, fn):
    """Things that cannot be read properly."""
    with h5py.File(fn, "r+") as f:
        objs = []
        f.visititems(lambda n, o: objs.append(n))
        for _ in range(r.choice([1, 2, 4])):
            if not objs:
                return
            o = f.get(r.choice(objs))
            if o is None:
                continue
            k = r.randrange(8)
            if k == 0:
                o.attrs["Python.Type"] = r.choice([np.bytes_("nosuch.type"), np.bytes_("list"), np.bytes_("numpy.dtype"), 5, np.bytes_("datetime.datetime"), np.bytes_("dict")])
            elif k == 1:
                o.attrs["MATLAB_class"] = r.choice([np.bytes_("struct"), np.bytes_("cell"), np.bytes_("char"), np.bytes_("x"), 1.5])
            elif k == 2:
                o.attrs["Python.Shape"] = r.choice([np.uint64([5, 5]), np.bytes_("x"), np.uint64(0), np.float64([1.5])])
            elif k == 3:
                for a in list(o.attrs):
                    if r.random() < 0.5:
                        del o.attrs[a]
            elif k == 4:
                o.attrs["MATLAB_empty"] = np.uint8(1)
                o.attrs["Python.Empty"] = np.uint8(1)
            elif k == 5 and isinstance(o, h5py.Group) and len(o):
                n = r.choice(list(o))
                if o.name.strip("/").split("/")[0] not in ("",):
                    del o[n]
            elif k == 6:
                o.attrs["Python.numpy.UnderlyingType"] = r.choice([np.bytes_("object"), np.bytes_("str32"), np.bytes_("bool"), np.bytes_("zz")])
            else:
                o.attrs["Python.dict.StoredAs"] = r.choice([np.bytes_("keys_values"), np.bytes_("individually"), np.bytes_("x")])


def outcome(fun):
    try:
        v = fun()
        return ("value", v)
    except Exception as e:
        return ("raise", type(e).__name__)


def sameout(a, b):
    if a[0] != b[0]:
        return "%s and then %s" % (same.short(a, 200), same.short(b, 200))
    if a[0] == "raise":
        return None if a == b else "%s and then %s" % (a, b)
    return same.same(a[1], b[1])


def run(c):
    r = c.r
    fn = c.path()
    k = c.kind
    kw, g = work.make(c, maxdepth=2)
    refs = opts.effective(kw)["group_for_references"]
    if k == "foreign":
        foreign(fn, r)
        names = ["plain", "vl", "null", "resizable", "g", "g/d", "g/t", "g/empty", "refs"]
    else:
        names = list(build(c, kw, g, fn))
        if k == "damaged":
            damage(r, fn)
    extra = ["nothere", "/a/b/c", "g", "g/nothere", refs, refs + "/a", "/", ".", "", 5, None, ("x/y",), b"a", pathlib.PurePosixPath("a"), "a/../b", "../a", "\0"]
    if k in ("refuse", "closed"):
        return refuse(c, kw, g, fn, names) if k == "refuse" else closed(c, kw, g, fn, names)
    writable = r.random() < 0.4
    rkw = kw if r.random() < 0.7 else opts.gen(r, matlab=False if writable else None)
    if writable and rkw.get("matlab_compatible", True):
        rkw = dict(rkw)
    if r.random() < 0.3:
        rkw = dict(rkw, structs_as_dicts=True)
    ro = hs.Options(**rkw)
    first = open(fn, "rb").read()
    tree0 = raw.canon(raw.tree(fn)) if writable else None
    if writable:
        f = hs.File(fn, writable=True, options=ro)
        f.flush()
    else:
        f = hs.File(fn, options=ro)
    try:
        before = raw.digest(fn)
        st = os.stat(fn)
        listing = sorted(os.listdir(c.tmp))
        results = {}
        for _ in range(r.choice([5, 15, 30])):
            p = r.choice(names + extra) if r.random() < 0.4 else r.choice(names)
            q = r.choice(["read", "read", "getitem", "reads", "in", "len", "iter", "keys", "items", "values", "get", "eq", "bool", "repr", "root", "module"])
            fun = {
                "read": lambda: f.read(p), "getitem": lambda: f[p], "reads": lambda: f.reads([p, r.choice(names)]), "in": lambda: p in f,
                "len": lambda: len(f), "iter": lambda: sorted(f), "keys": lambda: sorted(f.keys()), "items": lambda: sorted(x[0] for x in f.items()),
                "values": lambda: len(list(f.values())), "get": lambda: f.get(p, "default"), "eq": lambda: f == {"a": 1, "zz": 2}, "bool": lambda: bool(f),
                "repr": lambda: bool(repr(f)), "root": lambda: f.read("/"), "module": lambda: hs.read(p, filename=fn, options=ro) if not writable else f.read(p),
            }[q]
            c.note("%s %r" % (q, p))
            del WRITES[:]
            ON[0] = True
            try:
                out = outcome(fun)
            finally:
                ON[0] = False
            c.ok(not WRITES, "%s of %r makes modifying calls: %s" % (q, p, WRITES[:3]), options=rkw, writable=writable)
            c.ev((q, k, out[0], out[1] if out[0] == "raise" else work.shape_sig(out[1]), writable))
            c.count("%s ends with %s" % (q, out[0]))
            if q not in ("reads", "eq"):
                key = (q if q not in ("read", "getitem", "module") else "read", repr(p))
                if key in results:
                    d = sameout(results[key], out)
                    c.ok(d is None, "%s of %r gave another result the second time: %s" % (q, p, d), options=rkw)
                    c.count("repeated results compared")
                else:
                    results[key] = out
            if writable:
                continue
            c.ok(raw.digest(fn) == before, "%s of %r changed the file" % (q, p), options=rkw)
        if writable:
            f.flush()
            c.ok(raw.digest(fn) == before, "queries on a writable File changed the file", options=rkw)
        f.close()
        last = open(fn, "rb").read()
        if writable:
            # HDF5 itself may rewrite its own bookkeeping
            ct = raw.canon(raw.tree(fn))
            c.ok(ct == tree0, "a session of queries on a writable File changed the file: %s" % raw.diff(tree0, ct), options=rkw)
        c.ok(writable or first == last, "a session of queries changed the file", options=rkw, writable=writable, size=(len(first), len(last)))
        c.ok(sorted(os.listdir(c.tmp)) == listing, "queries made other files: %r" % sorted(os.listdir(c.tmp)))
        st2 = os.stat(fn)
        if not writable:
            c.ok((st.st_mtime_ns, st.st_size, st.st_mode, st.st_ino) == (st2.st_mtime_ns, st2.st_size, st2.st_mode, st2.st_ino), "queries changed the state of the file")
        if r.random() < 0.3 and not writable:
            out = outcome(lambda: hs.loadmat(fn))
            out = outcome(lambda: hs.loadmat(fn, variable_names=[names[0].strip("/")]))
            c.ok(raw.digest(fn) == before, "loadmat changed the file")
            c.ev(("loadmat", out[0]))
        c.sample("%s %d names, %d queries" % (k, len(names), len(results)))
    finally:
        ON[0] = False
        f.close()


def mods(f, p, new, v):
    """Every way to change the File."""
    def seti():
        f[p] = v

    def dele():
        del f[p]

    def ior():
        f.update({p: v, new: v})
    yield "setitem", seti
    yield "set new", lambda: f.__setitem__(new, v)
    yield "delitem", dele
    yield "write", lambda: f.write(v, p)
    yield "write new", lambda: f.write(v, new)
    yield "writes", lambda: f.writes({p: v})
    yield "writes nothing", lambda: f.writes({})
    yield "update", ior
    yield "pop", lambda: f.pop(p)
    yield "popitem", lambda: f.popitem()
    yield "clear", lambda: f.clear()
    yield "setdefault", lambda: f.setdefault(new, v)
    yield "root", lambda: f.write({"x": 1}, "/")


def refuse(c, kw, g, fn, names):
    r = c.r
    before = raw.digest(fn)
    mode = r.choice([None, 0o444])
    if mode:
        os.chmod(fn, mode)
    with hs.File(fn, options=hs.Options(**kw)) as f:
        c.ok(not f.closed, "an open File is closed")
        top = [n for n in names]
        p = r.choice(top)
        v = g.value() if r.random() < 0.5 else [1, [2]]
        for n, m in mods(f, p, "new", v):
            try:
                m()
            except OSError:
                c.ev((n, "read-only", work.shape_sig(v)))
                c.count("refused " + n)
            except Exception as e:
                c.bad("%s on a read-only File raises %r rather than OSError" % (n, e), options=kw)
            else:
                c.bad("%s on a read-only File does not raise" % n, options=kw)
            c.ok(raw.digest(fn) == before, "%s on a read-only File changed the file" % n, options=kw)
        f.flush()
        c.ok(p in f and "new" not in f, "a read-only File changed")
    c.ok(raw.digest(fn) == before, "a read-only File changed when closed")
    # a File that is not there is not made by opening it for reading
    nf = c.path("none.h5")
    for fun in (lambda: hs.File(nf), lambda: hs.read("/a", filename=nf), lambda: hs.reads(["/a"], filename=nf)):
        try:
            fun()
        except OSError:
            c.ev(("missing file",))
        else:
            c.bad("a file that does not exist can be read")
        c.ok(not os.path.exists(nf) and not os.path.exists(nf + ".mat"), "reading a file that does not exist made it")


def closed(c, kw, g, fn, names):
    r = c.r
    writable = r.random() < 0.7
    f = hs.File(fn, writable=writable, options=hs.Options(**kw))
    if r.random() < 0.3:
        with f:
            pass
    elif r.random() < 0.3:
        try:
            with f:
                raise KeyError
        except KeyError:
            pass
    else:
        f.close()
        f.close()
    c.ok(f.closed is True, "a closed File is not closed")
    before = raw.digest(fn)
    p = r.choice(names)
    qs = [("read", lambda: f.read(p)), ("reads", lambda: f.reads([p])), ("reads nothing", lambda: f.reads([])), ("getitem", lambda: f[p]), ("in", lambda: p in f), ("len", lambda: len(f)),
          ("iter", lambda: list(f)), ("keys", lambda: list(f.keys())), ("values", lambda: list(f.values())), ("items", lambda: list(f.items())),
          ("flush", lambda: f.flush()), ("get", lambda: f.get(p)), ("bool", lambda: bool(f)), ("eq", lambda: f == {}), ("in missing", lambda: "nothere" in f), ("get missing", lambda: f.get("nothere"))]
    for n, m in qs + list(mods(f, p, "new", [1, [2]])):
        try:
            v = m()
        except OSError:
            c.ev((n, "closed", writable))
            c.count("refused " + n)
        except Exception as e:
            c.bad("%s on a closed File raises %r rather than OSError" % (n, e))
        else:
            c.bad("%s on a closed File does not raise but gives %s" % (n, same.short(v)))
    f.close()
    c.ok(raw.digest(fn) == before, "using a closed File changed the file")
    c.ok(not any(os.path.realpath(x) == os.path.realpath(fn) for x in fds()), "the file of a closed File is still open")


def fds():
    for x in os.listdir("/proc/self/fd"):
        try:
            yield os.readlink("/proc/self/fd/" + x)
        except OSError:
            pass
