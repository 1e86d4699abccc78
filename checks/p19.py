"""P19: the caller's objects stay as they are, and what is read is fresh."""
import collections
import contextlib
import copy

import h5py
import numpy as np

from vf.env import hs
from vf import faults, gen, opts, same, snap, work

ID = "P19"
TITLE = "caller's objects"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: deep snapshots (identities, types, flags, strides, memory of whole buffers) of everything handed to the library before and after each call, failing calls included; overlap of memory and identity of mutable objects between results; what was read is scrambled in place and read again"
LEVEL_NOTE = "values with views, other strides, Fortran order, read only and byte swapped arrays and with elements shared between places are sampled under all option combinations"
RULE = "one evaluation = one object graph compared with its snapshot, or one result checked for sharing; distinct = (call, shape of the value, options, failed or not)"
ASSUMPTIONS = []


def worker_init():
    faults.install()


def plan(tier):
    k = 12 if tier == "thorough" else 1
    return [("write", 3000 * k), ("fail", 700 * k), ("fresh", 1400 * k), ("args", 600 * k), ("refs", 500 * k)]


OPTION_NAMES = sorted(opts.DEFAULTS)


def optstate(o):
    return [(n, repr(getattr(o, n))) for n in OPTION_NAMES] + [id(o.marshaller_collection), repr(sorted(map(repr, vars(o).items()))) if hasattr(o, "__dict__") else ""]


def hard_layouts(r, v, d=0):
    """Puts arrays of v into other layouts, views into larger buffers."""
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype != object and not v.dtype.hasobject and r.random() < 0.5:
        k = r.randrange(8)
        if k == 0:
            buf = np.zeros((v.size + 8,), v.dtype)
            w = buf[4:4 + v.size].reshape(v.shape)
            w[...] = v
            return w
        if k == 1:
            return np.asfortranarray(v)
        if k == 2 and v.ndim:
            w = np.zeros(tuple(2 * x for x in v.shape), v.dtype)[tuple(slice(None, None, 2) for _ in v.shape)]
            w[...] = v
            return w
        if k == 3 and v.ndim:
            return v[tuple(slice(None, None, -1) for _ in v.shape)]
        if k == 4:
            w = v.copy()
            w.setflags(write=False)
            return w
        if k == 5 and v.ndim > 1:
            return v.T
        if k == 6 and v.size and v.dtype.itemsize:
            b = bytearray(v.tobytes())
            return np.frombuffer(b, v.dtype).reshape(v.shape)
        if k == 7 and v.dtype.kind in "iufc":
            return v.astype(v.dtype.newbyteorder())
        return v
    if isinstance(v, list):
        return [hard_layouts(r, x, d + 1) for x in v]
    if type(v) is dict:
        return {k: hard_layouts(r, x, d + 1) for k, x in v.items()}
    return v


def value(c, kw, depth=3):
    r = c.r
    e = opts.effective(kw)
    mat = kw["matlab_compatible"] and kw.get("action_for_matlab_incompatible") != "ignore"
    g = gen.Gen(r, matlab=mat, maxdepth=depth, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if mat else ())
    v = hard_layouts(r, g.value())
    k = r.random()
    if k < 0.1:
        v = [v, v, {"a": v}]
    elif k < 0.2:
        w = np.empty((2, 2), dtype=object)
        w[:] = 1
        w[0, 0] = w[1, 1] = v
        v = w
    return v


def options(c):
    r = c.r
    kw = opts.gen(r)
    kw["action_for_matlab_incompatible"] = r.choice(["ignore", "discard", "error"]) if kw["matlab_compatible"] else "ignore"
    return kw


def run(c):
    globals()["do_" + c.kind](c)


def unchanged(c, what, before, v, **d):
    x = snap.differs(before, snap.snap(v))
    c.ok(x is None, "%s changed the caller's object: %s" % (what, x), value=same.short(v, 600), **d)


def do_write(c):
    r = c.r
    kw = options(c)
    fn = c.path()
    v = value(c, kw)
    keep = []
    before = snap.snap(v, keep=keep)
    cp = None
    with contextlib.suppress(Exception):
        cp = copy.deepcopy(v)
    how = r.randrange(5)
    o = hs.Options(**kw)
    ostate = optstate(o)
    md = {"/v": v, "/w/x": r.choice([1, v])}
    mbefore = snap.snap(md, keep=keep)
    c.note("options %r" % kw)
    failed = None
    try:
        if how == 0:
            hs.write(v, path="/v", filename=fn, options=o)
        elif how == 1:
            hs.writes(md, filename=fn, options=o)
        elif how == 2:
            with hs.File(fn, writable=True, options=o) as f:
                f["/v"] = v
                f["/v"] = v
        elif how == 3:
            with hs.File(fn, writable=True, options=o) as f:
                f.update(md)
                f.setdefault("/z", v)
        else:
            hs.savemat(fn, {"v": v}, options=o, appendmat=False)
    except (NotImplementedError, TypeError, hs.exceptions.TypeNotMatlabCompatibleError) as e:
        failed = e
    c.count("failed" if failed is not None else "succeeded")
    unchanged(c, "writing", before, v, options=kw)
    unchanged(c, "writing", mbefore, md, options=kw)
    c.ok(optstate(o) == ostate, "writing changed the Options given", options=kw)
    if cp is not None:
        x = same.diff(cp, v)
        c.ok(x is None, "writing changed the content of the caller's object: %s" % x, options=kw)
    c.ev(("write", how, work.shape_sig(v), opts.sig(kw)), n=3)
    c.count("objects compared", len(before))
    c.sample(same.short(v))


def do_fail(c):
    """Writing fails in the middle."""
    r = c.r
    kw = options(c)
    fn = c.path()
    k = r.randrange(3)
    v = [value(c, kw, 2)]
    if k == 0:
        v = [v, object(), {"a": v}]
    elif k == 1:
        v = {"x": v, "y": np.zeros(2, "f2"), "z": (x for x in ())}
    keep = []
    before = snap.snap(v, keep=keep)
    md = {"/a": v, "/b": [1]}
    mbefore = snap.snap(md, keep=keep)
    failed = None
    with hs.File(fn, writable=True, **kw) as f:
        with faults.Plan(r.choice([0, 1, 2, 3, 5, 8, 13, 21]) if k == 2 else None, r.random() < 0.5):
            try:
                if r.random() < 0.5:
                    f["/a"] = v
                else:
                    f.writes(md)
            except Exception as e:
                failed = e
    unchanged(c, "a failing write", before, v, options=kw)
    unchanged(c, "a failing write", mbefore, md, options=kw)
    c.count("failed" if failed is not None else "succeeded")
    c.ev(("fail", k, work.shape_sig(v), type(failed).__name__), n=2)


def do_fresh(c):
    r = c.r
    kw = options(c)
    if kw["matlab_compatible"]:
        kw["action_for_matlab_incompatible"] = "error"
    fn = c.path()
    v = value(c, kw)
    v = [v, v] if r.random() < 0.2 else v
    hs.write(v, path="/v", filename=fn, **kw)
    lax = same.group_stored(opts.effective(kw))
    own = r.random() < 0.5
    f = hs.File(fn, writable=own, **(dict(kw, truncate_existing=False) if own else kw))
    try:
        a, b = f["/v"], f.reads(["/v", "/v"])
        got = [a] + b
        for x in got:
            y = same.same(v, x, lax)
            c.ok(y is None, "the value read differs: %s" % y)
        src = snap.arrays(v)
        lists = [snap.arrays(x) for x in got]
        for i, xs in enumerate(lists):
            t = snap.shared(xs, src)
            c.ok(t is None, "an array that was read shares memory with what was written", arrays=t)
            t = snap.shared(xs)
            c.ok(t is None, "two arrays in what was read share memory", arrays=t, value=same.short(v, 500))
            for ys in lists[i + 1:]:
                t = snap.shared(xs, ys)
                c.ok(t is None, "arrays of two reads share memory", arrays=t)
            ro = [y for y in xs if not y.flags.writeable and y.size]
            c.ok(not ro, "an array that was read can't be changed", array=ro[:1], flags=ro and ro[0].flags, value=same.short(v, 400))
        twice = []
        ms = [snap.mutables(x, twice) for x in got] + [snap.mutables(v)]
        c.ok(not twice, "a mutable object is at two places of what was read", object=[same.short(x) for x in twice][:2])
        for i, x in enumerate(ms):
            for y in ms[i + 1:]:
                z = set(x) & set(y)
                c.ok(not z, "a mutable object is in two results of reading", object=[same.short(x[k]) for k in z][:2])
        before = snap.snap(v)
        snap.scramble(a, r)
        snap.scramble(b, r)
        unchanged(c, "changing what was read", before, v)
        w = f["/v"]
        y = same.same(v, w, lax)
        c.ok(y is None, "changing what was read changes later reads: %s" % y, options=kw)
        if own:
            f["/w"] = v
            y = same.same(v, f["/w"], lax)
            c.ok(y is None, "changing what was read changes later writes: %s" % y, options=kw)
    finally:
        f.close()
    # changing the source after writing changes nothing in the file
    want = None
    with contextlib.suppress(Exception):
        want = copy.deepcopy(v)
    if want is not None and same.same(want, v) is None:
        g = hs.File(fn, writable=True, **dict(kw, truncate_existing=True))
        try:
            g["/v"] = v
            with contextlib.suppress(ValueError, TypeError):
                snap.scramble(v, r)
            y = same.same(want, g["/v"], lax)
            c.ok(y is None, "changing the object after it was written changes the file: %s" % y, options=kw)
        finally:
            g.close()
        w = hs.read("/v", filename=fn, **kw)
        y = same.same(want, w, lax)
        c.ok(y is None, "changing the object after it was written changes the file: %s" % y, options=kw)
    c.ev(("fresh", work.shape_sig(w), opts.sig(kw)), n=6)
    c.count("arrays checked for sharing", sum(map(len, lists)))


def do_refs(c):
    """Files in which several references lead to the same object."""
    r = c.r
    kw = options(c)
    fn = c.path()
    if r.random() < 0.3:
        with h5py.File(fn, "w") as f:
            f["v"] = r.choice([np.arange(3.0), np.arange(6).reshape(2, 3), np.zeros((2,), "S3")])
            f.create_dataset("w", data=[f["v"].ref] * 2, dtype=h5py.ref_dtype)
            f["g/x"] = np.arange(4)
            f["g/soft"] = h5py.SoftLink("/v")
            f["g/hard"] = f["v"]
            n = r.choice([2, 3, 5])
            f.create_dataset("c", data=[f[r.choice(["v", "w", "g", "g/x", "g/hard"])].ref for _ in range(n)], dtype=h5py.ref_dtype)
        sig, p = "foreign", "/c"
    else:
        g = gen.Gen(r, maxdepth=2)
        v = [g.value() for _ in range(r.choice([2, 3, 4]))] + [[1, [2]], {"a": [1, 2]}, np.arange(4), bytearray(b"x")][:r.randrange(5)]
        v = v if r.random() < 0.5 else {"a": v, "b": tuple(v), "c": np.arange(3)}
        try:
            hs.write(v, path="/v", filename=fn, **dict(kw, action_for_matlab_incompatible="discard" if kw["matlab_compatible"] else "error"))
        except (TypeError, ValueError, NotImplementedError) as e:
            c.count("unwritable " + type(e).__name__)
            return
        # some references are pointed to another element
        with h5py.File(fn, "r+") as f:
            sets = []
            f.visititems(lambda n, x: sets.append(x) if isinstance(x, h5py.Dataset) and h5py.check_dtype(ref=x.dtype) and x.size > 1 else None)
            for x in sets:
                y = x[...]
                q = y.reshape(-1)
                i = r.randrange(len(q))
                for j in range(len(q)):
                    if r.random() < 0.5:
                        q[j] = q[i]
                x[...] = y
        sig, p = work.shape_sig(v), "/v"
    try:
        with hs.File(fn, **kw) as f:
            got = f.reads([p, p])
    except Exception as e:
        # hashable elements may have become equal or gone
        c.count("unreadable " + type(e).__name__)
        return
    for x in got:
        twice = []
        snap.mutables(x, twice)
        c.ok(not twice, "a mutable object is at two places of what was read", object=[same.short(y) for y in twice][:2])
        t = snap.shared(snap.arrays(x))
        c.ok(t is None, "two arrays in what was read share memory", arrays=t, value=same.short(x, 500))
    c.ok(not set(snap.mutables(got[0])) & set(snap.mutables(got[1])), "a mutable object is in two results of reading")
    t = snap.shared(snap.arrays(got[0]), snap.arrays(got[1]))
    c.ok(t is None, "arrays of two reads share memory", arrays=t)
    c.ev(("refs", sig, opts.sig(kw)), n=4)


def do_args(c):
    """The other arguments: paths, mappings, options, keyword dicts."""
    r = c.r
    kw = options(c)
    fn = c.path()
    path = ["a", b"b", "c"]
    inner = ["x"]
    paths = [path, "/v", ("w",), inner]
    refs = hs.Options(**kw).group_for_references
    keep = []
    v = hard_layouts(r, gen.Gen(r, matlab=True, maxdepth=2, ustruct=False, deny=("void",)).value())
    kw0 = copy.deepcopy(kw)
    o = hs.Options(**kw)
    st = optstate(o)
    mds = [collections.OrderedDict([("/v", v), ("/w", 1)]), {"/v": v, b"/w": 2, ("x",): 3}, collections.defaultdict(list, {"/v": v, "/w": 4, "/x": 5}), collections.ChainMap({"/v": v}, {"/w": 1, "/x": 2})]
    md = r.choice(mds)
    mb = snap.snap(md, keep=keep)
    with hs.File(fn, writable=True, options=o) as f:
        f.write(v, path)
        f[inner] = v
        f.writes(md)
        f.write(v, "/v")
        f.write(1, ("w",))
        lst = f.reads(paths)
        f[path], f[inner]
        path in f
        del f[list(path)]
        # the File has its own options
        c.ok(len(lst) == 4, "reads gives %d values" % len(lst))
    c.ok([path, inner] == [["a", b"b", "c"], ["x"]] and len(paths) == 4 and paths[0] is path and paths[3] is inner, "the paths given were changed", paths=paths)
    unchanged(c, "writes", mb, md, options=kw)
    c.ok(optstate(o) == st, "the Options given to File were changed", options=kw)
    c.ok(kw == kw0, "the keywords given were changed", options=kw)
    # a list of marshallers given isn't kept
    ms = []
    mc = hs.MarshallerCollection(marshallers=ms)
    prio = ["builtin", "user", "plugin"]
    mc2 = hs.MarshallerCollection(priority=prio)
    ms.append(5)
    prio.reverse()
    c.ok(tuple(mc2.priority) == ("builtin", "user", "plugin"), "changing the list given as priority changes the collection")
    mc.clear_marshallers()
    c.ok(ms == [5], "the list of marshallers given was changed")
    # loadmat with mdict changes only that dict, savemat its argument not at all
    d = {"vv": v, "n": 1.5}
    db = snap.snap(d, keep=keep)
    m = c.path("m.mat")
    hs.savemat(m, d, appendmat=False)
    unchanged(c, "savemat", db, d)
    names = ["n"]
    out = {"other": [1]}
    oth = out["other"]
    got = hs.loadmat(m, mdict=out, appendmat=False, variable_names=names)
    c.ok(names == ["n"] and got is out and out["other"] is oth and oth == [1] and set(out) == {"other", "n"}, "loadmat changed its arguments", got=out)
    c.ev(("args", work.shape_sig(v), type(md).__name__), n=6)
