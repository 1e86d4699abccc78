"""P23: attributes and helper routines on any target."""
import collections

import h5py
import numpy as np

from vf.env import hs
from vf import gen, snap

import hdf5storage.utilities as U

ID = "P23"
TITLE = "attributes"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (model based): histories of bulk changes of attributes start from attributes of any type, made with low level h5py; after every step all attributes are read at the low level (type class, size, shape, raw bytes) and compared with a model"
LEVEL_NOTE = "prior and requested attributes of all kinds, types, shapes and targets are sampled; pairs of types for the same name are all reached"
RULE = "one evaluation = one attribute compared after a step, or one conversion; distinct = (old type, requested kind and type, discarding) or type converted"
ASSUMPTIONS = ["h5py's low level interface reports what is in the file"]


def plan(tier):
    k = 24 if tier == "thorough" else 5
    return [("set", 3000 * k), ("read", 1500 * k), ("conv", 2500 * k), ("args", 800 * k)]


def run(c):
    globals()["do_" + c.kind](c)


NAMES = ["a", "b", "c", "MATLAB_fields", "MATLAB_class", "MATLAB_empty", "Python.Type", "Python.Fields", "H5PATH", "\u00e9\u4e2d", "a b/c", ".", "x" * 40]


def low(obj):
    """name -> (type, shape, content) at the low level."""
    out = {}
    n = h5py.h5a.get_num_attrs(obj.id)
    for i in range(n):
        a = h5py.h5a.open(obj.id, index=i, index_type=h5py.h5.INDEX_NAME)
        t = a.get_type()
        s = a.get_space()
        shp = None if s.get_simple_extent_type() == h5py.h5s.NULL else a.shape
        v = obj.attrs[a.name.decode("utf-8") if isinstance(a.name, bytes) else a.name]
        name = a.name.decode("utf-8") if isinstance(a.name, bytes) else a.name
        out[name] = (kind(t), shp, canon(v, obj))
    return out


def kind(t):
    c = t.get_class()
    if c == h5py.h5t.STRING:
        return ("str", t.is_variable_str(), None if t.is_variable_str() else t.get_size(), t.get_cset() if t.is_variable_str() else None)
    if c in (h5py.h5t.VLEN, h5py.h5t.ARRAY):
        return (c, kind(t.get_super()))
    return (c, repr(t.dtype.descr) if t.dtype.names is None else repr(t.dtype), t.dtype.metadata and sorted(t.dtype.metadata))


def canon(v, obj):
    if isinstance(v, h5py.Empty):
        return ("empty", str(v.dtype))
    if isinstance(v, (h5py.Reference, h5py.RegionReference)):
        return ("ref", obj.file[v].name if v else None)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return ("arr", v.shape, tuple(canon(x, obj) for x in v.reshape(-1)))
    if isinstance(v, np.bytes_):
        return ("num", "|S%d" % max(1, len(v)), (), bytes(v) or b"\0")
    if isinstance(v, (np.ndarray, np.generic)):
        return ("num", str(v.dtype.newbyteorder("=")) if v.dtype.names is None else repr(v.dtype), np.shape(v), np.ascontiguousarray(v.astype(v.dtype.newbyteorder("=")) if v.dtype.names is None else v).tobytes())
    return (type(v).__name__, v)


def prior(r, g, n):
    """Makes an attribute of any type; gives a name for the type."""
    k = r.randrange(20)
    a = g.attrs
    if k == 0:
        v = np.array(r.randrange(100), r.choice(["i1", "u1", "i4", "u8", ">i4", "f4", "f8", ">f8", "u1", "?"]))[()]
    elif k == 1:
        v = np.arange(r.randrange(0, 6)).astype(r.choice(["u1", "u8", "f4", ">i2", "i8"]))
    elif k == 2:
        v = np.zeros((2, r.randrange(1, 3)), "i4")
    elif k == 3:
        v = np.bytes_(r.choice([b"abc", b"x", b"double", b"\xc3\xa9", b""]))
    elif k == 4:
        a.create(n, r.choice(["abc", "", "\u00e9", "x" * 300]), dtype=h5py.string_dtype(r.choice(["utf-8", "ascii"])) if r.random() < 0 else h5py.string_dtype())
        return "vlen str"
    elif k == 5:
        a.create(n, "abc", dtype=h5py.string_dtype("utf-8", r.choice([3, 5])))
        return "fixed utf-8"
    elif k == 6:
        a.create(n, r.choice([["a", "bc"], [], ["\u00e9"]]), dtype=h5py.string_dtype())
        return "vlen str array"
    elif k == 7:
        v = np.array([b"abc", b"d"])
    elif k == 8:
        x = np.empty((2,), object)
        x[0], x[1] = np.array([b"a", b"b"], "S1"), np.array([b"c"], "S1")
        a.create(n, x, dtype=h5py.vlen_dtype(np.dtype("S1")))
        return "vlen S1 array"
    elif k == 9:
        x = np.empty((2,), object)
        x[0], x[1] = np.arange(3), np.arange(1)
        a.create(n, x, dtype=h5py.vlen_dtype(np.dtype("i8")))
        return "vlen int array"
    elif k == 10:
        a[n] = g.ref if r.random() < 0.5 else g.file.ref
        return "ref"
    elif k == 11:
        a.create(n, [g.ref, g.file.ref], dtype=h5py.ref_dtype)
        return "ref array"
    elif k == 12:
        a[n] = h5py.Empty(r.choice(["f4", "S3", "u1"]))
        return "null"
    elif k == 13:
        v = np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")])[r.choice([0, slice(None)])]
    elif k == 14:
        v = r.choice([np.complex64(1 + 2j), np.complex128(3j)])
    elif k == 15:
        a.create(n, 1, dtype=h5py.enum_dtype({"A": 0, "B": 1}, basetype="u1"))
        return "enum"
    elif k == 16:
        tid = h5py.h5t.array_create(h5py.h5t.NATIVE_INT32, (3,))
        h5py.h5a.create(g.id, n.encode("utf-8"), tid, h5py.h5s.create_simple((2,))).write(np.zeros((2, 3), "i4"), mtype=tid)
        return "array type"
    elif k == 17:
        v = np.void(b"\x01\x02\x03")
    elif k == 18:
        a.create(n, [True, False])
        return "bools"
    else:
        v = r.choice([5, 2.5, True])
    a.create(n, v)
    return str(getattr(v, "dtype", type(v).__name__)) + str(np.shape(v))


def request(r):
    """(kind, value, expected content, expected type, name)"""
    k = r.randrange(3)
    if k == 0:
        l = [r.choice(["a", "", "\u00e9\u4e2d", "field name", "\U0001f600", "x" * 50]) for _ in range(r.choice([0, 1, 1, 2, 5]))]
        v = l
        if r.random() < 0.2:
            v = [x.encode("utf-8") if r.random() < 0.5 else np.str_(x) for x in l]
        if r.random() < 0.1:
            v = tuple(v)
        return "string_array", v, ("arr", (len(l),), tuple(("str", x) for x in l)), ("str", True, None, 1), "string_array%d" % len(l)
    if k == 1:
        s = r.choice(["a", "abc", "double", "\u00e9\u4e2d", "\U0001f600x", "", "a b", "numpy.ndarray", "xyz", "a\x00b", "x" * r.randrange(1, 400)])
        b = s.encode("utf-8")
        v = r.choice([s, b, np.str_(s), np.bytes_(b), bytearray(b)])
        return "string", v, ("num", "|S%d" % max(1, len(b)), (), b or b"\0"), ("str", False, max(1, len(b)), None), "string"
    q = r.randrange(10)
    if q == 0:
        v = np.array(r.randrange(100), r.choice(["i1", "u1", "i4", "u8", "f4", "f8", "u1"]))[()]
    elif q == 1:
        v = np.arange(r.choice([0, 1, 2, 4])).astype(r.choice(["u1", "u8", "f4", "i8", "i4"]))
    elif q == 2:
        v = np.zeros((2, r.randrange(1, 3)), "i4") + r.randrange(5)
    elif q == 3:
        v = np.uint8(1)
    elif q == 4:
        v = np.bool_(r.random() < 0.5)
    elif q == 5:
        v = np.array([b"abc", b"d"])
    elif q == 6:
        v = np.array([(r.randrange(9), 2.0)], dtype=[("a", "i4"), ("b", "f8")])
    elif q == 7:
        v = np.complex128(r.randrange(5) + 1j)
    elif q == 8:
        v = np.arange(4).astype(r.choice([">i4", ">f8", ">u2"]))
    else:
        x = np.empty((r.choice([1, 2]),), object)
        for i in range(len(x)):
            x[i] = np.array([bytes([y]) for y in r.choice([b"abc", b"x"])], "S1")
        # how the marshallers give the field names
        v = x
    return "value", v, None, None, str(v.dtype) + str(v.shape)


def do_set(c):
    r = c.r
    fn = c.path()
    with h5py.File(fn, "w", libver=r.choice([None, None, "latest"]), track_order=r.random() < 0.2) as f:
        k = r.randrange(4)
        g = f.create_group("g") if k == 0 else f if k == 1 else f.create_dataset("d", data=np.arange(3)) if k == 2 else f.create_dataset("s", data=5)
        model, types = {}, {}
        for n in r.sample(NAMES, r.randrange(0, 7)):
            types[n] = prior(r, g, n)
        model = low(g)
        c.ok(set(model) == set(types), "harness")
        for step in range(r.randrange(1, 5)):
            req, info = {}, {}
            for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5])):
                kd, v, content, typ, nm = request(r)
                if v is not None and getattr(v, "dtype", None) == object and n != "MATLAB_fields":
                    kd, v, content, typ, nm = "string", "abc", ("num", "|S3", (), b"abc"), ("str", False, 3, None), "string"
                if kd == "value" and v.dtype == object:
                    dt = h5py.vlen_dtype(np.dtype("S1"))
                    w = np.empty(v.shape, dt)
                    w[:] = v
                    v = w
                req[n] = (kd, v)
                info[n] = (content, typ, nm)
            disc = r.random() < 0.5
            before = snap.snap(req)
            args = {} if disc and r.random() < 0.5 else {"discard_others": disc}
            c.note("step %r %r" % (req, args))
            ret = U.set_attributes_all(g, r.choice([dict, collections.OrderedDict])(req), **args)
            c.ok(ret is None and snap.differs(before, snap.snap(req)) is None, "set_attributes_all changed its argument or gives %r" % (ret,))
            got = low(g)
            want = set(req) | (set() if disc else set(model))
            c.ok(set(got) == want, "there are the attributes %r instead of %r" % (sorted(got), sorted(want)), discard=disc)
            for n in got:
                if n not in req:
                    c.ok(got[n] == model[n], "attribute %r, which was to be kept, changed" % n, was=model[n], now=got[n])
                    c.ev(("kept", types.get(n)))
                    continue
                kd, v = req[n]
                content, typ, nm = info[n]
                if content is None:
                    # what h5py itself stores for it
                    h = f.require_group("ref%d" % step)
                    h.attrs.create("v", v)
                    typ, shp, content = low(h)["v"]
                    c.ok(got[n][1] == shp, "attribute %r has the shape %r instead of %r" % (n, got[n][1], shp))
                    if typ[0] == "str":
                        typ = typ[:3] + (got[n][0][3],)
                else:
                    c.ok(got[n][1] == (() if kd == "string" else (len(v),)), "attribute %r has the shape %r" % (n, got[n][1]))
                if typ[:2] == ("str", False) and n in model and model[n][0] == got[n][0]:
                    # changed in place: the old size may be kept if it is bigger than needed
                    c.ok(got[n][0][2] >= typ[2], "attribute %r has too small a type" % n)
                    typ = got[n][0]
                if n in model and model[n][0] == got[n][0] and got[n][0][2:] == (["enum"],):
                    # changed in place: an enumeration of the same integers may stay one
                    typ = got[n][0]
                c.ok(got[n][0] == typ, "attribute %r has the type %r instead of %r" % (n, got[n][0], typ), was=types.get(n), request=repr(req[n]))
                c.ok(got[n][2] == content, "attribute %r is %r instead of %r" % (n, got[n][2], content), was=types.get(n), request=repr(req[n]))
                c.ev((types.get(n), kd, nm, disc))
            model = got
            types = {n: info[n][2] if n in req else types.get(n) for n in got}
        # and it is the same after reopening
        name = g.name
    with h5py.File(fn, "r") as f:
        c.ok(low(f[name]) == model, "the attributes are others after reopening")
        c.ev()


def do_read(c):
    r = c.r
    fn = c.path()
    with h5py.File(fn, "w", libver=r.choice([None, "latest"])) as f:
        g = f.create_group("g")
        for n in r.sample(NAMES, r.randrange(0, 9)):
            prior(r, g, n)
        want = {n: canon(g.attrs[n], g) for n in g.attrs}
        k = r.randrange(4)
        out = [dict, lambda: collections.defaultdict(type(None)), collections.OrderedDict, collections.UserDict][k]()
        keep = r.random() < 0.5
        if keep:
            out["other"] = 5
            out["a"] = "old"
        before = low(g)
        ret = U.read_all_attributes_into(g.attrs, out)
        c.ok(ret is None, "read_all_attributes_into gives %r" % (ret,))
        c.ok(low(g) == before, "read_all_attributes_into changed the attributes")
        exp = set(want) | ({"other", "a"} if keep else set())
        c.ok(set(out) == exp, "attributes %r were read instead of %r" % (sorted(out), sorted(exp)))
        for n in want:
            c.ok(canon(out[n], g) == want[n], "attribute %r is read as %r" % (n, out[n]))
            c.ev((want[n][0], want[n][1] if want[n][0] == "num" else ""))
        if keep:
            c.ok(out["other"] == 5 and ("a" in want or out["a"] == "old"), "other items of the mapping were changed")
        if k == 1:
            c.ok(out["missing"] is None, "a missing attribute is not None")
        c.ev(n=2)


def do_conv(c):
    r = c.r
    s = r.choice(["", "a", "abc", "\u00e9\u4e2d", "\U0001f600", "a b", "\ufeffx", "x" * 50]) + r.choice(["", "", "q"])
    b = s.encode("utf-8")
    for x in (s, b, np.str_(s), np.bytes_(b)):
        y = U.convert_attribute_to_string(x)
        c.ok(type(y) is str and y == s, "convert_attribute_to_string(%r) gives %r" % (x, y)) if not isinstance(x, np.str_) else c.ok(isinstance(y, str) and y == s, "convert_attribute_to_string(%r) gives %r" % (x, y))
        c.ev(("string", type(x).__name__, s))
    x = r.choice([None, 5, 2.5, True, [], ["a"], ("a",), {}, np.int64(3), np.uint8(65), np.array("abc"), np.array(["abc"]), np.array([b"abc"]), np.array([65, 66], "u1"), np.bool_(True), object(), h5py.Empty("S3"), bytearray(b"a"), memoryview(b"a")])
    c.ok(U.convert_attribute_to_string(x) is None, "convert_attribute_to_string(%r) is not None" % (x,))
    c.ev(("none", repr(x)[:30]))
    l = [r.choice(["", "a", "abc", "\u00e9\u4e2d", "\U0001f600"]) for _ in range(r.randrange(0, 5))]
    o = np.empty((len(l),), dtype=object)
    for i, q in enumerate(l):
        o[i] = q
    ob = np.empty((len(l),), dtype=object)
    for i, q in enumerate(l):
        ob[i] = q.encode("utf-8")
    forms = [l, tuple(l), [q.encode("utf-8") for q in l], [np.str_(q) for q in l], [np.bytes_(q.encode("utf-8")) for q in l], o, ob, np.array([q.encode("utf-8") for q in l], dtype="S20"), np.array(l, dtype="U9"), np.array(l, dtype=">U9")]
    for x in forms:
        y = U.convert_attribute_to_string_array(x)
        c.ok(type(y) is list and y == l and all(isinstance(q, str) for q in y), "convert_attribute_to_string_array(%r) gives %r" % (x, y))
        c.ev(("array", type(x).__name__, str(getattr(x, "dtype", "")), len(l)))
    x = r.choice([None, 5, 2.5, [1], ["a", 3], [None], np.int64(3), np.array(3), np.array([1, 2]), np.array([1.5]), object(), [["a"]], np.array(["2001"], "M8[D]"), [b"a", 5], h5py.Empty("S3")])
    y = U.convert_attribute_to_string_array(x)
    c.ok(y is None, "convert_attribute_to_string_array(%r) gives %r" % (x, y))
    c.ev(("no array", repr(x)[:30]))


def do_args(c):
    r = c.r
    fn = c.path()
    with h5py.File(fn, "w") as f:
        g = f.create_group("g")
        for n in r.sample(NAMES, 4):
            prior(r, g, n)
        before = low(g)
        bad = r.choice([(3, {}), (None, {}), (g, {}), (dict(g.attrs), {}), (g.attrs, None), (g.attrs, []), (g.attrs, 5), (g.attrs, "x"), (g.attrs, set()), (g.attrs, ()), ("attrs", {})])
        try:
            U.read_all_attributes_into(*bad)
        except TypeError:
            pass
        else:
            c.bad("read_all_attributes_into(%r) is accepted" % (bad,))
        c.ok(low(g) == before, "attributes changed")
        # a value which cannot be stored
        n = r.choice(NAMES)
        bad = r.choice([("string_array", 5), ("string_array", [3]), ("string", 5), ("string", object()), ("value", object()), ("string", None), ("string_array", None), ("value", np.array([object()], dtype=object))])
        try:
            U.set_attributes_all(g, {n: bad}, discard_others=r.random() < 0.5)
        except (TypeError, ValueError):
            pass
        else:
            c.bad("set_attributes_all accepts %r" % (bad,))
        after = low(g)
        for m in before:
            if m != n:
                c.ok(after.get(m) == before[m], "a failing set_attributes_all lost or changed %r" % m)
        c.ev((repr(bad)[:40], n in before), 2)
