"""P25: marshallers made from the documented pieces by somebody else."""
import collections
import copy
import os

import h5py
import numpy as np

from vf.env import hs
from vf import gen, opts, raw, same, work

import hdf5storage.Marshallers as HM
import hdf5storage.utilities as U

ID = "P25"
TITLE = "contract for marshallers of others"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: marshallers written to the documented contract (over the builtin ones, with Groups, references and Attributes of their own, refusing, failing, missing modules) log and check every call they get; values, call logs and raw file contents are compared with what was written and with the same content in builtin types"
LEVEL_NOTE = "classes, nesting, options and routes are sampled; every call of every marshaller is checked as it happens"
RULE = "one evaluation = one call of a marshaller, one value or one file compared; distinct = (kind, structure of the value, options)"
ASSUMPTIONS = ["the classes and marshallers here follow the documentation of TypeMarshaller and LowLevelFile"]


def plan(tier):
    k = 9 if tier == "thorough" else 2
    return [("based", 900 * k), ("own", 900 * k), ("outcome", 500 * k), ("missing", 300 * k), ("attrs", 500 * k), ("low", 300 * k)]


# ---- the classes

class Seq(list):
    pass


class Map(dict):
    pass


class Item:
    """Equal if the fields are the same."""
    F = ()

    def __init__(self, *a):
        for k, v in zip(self.F, a):
            setattr(self, k, v)

    def __eq__(self, o):
        return type(o) is type(self) and all(same.diff(getattr(self, k), getattr(o, k)) is None for k in self.F)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(type(self).__name__)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(same.short(getattr(self, k), 200) for k in self.F))


class Vec(Item):
    F = ("a",)


class Name(Item):
    F = ("s",)

    def __hash__(self):
        return hash(self.s)


class Pair(Item):
    F = ("x", "y", "tag", "tags", "num")


class Bag(Item):
    F = ("a", "n")


class Single(Item):
    F = ("x",)


class Nope(Item):
    pass


class Bad(Item):
    F = ("where",)


class Boom(Exception):
    pass


class Live:
    """What happened."""
    log = []
    opts = None
    case = None


def tn(cls):
    return "checks.p25." + cls.__name__


def seen(op, m, f, where, **k):
    c = Live.case
    c.ok(isinstance(f, U.LowLevelFile), "a marshaller was given %r rather than a LowLevelFile" % (f,))
    c.ok(isinstance(f.f, h5py.File) and bool(f.f), "the file a marshaller was given is %r" % (f.f,))
    if Live.opts is not None:
        for n in opts.DEFAULTS:
            c.ok(getattr(f.options, n) == Live.opts[n], "the option %s is %r for the marshaller" % (n, getattr(f.options, n)), wanted=Live.opts[n])
    Live.log.append((op, type(m).__name__))
    c.count("calls")
    c.count("call %s.%s" % (type(m).__name__, op))


def check_write(m, f, grp, name, data, type_string):
    c = Live.case
    seen("write", m, f, grp)
    c.ok(isinstance(grp, h5py.Group), "the Group to write into is %r" % (grp,))
    c.ok(type(name) is str and name and "/" not in name and "\0" not in name and name not in (".", ".."), "the name to write is %r" % (name,))
    c.ok(type_string is None, "the type string %r was given" % (type_string,))
    c.ok(grp.file == f.f, "the Group is in another file")


def check_read(m, f, d, attributes):
    c = Live.case
    seen("read", m, f, d)
    c.ok(isinstance(d, (h5py.Dataset, h5py.Group)), "%r is to be read" % (d,))
    c.ok(isinstance(attributes, collections.defaultdict), "the Attributes are a %s" % type(attributes).__name__)
    c.ok(attributes["no such Attribute"] is None, "an Attribute that is not there is %r" % (attributes["no such Attribute"],))
    del attributes["no such Attribute"]
    got = {k: raw.attr_canon(v) for k, v in attributes.items() if v is not None}
    want = {k: raw.attr_canon(v) for k, v in d.attrs.items() if k not in ("MATLAB_fields",)}
    if "MATLAB_fields" in d.attrs:
        c.ok("MATLAB_fields" in got, "MATLAB_fields was not given")
        got.pop("MATLAB_fields", None)
    c.ok(set(got) == set(want), "the Attributes %r were given rather than %r" % (sorted(got), sorted(want)))
    for k in want:
        c.ok(got[k] == want[k], "the Attribute %s was given as %r rather than %r" % (k, attributes[k], d.attrs[k]))


def written(obj, grp, name, ok=True):
    c = Live.case
    if ok:
        c.ok(obj is not None and name in grp and grp[name] == obj, "%r was returned for what is now %r" % (obj, grp.get(name)))
    return obj


# ---- marshallers over builtin ones

class SeqM(HM.PythonTupleSetDequeMarshaller):
    def __init__(self):
        HM.PythonTupleSetDequeMarshaller.__init__(self)
        self.types, self.python_type_strings, self.matlab_classes = (Seq,), ("vf.Seq",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return written(HM.PythonTupleSetDequeMarshaller.write(self, f, grp, name, data, type_string), grp, name)

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        return Seq(HM.PythonListMarshaller.read(self, f, d, attributes))


class MapM(HM.PythonDictMarshaller):
    def __init__(self):
        HM.PythonDictMarshaller.__init__(self)
        self.types, self.python_type_strings, self.matlab_classes = (tn(Map),), ("vf.Map",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return written(HM.PythonDictMarshaller.write(self, f, grp, name, dict(data), self.get_type_string(data, type_string)), grp, name)

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        x = HM.PythonDictMarshaller.read(self, f, d, attributes)
        Live.case.ok(type(x) is dict, "PythonDictMarshaller.read gave a %s" % type(x).__name__)
        return Map(x)


class VecM(HM.NumpyScalarArrayMarshaller):
    def __init__(self):
        HM.NumpyScalarArrayMarshaller.__init__(self)
        self.types, self.python_type_strings, self.matlab_classes = (Vec,), ("vf.Vec",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return written(HM.NumpyScalarArrayMarshaller.write(self, f, grp, name, data.a, self.get_type_string(data, type_string)), grp, name)

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        return Vec(HM.NumpyScalarArrayMarshaller.read(self, f, d, attributes))


class NameM(HM.PythonStringMarshaller):
    """Its str is read by the parent if that sees the type string of one."""

    def __init__(self):
        HM.PythonStringMarshaller.__init__(self)
        self.types, self.python_type_strings, self.matlab_classes = (tn(Name),), ("vf.Name",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return written(HM.PythonStringMarshaller.write(self, f, grp, name, data.s, self.get_type_string(data, type_string)), grp, name)

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        a = copy.copy(attributes)
        a["Python.Type"] = "str"
        s = HM.PythonStringMarshaller.read(self, f, d, a)
        Live.case.ok(type(s) is str, "PythonStringMarshaller.read gave a %s" % type(s).__name__)
        return Name(s)


BASED = {Seq: "list", Map: "dict", Vec: None, Name: "str"}


# ---- marshallers of their own

SHARED = {"vf.constant": ("string", "always")}


class PairM(HM.TypeMarshaller):
    """A Group with two members and Attributes of every kind."""

    def __init__(self):
        HM.TypeMarshaller.__init__(self)
        self.python_attributes |= {"vf.tag", "vf.tags", "vf.num"}
        self.types, self.python_type_strings, self.matlab_classes = (Pair,), ("vf.Pair",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        g = grp.get(name)
        if g is not None and not isinstance(g, h5py.Group):
            del grp[name]
            g = None
        if g is None:
            g = grp.create_group(name)
        g.attrs["stale"] = 5
        g.attrs["vf.num"] = np.bytes_(b"stale")
        for k in ("left", "right"):
            if k in g and isinstance(g[k], h5py.Dataset):
                del g[k]
        at = {"vf.tag": ("string", data.tag), "vf.tags": ("string_array", data.tags), "vf.num": ("value", data.num)}
        at.update(SHARED)
        keep = dict(at)
        self.write_metadata(f, g, data, type_string, attributes=at)
        Live.case.ok(at == keep, "write_metadata changed the Attributes given to it to %r" % (at,))
        for k, v in (("left", data.x), ("right", data.y)):
            written(f.write_data(g, k, v, None), g, k)
        return g

    def read(self, f, g, attributes):
        check_read(self, f, g, attributes)
        s = U.convert_attribute_to_string
        Live.case.ok(s(attributes["vf.constant"]) == "always" and attributes["stale"] is None, "wrong Attributes %r" % dict(attributes))
        return Pair(f.read_data(g, "left"), f.read_data(None, None, dsetgrp=g["right"]), s(attributes["vf.tag"]), tuple(U.convert_attribute_to_string_array(attributes["vf.tags"])), attributes["vf.num"])


class BagM(HM.TypeMarshaller):
    """A Dataset of references. The Attributes are the same dict always."""

    def __init__(self):
        HM.TypeMarshaller.__init__(self)
        self.python_attributes |= {"vf.n"}
        self.types, self.python_type_strings, self.matlab_classes = (tn(Bag),), ("vf.Bag",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        refs = f.write_object_array(data.a)
        c = Live.case
        c.ok(isinstance(refs, np.ndarray) and refs.shape == data.a.shape and h5py.check_ref_dtype(refs.dtype) is h5py.Reference, "write_object_array gave %r" % (refs,))
        for x in refs.flat:
            p = f.f[x].name
            c.ok(p is not None and p.rsplit("/", 1)[0] == f.options.group_for_references, "a reference is to %r" % p)
        if name in grp:
            del grp[name]
        d = grp.create_dataset(name, data=refs, dtype=h5py.special_dtype(ref=h5py.Reference))
        self.write_metadata(f, d, data, self.get_type_string(data, type_string), SHARED)
        c.ok(SHARED == {"vf.constant": ("string", "always")}, "write_metadata changed the Attributes given to it to %r" % (SHARED,))
        U.set_attributes_all(d, {"vf.n": ("value", data.n)}, discard_others=False)
        return d

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        a = f.read_object_array(d[()]) if d.shape else f.read_object_array(np.array(d[()], dtype=object))
        Live.case.ok(isinstance(a, np.ndarray) and a.dtype == object and a.shape == d.shape, "read_object_array gave %r" % (a,))
        return Bag(a, attributes["vf.n"])


class SingleM(HM.TypeMarshaller):
    """Written as what it holds, with the type string in its place."""

    def __init__(self):
        HM.TypeMarshaller.__init__(self)
        self.types, self.python_type_strings, self.matlab_classes = (Single,), ("vf.Single",), ()
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return written(f.write_data(grp, name, {"x": data.x}, self.get_type_string(data, type_string)), grp, name)

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        return Single(f.read_data(d, "x"))


class NopeM(HM.TypeMarshaller):
    def __init__(self):
        HM.TypeMarshaller.__init__(self)
        self.types, self.python_type_strings = (Nope,), ("vf.Nope",)
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        return None


class BadM(HM.TypeMarshaller):
    def __init__(self):
        HM.TypeMarshaller.__init__(self)
        self.types, self.python_type_strings = (Bad,), ("vf.Bad",)
        self.update_type_lookups()

    def write(self, f, grp, name, data, type_string):
        check_write(self, f, grp, name, data, type_string)
        if data.where == "write":
            raise Boom("write")
        if name in grp:
            del grp[name]
        d = grp.create_dataset(name, data=np.int8(1))
        self.write_metadata(f, d, data, type_string)
        return d

    def read(self, f, d, attributes):
        check_read(self, f, d, attributes)
        raise Boom("read")


class NeedyM(PairM):
    """Needs something that is not there to be read accurately."""

    def __init__(self, missing=("vf_there_is_no_such_module",)):
        PairM.__init__(self)
        self.required_parent_modules = self.required_modules = tuple(missing)

    def read(self, f, g, attributes):
        raise AssertionError("read was called although the modules are missing")

    def read_approximate(self, f, g, attributes):
        p = PairM.read(self, f, g, attributes)
        return ("approximate", p.x, p.y, p.tag)


def allm():
    return [SeqM(), MapM(), VecM(), NameM(), PairM(), BagM(), SingleM(), NopeM(), BadM()]


# ---- values

class G:
    def __init__(self, r, classes, kw, depth=3):
        self.r, self.classes, self.depth = r, classes, depth
        e = opts.effective(kw)
        mat = e["matlab_compatible"] and e["action_for_matlab_incompatible"] != "ignore"
        self.g = gen.Gen(r, matlab=mat, maxdepth=1, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if mat else ())
        self.mat = mat
        self.n = 0
        self.must = None

    def text(self):
        r = self.r
        return "".join(r.choice("ab z") for _ in range(r.randrange(6))) if self.mat or r.random() < 0.5 else gen.text(r)

    def keys(self, n):
        r = self.r
        if self.mat or r.random() < 0.4:
            return ["k%d" % i for i in range(n)]
        return list({gen.name(r, nul=False) or "x" for _ in range(n)})

    def value(self, d=0):
        r = self.r
        k = r.random()
        if d >= self.depth or (d and k < 0.25):
            return self.g.value(1) if r.random() < 0.8 else self.g.value()
        if k < 0.65 or d == 0 and r.random() < 0.3:
            return self.custom(d)
        n = r.choice([0, 1, 1, 2, 3])
        v = lambda: self.value(d + 1)
        k = r.randrange(6 if not self.mat else 4)
        if k == 0:
            return [v() for _ in range(n)]
        if k == 1:
            return tuple(v() for _ in range(n))
        if k == 2:
            return {x: v() for x in self.keys(n)}
        if k == 3:
            return self.objs(d, r.choice([(n,), (1, n), (n, 2), (2, 1, n)]))
        if k == 4:
            return collections.deque(v() for _ in range(n))
        out = {}
        for i in range(max(n, 1)):
            out[r.choice([i, (i, "x"), Name("n%d" % i) if Pair in self.classes and Name in self.classes else -i])] = v()
        return out

    def objs(self, d, shape):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.value(d + 1)
        return a

    def custom(self, d, cls=None):
        r = self.r
        cls = cls or r.choice(self.classes)
        self.n += 1
        v = lambda: self.value(d + 1)
        n = r.choice([0, 1, 2, 3])
        if cls is Seq:
            return Seq(v() for _ in range(n))
        if cls is Map:
            if r.random() < 0.3 and not self.mat:
                return Map((i, v()) for i in range(n))
            return Map((x, v()) for x in self.keys(n))
        if cls is Vec:
            return Vec(self.g.make(r.choice(["ndarray", "npscalar", "strarray", "bytesarray", "struct", "ndarray"])))
        if cls is Name:
            return Name(self.text())
        if cls is Pair:
            return Pair(v(), v(), self.ascii(), tuple(gen.text(r, maxlen=5).replace("\0", "0") for _ in range(n)) if not self.mat else tuple("t%d" % i for i in range(n)), r.choice([np.int16(3), np.float64(0.5), np.arange(n, dtype="u2"), np.float32([[1, 2]])]))
        if cls is Bag:
            return Bag(self.objs(d, r.choice([(n,), (1, 1), (n, 2), (0, 3), (2, 1, 1)])), np.uint8(n))
        if cls is Single:
            return Single(v())
        if cls is Nope:
            return Nope()
        return Bad(r.choice(["write", "read"]))

    def ascii(self):
        r = self.r
        return "".join(r.choice("abc/. ") for _ in range(r.choice([1, 3, 8]))).strip() or "t"


def occurs(v, out=None):
    """How often each class is in a value."""
    out = collections.Counter() if out is None else out
    t = type(v)
    if t.__module__.endswith("p25"):
        out[t.__name__] += 1
    if isinstance(v, Item):
        for k in v.F:
            occurs(getattr(v, k), out)
    elif isinstance(v, dict):
        for k, x in v.items():
            occurs(k, out)
            occurs(x, out)
    elif isinstance(v, (list, tuple, collections.deque)):
        for x in v:
            occurs(x, out)
    elif isinstance(v, np.ndarray) and v.dtype == object:
        for x in v.flat:
            occurs(x, out)
    return out


def base(v):
    """The same in builtin types only."""
    t = type(v)
    if t is Seq:
        return [base(x) for x in v]
    if t is Map:
        return {base(k): base(x) for k, x in v.items()}
    if t is Vec:
        return v.a
    if t is Name:
        return v.s
    if t in (list, tuple, collections.deque):
        return t(base(x) for x in v)
    if t is dict:
        return {base(k): base(x) for k, x in v.items()}
    if t is np.ndarray and v.dtype == object:
        a = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            a[i] = base(v[i])
        return a
    return v


def sig(v, d=0):
    if isinstance(v, Item):
        return (type(v).__name__, tuple(sig(getattr(v, k), d + 1) for k in v.F[:2])) if d < 3 else type(v).__name__
    if isinstance(v, (list, tuple, collections.deque)):
        return (type(v).__name__, tuple(sig(x, d + 1) for x in list(v)[:3]))
    if isinstance(v, dict):
        return (type(v).__name__, tuple((type(k).__name__, sig(x, d + 1)) for k, x in list(v.items())[:3]))
    return work.shape_sig(v)


def options(c, meta=True, **k):
    r = c.r
    kw = opts.gen(r, meta=meta, **k)
    if kw["matlab_compatible"]:
        kw["action_for_matlab_incompatible"] = r.choice(["ignore", "ignore", "error", "discard"])
    return kw


def start(c, kw):
    Live.case = c
    Live.opts = opts.effective(kw)
    del Live.log[:]


def coll(r, ms=None):
    """The collections a marshaller can be used through."""
    ms = allm() if ms is None else ms
    mc = hs.MarshallerCollection(marshallers=ms) if r.random() < 0.5 else hs.MarshallerCollection()
    if mc.get_marshaller_for_type_string("vf.Pair")[0] is None:
        if r.random() < 0.5:
            mc.add_marshaller(ms)
        else:
            for m in ms:
                mc.add_marshaller(m)
    return mc


def run(c):
    start(c, {})
    globals()["do_" + c.kind](c, c.r)


def put(c, r, kw, mc, fn, path, v):
    o = dict(kw, marshaller_collection=mc)
    k = r.randrange(4)
    if k == 0:
        hs.write(v, path=path, filename=fn, **o)
    elif k == 1:
        hs.writes({path: v}, filename=fn, options=hs.Options(**o))
    elif k == 2:
        with hs.File(fn, writable=True, **o) as f:
            f[path] = v
    else:
        with hs.File(fn, writable=True, options=hs.Options(**o)) as f:
            f.write(v, path)


def get(c, r, kw, mc, fn, path):
    o = dict(kw, marshaller_collection=mc)
    k = r.randrange(3)
    if k == 0:
        return hs.read(path, filename=fn, **o)
    if k == 1:
        return hs.reads([path], filename=fn, options=hs.Options(**o))[0]
    with hs.File(fn, **o) as f:
        return f[path]


def calls(op):
    return collections.Counter(n[:-1] for o, n in Live.log if o == op)


def trip(c, r, kw, v, fn, mc, path="/v"):
    """Writes and reads, with the calls of the marshallers compared."""
    want = occurs(v)
    del Live.log[:]
    put(c, r, kw, mc, fn, path, v)
    w = calls("write")
    c.ok(w == want, "the marshallers were called %r times to write %r" % (dict(w), dict(want)), value=same.short(v, 800))
    del Live.log[:]
    x = get(c, r, kw, coll(r) if r.random() < 0.3 else mc, fn, path)
    w = calls("read")
    c.ok(w == want, "the marshallers were called %r times to read %r" % (dict(w), dict(want)), value=same.short(v, 800))
    d = same.same(v, x, same.group_stored(opts.effective(kw)))
    c.ok(d is None, "what was read differs from what was written: %s" % d, options=kw, value=same.short(v, 800), got=same.short(x, 800))
    c.ev((c.kind, sig(v), opts.sig(kw)), n=1 + sum(want.values()))
    return x


def retype(t):
    """canon() with the type strings here put back to those of what they
    are written as."""
    back = {b"vf.Seq": b"list", b"vf.Map": b"dict", b"vf.Name": b"str"}
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "Python.Type":
            return (t[0], ("S", back.get(t[1][1], b"<array>" if t[1][1] == b"vf.Vec" or t[1][1].startswith(b"numpy.") else t[1][1])))
        return tuple(retype(x) for x in t)
    return t


def do_based(c, r):
    kw = options(c, meta=r.random() < 0.8)
    g = G(r, [Seq, Map, Vec, Name], kw)
    v = g.custom(0) if r.random() < 0.7 else g.value()
    c.sample(same.short(v) + " with %r" % kw)
    start(c, kw)
    mc = coll(r)
    a, b = c.path("a.h5"), c.path("b.h5")
    x = None
    if kw.get("store_python_metadata", True):
        trip(c, r, kw, v, a, mc)
    else:
        put(c, r, kw, mc, a, "/v", v)
        c.ok(calls("write") == occurs(v), "the marshallers were called %r times to write %r" % (dict(calls("write")), dict(occurs(v))))
        del Live.log[:]
        x = get(c, r, kw, mc, a, "/v")
        c.ok(not Live.log, "the calls %r were made to read without a type string" % Live.log)
    w = base(v)
    put(c, r, kw, mc, b, "/v", w)
    d = raw.diff(retype(raw.canon(raw.tree(b))), retype(raw.canon(raw.tree(a))))
    c.ok(d is None, "the file differs from the one of the same in builtin types: %s" % d, options=kw, value=same.short(v, 800))
    if x is not None:
        y = get(c, r, kw, mc, b, "/v")
        d = same.same(y, x)
        c.ok(d is None, "without a type string something else than for the same in builtin types is read: %s" % d, options=kw, value=same.short(v, 800))
        c.ev(("plain", sig(v), opts.sig(kw)))
    c.ev(("file", sig(v), opts.sig(kw)))


def do_own(c, r):
    kw = options(c)
    kw["delete_unused_variables"] = True
    g = G(r, [Pair, Bag, Single, Pair, Bag, Single, Seq, Map, Vec, Name], kw)
    fn, mc = c.path(), coll(r)
    start(c, kw)
    path = r.choice(["/v", "/v", "/a/b", "v w"])
    for i in range(r.choice([1, 1, 2, 3])):
        v = g.custom(0, r.choice([Pair, Bag, Single])) if r.random() < 0.7 else g.value()
        c.sample(same.short(v) + " with %r" % kw)
        trip(c, r, kw, v, fn, mc, path)
    check_attrs(c, fn)


OWN = {"vf.Pair": {"Python.Type", "vf.constant", "vf.tag", "vf.tags", "vf.num"}, "vf.Bag": {"Python.Type", "vf.constant", "vf.n"}}


def check_attrs(c, fn):
    """The Attributes of the objects of the marshallers here."""
    def visit(n, done):
        if n is None or n.addr in done:
            return
        done.add(n.addr)
        t = n.attrs.get("Python.Type")
        t = t.decode() if isinstance(t, bytes) else t
        if t in OWN:
            got = set(n.attrs) - {"H5PATH"}
            c.ok(got == OWN[t], "a %s has the Attributes %r" % (t, sorted(got)))
            c.ev(("attributes", t))
        for x in (n.items or {}).values():
            visit(x, done)
        for x in n.refs or ():
            visit(x, done)
    visit(raw.tree(fn), set())


def find(v, cls):
    return occurs(v)[cls.__name__]


def do_outcome(c, r):
    kw = options(c)
    g = G(r, [Pair, Seq, Map, Vec], kw, depth=1)
    fn, mc = c.path(), coll(r)
    start(c, kw)
    e = opts.effective(kw)
    put(c, r, kw, mc, fn, "/other", v0 := g.value())
    before = raw.canon(raw.sub(fn, ["other"]))
    which = r.choice(["nothing", "write", "read"])
    x = {"nothing": Nope(), "write": Bad("write"), "read": Bad("read")}[which]
    wrap = r.choice(["top", "list", "tuple", "array", "dict", "keys", "Seq", "Map", "Bag", "deep"])
    fill = g.value()
    pos = r.randrange(3)

    def three():
        l = [1, "two", fill]
        l[pos] = x
        return l

    def arr(l):
        a = np.empty(len(l), dtype=object)
        a[:] = l
        return a
    v = {"top": lambda: x, "list": three, "tuple": lambda: tuple(three()), "array": lambda: arr(three()), "dict": lambda: dict(zip("abc", three())), "keys": lambda: dict(zip((1, 2, 3), three())), "Seq": lambda: Seq(three()), "Map": lambda: Map(zip("abc", three())), "Bag": lambda: Bag(arr(three()), np.uint8(1)), "deep": lambda: {"q": [three()]}}[wrap]()
    c.sample("%s in a %s with %r" % (which, wrap, kw))
    old = r.random() < 0.3 and wrap in ("dict", "Map", "list", "array")
    if old:
        put(c, r, kw, mc, fn, "/v", {"dict": lambda: dict(a=5, b=[1], c={}), "Map": lambda: Map(a=5, b=[1], c={}), "list": lambda: [1, 2], "array": lambda: np.arange(3)}[wrap]())
    del Live.log[:]
    what = (which, wrap, pos, old, opts.sig(kw))
    if which == "write":
        try:
            put(c, r, kw, mc, fn, "/v", v)
        except Boom:
            pass
        else:
            c.bad("the exception of a marshaller was not passed on by the write", value=wrap)
        c.ev(what)
    else:
        put(c, r, kw, mc, fn, "/v", v)
        t = raw.sub(fn, ["v"])
        if which == "nothing":
            if wrap == "top":
                c.ok(t is None, "something was written by a marshaller that wrote nothing")
                c.ok(raw.sub(fn, ["other"]) is not None, "the rest is gone")
            else:
                got = get(c, r, kw, mc, fn, "/v")
                if wrap in ("dict", "Map"):
                    del v["abc"[pos]]
                    c.ok(type(got) is type(v) and set(got) == set(v), "%r was read without what was not written" % (got,), position=pos)
                    d = same.same(dict(v), dict(got), same.group_stored(e))
                    c.ok(d is None, "the rest differs from what was written: %s" % d)
                else:
                    l, m = unwrap(v, wrap), unwrap(got, wrap)
                    c.ok(len(l) == len(m), "%d elements became %d" % (len(l), len(m)))
                    for i, (p, q) in enumerate(zip(l, m)):
                        if i == pos:
                            c.ok(isinstance(q, np.ndarray) and q.size == 0, "an element that was not written became %s" % same.short(q))
                        else:
                            d = same.same(p, q, same.group_stored(e))
                            c.ok(d is None, "an element next to one that was not written differs: %s" % d, options=kw)
                    refcheck(c, fn, e, wrap, pos)
        else:
            try:
                got = get(c, r, kw, mc, fn, "/v")
            except Boom:
                c.ok(wrap not in ("dict", "Map", "deep"), "a member that cannot be read made reading fail")
            else:
                c.ok(wrap in ("dict", "Map", "deep"), "the exception of a marshaller was not passed on by the read, it gave %s" % same.short(got))
                if wrap == "deep":
                    c.ok(got == {}, "%r was read" % (got,))
                else:
                    del v["abc"[pos]]
                    d = same.same(v, got, same.group_stored(e))
                    c.ok(d is None, "the rest differs from what was written: %s" % d)
        c.ev(what)
    c.ok(raw.canon(raw.sub(fn, ["other"])) == before, "another object was changed")
    d = same.same(v0, get(c, r, kw, mc, fn, "/other"), same.group_stored(e))
    c.ok(d is None, "another object is read differently now: %s" % d)


def unwrap(v, wrap):
    if wrap == "keys":
        return list(v.values())
    if wrap == "Bag":
        return list(v.a)
    if wrap == "deep":
        return list(v["q"][0])
    return list(np.asarray(v, dtype=object).reshape(-1)) if isinstance(v, np.ndarray) else list(v)


def refcheck(c, fn, e, wrap, pos):
    if wrap in ("keys", "deep"):
        return
    with h5py.File(fn, "r") as f:
        d = f["v"][()].reshape(-1)
        n = f[d[pos]].name
    c.ok(n == e["group_for_references"] + "/a", "the element that was not written is a reference to %r" % n)


def do_missing(c, r):
    """Reading without the modules that are needed."""
    kw = options(c)
    g = G(r, [Pair, Seq, Map, Vec], kw, depth=2)
    fn = c.path()
    start(c, kw)
    ms = allm()
    p = g.custom(1, Pair)
    if occurs(p)["Pair"] > 1:
        p.x, p.y = 1, "z"
    v = r.choice([lambda: p, lambda: [1, p], lambda: {"a": p, "b": 2}, lambda: Seq([p]), lambda: Map(q=(p, None)), lambda: Single({"x": [p]})])()
    put(c, r, kw, coll(r), fn, "/v", v)
    needy = NeedyM(r.choice([("vf_there_is_no_such_module",), ("os", "vf_there_is_no_such_module"), ("vf_no.sub",)]))
    ms = [needy if type(m) is PairM else m for m in ms]
    mc = hs.MarshallerCollection(marshallers=ms)

    def approx(v):
        if type(v) is Pair:
            return ("approximate", v.x, v.y, v.tag)
        if type(v) is Single:
            return Single(approx(v.x))
        if isinstance(v, dict):
            return type(v)((k, approx(x)) for k, x in v.items())
        if type(v) in (list, Seq, tuple):
            return type(v)(approx(x) for x in v)
        return v
    got = get(c, r, kw, mc, fn, "/v")
    want = approx(v)
    d = same.same(want, got, same.group_stored(opts.effective(kw)))
    c.ok(d is None, "the approximation differs: %s" % d, options=kw, value=same.short(v, 800), got=same.short(got, 800))
    c.ev(("approximate", sig(v), opts.sig(kw)))
    # it cannot be written then either
    before = raw.canon(raw.tree(fn))
    try:
        put(c, r, kw, mc, fn, "/w", p)
    except NotImplementedError:
        pass
    else:
        c.bad("a type whose marshaller lacks its modules was written")
    d = raw.diff(before, raw.canon(raw.tree(fn)))
    c.ok(d is None, "the write that was not possible changed the file: %s" % d)
    c.ev(("not written", opts.sig(kw)))


def do_attrs(c, r):
    """write_metadata of the marshallers on its own."""
    kw = options(c, meta=r.random() < 0.7)
    e = opts.effective(kw)
    start(c, kw)
    o = hs.Options(**kw)
    fn = c.path()
    with h5py.File(fn, "w") as h:
        f = U.LowLevelFile(h, o)
        cls = r.choice([HM.TypeMarshaller, HM.NumpyScalarArrayMarshaller, HM.PythonDictMarshaller, HM.PythonListMarshaller, HM.PythonStringMarshaller])
        base_at = {"vf.a": ("string", "x\u00e9"), "vf.b": ("string_array", ("p", "", "\u4e00")), "vf.c": ("value", np.arange(3))}
        m = cls()
        shared = dict(r.sample(sorted(base_at.items()), r.randrange(4)))
        keep = dict(shared)
        first = None
        for i in range(r.choice([2, 3, 4])):
            ts = r.choice([None, "vf.one", "vf.two", "str", "dict"])
            if cls is HM.TypeMarshaller:
                m.types, m.python_type_strings = (dict, list), ("T1", "T2")
                m.update_type_lookups()
                data = r.choice([{}, []])
                obj = h.require_group("g%d" % r.randrange(2))
            elif cls is HM.PythonDictMarshaller:
                data = {"a": 1} if r.random() < 0.5 else {}
                obj = h.require_group("g%d" % r.randrange(2))
            else:
                data = r.choice([np.zeros((0, 2)), np.arange(3.0), np.float32(1), np.bytes_(b"ab"), np.ones((2, 2), "c8"), np.zeros((2,), "i2")])
                ts = ts or "vf.one"
                obj = h["d"] if "d" in h else h.create_dataset("d", data=1)
            if r.random() < 0.5:
                obj.attrs["stale"] = 3
                obj.attrs["vf.c"] = np.bytes_(b"stale")
                obj.attrs["Python.Empty"] = np.uint8(1)
            extra = {"attributes": shared} if shared or r.random() < 0.5 else {}
            if cls is HM.PythonDictMarshaller and r.random() < 0.6:
                extra.update(any_non_valid_str_keys=False, keys_as_str=list(data), key_str_types=b"t" * len(data))
            m.write_metadata(f, obj, data, ts, **extra)
            c.ok(shared == keep, "write_metadata of %s changed the Attributes given to it" % cls.__name__, before=sorted(keep), after=sorted(shared))
            at = dict(obj.attrs)
            c.ok("stale" not in at, "an Attribute that is not used was kept")
            want = ts or ("T1" if isinstance(data, dict) and cls is HM.TypeMarshaller else "T2" if cls is HM.TypeMarshaller else "dict")
            if e["store_python_metadata"]:
                got = U.convert_attribute_to_string(at.get("Python.Type"))
                c.ok(got == want, "the type string is %r instead of %r" % (got, want), marshaller=cls.__name__)
            else:
                p = [k for k in at if k.startswith("Python.")]
                c.ok(not p, "there are the Attributes %r without Python metadata" % p)
            if not e["matlab_compatible"]:
                p = [k for k in at if k.startswith("MATLAB") or k == "H5PATH"]
                c.ok(not p, "there are the Attributes %r without MATLAB compatibility" % p)
            if "vf.a" in keep:
                c.ok(U.convert_attribute_to_string(at["vf.a"]) == "x\u00e9" and at["vf.a"].dtype.kind == "S" if hasattr(at["vf.a"], "dtype") else at["vf.a"] in ("x\u00e9", "x\u00e9".encode()), "a string became %r" % (at["vf.a"],))
            if "vf.b" in keep:
                c.ok(tuple(U.convert_attribute_to_string_array(at["vf.b"])) == ("p", "", "\u4e00"), "strings became %r" % (at["vf.b"],))
            if "vf.c" in keep:
                c.ok(same.same(np.arange(3), at["vf.c"]) is None, "a value became %r" % (at["vf.c"],))
            left = set(at) - set(keep) - {k for k in at if k.startswith("Python.") or k.startswith("MATLAB")}
            c.ok(not left, "there are the Attributes %r nobody asked for" % left)
            allowed = set(keep) | m.python_attributes | m.matlab_attributes
            c.ok(set(at) <= allowed, "there are the Attributes %r the marshaller does not declare" % (set(at) - allowed))
            # nothing remains of the calls before
            with h5py.File(c.path("x.h5"), "w") as h2:
                o2 = h2.create_group("g") if isinstance(obj, h5py.Group) else h2.create_dataset("g", data=1)
                ex2 = dict(extra)
                if "attributes" in ex2:
                    ex2["attributes"] = dict(keep)
                cls_m = type(m)()
                cls_m.types, cls_m.python_type_strings = m.types, m.python_type_strings
                cls_m.update_type_lookups()
                cls_m.write_metadata(U.LowLevelFile(h2, o), o2, data, ts, **ex2)
                a2 = {k: raw.attr_canon(v) for k, v in o2.attrs.items()}
            a1 = {k: raw.attr_canon(v) for k, v in at.items()}
            c.ok(a1 == a2, "the Attributes differ from those of a new object", got={k: a1.get(k) for k in set(a1) | set(a2) if a1.get(k) != a2.get(k)})
            c.ev(("metadata", cls.__name__, type(data).__name__, ts, tuple(sorted(keep)), i, opts.sig(kw)))


def do_low(c, r):
    """LowLevelFile as such."""
    kw = options(c)
    kw["store_python_metadata"] = kw["delete_unused_variables"] = True
    e = opts.effective(kw)
    mc = coll(r)
    o = hs.Options(marshaller_collection=mc, **kw)
    start(c, kw)
    fn = c.path()
    for a in ((fn, o), (None, o)):
        try:
            U.LowLevelFile(*a)
        except TypeError:
            c.ev(("not a file",))
        else:
            c.bad("LowLevelFile took %r" % (a,))
    g = G(r, [Pair, Bag, Seq, Map, Name], kw, depth=2)
    lax = same.group_stored(e)
    with h5py.File(fn, "w") as h:
        for bad in (None, {}, kw, object()):
            try:
                U.LowLevelFile(h, bad)
            except TypeError:
                pass
            else:
                c.bad("LowLevelFile took %r for options" % (bad,))
        refs = e["group_for_references"]
        pre = r.random() < 0.5
        if pre:
            rg = h.create_group(refs)
            for n in r.sample(["b", "c", "d", "e", "f", "10", "11"], r.randrange(5)):
                rg[n] = 5
            had = set(rg)
        f = U.LowLevelFile(h, o)
        c.ok(f.f is h and f.options is o, "f is %r and options %r" % (f.f, f.options))
        top = r.choice([h, h.create_group("grp"), h.create_group("p/q")])
        for i in range(r.choice([1, 2, 3])):
            v = g.value()
            n = r.choice(["x", "y", "z w"])
            got = f.write_data(top, n, v, None)
            written(got, top, n)
            d = same.same(v, r.choice([lambda: f.read_data(top, n), lambda: f.read_data(None, None, dsetgrp=top[n]), lambda: f.read_data(top, n, got), lambda: f.read_data(h, "no such thing", dsetgrp=got)])(), lax)
            c.ok(d is None, "what was read differs from what was written: %s" % d, options=kw, value=same.short(v, 800))
            c.ev(("write_data", sig(v), opts.sig(kw)))
        # arrays of objects
        a = g.objs(1, r.choice([(2,), (0,), (1, 3), (2, 2)]))
        w = f.write_object_array(a)
        c.ok(w.shape == a.shape, "write_object_array gave the shape %r for %r" % (w.shape, a.shape))
        seen_ = set()
        for x in w.flat:
            n = h[x].name
            c.ok(n.rsplit("/", 1)[0] == refs and n not in seen_, "an element is at %r" % n)
            seen_.add(n)
            p = h[x].attrs.get("H5PATH")
            if e["matlab_compatible"]:
                c.ok(p == refs.encode(), "H5PATH of an element is %r" % (p,))
            else:
                c.ok(p is None, "there is an H5PATH of %r" % (p,))
        d = same.same(a, f.read_object_array(w), lax)
        c.ok(d is None, "the array of objects became another: %s" % d)
        c.ev(("object array", a.shape, opts.sig(kw)))
        if pre:
            c.ok(all(n in h[refs] and h[refs][n].shape == () for n in had), "what was in the references Group was changed")
        # names
        names = set()
        for i in range(r.choice([1, 5, 40])):
            n = f.next_unused_ref_group_name()
            c.ok(type(n) is str and n and n not in h[refs] and n not in names and n != "a" and "/" not in n, "the name %r is not unused" % (n,))
            if r.random() < 0.8:
                h[refs][n] = i
            names.add(n)
        c.ok("a" in h[refs], "there is no canonical empty")
        c.ev(("names", pre, len(names)))
        # what is not there and what is not enough
        for args, exc in (((top, "missing"), KeyError), ((None, "x"), TypeError), ((top, None), TypeError), ((None, None), TypeError)):
            try:
                x = f.read_data(*args)
            except exc:
                c.ev(("read_data", exc.__name__))
            else:
                c.bad("read_data%r gave %r" % (args, x))
        try:
            f.write_data(top, "u", object(), None)
        except NotImplementedError:
            c.ok("u" not in top, "something was written for what cannot be")
        else:
            c.bad("write_data took an object")
        parent, last = refs.rsplit("/", 1)
        k0 = set(h[refs])
        try:
            f.write_data(h[parent or "/"], last, 5, None)
        except ValueError:
            c.ok(set(h[refs]) == k0, "the references Group was changed")
            c.ev(("references Group refused",))
        else:
            c.bad("write_data replaced the references Group")
