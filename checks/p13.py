"""P13: which marshaller is used."""
import collections
import contextlib
import importlib
import os
import random
import sys

import h5py
import numpy as np
import pkg_resources

from vf.env import hs
from vf import gen, raw, same

import hdf5storage.Marshallers as HM
import hdf5storage.plugins as HP

ID = "P13"
TITLE = "marshaller selection"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: marshallers that log their calls are put into collections through every documented way; lookups and the marshallers that really run are compared with a priority model after every change (online checker)"
LEVEL_NOTE = "histories of adding, removing and clearing, overlapping declarations, the six priority orders, fake plugin entry points of several API versions and module availability are sampled; all builtin declarations are enumerated in all priority orders"
RULE = "one evaluation = one lookup, write or read compared with the model; distinct = (collection shape, kind of lookup, source of the winner)"
ASSUMPTIONS = ["entry points are given through pkg_resources.iter_entry_points, as in a real environment"]

PRIO = [("builtin", "plugin", "user"), ("builtin", "user", "plugin"), ("plugin", "builtin", "user"), ("plugin", "user", "builtin"), ("user", "builtin", "plugin"), ("user", "plugin", "builtin")]


def plan(tier):
    k = 16 if tier == "thorough" else 8
    return [("history", 500 * k), ("files", 400 * k), ("modules", 200 * k), ("plugins", 250 * k), ("builtin", 6), ("args", 40), ("unknown", 150 * k), ("default", 40 * k)]


LOG = []


class Tagged:
    def __init__(self, tag, how, val):
        self.tag, self.how, self.val = tag, how, val

    def __repr__(self):
        return "Tagged(%r, %r, %r)" % (self.tag, self.how, self.val)


class M(HM.TypeMarshaller):
    def __init__(self, tag, types=(), strings=(), classes=(), parents=(), required=()):
        HM.TypeMarshaller.__init__(self)
        self.tag = tag
        self.python_attributes |= {"Python.by"}
        self.types, self.python_type_strings, self.matlab_classes = tuple(types), tuple(strings), tuple(classes)
        self.required_parent_modules, self.required_modules = tuple(parents), tuple(required)
        self.update_type_lookups()

    def __repr__(self):
        return "M(%s)" % self.tag

    def write(self, f, grp, name, data, type_string):
        LOG.append(("write", self.tag))
        if name in grp:
            del grp[name]
        d = grp.create_dataset(name, data=np.int64(len(self.tag)))
        ts = type_string or "vf.%s" % type(data).__name__
        self.write_metadata(f, d, data, ts, {"Python.by": ("string", self.tag)})
        if f.options.matlab_compatible and self.matlab_classes:
            d.attrs["MATLAB_class"] = np.bytes_(self.matlab_classes[0].encode())
        return d

    def read(self, f, dsetgrp, attributes):
        LOG.append(("read", self.tag))
        return Tagged(self.tag, "read", None)

    def read_approximate(self, f, dsetgrp, attributes):
        LOG.append(("approximate", self.tag))
        return Tagged(self.tag, "approximate", None)


# types nobody else declares
TYPES = [type("T%d" % i, (), {"__module__": "vf.fake"}) for i in range(5)]
SUBS = [type("L", (list,), {"__module__": "vf.fake"}), type("D", (dict,), {"__module__": "vf.fake"}), type("I", (int,), {"__module__": "vf.fake"}), type("S", (str,), {"__module__": "vf.fake"})]
TNAMES = {t: t.__module__ + "." + t.__name__ for t in TYPES + SUBS}
BUILTIN_TYPES = [int, str, list, dict, np.uint8, np.float64, np.ndarray, type(None), "collections.deque", "fractions.Fraction"]
STRINGS = ["vf.%s" % t.__name__ for t in TYPES + SUBS] + ["int", "str", "numpy.uint8", "list", "vf.other"]
CLASSES = ["vfclass1", "vfclass2", "double", "struct", "char", "cell"]


def tname(t):
    return t if isinstance(t, str) else t.__module__ + "." + t.__name__


def make(r, tag, **k):
    ts = r.sample(TYPES + SUBS + BUILTIN_TYPES, r.choice([0, 1, 2, 4]))
    ts = [tname(t) if r.random() < 0.4 else t for t in ts]
    return M(tag, ts, r.sample(STRINGS, r.choice([0, 1, 2, 4])), r.sample(CLASSES, r.choice([0, 1, 2])), **k)


_BUILTIN = []


def builtin():
    """The builtin marshallers in the order of their names."""
    if not _BUILTIN:
        _BUILTIN.extend(n for n in sorted(dir(HM)) if isinstance(getattr(HM, n), type) and issubclass(getattr(HM, n), HM.TypeMarshaller))
    return _BUILTIN


def order(mc, user, plugin=()):
    out = []
    for p in mc.priority:
        if p == "builtin":
            out += [("builtin", n, getattr(HM, n)()) for n in builtin()]
        elif p == "plugin":
            out += [("plugin", m, m) for m in plugin]
        else:
            out += [("user", m, m) for m in user]
    return out


def winner(lst, kind, key):
    for src, ident, m in lst:
        if kind == "type":
            if key in [tname(t) for t in m.types]:
                return src, ident
        elif kind == "string":
            if key in m.python_type_strings:
                return src, ident
        elif key in m.matlab_classes:
            return src, ident
    return None, None


def get(mc, kind, key):
    return {"type": mc.get_marshaller_for_type, "string": mc.get_marshaller_for_type_string, "class": mc.get_marshaller_for_matlab_class}[kind](key)


KEYS = ([("type", t) for t in TYPES + SUBS] + [("type", tname(t)) for t in TYPES + SUBS] + [("type", t) for t in BUILTIN_TYPES]
        + [("string", s) for s in STRINGS] + [("class", x) for x in CLASSES] + [("type", "no.such"), ("string", "no.such"), ("class", "no such"), ("type", object), ("type", "int"), ("string", "")])


def check_all(c, mc, user, plugin=(), what="", keys=None):
    lst = order(mc, user, plugin)
    for kind, key in keys or KEYS:
        src, ident = winner(lst, kind, tname(key) if kind == "type" else key)
        m, has = get(mc, kind, key)
        where = "%s %r with priority %r, user %r, plugins %r, %s" % (kind, key, mc.priority, user, list(plugin), what)
        if src is None:
            c.ok(m is None and has is False, "%r is found for the undeclared %s" % (m, where))
        elif src == "builtin":
            c.ok(type(m) is getattr(HM, ident), "%r instead of the builtin %s is found for the %s" % (m, ident, where))
            c.ok(has is True, "the modules of a builtin marshaller are missing: %s" % where)
        else:
            c.ok(m is ident, "%r instead of %r is found for the %s" % (m, ident, where))
        c.ev((src, kind, str(key), mc.priority, len(user), len(plugin)))
    return lst


def run(c):
    r = c.r
    del LOG[:]
    globals()["do_" + c.kind](c, r)


def do_history(c, r):
    user = []
    first = [make(r, "u%d" % i) for i in range(r.choice([0, 0, 1, 3]))]
    pr = r.choice(PRIO)
    lazy = r.random() < 0.5
    form = r.choice([tuple, list, iter, lambda x: (y for y in x)])
    if len(first) == 1 and r.random() < 0.5:
        mc = hs.MarshallerCollection(priority=pr, lazy_loading=lazy, marshallers=first[0])
    else:
        mc = hs.MarshallerCollection(priority=r.choice([tuple, list])(pr), lazy_loading=lazy, marshallers=form(first))
    user += first
    c.ok(mc.priority == pr, "priority is %r rather than %r" % (mc.priority, pr))
    pool = [make(r, "p%d" % i) for i in range(5)] + first
    check_all(c, mc, user, what="initially")
    for step in range(r.choice([3, 8, 15])):
        k = r.random()
        ms = r.sample(pool, r.choice([0, 1, 1, 2, 3]) if len(pool) > 3 else 1)
        arg = ms[0] if len(ms) == 1 and r.random() < 0.5 else r.choice([tuple, list, iter])(ms)
        if k < 0.5:
            what = "add %r" % ms
            mc.add_marshaller(arg)
            user += [m for m in ms if m not in user]
        elif k < 0.8:
            what = "remove %r" % ms
            mc.remove_marshaller(arg)
            user = [m for m in user if m not in ms]
        elif k < 0.88:
            what = "clear"
            mc.clear_marshallers()
            user = []
        else:
            bad = r.choice([5, None, "x", [ms[0] if ms else pool[0], 5], [M], (pool[0], pool[1], None), HM.TypeMarshaller, [None, pool[0]], b"x"])
            what = "add %r" % (bad,)
            try:
                mc.add_marshaller(bad)
            except TypeError:
                pass
            else:
                c.bad("%s is accepted" % what)
            c.count("invalid marshallers")
        c.note(what)
        check_all(c, mc, user, what="after " + what)
    c.sample("%d user marshallers, priority %r" % (len(user), pr))


def do_builtin(c, r):
    pr = PRIO[c.idx]
    mc = hs.MarshallerCollection(priority=pr)
    keys = []
    for n in builtin():
        m = getattr(HM, n)()
        keys += [("type", t) for t in m.types] + [("string", s) for s in m.python_type_strings] + [("class", s) for s in m.matlab_classes]
        c.ok(len(m.types) == 0 or set(m.type_to_typestring) == set(m.types[:len(m.python_type_strings)]), "the lookups of %s are incomplete" % n)
    check_all(c, mc, [], keys=keys, what="builtin")
    # what everybody relies on
    docs = ["logical", "single", "double", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "char", "cell"]
    for d in docs:
        c.ok(mc.get_marshaller_for_matlab_class(d)[0] is not None, "the MATLAB class %s cannot be read" % d)
    for t in (bool, int, float, complex, str, bytes, bytearray, list, tuple, set, frozenset, dict, type(None), type(Ellipsis), type(NotImplemented), slice, range, np.dtype):
        c.ok(mc.get_marshaller_for_type(t)[0] is not None, "%r cannot be written" % t)
    c.sample("%d builtin declarations with priority %r" % (len(keys), pr))


VALS = {list: [1, "a"], dict: {"a": 1}, int: 5, str: "abc", type(None): None, np.uint8: np.uint8(3), np.float64: np.float64(2.5), np.ndarray: np.arange(3)}


def instance(r, t):
    if t in VALS:
        return VALS[t]
    return t()


def do_files(c, r):
    """The marshallers that really run."""
    user = [make(r, "u%d" % i) for i in range(r.choice([1, 2, 4]))]
    for m in user:
        # strings a value of the type gets
        m.python_type_strings += tuple("vf." + tname(t).split(".")[-1] for t in m.types if tname(t).startswith("vf.") and r.random() < 0.7)
    mc = hs.MarshallerCollection(priority=r.choice(PRIO), marshallers=user)
    lst = order(mc, user)
    kw = dict(matlab_compatible=r.random() < 0.4, store_python_metadata=r.random() < 0.85, action_for_matlab_incompatible="ignore")
    o = hs.Options(marshaller_collection=mc, **kw)
    fn = c.path()
    for i, t in enumerate(r.sample(TYPES + SUBS, 4) + r.sample([x for x in BUILTIN_TYPES if x in VALS], 2)):
        src, m = winner(lst, "type", tname(t))
        v = instance(r, t)
        path = "/x%d" % i
        del LOG[:]
        before = raw.canon(raw.tree(fn)) if os.path.exists(fn) else None
        try:
            if r.random() < 0.5:
                hs.write(v, path=path, filename=fn, options=o)
            else:
                with hs.File(fn, writable=True, options=o) as f:
                    f[path] = v
        except NotImplementedError:
            c.ok(src is None, "%r cannot be written although %r (%s) declares its type" % (t, m, src))
            d = raw.diff(before, raw.canon(raw.tree(fn))) if before is not None else None
            c.ok(d is None, "a write that was rejected changed the file: %s" % d)
            c.ev(("rejected", tname(t)))
            continue
        except Exception:
            if src == "builtin" and t in (list, dict):
                continue
            raise
        c.ok(src is not None, "%r, whose type nobody declares, was written" % (t,))
        w = [x for x in LOG if x[0] == "write"]
        if src == "user":
            c.ok(w[:1] == [("write", m.tag)], "%r rather than %r wrote a %r" % (w, m, t))
        elif src == "builtin" and t not in (list, dict):
            c.ok(t in (str, int, type(None), dict, list, np.uint8, np.float64, np.ndarray), "?")
        c.ev(("write", src, tname(t), mc.priority))
        # reading
        with h5py.File(fn, "r") as f:
            ts = f[path].attrs.get("Python.Type")
            cl = f[path].attrs.get("MATLAB_class")
            isd = isinstance(f[path], h5py.Dataset)
            dt = f[path].dtype.type if isd else None
        ts = ts.decode() if isinstance(ts, bytes) else ts
        cl = cl.decode() if isinstance(cl, bytes) else cl
        if ts is not None:
            src, m = winner(lst, "string", str(ts))
        elif cl is not None:
            src, m = winner(lst, "class", str(cl))
        elif isd:
            src, m = winner(lst, "type", tname(dt))
        else:
            src, m = winner(lst, "class", "struct")
        if src is None:
            src, m = winner(lst, "type", "numpy.uint8")
        del LOG[:]
        with hs.File(fn, options=o) as f:
            try:
                x = f[path]
            except Exception as e:
                c.ok(src == "builtin", "reading with %r raised %r" % (m, e))
                continue
        if src == "user":
            c.ok(isinstance(x, Tagged) and x.tag == m.tag and x.how == "read", "%r was read rather than by %r" % (x, m))
            c.ok(LOG[:1] == [("read", m.tag)], "the calls %r were made rather than a read with %r" % (LOG, m))
        elif src == "builtin":
            c.ok(not LOG or t in (list, dict), "the calls %r were made, but %s is to read %r" % (LOG, m, ts or cl))
        c.ev(("read", src, str(ts), str(cl), mc.priority))
    # nested
    t = r.choice(TYPES)
    src, m = winner(lst, "type", tname(t))
    s2, m2 = winner(lst, "type", "builtins.list")
    s3, m3 = winner(lst, "type", "numpy.ndarray")
    if src == "user" and s2 == "builtin" and s3 == "builtin":
        del LOG[:]
        hs.write([t(), [t()]], path="/n", filename=fn, options=o)
        w = [x for x in LOG if x == ("write", m.tag)]
        c.ok(len(w) == 2, "%d of 2 nested elements were written by %r: %r" % (len(w), m, LOG))
        c.ev(("nested", mc.priority))
    c.sample("%r with %r" % (user, kw))


@contextlib.contextmanager
def modules(c, names):
    """Fake modules on a path of their own; names: name -> source or None."""
    d = c.path("mods")
    os.mkdir(d)
    for n, src in names.items():
        if src is None:
            continue
        p = os.path.join(d, *n.split("."))
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, "__init__.py"), "w") as f:
            f.write(src)
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    try:
        yield d
    finally:
        sys.path.remove(d)
        for n in names:
            sys.modules.pop(n, None)
        importlib.invalidate_caches()


def do_modules(c, r):
    u = "vfm%d_%d" % (c.idx, os.getpid())
    good, good2, bad, missing = u + "good", u + "good2", u + "bad", u + "missing"
    sub, nosub = good + ".sub", good + ".nosub"
    src = {good: "X = 1\n", good2: "X = 2\n", sub: "Y = 1\n", bad: "raise ImportError('not today')\n", missing: None, nosub: None}
    kinds = {
        "none": ((), (), True), "parent only": ((good,), (), True), "there": ((good,), (good,), True), "two": ((good, good2), (good, good2), True),
        "sub": ((good,), (good, sub), True), "missing parent": ((missing,), (missing,), False), "one missing": ((good, missing), (good, missing), False),
        "missing sub": ((good,), (good, nosub), False), "fails": ((bad,), (bad,), False), "second fails": ((good2, bad), (good2, bad), False),
    }
    lazy = r.random() < 0.6
    with modules(c, src):
        ks = r.sample(sorted(kinds), 4)
        ms, ok = [], {}
        for i, k in enumerate(ks):
            p, q, has = kinds[k]
            m = M(k, ["vf.fake.T%d" % i], ["vf.T%d" % i], ["vfclass%d" % i], p, q)
            ms.append(m)
            ok[m] = has
        mc = hs.MarshallerCollection(lazy_loading=lazy, marshallers=ms)
        fn = c.path()
        o = hs.Options(matlab_compatible=False, marshaller_collection=mc)
        if lazy:
            for n in src:
                c.ok(n not in sys.modules, "%s was imported although nothing was looked up" % n)
        else:
            for m in ms:
                if ok[m]:
                    for n in m.required_modules:
                        c.ok(n in sys.modules, "%s was not imported when adding a marshaller without lazy loading" % n)
        with h5py.File(fn, "w") as f:
            for i, m in enumerate(ms):
                f["x%d" % i] = i
                f["x%d" % i].attrs["Python.Type"] = "vf.T%d" % i
        for _ in range(8):
            i = r.randrange(len(ms))
            m = ms[i]
            kind = r.choice(["type", "string", "class", "read", "write", "again"])
            what = "%s (%s, lazy %s)" % (m.tag, kind, lazy)
            if kind in ("type", "string", "class"):
                x, has = get(mc, kind, {"type": "vf.fake.T%d", "string": "vf.T%d", "class": "vfclass%d"}[kind] % i)
                c.ok(x is m and has is ok[m], "lookup gives %r, %r for %s" % (x, has, what))
            elif kind == "read":
                v = hs.read("/x%d" % i, filename=fn, options=o)
                c.ok(isinstance(v, Tagged) and (v.tag, v.how) == (m.tag, "read" if ok[m] else "approximate"), "%r was read with %s" % (v, what))
            elif kind == "write":
                try:
                    hs.write(TYPES[i](), path="/w%d" % i, filename=fn, options=o)
                except NotImplementedError:
                    c.ok(not ok[m], "cannot write with %s" % what)
                else:
                    c.ok(ok[m], "could write with %s although modules are missing" % what)
            else:
                e = M("extra", ["vf.fake.extra"], (), ())
                mc.add_marshaller(e)
                mc.remove_marshaller(e)
                continue
            if ok[m]:
                for n in m.required_modules:
                    c.ok(n in sys.modules, "%s is not imported after using %s" % (n, what))
            c.ev((m.tag, kind, lazy))
            if lazy:
                c.ok(missing not in sys.modules, "?")
        c.sample("%r lazy=%s" % (ks, lazy))
    # those that are not there later on, with another collection
    mc = hs.MarshallerCollection(lazy_loading=lazy, marshallers=ms)
    for i, m in enumerate(ms):
        gone = [n for n in m.required_parent_modules]
        x, has = mc.get_marshaller_for_type("vf.fake.T%d" % i)
        c.ok(x is m and has is (not gone), "lookup gives %r, %r for %s when no module is there any more" % (x, has, m.tag))
        c.ev(("gone", m.tag, lazy))


class Entry:
    """An entry point."""

    def __init__(self, name, module_name, fun):
        self.name, self.module_name, self.fun = name, module_name, fun
        self.calls = []

    def load(self):
        if isinstance(self.fun, Exception):
            raise self.fun
        return self.fun


def do_plugins(c, r):
    versions = r.choice([("1.0",), ("1.0",), ("2.0", "1.0"), ("1.2", "1.1", "1.0")])
    entries, per = [], collections.defaultdict(list)
    seen = []
    for i in range(r.choice([0, 1, 2, 4, 6])):
        ver = r.choice(list(versions) + ["0.9", "3", ""])
        q = r.random()
        ms = [make(r, "%s-%d-%d" % (ver, i, j)) for j in range(r.choice([0, 1, 2]))]
        if q < 0.65:
            form = r.choice([tuple, list])

            def fun(v, ms=ms, form=form):
                seen.append(v)
                return form(ms)
        elif q < 0.75:
            fun = r.choice([ImportError("gone"), ValueError("broken"), KeyError("x")])
            ms = []
        elif q < 0.82:
            fun, ms = r.choice([5, None, "text"]), []
        elif q < 0.9:
            def fun(v, ms=ms):
                return [5, None] + ms + ["x", M]
        elif q < 0.95:
            def fun(v):
                raise RuntimeError("broken plugin")
            ms = []
        else:
            fun, ms = (lambda v: None), []
        entries.append(Entry(ver, "plugin%d" % i, fun))
        per[ver].append(ms)
    plugin = [m for v in versions for ms in per.get(v, ()) for m in ms]
    user = [make(r, "u%d" % i) for i in range(r.choice([0, 1, 2]))]
    old, oldv = pkg_resources.iter_entry_points, HP.supported_marshaller_api_versions
    groups = []

    def it(group, name=None):
        groups.append(group)
        return iter([e for e in entries if name is None or e.name == name]) if group == "hdf5storage.marshallers.plugins" else iter(())
    try:
        pkg_resources.iter_entry_points = it
        HP.supported_marshaller_api_versions = lambda: versions
        found = HP.find_thirdparty_marshaller_plugins()
        c.ok(set(found) == set(versions), "plugins of the versions %r rather than %r" % (sorted(found), versions))
        for v in versions:
            c.ok([(k, id(e)) for k, e in found[v].items()] == [(e.module_name, id(e)) for e in entries if e.name == v], "wrong plugins for version %s" % v)
        del seen[:]
        load = r.random() < 0.8
        pr = r.choice(PRIO)
        mc = hs.MarshallerCollection(load_plugins=load, priority=pr, marshallers=user, lazy_loading=r.random() < 0.5)
        c.ok(all(v == hs.__version__ for v in seen), "plugins were given the version %r" % (seen,))
        c.ok(load or not seen, "plugins were loaded although they were not asked for")
        plugin = plugin if load else []
        check_all(c, mc, user, plugin, "versions %r" % (versions,))
        mc.clear_marshallers()
        check_all(c, mc, [], plugin, "after clearing")
        mc.remove_marshaller(plugin)
        check_all(c, mc, [], plugin, "after trying to remove plugins")
        extra = make(r, "extra")
        mc.add_marshaller(extra)
        check_all(c, mc, [extra], plugin, "after adding")
    finally:
        pkg_resources.iter_entry_points, HP.supported_marshaller_api_versions = old, oldv
    c.count("plugins", len(plugin))
    c.sample("%d entry points, versions %r, priority %r" % (len(entries), versions, pr))


def do_args(c, r):
    good = M("g", [TYPES[0]], ["vf.T0"], [])
    for kw in (dict(load_plugins=1), dict(load_plugins=None), dict(lazy_loading="yes"), dict(lazy_loading=0), dict(priority=5), dict(priority=None), dict(priority={"builtin", "plugin", "user"}),
               dict(priority=iter(PRIO[0])), dict(marshallers=5), dict(marshallers=None), dict(marshallers=[good, 5]), dict(marshallers="x"), dict(marshallers=M), dict(marshallers=[HM.TypeMarshaller])):
        try:
            hs.MarshallerCollection(**kw)
        except TypeError:
            c.ev(("type", repr(sorted(kw))))
        else:
            c.bad("MarshallerCollection(%r) does not raise TypeError" % kw)
    for p in ((), ("builtin",), ("builtin", "plugin"), ("builtin", "plugin", "plugin"), ("builtin", "plugin", "user", "user"), ("builtin", "plugin", "User"), ["a", "b", "c"], "abc"):
        try:
            hs.MarshallerCollection(priority=p)
        except (ValueError,):
            c.ev(("priority", repr(p)))
        else:
            c.bad("the priority %r does not raise ValueError" % (p,))
    mc = hs.MarshallerCollection(marshallers=good)
    try:
        mc.priority = PRIO[3]
    except AttributeError:
        pass
    check_all(c, mc, [good])


class Evil(list):
    pass


def do_unknown(c, r):
    """Types nobody declares are rejected wherever they are."""
    import decimal
    import enum
    import pathlib
    import types
    import array
    import uuid

    class E(enum.Enum):
        A = 1

    class IE(enum.IntEnum):
        A = 1
    bads = [object(), E.A, IE.A, TYPES[0](), SUBS[0]([1]), SUBS[1](a=1), SUBS[2](3), SUBS[3]("x"), decimal.Decimal("1.5"), pathlib.PurePosixPath("/a"), types.SimpleNamespace(a=1),
            array.array("i", [1]), uuid.UUID(int=5), memoryview(b"abc"), len, lambda: 1, type, int, collections.defaultdict(int), collections.UserDict(), collections.namedtuple("P", "x")(1),
            Evil(), iter([1]), (x for x in [1]), re_(), Exception("x"), np.datetime64("2020-01-01"), np.timedelta64(1, "s"), np.random.RandomState(0)]
    if hasattr(np, "float128"):
        bads += [np.float128(1)]
    b = bads[c.idx % len(bads)]
    kw = dict(matlab_compatible=r.random() < 0.5)
    if kw["matlab_compatible"]:
        kw["action_for_matlab_incompatible"] = r.choice(["error", "ignore", "discard"])
    fn = c.path()
    hs.write([1, [2]], path="/old", filename=fn, matlab_compatible=False)
    before = raw.tree(fn)
    how = r.choice(["top", "list", "deep", "dict", "array", "dictkey"])
    if isinstance(b, np.ndarray) and how == "array":
        how = "top"
    v = {"top": lambda: b, "list": lambda: [1, b], "deep": lambda: [(1, [2, {"x": [b]}])], "dict": lambda: {"a": 1, "b": b}, "array": lambda: objarr(b), "dictkey": lambda: {1: b}}[how]()
    try:
        hs.write(v, path="/new", filename=fn, **kw)
    except hs.exceptions.TypeNotMatlabCompatibleError:
        pass
    except NotImplementedError:
        pass
    except TypeError:
        # what h5py has no type for
        c.ok(isinstance(b, (np.ndarray, np.generic)), "a %s raises TypeError" % type(b).__name__)
    except Exception as e:
        c.bad("writing a %s (%s) raises %r" % (type(b).__name__, how, e), options=kw)
    else:
        c.bad("a %s (%s) could be written although nobody declares it" % (type(b).__name__, how), options=kw)
    d = raw.diff(raw.canon(before.items["old"]), raw.canon(raw.tree(fn).items["old"]))
    c.ok(d is None, "rejecting a %s changed something else: %s" % (type(b).__name__, d))
    c.ev(("unknown", type(b).__name__, how, str(kw)))
    if how == "top":
        with h5py.File(fn, "r") as f:
            c.ok("new" not in f, "something was written for a %s" % type(b).__name__)


def re_():
    import re
    return re.compile("a")


def objarr(b):
    a = np.empty(2, dtype=object)
    a[0], a[1] = 1, b
    return a


def do_default(c, r):
    """The default collection, which is replaced as a whole."""
    old = hs.get_default_marshaller_collection()
    o1 = hs.Options()
    try:
        c.ok(o1.marshaller_collection is old, "Options do not use the default collection")
        m = make(r, "d")
        pr = r.choice(PRIO)
        hs.make_new_default_marshaller_collection(priority=pr, marshallers=[m], lazy_loading=True)
        new = hs.get_default_marshaller_collection()
        c.ok(new is not old, "the default collection was not replaced")
        check_all(c, new, [m], what="new default")
        check_all(c, old, [], what="old default")
        c.ok(o1.marshaller_collection is old, "the collection of existing Options was replaced")
        c.ok(hs.Options().marshaller_collection is new, "new Options do not use the new default collection")
        mine = hs.MarshallerCollection()
        c.ok(hs.Options(marshaller_collection=mine).marshaller_collection is mine, "the collection given is not used")
        try:
            hs.make_new_default_marshaller_collection(priority=5)
        except TypeError:
            pass
        else:
            c.bad("an invalid default collection could be made")
        c.ok(hs.get_default_marshaller_collection() is new, "the default collection was lost when making an invalid one")
        t = TYPES[2]
        src, w = winner(order(new, [m]), "type", tname(t))
        fn = c.path()
        del LOG[:]
        try:
            hs.write(t(), path="/x", filename=fn)
        except NotImplementedError:
            c.ok(src is None, "the default collection is not used")
        else:
            c.ok(src == "user" and LOG == [("write", "d")], "the default collection is not used")
        c.ev(("default", pr))
        hs.make_new_default_marshaller_collection(lazy_loading=True)
        check_all(c, hs.get_default_marshaller_collection(), [], what="default again")
    finally:
        hs.make_new_default_marshaller_collection(lazy_loading=True)
