"""P16: the calling styles are equivalent."""
import collections
import os
import pathlib
import types

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work

ID = "P16"
TITLE = "calling styles"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (metamorphic): the same work is done through every calling style; raw dumps of the files and the values read are compared with each other, invalid batches are checked to leave the bytes alone"
LEVEL_NOTE = "batches of paths and values, calling styles and ways to pass the options are sampled; per case at least three write styles and all read styles run"
RULE = "one evaluation = one calling style compared with the first one by raw content or by the values read, or one invalid batch; distinct = (styles, structure of the values, options)"
ASSUMPTIONS = ["h5py reports what is in the file"]


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("write", 700 * k), ("read", 500 * k), ("invalid", 700 * k), ("args", 120 * k), ("defaults", 500 * k), ("nested", 700 * k)]


class Map(collections.abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def opener(r, fn, kw, writable=True, **k):
    """Opens a File in one of the ways to give options."""
    q = r.randrange(4)
    if q == 0:
        return hs.File(fn, writable=writable, **k, **kw)
    if q == 1:
        return hs.File(fn, writable=writable, options=hs.Options(**kw), **k)
    if q == 2:
        return hs.File(filename=fn, writable=writable, options=hs.Options(**kw), **k)
    # setting them one by one
    o = hs.Options(matlab_compatible=False)
    e = opts.effective(kw)
    for a in r.sample(sorted(e), len(e)):
        if a != "matlab_compatible":
            setattr(o, a, e[a])
    if e["matlab_compatible"]:
        o.matlab_compatible = True
    return hs.File(fn, writable=writable, options=o, **k)


def wstyles(r, fn, kw, items):
    d = dict(items)
    odict = hs.Options(**kw)

    def module_writes():
        hs.writes(d, filename=fn, **kw)

    def module_writes_options():
        hs.writes(types.MappingProxyType(d), filename=fn, options=odict)

    def module_writes_mapping():
        hs.writes(Map(d), filename=fn, options=odict)

    def module_write_each():
        for p, v in items:
            hs.write(v, path=p, filename=fn, truncate_existing=False, **kw)

    def module_write_each_options():
        for p, v in items:
            hs.write(v, p, filename=fn, options=odict)

    def file_set():
        with opener(r, fn, kw) as f:
            for p, v in items:
                f[p] = v

    def file_update():
        with opener(r, fn, kw) as f:
            f.update(items if r.random() < 0.5 else d)

    def file_writes():
        with opener(r, fn, kw) as f:
            f.writes(d if r.random() < 0.5 else Map(d))

    def file_write():
        with opener(r, fn, kw) as f:
            for p, v in items:
                if r.random() < 0.5:
                    f.write(v, p)
                else:
                    f.write(data=v, path=p)

    def file_setdefault():
        with opener(r, fn, kw) as f:
            for p, v in items:
                f.setdefault(p, v)

    def file_sessions():
        for p, v in items:
            with opener(r, fn, kw) as f:
                f[p] = v
                if r.random() < 0.3:
                    f.flush()

    def file_sub_batches():
        i = r.randrange(len(items) + 1)
        with opener(r, fn, kw) as f:
            f.writes(dict(items[:i]))
            f.writes(dict(items[i:]))

    def default_name():
        old = os.getcwd()
        os.chdir(os.path.dirname(fn))
        try:
            hs.writes(d, **kw)
            os.rename("data.h5", fn)
        finally:
            os.chdir(old)
    return [x for x in locals().values() if isinstance(x, types.FunctionType)]


PATHS = ["/a", "b", "/g/x", "/g/y", "g/h/z", b"/bytes", b"g/b", ("t", "u"), ("t", "a/b"), (b"q", "\u4e00"), pathlib.PurePosixPath("/p/p"), pathlib.PurePosixPath("pp"), "/#", "//dd//e/", "./k/../l", ("..",), ("",) + ("e",)]
PATHS.pop()


def batch(c, n=None):
    r = c.r
    kw, g = work.make(c, maxdepth=2)
    if not kw["matlab_compatible"]:
        kw["delete_unused_variables"] = True
    ps = r.sample(PATHS, n or r.choice([1, 2, 3, 5]))
    items = [(p, g.value()) for p in ps]
    for p, v in items:
        c.note("%r <- %s" % (p, same.short(v, 800)))
    c.note("options %r" % kw)
    return kw, items


def dump(fn, kw):
    refs = opts.effective(kw)["group_for_references"].strip("/")
    return raw.canon(raw.tree(fn), skip=(refs,))


def names(p):
    """The place a path leads to."""
    if isinstance(p, tuple):
        return tuple(expect.esc(x.decode("utf-8") if isinstance(x, bytes) else x) for x in p)
    p = p.decode("utf-8") if isinstance(p, bytes) else str(p)
    out = []
    for x in p.split("/"):
        if x == "..":
            out and out.pop()
        elif x not in ("", "."):
            out.append(x)
    return tuple(out)


def run(c):
    r = c.r
    k = c.kind
    if k == "write":
        kw, items = batch(c)
        st = wstyles(r, c.path("x.h5"), kw, items)
        idx = r.sample(range(len(st)), 3)
        base = None
        done = []
        for i in idx:
            fn = c.path("f%d.h5" % i)
            fun = wstyles(r, fn, kw, items)[i]
            fun()
            d = dump(fn, kw)
            done.append(fun.__name__)
            if base is None:
                base = d
                # and everything is where it belongs
                t = raw.tree(fn)
                for p, v in items:
                    c.ok(raw.get(t, names(p)) is not None, "there is nothing at %r after %s" % (p, fun.__name__), options=kw)
                continue
            x = raw.diff(base, d)
            c.ok(x is None, "%s gives another file than %s: %s" % (fun.__name__, done[0], x), options=kw)
            c.ev((done[0], fun.__name__, tuple(work.shape_sig(v) for _, v in items), opts.sig(kw)))
            c.count("style " + fun.__name__)
        c.sample("%s on %d paths" % (done, len(items)))
    elif k == "read":
        kw, items = batch(c)
        fn = c.path()
        hs.writes(dict(items), filename=fn, **kw)
        o = hs.Options(**kw)
        ps = [r.choice(items)[0] for _ in range(r.choice([1, 2, 4, 6]))]
        lax = same.group_stored(opts.effective(kw))
        vals = {repr(p): v for p, v in items}
        want = [vals[repr(p)] for p in ps]
        with opener(r, fn, kw, writable=r.random() < 0.3) as f:
            got = {
                "File.reads list": f.reads(list(ps)), "File.reads tuple": f.reads(tuple(ps)), "File.reads iterator": f.reads(iter(ps)), "File.reads generator": f.reads(p for p in ps),
                "getitem": [f[p] for p in ps], "File.read": [f.read(p) for p in ps], "get": [f.get(p) for p in ps],
            }
            deq = collections.deque(ps)
            got["File.reads deque"] = f.reads(deq)
        if not kw["matlab_compatible"]:
            # what the module functions read with unless told otherwise
            kw2 = {a: b for a, b in kw.items() if a != "matlab_compatible"}
            got.update({
                "reads kw default": hs.reads(list(ps), filename=fn, **kw2), "read kw default": [hs.read(p, filename=fn, **kw2) for p in ps],
                "reads kw options=None": hs.reads(list(ps), filename=fn, options=None, **kw2), "read kw options=None": [hs.read(p, filename=fn, options=None, **kw2) for p in ps],
            })
        got.update({
            "reads kw": hs.reads(list(ps), filename=fn, **kw), "reads options": hs.reads(tuple(ps), filename=fn, options=o), "read kw": [hs.read(p, filename=fn, **kw) for p in ps],
            "read options": [hs.read(path=p, filename=fn, options=o) for p in ps], "reads iterator": hs.reads(iter(ps), filename=fn, options=o),
        })
        for n, v in got.items():
            c.ok(type(v) is list and len(v) == len(ps), "%s gives %d values for %d paths" % (n, len(v), len(ps)))
            for p, a, b in zip(ps, want, v):
                d = same.same(a, b, lax)
                c.ok(d is None, "%s gives another value for %r: %s" % (n, p, d), options=kw, paths=ps)
            c.ev((n, len(ps), len(set(map(repr, ps))), tuple(work.shape_sig(v) for v in want), opts.sig(kw)))
        c.ok(hs.reads([], filename=fn, options=o) == [], "reading no path does not give an empty list")
        c.count("read styles", len(got))
        c.sample("%r" % ps)
    elif k == "nested":
        nested(c)
    elif k == "invalid":
        invalid(c)
    elif k == "defaults":
        defaults(c)
    else:
        args(c)


NESTED = ["/a", "a", b"/a", ("a",), "/a/b", "a/b", ("a", "b"), "/a/b/c", "/a/b/c/d", "a/c", "/z/../a", "/A", "/a/", "/0", "0/a", "/0/a/b", ("a", "b/c")]


def nested(c):
    """Batches of which some paths are the same, or in each other, so that
    the order matters."""
    r = c.r
    kw, g = work.make(c, maxdepth=1)
    ps = r.sample(NESTED, r.choice([2, 3, 4, 6]))
    items = []
    for p in ps:
        if r.random() < 0.6:
            v = {n: r.choice([1, "s", [1], {"d": 2}, {"c": {"d": "e"}}]) for n in r.sample(["b", "c", "d", "a", "b/c", "x"], r.randrange(4))}
        else:
            v = g.value()
        items.append((p, v))
        c.note("%r <- %s" % (p, same.short(v, 500)))
    c.note("options %r" % kw)
    st = [x.__name__ for x in wstyles(r, "", kw, items)]
    st.remove("file_setdefault")
    base = None
    for n in r.sample(st, 4):
        fn = c.path(n + ".h5")
        fun = [x for x in wstyles(r, fn, kw, items) if x.__name__ == n][0]
        how, e = outcome(fun)
        if not os.path.exists(fn):
            fn = c.path("data.h5")
        d = dump(fn, kw)
        res = e if how == "error" else None
        if base is None:
            base, first, bres = d, n, res
            continue
        c.ok(res is bres, "%s ends with %s, %s with %s" % (n, res, first, bres), options=kw)
        x = raw.diff(base, d)
        c.ok(x is None, "%s gives another file than %s for paths in each other: %s" % (n, first, x), options=kw, paths=ps)
        c.ev(("nested", first, n, tuple(map(repr, ps)), str(res)))
    c.count("nested " + ("fails" if bres else "works"))


def outcome(fun):
    try:
        return "value", fun()
    except Exception as e:
        return "error", type(e)


def defaults(c):
    """The same with no or few options given."""
    r = c.r
    kw, items = batch(c)
    few = {a: b for a, b in kw.items() if r.random() < 0.15 and a not in ("matlab_compatible", "group_for_references")}
    if r.random() < 0.5:
        few = {}
    given = [few, dict(few, options=None), dict(few, matlab_compatible=True), dict(few, matlab_compatible=True, options=None), {"options": hs.Options(**few)}, {"options": hs.Options(**dict(few, matlab_compatible=True))}]
    st = []
    for g in given:
        st += [("write %r" % g, lambda fn, g=g: [hs.write(v, p, filename=fn, **g) for p, v in items]), ("writes %r" % g, lambda fn, g=g: hs.writes(dict(items), filename=fn, **g)), ("File %r" % g, lambda fn, g=g: infile(fn, g, items))]
    base = None
    for i, (n, fun) in enumerate(r.sample(st, 5)):
        fn = c.path("d%d.h5" % i)
        how, e = outcome(lambda: fun(fn))
        d = (how, e if how == "error" else None, dump(fn, few) if how == "value" else None)
        if base is None:
            base, first = d, n
            continue
        c.ok(d[:2] == base[:2], "%s ends with %r, while %s ends with %r" % (n, d[:2], first, base[:2]))
        x = raw.diff(base[2], d[2])
        c.ok(x is None, "%s gives another file than %s: %s" % (n, first, x))
        c.ev((first, n))
    fn = c.path("r.h5")
    hs.writes(dict(items), filename=fn, **kw)
    ps = [p for p, v in items]
    no = dict(few, matlab_compatible=False)
    given = [few, dict(few, options=None), no, dict(no, options=None), {"options": hs.Options(**no)}]
    ways = []
    for g in given:
        ways += [("read %r" % g, lambda g=g: [hs.read(p, filename=fn, **g) for p in ps]), ("reads %r" % g, lambda g=g: hs.reads(ps, filename=fn, **g))]
    ways += [("File", lambda: fromfile(fn, no, ps)), ("File Options", lambda: fromfile(fn, {"options": hs.Options(**no)}, ps))]
    # and what Files use unless told otherwise
    yes = dict(few, matlab_compatible=True)
    for group in (ways, [("File %r" % g, lambda g=g: fromfile(fn, g, ps)) for g in (few, dict(few, options=None), yes, {"options": hs.Options(**few)})] + [("read %r" % yes, lambda: [hs.read(p, filename=fn, **yes) for p in ps]), ("reads options", lambda: hs.reads(ps, filename=fn, options=hs.Options(**few)))]):
        base = None
        for n, fun in r.sample(group, min(6, len(group))):
            got = outcome(fun)
            if base is None:
                base, first = got, n
                continue
            c.ok(got[0] == base[0] and (got[0] == "value" or got[1] is base[1]), "%s ends with %s, while %s ends with %s" % (n, same.short(got), first, same.short(base)))
            if got[0] == "value":
                x = same.same(base[1], got[1], None)
                c.ok(x is None, "%s reads something else than %s: %s" % (n, first, x))
            c.ev((first, n))


def infile(fn, g, items):
    with hs.File(fn, writable=True, **g) as f:
        for p, v in items:
            f[p] = v


def fromfile(fn, g, ps):
    with hs.File(fn, **g) as f:
        return [f[p] for p in ps]


def invalid(c):
    r = c.r
    kw, items = batch(c, r.choice([1, 2, 4]))
    refs = opts.effective(kw)["group_for_references"]
    fn = c.path()
    there = r.random() < 0.7
    if there:
        hs.writes({"/old": [1, [2]], items[0][0]: "old"}, filename=fn, **kw)
    bad = r.choice([None, 3, 2.5, ("a", 4), frozenset(["a"]), refs, refs + "/b", refs[1:] + "/x", "/q/.." + refs, refs.encode("utf-8"), tuple(refs[1:].split("/")), pathlib.PurePosixPath(refs + "/x"), object(), b"\xff\xfe", ("a", b"\xff")])
    pos = r.randrange(len(items) + 1)
    batch_ = items[:pos] + [(bad, r.choice([1, [1]]))] + items[pos:]
    d = dict(batch_)
    before = dump(fn, kw) if there else None
    how = r.choice(["writes", "File.writes", "mapping", "two"])
    try:
        if how == "writes":
            hs.writes(d, filename=fn, **kw)
        elif how == "mapping":
            hs.writes(Map(d), filename=fn, options=hs.Options(**kw))
        else:
            with opener(r, fn, kw) as f:
                if how == "two":
                    try:
                        f.writes(d)
                    finally:
                        c.ok(not there or "/old" in f, "an invalid batch lost something")
                        if not there:
                            c.ok(len(f) == 0, "an invalid batch wrote %r" % list(f))
                else:
                    f.writes(d)
    except (TypeError, ValueError):
        pass
    else:
        c.bad("a batch with the path %r at %d is accepted" % (bad, pos), options=kw)
    if there:
        x = raw.diff(before, dump(fn, kw))
        c.ok(x is None, "a batch with the invalid path %r at position %d of %d changed the file: %s" % (bad, pos, len(batch_), x), options=kw)
    elif os.path.exists(fn):
        with h5py.File(fn, "r") as f:
            c.ok(len(f) == 0, "a batch with the invalid path %r at position %d of %d wrote %r" % (bad, pos, len(batch_), list(f)), options=kw)
    c.ev((how, repr(bad)[:20], pos, len(batch_), there))
    c.count("invalid batches")
    # and for reading
    if there:
        try:
            hs.reads(["/old", bad, items[0][0]], filename=fn, **kw)
        except (TypeError, ValueError):
            c.ev(("read", repr(bad)[:20]))
        else:
            c.bad("reading the path %r does not raise" % (bad,))
    # not a mapping
    for x in ([("/n", 1)], None, 5, "ab", {"/n"}):
        try:
            with opener(r, fn, kw) as f:
                f.writes(x)
        except TypeError:
            c.ev(("not a mapping", type(x).__name__))
        else:
            c.bad("writes accepts a %s" % type(x).__name__)
    if there:
        c.ok(dump(fn, kw) == before, "writes of something that is not a mapping changed the file")


def args(c):
    """Ways to give the options that are not allowed, which must leave
    the file alone."""
    r = c.r
    fn = c.path()
    hs.write([1, [2]], path="/old", filename=fn, matlab_compatible=False)
    before = raw.digest(fn)
    o = hs.Options(matlab_compatible=False)
    bads = [dict(options=o, matlab_compatible=True), dict(options=o, oned_as="row"), dict(options=5), dict(options="x"), dict(options={"matlab_compatible": False}),
            dict(options=o, nosuchoption=1), dict(options=o, options_=None)]
    bad = bads[c.idx % len(bads)]
    calls = [lambda: hs.write(1, path="/new", filename=fn, **bad), lambda: hs.writes({"/new": 1}, filename=fn, **bad), lambda: hs.read("/old", filename=fn, **bad),
             lambda: hs.reads(["/old"], filename=fn, **bad), lambda: hs.File(fn, **bad), lambda: hs.File(fn, writable=True, **bad), lambda: hs.File(fn, writable=True, truncate_existing=True, **bad),
             lambda: hs.write(1, path="/new", filename=fn, truncate_existing=True, **bad)]
    for i, x in enumerate(calls):
        try:
            x()
        except (TypeError, ValueError):
            c.ev((i, repr(sorted(bad))))
        else:
            c.bad("the arguments %r are accepted by call %d" % (bad, i))
        c.ok(raw.digest(fn) == before, "a call with the invalid arguments %r changed the file" % bad)
    # options are not changed by using them, and later changes do not matter
    kw = opts.gen(r)
    o = hs.Options(**kw)
    was = {x: getattr(o, x) for x in opts.DEFAULTS}
    f2 = c.path("o.h5")
    with hs.File(f2, writable=True, options=o) as f:
        o2 = hs.Options(**kw)
        o.matlab_compatible = not o.matlab_compatible
        o.store_python_metadata = not o.store_python_metadata
        o.group_for_references = "/other"
        o.complex_names = ("q", "w")
        o.structs_as_dicts = True
        f["/x"] = {"a": 1 + 2j, "b": [1, "x"]}
    f3 = c.path("p.h5")
    with hs.File(f3, writable=True, options=o2) as f:
        f["/x"] = {"a": 1 + 2j, "b": [1, "x"]}
    c.ok(dump(f2, kw) == dump(f3, kw), "changing Options after opening a File changed what it does", options=kw)
    now = {x: getattr(o2, x) for x in opts.DEFAULTS}
    c.ok(now == was, "using Options changed them", options=kw)
    c.ev(("own copy", opts.sig(kw)))
