"""P21: savemat and loadmat against their documentation."""
import collections
import inspect
import os
import random
import shutil
import sys
import types

import h5py
import numpy as np

from vf.env import hs
from vf import conform, expect, gen, opts, raw, refread, same, work

ID = "P21"
TITLE = "savemat and loadmat"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (model based): histories of savemat and loadmat calls over several files are followed by a model of the directory; file listings, values, raw contents, headers and calls to a stand-in of SciPy that records its arguments are compared with it"
LEVEL_NOTE = "histories of names, values, extensions, orientations, metadata, truncation, selections, given dicts and options are sampled; errors by every kind of invalid argument"
RULE = "one evaluation = one variable loaded or found in a file compared with the model, or one rejected or dispatched call; distinct = (arguments, structure of the value)"
ASSUMPTIONS = ["SciPy is not installed: only what is passed on to it is observed, with a stand-in"]

LAX = same.group_stored({})
META = hs.exceptions.TypeNotMatlabCompatibleError


def plan(tier):
    k = 14 if tier == "thorough" else 2
    return [("hist", 900 * k), ("invalid", 700 * k), ("scipy", 500 * k), ("unread", 300 * k), ("structs", 400 * k)]


def run(c):
    globals()["do_" + c.kind](c)


def value(r, g):
    k = r.random()
    if k < 0.25:
        return np.array([r.choice([0, 1, -2.5, 7]) for _ in range(r.choice([0, 1, 2, 5]))], dtype=r.choice(["f8", "i4", "u1", "f4", "?"]))
    return g.value()


def pick(r, used):
    """A path and the name it has as a variable."""
    k = r.random()
    if used and k < 0.4:
        n = r.choice(sorted(used))
    else:
        n = gen.name(r)
        if n == "#refs#":
            n = "refs"
    return n


def keyfor(r, n):
    """A key for the variable with that name."""
    e = expect.esc(n)
    k = r.randrange(6)
    if k == 0:
        return (n,)
    if k == 1:
        return "/" + e
    if k == 2:
        return e.encode("utf-8")
    return e


def do_hist(c):
    r = c.r
    d = c.tmp
    files = {}  # name on disk -> {variable: (value, effective options)}
    for step in range(r.randrange(2, 6)):
        base = r.choice(["f", "f", "g", "h.mat", "f.mat", "x.MAT", "x.mat.h5", "mat", ".mat", "a b\u00e9", "f.matx"])
        app = r.random() < 0.6
        disk = base + ".mat" if app and not base.endswith(".mat") else base
        given = os.path.join(d, base)
        if r.random() < 0.6 or not files:
            save(c, files, given, disk, app)
        else:
            load(c, files, given, disk, app)
        # nothing else shows up
        have = set(os.listdir(d))
        c.ok(have == set(files), "files are %r instead of %r" % (sorted(have), sorted(files)))
    # A look at everything in the end.
    for disk in files:
        load(c, files, os.path.join(d, disk), disk, False, True)


def save(c, files, given, disk, app):
    r = c.r
    meta = r.random() < 0.6
    ori = r.choice(["row", "column"])
    act = r.choice(["error", "error", "discard", "ignore"])
    trunc = r.random() < 0.3
    e = opts.effective(dict(matlab_compatible=True, store_python_metadata=meta, oned_as=ori, action_for_matlab_incompatible=act))
    g = gen.Gen(r, matlab=True, maxdepth=2, deny=("void",))
    old = {} if trunc else files.get(disk, {})
    md, models = collections.OrderedDict(), {}
    names = set()
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        n = pick(r, set(old))
        if n in names:
            continue
        names.add(n)
        v = r.choice([np.float16(2), np.zeros((2,), "f2")]) if act == "discard" and r.random() < 0.3 else value(r, g)
        m = expect.model(v, e)
        md[keyfor(r, n)] = v
        models[n] = (v, m)
    kw = {}
    for k, v, default in (("appendmat", app, True), ("oned_as", ori, "row"), ("store_python_metadata", meta, True), ("action_for_matlab_incompatible", act, "error"), ("truncate_existing", trunc, False)):
        if v != default or r.random() < 0.5:
            kw[k] = v
    if r.random() < 0.4:
        kw["format"] = r.choice(["7.3", "7.3", 7.3])
    if r.random() < 0.1:
        kw["marshaller_collection"] = hs.MarshallerCollection()
    if r.random() < 0.2:
        kw["truncate_invalid_matlab"] = r.random() < 0.5
    if r.random() < 0.1:
        kw["do_compression"] = True  # for SciPy
    c.note("savemat(%r, %s, %r)" % (given, same.short(dict(md), 800), kw))
    ret = hs.savemat(given, dict(md) if r.random() < 0.5 else md, **kw)
    c.ok(ret is None, "savemat gives %r" % (ret,))
    fn = os.path.join(c.tmp, disk)
    c.ok(os.path.exists(fn), "savemat(%r, appendmat=%r) did not make %r" % (given, app, disk))
    new = dict(old)
    for n, (v, m) in models.items():
        if m is not None:
            new[n] = (v, m, e)
        c.ev(("saved", work.shape_sig(v), meta, ori, act, trunc, m is None))
    files[disk] = new
    h = conform.header(fn)
    c.ok(h is None, "MATLAB header: %s" % h)
    t = raw.tree(fn)
    have = set(t.items) - {"#refs#"}
    c.ok(have == {expect.esc(n) for n in new}, "the file has %r rather than %r" % (sorted(have), sorted(expect.esc(n) for n in new)))
    for n, (v, m, e0) in new.items():
        cm = expect.Cmp(e0)
        q = cm.cmp(m, raw.get(t, [expect.esc(n)]), None, "$")
        c.ok(not q, "variable %r differs from the storage format: %s" % (n, q), value=same.short(v, 600), options=e0)
        c.ev(n=cm.nodes)


def load(c, files, given, disk, app, final=False):
    r = c.r
    fn = os.path.join(c.tmp, disk)
    kw = {}
    if not app or r.random() < 0.5:
        kw["appendmat"] = app
    if disk not in files:
        try:
            x = hs.loadmat(given, **kw)
        except ImportError:
            c.ev(("missing", app))
        else:
            c.bad("a file that does not exist is loaded", got=same.short(x))
        return
    want = files[disk]
    sel = None
    e = opts.effective({})
    if r.random() < 0.4 and not final:
        sel = []
        for _ in range(r.choice([0, 1, 2, 3])):
            sel.append(keyfor(r, pick(r, set(want)) if r.random() < 0.7 else gen.name(r).replace("#refs#", "q")))
        kw["variable_names"] = r.choice([list, tuple])(sel)
    elif r.random() < 0.3:
        kw["variable_names"] = None
    given_md = None
    if r.random() < 0.4:
        given_md = r.choice([dict, collections.OrderedDict])()
        for n in r.sample(sorted(want), r.randrange(0, len(want) + 1)) + ["other", 5]:
            given_md[n] = object()
        kw["mdict"] = given_md
    keep = dict(given_md) if given_md is not None else {}
    k = r.randrange(6)
    if k == 0:
        kw["options"] = hs.Options()
    elif k == 1:
        kw["options"] = hs.Options(structs_as_dicts=False, matlab_compatible=r.random() < 0.5)
    elif k == 2:
        kw["marshaller_collection"] = hs.MarshallerCollection()
    elif k == 3:
        kw["options"] = None
    before = raw.digest(fn)
    c.note("loadmat(%r, %r)" % (given, kw))
    got = hs.loadmat(given, **kw)
    c.ok(raw.digest(fn) == before, "loadmat changed the file")
    if given_md is not None:
        c.ok(got is given_md, "loadmat does not give the dict that it was given")
    else:
        c.ok(type(got) is dict, "loadmat gives a %s" % type(got))
    exp = {}
    if sel is None:
        exp = {n: n for n in want}
    else:
        for s in sel:
            n = name_of(s)
            if n in want:
                exp[s] = n
    c.ok(set(got) == set(keep) | set(exp), "loadmat gives the names %r" % sorted(map(repr, got)), want=sorted(map(repr, set(keep) | set(exp))))
    for k in keep:
        if k not in exp:
            c.ok(got[k] is keep[k], "the given dict's %r was changed" % (k,))
    with h5py.File(fn, "r") as f:
        for k, n in exp.items():
            v, m, e0 = want[n]
            if e0["store_python_metadata"] and e0["action_for_matlab_incompatible"] != "ignore":
                q = same.same(v, got[k], LAX)
                c.ok(q is None, "variable %r comes back as something else: %s" % (n, q), value=same.short(v, 600), got=same.short(got[k], 600))
            elif not e0["store_python_metadata"]:
                ro = opts.effective({})
                if kw.get("options"):
                    ro = {x: getattr(kw["options"], x) for x in opts.DEFAULTS}
                q = refread.diff(refread.read(f, f[expect.esc(n)], ro, expect.unesc), refread.norm(got[k]))
                c.ok(q is None, "variable %r is not what MATLAB has there: %s" % (n, q), value=same.short(v, 600), got=same.short(got[k], 600))
            c.ev(("loaded", work.shape_sig(v), e0["store_python_metadata"], e0["oned_as"], sel is None, given_md is None))
            c.count("variables loaded")


def name_of(k):
    if isinstance(k, tuple):
        return k[0]
    if isinstance(k, bytes):
        k = k.decode("utf-8")
    return expect.unesc(k.strip("/"))


BADFMT = ["", "x", "7.3x", "v7.3", None, [], b"\xff", "7,3", {}, ()]


def do_invalid(c):
    """Invalid arguments: an error and nothing changed."""
    r = c.r
    fn = c.path("f.mat")
    g = gen.Gen(r, matlab=True, maxdepth=2, deny=("void",))
    old = {"a": value(r, g), "b": value(r, g), "c": np.arange(3)}
    hs.savemat(fn, old)
    before = raw.canon(raw.tree(fn))
    k = r.randrange(8)
    good = {"n": 1, "a": 2}
    if k == 0:
        args, kw, err = (fn, good), {"format": r.choice(BADFMT)}, (ValueError, TypeError)
    elif k == 1:
        args, kw, err = (fn, r.choice([None, 3, [("a", 1)], "a", {"a"}, iter([("a", 1)]), (("a", 1),)])), {}, (TypeError,)
    elif k == 2:
        bad = dict(good)
        bad[r.choice([3, None, 1.5, (3,), ("a", None), frozenset("q"), object(), True])] = 4
        items = list(bad.items())
        r.shuffle(items)
        args, kw, err = (fn, dict(items)), {}, (TypeError,)
    elif k == 3:
        bad = {"n": 1, r.choice(["#refs#", "/#refs#/a", "#refs#/b/c", ("#refs#", "q"), b"#refs#", "x/../#refs#"]): 4}
        args, kw, err = (fn, bad), {}, (ValueError,)
    elif k == 4:
        # not compatible with MATLAB
        w = r.choice([np.float16(2), np.zeros((2, 2), "f2"), [1, np.float16(3)], {"x": {"y": np.zeros((1,), "f2")}}, np.array([np.float16(3), None], dtype=object)])
        args, kw, err = (fn, {"zz": w}), r.choice([{}, {"action_for_matlab_incompatible": "error"}, {"store_python_metadata": False}]), (META,)
    elif k == 5:
        w = r.choice([object(), [1, object()], {"a": object()}, lambda: 0, np.array([1, object()], dtype=object), type, iter([])])
        args, kw, err = (fn, {"zz": w}), {}, (NotImplementedError,)
    elif k == 7:
        args, kw, err = (r.choice([fn.encode("utf-8"), None, 3, ["f.mat"]]), good), {}, (TypeError,)
    else:
        args, kw, err = (fn, good), r.choice([{"truncate_existing": 1}, {"truncate_existing": "yes"}, {"truncate_existing": None}, {"truncate_invalid_matlab": 0}, {"truncate_invalid_matlab": None}]), (TypeError,)
    c.note("savemat(*%r, **%r)" % (args, kw))
    try:
        hs.savemat(*args, **kw)
    except err:
        pass
    except Exception as e:
        c.bad("savemat raises %r instead of %s" % (e, [x.__name__ for x in err]), args=args, kw=kw)
    else:
        c.bad("savemat accepts invalid arguments", args=repr(args), kw=repr(kw))
    c.ok(os.listdir(c.tmp) == ["f.mat"], "other files showed up: %r" % os.listdir(c.tmp))
    t = raw.canon(raw.tree(fn))
    if k in (4, 5):
        got = hs.loadmat(fn)
        for n in old:
            q = same.same(old[n], got[n], LAX)
            c.ok(q is None, "variable %r was damaged: %s" % (n, q))
        c.ok(set(got) <= set(old) | {"zz"}, "there are other variables: %r" % sorted(got))
    else:
        q = raw.diff(before, t)
        c.ok(q is None, "the file was changed by a call with invalid arguments: %s" % q, args=repr(args), kw=repr(kw))
    c.ev(("invalid", k, repr(kw) if k in (0, 6) else ""))
    # loadmat
    k = r.randrange(3)
    before = raw.digest(fn)
    md = {"keep": 1}
    if k == 0:
        args, kw, err = (fn,), {"variable_names": ["a", r.choice([3, None, 2.5, object()])], "mdict": md}, (TypeError,)
    elif k == 1:
        args, kw, err = (fn,), {"variable_names": ["a", r.choice(["#refs#", "#refs#/a", b"/#refs#", ("#refs#", "b"), "a/../#refs#/a"])], "mdict": md}, (ValueError,)
    else:
        args, kw, err = (fn,), {"options": r.choice([3, "x", {}, hs.Options]), "mdict": md}, (TypeError, AttributeError)
    try:
        hs.loadmat(*args, **kw)
    except err:
        pass
    except Exception as e:
        c.bad("loadmat raises %r instead of %s" % (e, [x.__name__ for x in err]), kw=kw)
    else:
        c.bad("loadmat accepts invalid arguments", kw=repr(kw))
    c.ok(md == {"keep": 1} and raw.digest(fn) == before, "loadmat with invalid arguments changed something", kw=repr(kw), md=repr(md))
    c.ev(("invalid load", k))


class Scipy:
    """A stand-in for scipy.io which records the calls."""

    def __init__(self, result=None, err=None):
        self.calls = []
        self.result, self.err = result, err

    def __enter__(self):
        def rec(name):
            def f(*a, **k):
                self.calls.append((name, a, k))
                if self.err:
                    raise self.err
                return self.result
            return f
        self.old = {k: sys.modules.get(k) for k in ("scipy", "scipy.io")}
        s, i = types.ModuleType("scipy"), types.ModuleType("scipy.io")
        i.savemat, i.loadmat = rec("savemat"), rec("loadmat")
        s.io = i
        s.__path__ = []
        sys.modules["scipy"], sys.modules["scipy.io"] = s, i
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


# the signatures of the functions of SciPy 1.11
def sp_savemat(file_name, mdict, appendmat=True, format="5", long_field_names=False, do_compression=False, oned_as="row"):
    return dict(locals())


def sp_loadmat(file_name, mdict=None, appendmat=True, spmatrix=True, **kwargs):
    return dict(locals())


def bound(fn, a, k):
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    d = dict(b.arguments)
    d.update(d.pop("kwargs", {}))
    return d


def do_scipy(c):
    r = c.r
    k = r.randrange(5)
    base = r.choice(["f", "f.mat", "g.x"])
    fn = c.path(base)
    app = r.random() < 0.5
    extra = r.choice([{}, {"do_compression": True}, {"long_field_names": True}])
    lextra = r.choice([{}, {"struct_as_record": False}, {"squeeze_me": True, "chars_as_strings": False}])
    md = {"a": np.arange(3), "b": object()}
    if k <= 1:
        fmt = r.choice(["4", "5", 5, 4, "5.0", "7.2"])
        ori = r.choice(["row", "column"])
        ff = fn if k == 0 else open(os.path.join(c.tmp, "q"), "wb")
        kw = dict(format=fmt, oned_as=ori, appendmat=app, **extra)
        if r.random() < 0.3:
            kw.update(store_python_metadata=False, truncate_existing=True)
        with Scipy("result") as s:
            hs.savemat(ff, md, **kw)
        if k == 1:
            ff.close()
        c.ok(len(s.calls) == 1 and s.calls[0][0] == "savemat", "savemat with format %r was not passed on: %r" % (fmt, s.calls))
        b = bound(sp_savemat, *s.calls[0][1:])
        want = dict(file_name=ff, mdict=md, appendmat=app, format=fmt, oned_as=ori, long_field_names=False, do_compression=False)
        want.update(extra)
        c.ok(b["file_name"] is ff and b["mdict"] is md, "the file or the dict were not passed on")
        c.ok(all(b[x] == want[x] for x in want if x not in ("file_name", "mdict")) and set(b) == set(want), "passed on %r instead of %r" % (b, want))
        c.ok(not os.path.exists(fn) and not os.path.exists(fn + ".mat"), "the file was written as well")
        c.ev(("savemat", fmt, ori, app, k, tuple(extra)))
        # and without SciPy
        try:
            hs.savemat(fn, md, format=fmt)
        except ImportError:
            c.ev(("savemat", "no SciPy"))
        else:
            c.bad("savemat with format %r and no SciPy does not raise ImportError" % (fmt,))
        c.ok(not os.path.exists(fn) and not os.path.exists(fn + ".mat"), "a file was written without SciPy")
    else:
        # files that are not HDF5
        disk = fn + ".mat" if app and not base.endswith(".mat") else fn
        what = r.choice(["none", "text", "empty", "cut"])
        if what == "text":
            open(disk, "wb").write(b"MATLAB 5.0 MAT-file" + bytes(r.randrange(256) for _ in range(200)))
        elif what == "empty":
            open(disk, "wb").close()
        elif what == "cut":
            hs.savemat(disk, {"a": 1}, appendmat=False)
            b = open(disk, "rb").read()
            open(disk, "wb").write(b[:r.choice([100, 512, 520, 600])])
        names = r.choice([None, ["a"], ("a", "b")])
        mdict = r.choice([None, {"z": 1}])
        res = {"res": 1}
        err = r.choice([None, None, FileNotFoundError("x"), NotImplementedError("y")])
        before = open(disk, "rb").read() if what != "none" else None
        with Scipy(res, err) as s:
            try:
                got = hs.loadmat(fn, mdict, appendmat=app, variable_names=names, **lextra)
                c.ok(err is None and got is res, "what SciPy gives is not passed on", got=repr(got))
            except Exception as e:
                c.ok(e is err, "SciPy's %r came out as %r" % (err, e))
        c.ok(len(s.calls) == 1 and s.calls[0][0] == "loadmat", "loadmat of %s was not passed on: %r" % (what, s.calls))
        b = bound(sp_loadmat, *s.calls[0][1:])
        want = dict(file_name=fn, mdict=mdict, appendmat=app, spmatrix=True, variable_names=names)
        want.update(lextra)
        c.ok(b == want and b["mdict"] is mdict, "passed on %r instead of %r" % (b, want))
        c.ok(mdict in (None, {"z": 1}), "the given dict was changed")
        try:
            hs.loadmat(fn, mdict, appendmat=app)
        except ImportError:
            c.ev(("loadmat", "no SciPy", what))
        else:
            c.bad("loadmat of %s without SciPy does not raise ImportError" % what)
        c.ok((open(disk, "rb").read() if os.path.exists(disk) else None) == before, "loadmat changed or made the file")
        c.ev(("loadmat", what, app, names is None, mdict is None, tuple(lextra), type(err).__name__))
    # a good file is never passed on
    ok = c.path("ok.mat")
    with Scipy(None) as s:
        hs.savemat(ok, {"a": 1}, **r.choice([{}, {"format": "7.3"}, {"format": 7.3}, {"format": "8"}]))
        c.ok(hs.loadmat(ok) == {"a": 1} and not s.calls, "a version 7.3 file was passed on to SciPy", calls=s.calls)
    c.ev("not passed on")


def do_unread(c):
    """Variables which are there but cannot be read are not left out."""
    r = c.r
    fn = c.path("f.mat")
    v = np.array([r.random() for _ in range(4000)])
    hs.savemat(fn, {"good": 5, "bad": v, "other": [1]}, store_python_metadata=r.random() < 0.5)
    k = r.randrange(2)
    if k == 0:
        with h5py.File(fn, "r") as f:
            off = f["bad"].id.get_chunk_info(0)
        with open(fn, "r+b") as f:
            f.seek(off.byte_offset + r.randrange(off.size))
            b = f.read(1)
            f.seek(-1, 1)
            f.write(bytes([b[0] ^ r.choice([1, 4, 64, 255])]))
    else:
        with h5py.File(fn, "a") as f:
            del f["bad"]
            f["bad"] = np.arange(3)
            f["bad"].attrs["Python.Type"] = np.bytes_(b"range")
            f["bad"].attrs["Python.numpy.UnderlyingType"] = np.bytes_(b"void")
    md = {"keep": 1}
    for names in (["bad"], ["good", "bad"], ["bad", "nope", "good"], None):
        try:
            got = hs.loadmat(fn, md, variable_names=names)
        except ImportError as e:
            c.bad("a version 7.3 file with an unreadable variable is taken for another format: %r" % e)
        except Exception as e:
            c.count("reported as " + type(e).__name__)
            c.ok(md == {"keep": 1}, "the given dict was changed by a failing loadmat", md=same.short(md))
        else:
            c.ok("bad" in got, "a variable that cannot be read is left out as if it was missing", kind=k, names=names)
            c.bad("something that cannot be read is read", got=same.short(got))
        c.ev((k, repr(names)))
    c.ok(hs.loadmat(fn, variable_names=["good", "nope"]) == {"good": 5}, "the other variables cannot be read anymore")
    c.ev()


def do_structs(c):
    """Conversion of structs and selection inside of them."""
    r = c.r
    fn = c.path("s.mat")
    flds = []
    while len(flds) < r.randrange(1, 4):
        n = gen.name(r)
        if n not in flds:
            flds.append(n)
    g = gen.Gen(r, matlab=True, maxdepth=1, deny=("void",))
    vals = {n: r.choice([5, 2.5, "text", np.arange(3), g.value()]) for n in flds}
    meta = r.random() < 0.5
    hs.savemat(fn, {"s": vals, "x": {"y": {"z": 3.0}}}, store_python_metadata=meta)
    d = hs.loadmat(fn, options=hs.Options(structs_as_dicts=True))
    a = hs.loadmat(fn, options=hs.Options(structs_as_dicts=False))
    if meta:
        # structured arrays inside are converted by structs_as_dicts as well
        simple = all(type(v) in (int, float, str) or type(v) is np.ndarray and v.dtype == int for v in vals.values())
        for x in (a, d) if simple else (a,):
            c.ok(same.same(vals, x["s"], LAX) is None and same.same({"y": {"z": 3.0}}, x["x"], LAX) is None, "a dict comes back as something else", got=same.short(x))
    else:
        c.ok(isinstance(d["s"], dict) and set(d["s"]) == set(flds), "structs_as_dicts does not give the struct as a dict with its fields", got=same.short(d["s"]))
        c.ok(isinstance(a["s"], np.ndarray) and a["s"].dtype.names is not None and set(a["s"].dtype.names) == set(flds) and a["s"].size == 1, "the struct is not a structured array with its fields", got=same.short(a["s"]))
        c.ok(isinstance(d["x"], dict) and isinstance(d["x"]["y"], dict) and np.array_equal(d["x"]["y"]["z"], [[3.0]]), "struct in a struct", got=same.short(d["x"]))
        for n in flds:
            x, y = refread.norm(d["s"][n]), refread.norm(a["s"].reshape(-1)[0][n])
            q = refread.diff(x, y) if not ("rec" in repr(x) or "dict" in repr(x) or "rec" in repr(y)) else None
            c.ok(q is None, "field %r differs between the dict and the structured array: %s" % (n, q), dict=same.short(d["s"][n]), arr=same.short(a["s"].reshape(-1)[0][n]))
    # selecting inside
    n = r.choice(flds)
    p = r.choice([("s", n), "s/" + expect.esc(n), "/s/" + expect.esc(n), ("s/" + expect.esc(n)).encode("utf-8")])
    got = hs.loadmat(fn, variable_names=[p, "x/y/z", "x/q", "s/" + expect.esc(n) + "/nope", "nope/y"])
    c.ok("x/q" not in got and "nope/y" not in got and "x/y/z" in got and p in got, "selecting fields gives %r" % sorted(map(repr, got)), want=repr(p))
    if meta:
        q = same.same(vals[n], got[p], LAX)
        c.ok(q is None and got["x/y/z"] == 3.0, "a selected field is something else: %s" % q)
    c.ev((meta, work.shape_sig(vals)), 4)
