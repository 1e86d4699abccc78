"""P17: failing operations."""
import contextlib
import datetime
import fractions
import os
import pathlib
import re
import shutil
import types

import h5py
import numpy as np

from vf.env import hs
from vf import faults, gen, opts, raw, same, work

import hdf5storage.exceptions as HE

ID = "P17"
TITLE = "failing operations"
LEVEL = "exploration"
TECHNIQUE = "fault injection with runtime monitors: every call of the library into h5py is made to fail in turn, before or after its effect; outcome oracle, raw dumps of everything outside of the path written, and a check that the File and the file can be used further"
LEVEL_NOTE = "all the calls of an operation are enumerated for each sampled operation, with one failure per operation; real device errors below HDF5 are not produced"
RULE = "one evaluation = one operation that failed (or succeeded in spite of the failure) judged with the state it left; distinct = (operation, kind of value, call failing, before or after)"
ASSUMPTIONS = ["a failing HDF5 call raises through h5py, having had either no or its whole effect", "a failure which the library recovers from has to give the whole result"]
TIMEOUT = 120

OTHERS = ("/o1", "/o2", "/g/o3", "/o4")


def worker_init():
    faults.install()


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("write", 70 * k), ("delete", 25 * k), ("read", 90 * k), ("open", 40 * k), ("unsupported", 1200 * k), ("nested", 120 * k), ("badargs", 400 * k), ("incompatible", 500 * k), ("toomany", 16 * k)]


def run(c):
    globals()["do_" + c.kind](c)


def options(c, matlab=None):
    r = c.r
    kw = opts.gen(r, matlab=r.random() < 0.4 if matlab is None else matlab, meta=True)
    kw["action_for_matlab_incompatible"] = "error" if kw["matlab_compatible"] else "ignore"
    if not kw["matlab_compatible"]:
        kw["delete_unused_variables"] = True
    return kw


def generator(c, kw, depth=2):
    e = opts.effective(kw)
    return gen.Gen(c.r, matlab=kw["matlab_compatible"], maxdepth=depth, ustruct=e["structured_numpy_ndarray_as_struct"],
                   deny=("void",) if kw["matlab_compatible"] else ())


def base(c, kw, g):
    """A file holding other values, some with references, and maybe the
    target."""
    fn = c.path("base.h5")
    vals = {"/o1": [1, [2, "x"], None], "/o2": g.value(), "/g/o3": {"a": [1], "b": np.arange(3)}, "/o4": g.value()}
    hs.writes(vals, filename=fn, **kw)
    return fn, vals


def copy(c, fn, name="w.h5"):
    t = c.path(name)
    shutil.copyfile(fn, t)
    return t


def trees(fn, paths=OTHERS):
    t = raw.tree(fn)
    out = {}
    for p in paths:
        n = raw.get(t, p.strip("/").split("/"))
        out[p] = None if n is None else raw.canon(n, p.rsplit("/", 1)[0] or "/")
    return out


def intact(c, f, vals, lax, what, **d):
    """Everything else can be read through f."""
    for p, v in vals.items():
        try:
            w = f[p]
        except Exception as e:
            c.bad("%s made %r unreadable: %r" % (what, p, e), **d)
        x = same.same(v, w, lax)
        c.ok(x is None, "%s changed the value of %r: %s" % (what, p, x), **d)


def calls_of(fun):
    with faults.Plan(None) as s:
        fun()
    return s


def indices(r, n, limit):
    return list(range(n)) if n <= limit else sorted(r.sample(range(n), limit))


def do_write(c):
    r = c.r
    kw = options(c)
    g = generator(c, kw)
    lax = same.group_stored(opts.effective(kw))
    fn, vals = base(c, kw, g)
    target = r.choice(["/t", "/g/t", "/n/e/w", "/o4", "/o2"])
    new = r.choice([g.value, g.value, lambda: [g.value(), [1, None]], lambda: {"a": g.value(), "b": [g.value()]},
                    lambda: np.array([[1, "x"], [None, [2]]], dtype=object)])()
    if target not in vals and r.random() < 0.5:
        old = g.value()
        hs.write(old, path=target, filename=fn, truncate_existing=False, **kw)
    others = {p: v for p, v in vals.items() if p != target}
    before = trees(fn, others)
    how = r.choice(["setitem", "write", "writes", "update"])
    batch = {target: new}
    if how == "writes" and r.random() < 0.5:
        batch["/t2"] = [5, {"q": 1}]

    def op(f):
        if how == "setitem":
            f[target] = new
        elif how == "write":
            f.write(new, target)
        elif how == "writes":
            f.writes(batch)
        else:
            f.update(batch)

    t = copy(c, fn)
    with hs.File(t, writable=True, truncate_existing=False, **kw) as f:
        s = calls_of(lambda: op(f))
    n = s.calls
    c.count("calls of operations into h5py", n)
    c.note("%s %r <- %s; options %r" % (how, target, same.short(new, 1500), kw))
    for i in indices(r, n, 40 if c.tier == "quick" else 150):
        after = r.random() < 0.5
        t = copy(c, fn)
        d = dict(call="%d of %d, %s, %s its effect" % (i, n, s.names[i], "after" if after else "before"), how=how, target=target, options=kw, value=same.short(new, 600))
        f = hs.File(t, writable=True, truncate_existing=False, **kw)
        try:
            failed = None
            with faults.Plan(i, after, r.choice([faults.Injected, faults.InjectedRuntime])) as p:
                try:
                    op(f)
                except Exception as e:
                    failed = e
            if p.fired is None:
                c.count("not reached again")
            c.ok(not f.closed, "a failing write closes the File", **d)
            intact(c, f, others, lax, "a failing write", **d)
            if failed is None:
                c.count("recovered")
                for q, v in batch.items():
                    x = same.same(v, f[q], lax)
                    c.ok(x is None, "a write that met a failing call ended as if it had succeeded, but the value differs: %s" % x, **d)
            else:
                c.count("raised")
                # the target may be anything but looking at it must be safe
                with contextlib.suppress(Exception):
                    f[target]
            # the File can be used further
            again = r.randrange(4)
            if again == 0:
                f[target] = new
            elif again == 1:
                try:
                    del f[target]
                except KeyError:
                    c.ok(target not in f, "an object that is there can't be deleted after a failing write", **d)
                f[target] = new
            elif again == 2:
                f.writes({"/later/x": [1, [2]], target: new})
                c.ok(same.same([1, [2]], f["/later/x"], lax) is None, "a later write after a failing one is wrong", **d)
            else:
                f["/later"] = (1, [2, {"z": None}])
                c.ok(same.same((1, [2, {"z": None}]), f["/later"], lax) is None, "a later write after a failing one is wrong", **d)
            if again != 3:
                x = same.same(new, f[target], lax)
                c.ok(x is None, "writing again after a failing write gives another value: %s" % x, **d)
        except Exception as e:
            if type(e).__name__ in ("Violation",):
                raise
            import traceback
            c.bad("after a failing write, another operation fails: %r" % e, traceback=traceback.format_exc()[-900:], **d)
        finally:
            f.close()
        now = trees(t, others)
        for q in others:
            c.ok(now[q] == before[q], "a failing write changed %r: %s" % (q, raw.diff(before[q], now[q])), **d)
        with hs.File(t, **kw) as f:
            intact(c, f, others, lax, "a failing write and reopening", **d)
            if again != 3:
                x = same.same(new, f[target], lax)
                c.ok(x is None, "after reopening, the value written again differs: %s" % x, **d)
        c.ev(("write", how, type(new).__name__, p.fired, after, failed is None, again))
    c.sample("%s of %s, %d calls into h5py" % (how, same.short(new, 100), n))


def do_delete(c):
    r = c.r
    kw = options(c)
    g = generator(c, kw)
    lax = same.group_stored(opts.effective(kw))
    fn, vals = base(c, kw, g)
    target = r.choice(["/o1", "/g/o3", "/o2"])
    others = {p: v for p, v in vals.items() if p != target}
    before = trees(fn, others)
    how = r.choice(["del", "pop"])

    def op(f):
        if how == "del":
            del f[target]
        else:
            f.pop(target)

    t = copy(c, fn)
    with hs.File(t, writable=True, truncate_existing=False, **kw) as f:
        s = calls_of(lambda: op(f))
    for i in range(s.calls):
        for after in (False, True):
            t = copy(c, fn)
            d = dict(call="%d, %s" % (i, s.names[i]), how=how, target=target, options=kw)
            with hs.File(t, writable=True, truncate_existing=False, **kw) as f:
                failed = None
                with faults.Plan(i, after) as p:
                    try:
                        op(f)
                    except Exception as e:
                        failed = e
                intact(c, f, others, lax, "a failing deletion", **d)
                there = target in f
                if failed is None and there:
                    # a part of a container may be skipped when it's read
                    c.bad("a deletion that failed looks successful", **d)
                if there:
                    x = same.same(vals[target], f[target], lax)
                    c.ok(x is None, "a failing deletion changed its target: %s" % x, **d)
                    del f[target]
                    c.ok(target not in f, "the target can't be deleted after a failing deletion", **d)
            now = trees(t, others)
            for q in others:
                c.ok(now[q] == before[q], "a failing deletion changed %r" % q, **d)
            c.ev(("delete", how, p.fired, after, there))


def pruned(v, w, lax, lost):
    """None if w is v but for fields of dicts that were left out."""
    if isinstance(v, dict) and isinstance(w, dict) and type(v) is type(w):
        for k, x in w.items():
            if k not in v:
                return "there is a key %r" % (k,)
            y = pruned(v[k], x, lax, lost)
            if y:
                return y
        if len(w) < len(v):
            lost.append(1)
        return None
    if type(v) is type(w) and isinstance(v, (list, tuple)):
        if len(v) != len(w):
            return "%d elements became %d" % (len(v), len(w))
        for a, b in zip(v, w):
            y = pruned(a, b, lax, lost)
            if y:
                return y
        return None
    return same.same(v, w, lax)


def do_read(c):
    r = c.r
    kw = options(c)
    lax = same.group_stored(opts.effective(kw))
    g = generator(c, kw)
    g0 = generator(c, kw)
    simple = [lambda: [1, ["a", None, (2.5, b"x")], {"k1", 2}], lambda: "text \u00e9", lambda: np.arange(12).reshape(3, 4), lambda: np.arange(3) * 1j,
              lambda: np.array([[1, "x"], [None, [2]]], dtype=object), lambda: {"a": 1, "b": [1, 2], "c": {"d": "x"}}, lambda: None, lambda: np.zeros((0, 3)),
              lambda: 10 ** 40, lambda: np.array(["ab", "c"]), lambda: [{"a": {"b": [1]}}, {"c": 2}], lambda: True, lambda: np.array([True, False]), lambda: b"bytes",
              lambda: slice(1, 2, 3), lambda: range(4), lambda: fractions.Fraction(3, 4), lambda: datetime.timedelta(3), lambda: [range(3)], lambda: np.dtype("i4"), lambda: np.float32(1.5), lambda: []]
    vals = {"/v%d" % i: x() for i, x in enumerate(r.sample(simple, 3))}
    fn = c.path()
    hs.writes(vals, filename=fn, **kw)
    target = r.choice(sorted(vals))
    how = r.choice(["getitem", "read", "reads", "get", "values"])

    def op(f):
        if how == "getitem":
            return [f[target]]
        if how == "read":
            return [f.read(target)]
        if how == "get":
            return [f.get(target, NOTHING)]
        if how == "reads":
            return f.reads(list(vals))
        return list(f.values())

    want = [vals[target]] if how in ("getitem", "read", "get") else [vals[p] for p in sorted(vals)]
    want = want if how != "reads" else list(vals.values())
    with hs.File(fn, **kw) as f:
        s = calls_of(lambda: op(f))
        n = s.calls
        for i in indices(r, n, 60):
            after = r.random() < 0.5
            d = dict(call="%d of %d, %s" % (i, n, s.names[i]), how=how, options=kw, values=same.short(want, 500))
            failed = None
            with faults.Plan(i, after, r.choice([faults.Injected, faults.InjectedRuntime])) as p:
                try:
                    got = op(f)
                except Exception as e:
                    failed = e
            lost = []
            if failed is None:
                c.ok(len(got) == len(want), "a failing read gives %d rather than %d values" % (len(got), len(want)), **d)
                for v, w in zip(want, got):
                    x = pruned(v, w, lax, lost)
                    c.ok(x is None, "a read that met a failing call gives another value rather than raising: %s" % x, **d)
            c.count("raised" if failed is not None else "parts left out" if lost else "recovered")
            c.ok(not f.closed, "a failing read closes the File")
            intact(c, f, vals, lax, "a failing read", **d)
            c.ev(("read", how, p.fired, after, failed is None, bool(lost)))


NOTHING = object()


def opened(fn):
    """Whether this process has fn open."""
    fn = os.path.realpath(fn)
    for x in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            if os.path.realpath("/proc/self/fd/" + x) == fn:
                return True
    return False


def do_open(c):
    r = c.r
    kw = options(c)
    g = generator(c, kw)
    lax = same.group_stored(opts.effective(kw))
    fn, vals = base(c, kw, g)
    before = trees(fn)
    how = r.choice(["new", "existing", "existing", "readonly", "write", "read"])
    kw2 = dict(kw)
    if how == "existing" and r.random() < 0.5:
        kw2["matlab_compatible"] = True

    def op(t):
        if how == "new":
            hs.File(t, writable=True, **kw).close()
        elif how == "existing":
            hs.File(t, writable=True, truncate_existing=False, **kw2).close()
        elif how == "readonly":
            hs.File(t, **kw).close()
        elif how == "write":
            hs.write(3, path="/t", filename=t, truncate_existing=False, **kw)
        else:
            hs.read("/o1", filename=t, **kw)

    t = c.path("n.h5") if how == "new" else copy(c, fn)
    s = calls_of(lambda: op(t))
    work.rm(t)
    for i in range(s.calls):
        for after in (False, True):
            if s.names[i] == "File.close" and not after:
                # h5py did not close it
                continue
            t = c.path("n.h5") if how == "new" else copy(c, fn)
            d = dict(call="%d of %d, %s, %s" % (i, s.calls, s.names[i], after), how=how, options=kw2)
            failed = None
            with faults.Plan(i, after) as p:
                try:
                    op(t)
                except Exception as e:
                    failed = e
            c.ok(failed is not None or s.names[i] != "File.__init__", "%s succeeds although opening failed" % how, **d)
            failed = None
            import gc
            gc.collect()
            c.ok(not opened(t), "the file is left open when %s fails" % how, **d)
            if how != "new":
                # nothing is lost
                now = trees(t)
                for q in OTHERS:
                    c.ok(now[q] == before[q], "failing to open the file changed %r" % q, **d)
            # it can be opened again
            with hs.File(t, writable=True, truncate_existing=False, **kw) as f:
                f["/again"] = 1
                if how != "new":
                    intact(c, f, vals, lax, "a failure when opening", **d)
            work.rm(t)
            c.ev(("open", how, p.fired, after))


class Unknown:
    pass


class UnknownList(list):
    pass


class UnknownDict(dict):
    pass


class UnknownStr(str):
    pass


class UnknownArray(np.ndarray):
    pass


BAD = [lambda: object(), lambda: Unknown(), lambda: (x for x in ()), lambda: re.compile("a"), lambda: len, lambda: (lambda: 1), lambda: UnknownList([1]), lambda: UnknownDict(a=1),
       lambda: UnknownStr("x"), lambda: memoryview(b"ab"), lambda: types.SimpleNamespace(a=1), lambda: Exception("x"), lambda: np, lambda: {}.items(), lambda: iter([1]),
       lambda: pathlib.PurePosixPath("/a"), lambda: np.zeros((2,)).view(UnknownArray), lambda: np.array(["2020-01-01"], dtype="M8[D]"), lambda: np.timedelta64(3, "s"),
       lambda: np.zeros(2, dtype="m8[ms]"), lambda: Unknown]


def bury(r, x, d=0):
    """A container with x somewhere in it."""
    k = r.randrange(9)
    if k == 0 and d:
        return x
    if k <= 1:
        v = [1, "a", None]
        v.insert(r.randrange(4), x)
    elif k == 2:
        v = (x, 1)
    elif k == 3:
        v = {"a": 1, "b": x, "c": [2]}
    elif k == 4:
        v = {1: 2, "x": x} if r.random() < 0.5 else {(1, 2): x}
    elif k == 5:
        v = np.array([[None, 1], ["x", 2]], dtype=object)
        v[r.randrange(2), r.randrange(2)] = x
    elif k == 6:
        v = np.zeros(2, dtype=[("p", "i4"), ("q", "O")])
        v["q"][r.randrange(2)] = x
    elif k == 7:
        import collections
        v = collections.deque([x, 1])
    else:
        import collections
        v = collections.OrderedDict([("k", 1), ("l", x)])
    return bury(r, v, d + 1) if d < 3 and r.random() < 0.4 else v


ERRORS = (NotImplementedError, TypeError, ValueError, KeyError, OSError, HE.TypeNotMatlabCompatibleError)


def do_unsupported(c):
    """Values that hold something that can't be written."""
    r = c.r
    kw = options(c)
    g = generator(c, kw, 1)
    lax = same.group_stored(opts.effective(kw))
    fn = c.path()
    vals = {"/o1": [1, [2]], "/g/o2": g.value(), "/o3": {"a": None}}
    hs.writes(vals, filename=fn, **kw)
    before = trees(fn, vals)
    x = r.choice(BAD)()
    top = r.random() < 0.3
    v = x if top else bury(r, x)
    what = "%s%s" % (type(x).__name__, "" if top else " in a " + type(v).__name__)
    target = r.choice(["/t", "/g/t", "/new/t", "/o1"])
    vals = {p: w for p, w in vals.items() if p != target}
    how = r.randrange(4)
    d = dict(options=kw, value=same.short(v, 500), target=target)
    f = hs.File(fn, writable=True, truncate_existing=False, **kw) if how else None
    try:
        try:
            if how == 0:
                hs.write(v, path=target, filename=fn, truncate_existing=False, **kw)
            elif how == 1:
                f[target] = v
            elif how == 2:
                f.writes({"/t3": [3], target: v})
            else:
                f.setdefault("/unused", v)
            c.bad("writing something of an unsupported type (%s) doesn't raise" % what, **d)
        except ERRORS as e:
            c.count("raised " + type(e).__name__)
            # arrays of dates are handed to h5py, which rejects them
            date = isinstance(x, np.ndarray) and x.dtype.kind in "mM"
            if not isinstance(e, (NotImplementedError, HE.TypeNotMatlabCompatibleError) + ((TypeError,) if date else ())):
                c.bad("writing something of an unsupported type (%s) raises %r rather than NotImplementedError" % (what, e), **d)
        if f is not None:
            intact(c, f, vals, lax, "writing an unsupported value", **d)
            f[target] = [7]
            c.ok(same.same([7], f[target], lax) is None, "the File can't be used after writing an unsupported value", **d)
    finally:
        if f is not None:
            f.close()
    c.ok(not opened(fn), "the file is left open after writing an unsupported value", **d)
    now = trees(fn, vals)
    for q in vals:
        c.ok(now[q] == before[q], "writing an unsupported value changed %r: %s" % (q, raw.diff(before[q], now[q])), **d)
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        intact(c, f, vals, lax, "writing an unsupported value", **d)
        f[target] = (8,)
        c.ok(same.same((8,), f[target], lax) is None, "the target of a failed write can't be written", **d)
    c.ev(("unsupported", what, how, target, kw["matlab_compatible"]))


def do_nested(c):
    """Several failures, one after the other, in one File."""
    r = c.r
    kw = options(c)
    g = generator(c, kw)
    lax = same.group_stored(opts.effective(kw))
    fn = c.path()
    with hs.File(fn, writable=True, **kw) as f:
        # no references Group yet in some
        vals = {"/o1": r.choice([3, "x", [1, [2]]]), "/g/o2": np.arange(4)}
        f.writes(vals)
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        nfail = 0
        for step in range(12):
            p = r.choice(["/a", "/b", "/g/c"])
            v = r.choice([g.value, lambda: [None, [1]], lambda: {"k": [g.value()]}, lambda: [], lambda: np.array([[], [1]], dtype=object)])()
            n = r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 60])
            c.note("%s <- %s fails at %d" % (p, same.short(v, 300), n))
            with faults.Plan(n, r.random() < 0.5) as s:
                try:
                    if r.random() < 0.15 and p in vals:
                        del f[p]
                        vals.pop(p)
                        done = NOTHING
                    else:
                        f[p] = v
                        done = v
                    ok = True
                except KeyError:
                    ok = None
                except Exception:
                    ok = False
            if ok:
                if done is not NOTHING:
                    vals[p] = v
            else:
                nfail += 1
                vals.pop(p, None)
            intact(c, f, vals, lax, "a sequence of failing operations", options=kw)
    with hs.File(fn, **kw) as f:
        intact(c, f, vals, lax, "a sequence of failing operations and reopening", options=kw)
    c.count("failures", nfail)
    c.ev(("nested", nfail, len(vals), opts.sig(kw)), n=12)


def raises(c, excs, what, fun, **d):
    try:
        x = fun()
    except Exception as e:
        c.ok(isinstance(e, excs), "%s raises %r rather than %s" % (what, e, excs), **d)
        c.count("raised " + type(e).__name__)
        return e
    c.bad("%s doesn't raise" % what, got=same.short(x), **d)


def do_badargs(c):
    """Every documented error of the entry points."""
    r = c.r
    kw = options(c)
    lax = same.group_stored(opts.effective(kw))
    fn = c.path()
    refs = opts.effective(kw)["group_for_references"]
    vals = {"/o1": [1, [2]], "/g/o2": "x", "/o3": {"a": None}}
    hs.writes(vals, filename=fn, **kw)
    before = raw.digest(fn)
    badpath = r.choice([1, None, 2.5, object(), ("a", 1), [None], b"\xff\xfe", {"a": 1}.values, (b"a", "b", 3)])
    typ = TypeError
    if badpath == b"\xff\xfe":
        typ = (TypeError, UnicodeDecodeError)
    table = [
        ("write to a path of invalid type", typ, lambda: hs.write(1, path=badpath, filename=fn, truncate_existing=False, **kw), None),
        ("read from a path of invalid type", typ, lambda: hs.read(path=badpath, filename=fn, **kw), before),
        ("read a missing path", KeyError, lambda: hs.read(path=r.choice(["/nope", "/g/nope", "/nope/x", "/o1/x/y", "/g/o2/z"]), filename=fn, **kw), before),
        ("reads with a missing path", KeyError, lambda: hs.reads(["/o1", "/nope"], filename=fn, **kw), before),
        ("reads of a non iterable", TypeError, lambda: hs.reads(5, filename=fn, **kw), before),
        ("writes of a non mapping", TypeError, lambda: hs.writes([("/a", 1)], filename=fn, truncate_existing=False, **kw), None),
        ("read of a file that isn't there", OSError, lambda: hs.read("/a", filename=c.path("nope.h5"), **kw), before),
        ("open a file that isn't there", OSError, lambda: hs.File(c.path("nope.h5"), **kw), before),
        ("open a directory", OSError, lambda: hs.File(c.tmp, **kw), before),
        ("open a file in a directory that isn't there", OSError, lambda: hs.File(c.path("no/x.h5"), writable=True, **kw), before),
        ("open a file that isn't HDF5", OSError, lambda: hs.File(junk(c), **kw), before),
        ("write into a file that isn't HDF5", OSError, lambda: hs.File(junk(c), writable=True, truncate_existing=False, **kw), before),
        ("options of another type", TypeError, lambda: hs.File(fn, options=r.choice([{"matlab_compatible": True}, 5, "x"])), before),
        ("read in the references Group", ValueError, lambda: hs.read(refs + "/x", filename=fn, **kw), before),
        ("write in the references Group", ValueError, lambda: hs.write(1, path=refs + "/x", filename=fn, truncate_existing=False, **kw), None),
        ("replace the references Group", ValueError, lambda: hs.write(1, path=refs, filename=fn, truncate_existing=False, **kw), None),
        ("write into a read only File", OSError, lambda: with_ro(fn, kw, lambda f: f.write(1, "/x")), before),
        ("delete in a read only File", OSError, lambda: with_ro(fn, kw, lambda f: f.__delitem__("/o1")), before),
        ("set in a read only File", OSError, lambda: with_ro(fn, kw, lambda f: f.__setitem__("/o1", 3)), before),
        ("writes in a read only File", OSError, lambda: with_ro(fn, kw, lambda f: f.writes({"/o1": 3})), before),
        ("delete something that isn't there", KeyError, lambda: with_rw(fn, kw, lambda f: f.__delitem__("/nope")), None),
        ("delete the references Group", ValueError, lambda: with_rw(fn, kw, lambda f: f.__delitem__(refs)), None),
        ("a batch with an invalid path", typ, lambda: with_rw(fn, kw, lambda f: f.writes({"/n": 1, hashable(badpath): 2})), None),
        ("write below a Dataset", (TypeError, ValueError, KeyError, OSError), lambda: with_rw(fn, kw, lambda f: f.write(1, "/g/o2/x")), None),
        ("read a missing item", KeyError, lambda: with_ro(fn, kw, lambda f: f["/zz"]), before),
        ("path is a dangling link", KeyError, lambda: dangling(c, kw), before),
    ]
    for what in ("get", "set", "del", "len", "iter", "in", "flush", "read", "write", "reads", "writes"):
        table.append(("%s of a closed File" % what, OSError, (lambda w: lambda: closed(fn, kw, w))(what), None))
    what, excs, fun, dig = r.choice(table)
    d = dict(options=kw, path=badpath)
    raises(c, excs, what, fun, **d)
    import gc
    gc.collect()
    c.ok(not opened(fn), "the file is left open after: " + what, **d)
    if dig is not None:
        c.ok(raw.digest(fn) == dig, "the file was changed by: " + what, **d)
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        intact(c, f, vals, lax, what, **d)
        f["/t"] = [8]
        c.ok(same.same([8], f["/t"], lax) is None, "the file can't be written after: " + what, **d)
    c.ev(("badargs", what, str(badpath)[:12]))


def hashable(p):
    return tuple(p) if isinstance(p, list) else p


def junk(c):
    fn = c.path("junk.h5")
    open(fn, "wb").write(b"not an HDF5 file" * 100)
    return fn


def dangling(c, kw):
    fn = c.path("dangling.h5")
    hs.write([1], path="/o", filename=fn, **kw)
    with h5py.File(fn, "a") as f:
        f["l"] = h5py.SoftLink("/nowhere")
    return hs.read("/l", filename=fn, **kw)


def with_ro(fn, kw, fun):
    with hs.File(fn, writable=False, **kw) as f:
        return fun(f)


def with_rw(fn, kw, fun):
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        return fun(f)


def closed(fn, kw, what):
    f = hs.File(fn, writable=True, truncate_existing=False, **kw)
    f.close()
    f.close()
    if not f.closed:
        return "not closed"
    return {"get": lambda: f["/o1"], "set": lambda: f.__setitem__("/x", 1), "del": lambda: f.__delitem__("/o1"), "len": lambda: len(f), "iter": lambda: list(f),
            "in": lambda: "/o1" in f, "flush": f.flush, "read": lambda: f.read("/o1"), "write": lambda: f.write(1, "/x"), "reads": lambda: f.reads(["/o1"]),
            "writes": lambda: f.writes({"/x": 1})}[what]()


def do_incompatible(c):
    """Values MATLAB can't hold, with the action 'error'."""
    r = c.r
    kw = options(c, matlab=True)
    g = generator(c, kw, 1)
    lax = same.group_stored(opts.effective(kw))
    fn = c.path()
    vals = {"/o1": [1, [2]], "/g/o2": g.value(), "/o3": {"a": None}}
    hs.writes(vals, filename=fn, **kw)
    before = trees(fn, vals)
    x = r.choice([lambda: np.float16(1), lambda: np.zeros(3, "f2"), lambda: np.void(b"abc"), lambda: np.zeros(2, "V3"), lambda: np.zeros(2, "f2,i4")["f0"],
                  lambda: np.zeros((0, 2), "f2")])()
    top = r.random() < 0.3
    v = x if top else bury(r, x)
    target = r.choice(["/t", "/g/t", "/o1"])
    vals = {p: w for p, w in vals.items() if p != target}
    d = dict(value=same.short(v, 400), target=target)
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        raises(c, HE.TypeNotMatlabCompatibleError, "writing %s%s" % (type(x).__name__, x.dtype), lambda: f.__setitem__(target, v), **d)
        intact(c, f, vals, lax, "writing an incompatible value", **d)
        f[target] = [7]
        c.ok(same.same([7], f[target], lax) is None, "the File can't be used after writing an incompatible value", **d)
    now = trees(fn, vals)
    for q in vals:
        c.ok(now[q] == before[q], "writing an incompatible value changed %r" % q, **d)
    c.ev(("incompatible", str(x.dtype), type(v).__name__, target))


def do_toomany(c):
    """More text keys or fields than HDF5 lets an attribute hold."""
    r = c.r
    kw = options(c)
    lax = same.group_stored(opts.effective(kw))
    fn = c.path()
    vals = {"/o1": [1, [2]], "/g/o2": np.arange(3.0), "/o3": {"a": None}}
    hs.writes(vals, filename=fn, **kw)
    before = trees(fn, vals)
    n = r.choice([4070, 4100, 5000])
    v = {"%s%d" % (r.choice(["k", "\u00e9"]), i): i for i in range(n)}
    if kw["matlab_compatible"]:
        v = {"k%d" % i: i for i in range(n)}
    if r.random() < 0.4:
        v = bury(r, v)
    target = r.choice(["/t", "/g/t", "/o1"])
    vals = {p: w for p, w in vals.items() if p != target}
    with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
        try:
            f[target] = v
            ok = True
        except OSError:
            ok = False
        intact(c, f, vals, lax, "writing %d keys" % n, options=kw)
        if ok:
            d = same.same(v, f[target], lax)
            c.ok(d is None, "%d keys are written but not read: %s" % (n, d), options=kw)
        else:
            f[target] = [7]
            c.ok(same.same([7], f[target], lax) is None, "the target can't be used after writing %d keys" % n, options=kw)
    now = trees(fn, vals)
    for q in vals:
        c.ok(now[q] == before[q], "writing %d keys changed %r: %s" % (n, q, raw.diff(before[q], now[q])), options=kw)
    c.count("too many keys refused" if not ok else "many keys written")
    c.ev(("toomany", n, ok, target))
