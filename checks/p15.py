"""P15: threads."""
import importlib
import itertools
import os
import sys
import threading

import h5py
import numpy as np

from vf.env import hs, lock_free
from vf import gen, opts, same, sched, work

import hdf5storage.Marshallers as HM

ID = "P15"
TITLE = "concurrency"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: threads run histories of operations while line events of the library inject delays at seeded places; the recorded invocations and responses are decided offline by a linearizability checker (Wing and Gong) against a dict model, the final file and the references included; stuck threads are reported with their stacks"
LEVEL_NOTE = "2 to 4 threads with up to 5 operations each, values that are written in many steps, with seeded delays rather than enumerated schedules"
RULE = "one evaluation = one operation of a history that was checked for linearizability, or one concurrent result compared with its sequential value; distinct = the sequence of places at which control went from one thread to another"
ASSUMPTIONS = ["HDF5 calls through h5py are serialized by h5py's global lock", "the marshaller collection isn't changed while a File uses it"]
TIMEOUT = 120


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("file", 700 * k), ("close", 250 * k), ("files", 120 * k), ("readers", 60 * k), ("lazy", 120 * k), ("default", 40 * k)]


def value(r, i):
    """A value holding the identity i in several places."""
    k = r.randrange(9)
    if k == 0:
        return i
    if k == 1:
        return [i, [i, "x%d" % i], (i,)]
    if k == 2:
        return {"a": i, "b": [i, i], "c": {"d": i}}
    if k == 3:
        return np.full((r.choice([1, 3, 50]), r.choice([1, 2, 40])), i, dtype=r.choice(["i4", "f8", "c16"]))
    if k == 4:
        return "text %d" % i
    if k == 5:
        a = np.empty((2, 2), dtype=object)
        a[:] = i
        a[0, 0] = [i]
        return a
    if k == 6:
        return set([i, "s%d" % i])
    if k == 7:
        return np.array([(i, i)], dtype=[("x", "i8"), ("y", "f8")])
    return {"%d" % i: i, 3: [i]}


ERR = ("err", "closed")


def do(f, op):
    """Runs op and gives a result."""
    k = op[0]
    try:
        if k == "set":
            if op[3] == 0:
                f[op[1]] = op[2]
            elif op[3] == 1:
                f.write(op[2], op[1])
            else:
                f.writes({op[1]: op[2]})
            return None
        if k == "writes":
            f.writes(dict(zip(op[1], op[2])))
            return None
        if k == "get":
            return ("val", f[op[1]] if op[3] else f.read(op[1]))
        if k == "reads":
            return ("vals", f.reads(op[1]))
        if k == "in":
            return ("b", op[1] in f)
        if k == "len":
            return ("n", len(f))
        if k == "list":
            return ("names", frozenset(f))
        if k == "keys":
            return ("names", frozenset(f.keys()))
        if k == "del":
            del f[op[1]]
            return None
        if k == "flush":
            f.flush()
            return None
        if k == "close":
            f.close()
            return None
        if k == "closed":
            return ("b", f.closed)
    except KeyError:
        return ("err", "missing")
    except OSError as e:
        if "File is closed" in str(e):
            return ERR
        raise
    raise AssertionError(k)


def top(state):
    return frozenset(k.split("/")[0] for k, _ in state) | ({"g"} if ("g", None) in state else frozenset())


def step(state, rec):
    """State: (closed, frozenset of (path, identity)).  rec = (op, result)."""
    closed, items = state
    op, res = rec
    k = op[0]
    if k == "close":
        return (True, items) if res is None else None
    if k == "closed":
        return state if res == ("b", closed) else None
    if closed:
        return state if res == ERR else None
    if res == ERR:
        return None
    d = dict(items)
    if k in ("set", "writes"):
        if res is not None:
            return None
        for p, i in ([(op[1], op[4])] if k == "set" else zip(op[1], op[4])):
            if "/" in p:
                d["g"] = None
            d[p] = i
        return (closed, frozenset(d.items()))
    if k == "del":
        if (op[1] in d) != (res is None):
            return None
        d.pop(op[1], None)
        return (closed, frozenset(d.items()))
    if k == "flush":
        return state if res is None else None
    if k == "get":
        want = ("id", d[op[1]]) if op[1] in d else ("err", "missing")
    elif k == "reads":
        want = ("ids", tuple(d[p] for p in op[1])) if all(p in d for p in op[1]) else ("err", "missing")
    elif k == "in":
        want = ("b", op[1] in d)
    elif k == "len":
        want = ("n", len({x.split("/")[0] for x in d}))
    else:
        want = ("names", frozenset(x.split("/")[0] for x in d))
    return state if res == want else None


def run(c):
    globals()["do_" + c.kind](c)


def do_file(c, close=False):
    r = c.r
    fn = c.path()
    kw = opts.gen(r, matlab=r.random() < 0.4, meta=True)
    kw["action_for_matlab_incompatible"] = "ignore"
    if not kw["matlab_compatible"]:
        kw["delete_unused_variables"] = True
        kw["group_for_references"] = r.choice(["/#refs#", "/refs", "/zz"])
    kw.pop("compress_size_threshold", None)
    lax = same.group_stored(opts.effective(kw))
    keys = ["a", "b", "g/c", "d"][: r.choice([1, 2, 4])]
    ids = itertools.count(1)
    byid = {}

    def new(p):
        i = next(ids) * 7 + 100
        v = value(r, i)
        byid.setdefault(p, {})[i] = v
        return i, v

    init = {}
    f = hs.File(fn, writable=True, **kw)
    try:
        for p in keys:
            if r.random() < 0.5:
                i, v = new(p)
                f[p] = v
                if "/" in p:
                    init["g"] = None
                init[p] = i
        nt = r.choice([2, 2, 3, 3, 4])
        per = {2: 5, 3: 4, 4: 3}[nt]
        progs = []
        weights = r.choice(["set get get reads writes in len list keys del flush", "set set get", "writes reads", "writes reads list len", "set del in len list keys", "set get del"]).split()
        for t in range(nt):
            prog = []
            for _ in range(r.randrange(1, per + 1)):
                k = r.choice(weights)
                p = r.choice(keys)
                if k == "set":
                    i, v = new(p)
                    prog.append(("set", p, v, r.randrange(3), i))
                elif k == "writes":
                    ps = r.sample(keys, r.randrange(1, len(keys) + 1))
                    ivs = [new(p) for p in ps]
                    prog.append(("writes", ps, [v for _, v in ivs], None, [i for i, _ in ivs]))
                elif k == "get":
                    prog.append(("get", p, None, r.random() < 0.5))
                elif k == "reads":
                    prog.append(("reads", [r.choice(keys) for _ in range(r.randrange(1, 4))]))
                elif k in ("in", "del"):
                    prog.append((k, p))
                else:
                    prog.append((k,))
            progs.append(prog)
        if close:
            t = r.randrange(nt)
            progs[t].insert(r.randrange(len(progs[t]) + 1), ("close",))
            if r.random() < 0.5:
                progs[(t + 1) % nt].append(("closed",))
        clock = itertools.count()
        rec = []

        def runner(prog):
            def go():
                for op in prog:
                    a = next(clock)
                    res = do(f, op)
                    rec.append([a, next(clock), op, res])
            return go

        s = sched.Sched("%s/%s" % (c.seed, c.idx))
        with s:
            bad = sched.run_threads([runner(p) for p in progs], s)
        c.ok(bad is None, "operations of threads on one File failed", error=bad, programs=[[(o[0],) + tuple(o[1:2]) for o in p] for p in progs])
    finally:
        # a stuck thread may hold the lock
        if lock_free(f, 5):
            f.close()
    # the final state, as seen by another process or an other handle
    with hs.File(fn, **kw) as g:
        last = next(clock)
        present = [p for p in keys if p in g]
        rec.append([last, last + 1, ("reads", present), ("vals", g.reads(present))])
        rec.append([last + 2, last + 3, ("list",), ("names", frozenset(g))])
        for n, p in enumerate(keys):
            rec.append([last + 4, last + 5, ("in", p), ("b", p in present)])

    def ident(p, v):
        for i, w in byid.get(p, {}).items():
            if same.same(w, v, lax) is None:
                return i
        c.bad("reading %r while other threads write gives a value that was never written there" % p, value=same.short(v, 400), written=same.short(byid.get(p), 600))

    hist = []
    for n, (a, b, op, res) in enumerate(rec):
        if res is not None and res[0] == "val":
            res = ("id", ident(op[1], res[1]))
        elif res is not None and res[0] == "vals":
            res = ("ids", tuple(ident(p, v) for p, v in zip(op[1], res[1])))
        if n >= len(rec) - 2 - len(keys):
            op = op  # done after closing, on a new handle
        hist.append((a, b, (op, res)))

    if close:
        base = len(rec) - 2 - len(keys)

        def st(state, x):
            op, res = x
            if any(x is h[2] for h in hist[base:]):
                y = step((False, state[1]), x)
                return None if y is None else (state[0], y[1])
            return step(state, x)
    else:
        st = step
    order = sched.linearizable(hist, (False, frozenset(init.items())), st)
    pairs = sum(1 for i, x in enumerate(hist) for y in hist[i + 1:] if x[0] < y[1] and y[0] < x[1])
    c.ok(order is not None, "the history of the operations of the threads has no sequential order", initially=init,
         history=["[%d %d] %s %s -> %s" % (a, b, x[0][0], x[0][1:2] + x[0][4:5], x[1]) for a, b, x in sorted(hist, key=lambda h: h[0])])
    c.ev((c.kind, tuple(s.switches[:400])), n=len(hist))
    c.count("overlapping pairs of operations", pairs)
    c.count("switches between threads inside of the library", len(s.switches))
    c.count("injected delays", s.naps)
    c.count("histories with overlapping operations", 1 if pairs else 0)
    c.sample("%d threads, %d operations, %d overlapping pairs, %d switches" % (nt, len(hist), pairs, len(s.switches)))
    # no reference of the file dangles
    with h5py.File(fn, "r") as h:
        def look(name, o):
            if isinstance(o, h5py.Dataset) and o.dtype.metadata and o.dtype.metadata.get("ref") is h5py.Reference:
                for x in np.ravel(o[()]):
                    if not (x and h[x] is not None):
                        c.bad("a reference dangles after concurrent use of a File", where=name)
                    c.count("references followed")
        h.visititems(look)


def do_close(c):
    do_file(c, close=True)


def do_files(c):
    """Threads with Files of their own, sharing the marshallers."""
    r = c.r
    nt = r.choice([2, 3, 4])
    jobs = []
    for t in range(nt):
        kw = opts.gen(r, meta=True)
        kw["action_for_matlab_incompatible"] = "error" if kw["matlab_compatible"] else "ignore"
        e = opts.effective(kw)
        g = gen.Gen(r, matlab=kw["matlab_compatible"], maxdepth=3, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if kw["matlab_compatible"] else ())
        vals = {"v%d" % i: g.value() for i in range(r.choice([2, 4]))}
        jobs.append((c.path("t%d.h5" % t), kw, vals, same.group_stored(e), r.randrange(3)))
    bad = []

    def job(fn, kw, vals, lax, how):
        def go():
            if how == 0:
                with hs.File(fn, writable=True, **kw) as f:
                    for p, v in vals.items():
                        f[p] = v
                    got = {p: f[p] for p in vals}
            elif how == 1:
                hs.writes(vals, filename=fn, **kw)
                got = dict(zip(vals, hs.reads(list(vals), filename=fn, **kw)))
            else:
                o = hs.Options(**kw)
                for p, v in vals.items():
                    hs.write(v, path=p, filename=fn, options=o)
                got = {p: hs.read(path=p, filename=fn, options=o) for p in vals}
            for p in vals:
                d = same.same(vals[p], got[p], lax)
                if d is not None:
                    bad.append((p, d, vals[p], got[p]))
        return go

    s = sched.Sched("%s/f%s" % (c.seed, c.idx))
    with s:
        err = sched.run_threads([job(*j) for j in jobs], s)
    c.ok(err is None, "threads with Files of their own failed", error=err)
    if bad:
        p, d, v, w = bad[0]
        c.bad("a value written and read in one thread differs while other threads use other Files", difference=d, value=same.short(v, 300), got=same.short(w, 300))
    c.ev(("files", tuple(s.switches[:400])), n=sum(len(j[2]) for j in jobs))
    c.count("switches between threads inside of the library", len(s.switches))
    c.count("injected delays", s.naps)


def do_readers(c):
    """Many threads reading one file through Files of their own or one File."""
    r = c.r
    fn, kw, e, g = c.path(), opts.gen(r, meta=True), None, None
    kw["action_for_matlab_incompatible"] = "error" if kw["matlab_compatible"] else "ignore"
    e = opts.effective(kw)
    g = gen.Gen(r, matlab=kw["matlab_compatible"], maxdepth=3, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if kw["matlab_compatible"] else ())
    vals = {"v%d" % i: g.value() for i in range(4)}
    hs.writes(vals, filename=fn, **kw)
    lax = same.group_stored(e)
    shared = hs.File(fn, **kw)
    bad = []
    objs = []

    def job(own, order):
        def go():
            f = hs.File(fn, **kw) if own else shared
            try:
                for p in order:
                    v = f[p]
                    objs.append((p, v))
                    d = same.same(vals[p], v, lax)
                    if d is not None:
                        bad.append((p, d))
                got = f.reads(order)
                for p, v in zip(order, got):
                    d = same.same(vals[p], v, lax)
                    if d is not None:
                        bad.append((p, d))
            finally:
                if own:
                    f.close()
        return go

    s = sched.Sched("%s/r%s" % (c.seed, c.idx))
    with s:
        err = sched.run_threads([job(r.random() < 0.4, r.sample(sorted(vals), 4)) for _ in range(4)], s)
    shared.close()
    c.ok(err is None, "threads reading one file failed", error=err)
    c.ok(not bad, "a value read while other threads read differs", first=bad[:1])
    c.ev(("readers", tuple(s.switches[:400])), n=32)
    c.count("switches between threads inside of the library", len(s.switches))


_n = itertools.count()


def do_lazy(c):
    """Marshallers whose modules get imported, slowly, on first use."""
    r = c.r
    name = "vflazy_%d_%d" % (os.getpid(), next(_n))
    d = c.tmp
    fails = r.random() < 0.25
    parent = r.random() < 0.5
    body = "import time\nFIRST = 1\ntime.sleep(%r)\n%s\nclass T:\n    pass\ntime.sleep(%r)\nEND = 1\n" % (
        r.choice([0.0, 0.003, 0.01]), "raise ImportError('no')" if fails else "", r.choice([0.0, 0.003, 0.01]))
    if parent:
        os.mkdir(os.path.join(d, name))
        open(os.path.join(d, name, "__init__.py"), "w").write("import time\ntime.sleep(0.002)\n")
        open(os.path.join(d, name, "sub.py"), "w").write(body)
        mod = name + ".sub"
    else:
        open(os.path.join(d, name + ".py"), "w").write(body)
        mod = name
    tstr = mod + ".T"

    class M(HM.TypeMarshaller):
        def __init__(self):
            HM.TypeMarshaller.__init__(self)
            self.required_parent_modules = [name]
            self.required_modules = [mod]
            self.types = [tstr]
            self.python_type_strings = [tstr]
            self.matlab_classes = ["vflazy"]
            self.update_type_lookups()

        def write(self, f, grp, n, data, type_string):
            if n in grp:
                del grp[n]
            ds = grp.create_dataset(n, data=np.int64(5))
            self.write_metadata(f, ds, data, tstr, {})
            return ds

        def read(self, f, ds, attributes):
            m = sys.modules[mod]
            return ("read", m.T.__name__, m.END)

        def read_approximate(self, f, ds, attributes):
            return ("approximate",)

    fn = c.path()
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    try:
        m = M()
        # a file holding an object of the type, without importing its module
        fake = type("T", (), {"__module__": mod})
        class W(M):
            def __init__(self):
                M.__init__(self)
                self.required_parent_modules, self.required_modules = [], []
        hs.write(fake(), path="/t", filename=fn, matlab_compatible=False, marshaller_collection=hs.MarshallerCollection(marshallers=[W()]))
        shared = hs.MarshallerCollection(marshallers=[m])
        sharedfile = hs.File(fn, matlab_compatible=False, marshaller_collection=shared)
        out = []

        def job(how, own):
            def go():
                mc = hs.MarshallerCollection(marshallers=[m]) if own else shared
                if how == 0:
                    x = mc.get_marshaller_for_type(tstr)
                elif how == 1:
                    x = mc.get_marshaller_for_type_string(tstr)
                elif how == 2:
                    x = mc.get_marshaller_for_matlab_class("vflazy")
                elif own:
                    out.append(("value", hs.read(path="/t", filename=fn, matlab_compatible=False, marshaller_collection=mc)))
                    return
                else:
                    out.append(("value", sharedfile["t"]))
                    return
                ready = hasattr(sys.modules.get(mod), "END")
                out.append(("lookup", x[0] is m, x[1], ready))
            return go

        nt = r.choice([2, 3, 4])
        s = sched.Sched("%s/l%s" % (c.seed, c.idx))
        with s:
            err = sched.run_threads([job(r.randrange(4), r.random() < 0.4) for _ in range(nt)], s)
        sharedfile.close()
        c.ok(err is None, "threads using a lazily loaded marshaller failed", error=err)
        for o in out:
            if o[0] == "value":
                want = ("approximate",) if fails else ("read", "T", 1)
                c.ok(tuple(o[1]) == want, "reading an object of a type whose module is being loaded by another thread gives %r rather than %r" % (o[1], want))
            else:
                c.ok(o[1], "the lookup gives another marshaller")
                c.ok(o[2] == (not fails), "the lookup says that the required modules are%s there" % ("" if o[2] else " not"))
                c.ok(o[3] or fails, "the lookup says that the required modules are loaded while another thread is still loading them")
        c.ev(("lazy", fails, parent, tuple(s.switches[:200])), n=len(out))
        c.count("concurrent lookups of lazily loaded marshallers", len(out))
    finally:
        sys.path.remove(d)
        for x in list(sys.modules):
            if x == name or x.startswith(name + "."):
                del sys.modules[x]


def do_default(c):
    """The default collection is replaced while it is used."""
    r = c.r
    old = hs.get_default_marshaller_collection()
    bad = []

    def use(t):
        fn = c.path("t%d.h5" % t)
        vals = [value(r, 100 + i) for i in range(4)]

        def go():
            for i, v in enumerate(vals):
                hs.write(v, path="/v", filename=fn, matlab_compatible=False, delete_unused_variables=True)
                w = hs.read(path="/v", filename=fn, matlab_compatible=False)
                d = same.diff(v, w)
                if d:
                    bad.append(d)
        return go

    def change():
        for i in range(4):
            hs.make_new_default_marshaller_collection(lazy_loading=bool(i % 2))
            if not isinstance(hs.get_default_marshaller_collection(), hs.MarshallerCollection):
                bad.append("get_default_marshaller_collection gives something else")

    s = sched.Sched("%s/d%s" % (c.seed, c.idx))
    try:
        with s:
            err = sched.run_threads([use(0), use(1), change], s)
    finally:
        hs.make_new_default_marshaller_collection(lazy_loading=True)
    c.ok(err is None, "threads failed while the default collection was replaced", error=err)
    c.ok(not bad, "values differ while the default collection was replaced", first=bad[:1])
    c.ev(("default", tuple(s.switches[:200])), n=8)
