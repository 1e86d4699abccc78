"""P18: hostile files."""
import array
import ast
import builtins
import collections
import contextlib
import datetime
import fractions
import io
import os
import pickle
import random
import resource
import signal
import sys
import types

import h5py
import numpy as np

from vf.env import SRC, hs
from vf import gen, opts, raw, same, work

import hdf5storage.Marshallers as HM

ID = "P18"
TITLE = "hostile files"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring of fuzzed inputs: an interpreter audit hook and tripwires watch every read of mutated and hostile files for evaluation, unpickling, imports, processes, sockets and file accesses; the type of everything returned and hashes of all files are checked after each read"
LEVEL_NOTE = "mutations of attributes, data, references, links and names of generated files, three per file on average, and a dictionary of hostile texts; damage to HDF5's own structures is left to HDF5"
RULE = "one evaluation = one read of a hostile file watched by the monitors; distinct = (mutations, objects mutated, attribute, outcome)"
ASSUMPTIONS = ["the interpreter's audit events report evaluation, imports, unpickling of classes, processes and Python level file accesses", "files are opened by HDF5 only through the names that h5py is given or through HDF5's own external links"]
TIMEOUT = 120

BAD_EVENTS = ("exec", "import", "open", "os.", "subprocess.", "socket.", "shutil.", "pickle.", "marshal.", "ctypes.", "tempfile.", "urllib.", "webbrowser.", "builtins.input",
              "sys.set", "sys.addaudithook", "mmap.", "code.__new__", "function.__new__", "glob.", "pathlib.", "fcntl.", "signal.", "http.", "ftplib.", "smtplib.", "telnetlib.", "sqlite3.", "setopencodehook", "cpython.run_")
EVENTS = None
N = collections.Counter()


def hook(event, args):
    if EVENTS is None:
        return
    N[event] += 1
    if event.startswith(BAD_EVENTS):
        EVENTS.append((event, repr(args)[:300]))


def trip(name, orig):
    def wrapper(*a, **k):
        if EVENTS is not None:
            EVENTS.append((name, repr(a)[:300]))
        return orig(*a, **k)
    return wrapper


def worker_init():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    # whatever numpy, h5py and codecs load on first use
    import numpy.core._internal  # noqa
    for x in ("utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be", "ascii", "latin-1", "idna", "raw_unicode_escape", "unicode_escape"):
        with contextlib.suppress(Exception):
            "a".encode(x)
    ast.literal_eval("[('a', '<i4', (2, 3))]")
    r = random.Random(5)
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        for i in range(60):
            kw = opts.gen(r)
            kw["action_for_matlab_incompatible"] = "ignore"
            g = gen.Gen(r)
            v = [g.value() for _ in range(6)]
            fn = os.path.join(d, "%d.h5" % i)
            with contextlib.suppress(Exception):
                hs.write(v, path="/v", filename=fn, **kw)
                hs.read("/v", filename=fn, **kw)
        # the lines of the sources that tracebacks show
        with contextlib.suppress(Exception):
            hs.read("/nope", filename=fn)
        with contextlib.suppress(Exception):
            hs.loadmat(os.path.join(d, "nope.mat"))
    for n in ("loads", "load", "Unpickler", "_loads", "_load"):
        if hasattr(pickle, n) and n != "Unpickler":
            setattr(pickle, n, trip("pickle." + n, getattr(pickle, n)))
    sys.unraisablehook = lambda *a: None
    sys.addaudithook(hook)


def plan(tier):
    k = 12 if tier == "thorough" else 1
    return [("mutate", 2500 * k), ("text", 700 * k), ("dtype", 500 * k), ("unknown", 250 * k), ("links", 200 * k), ("loadmat", 300 * k), ("fields", 200 * k)]


def hostile(r, marker):
    return r.choice([
        "__import__('os').system('touch %s')" % marker, "open('%s','w').write('x')" % marker, "[open('%s','w')]" % marker, "os.system('touch %s')" % marker,
        "(lambda: open('%s','w'))()" % marker, "subprocess.Popen", "os.system", "builtins.eval", "builtins.exec", "builtins.open", "eval", "exec", "object", "type",
        "builtins.type", "builtins.object", "types.FunctionType", "types.CodeType", "pickle.loads", "numpy.load", "numpy.ndarray.__class__", "numpy.core._internal._ctypes",
        "vf_tripwire.T", "vf_tripwire", "this", "antigravity", "__main__.x", "sys.exit", "os", "'a' * 3", "{0.__class__}", "%s %d", "${PATH}", "`id`", "$(touch %s)" % marker, "; touch %s" % marker,
        "../../x", "/etc/passwd", "file://%s" % marker, "\n\n", "\0", "", " ", "\\x41", "\\u0041", "None", "True", "nan", "[]", "{}", "()", "1" * 50, "((((((((((", "[" * 150, "a" * 5000,
        "collections.defaultdict", "collections.namedtuple", "functools.partial", "\u202e", "cos\nsystem\n(S'touch %s'\ntR." % marker, "!!python/object/apply:os.system ['touch %s']" % marker,
        "numpy.object_", "numpy.void", "object_", "O", "numpy.dtype", "numpy.recarray", "numpy.matrix", "numpy.chararray", "dict", "list", "set", "collections.deque", "int", "complex", "bytes",
        "datetime.datetime", "datetime.timezone", "fractions.Fraction", "range", "slice", "collections.Counter", "collections.OrderedDict", "collections.ChainMap", "NoneType", "ellipsis",
        "builtins.NoneType", "builtins.ellipsis", "builtins.NotImplementedType", "tuple", "frozenset", "bytearray", "str", "float", "bool", "numpy.str_", "numpy.bytes_", "numpy.float64", "numpy.ndarray", "numpy.bool_",
        "cell", "struct", "char", "logical", "double", "function_handle", "canonical empty", "int8", "uint64", "single", "UTF-8", "U3", "S5", "V2", "str0", "str32", "bytes8", "str999999999999", "bytes-1", "datetime64[D]", "M8[s]", "m8[ns]",
    ])


DTYPES = ["i4", "<f8", "'<i4'", "[('a', '<i4')]", "[('a', 'O')]", "'O'", "'object'", "{'names': ['a'], 'formats': ['<i4']}", "{'names': ['a', 'b'], 'formats': ['<i4', 'O'], 'offsets': [0, 2]}", "'S99999999'", "'U-1'", "'V4'",
          "('<i4', (2, 3))", "('i4', [('a', 'i2'), ('b', 'i2')])", "'(2,3)f4, i8'", "'i4, i4'", "',,,'", "'__import__(\"os\")'", "__import__('os')", "exec('x')", "open('%s','w')", "[x for x in ()]", "lambda: 0", "f'{1}'", "b'i4'", "'M8[D]'", "'m8[0s]'",
          "'numpy.float64'", "'os.system'", "1", "None", "True", "...", "{}", "[]", "()", "''", "'", "((((", "[" * 100 + "]" * 100, "1 if 1 else 0", "().__class__", "[('a', '<i4', 99999999999)]", "[('a', '<i4', (-1,))]", "[('', 'i4'), ('', 'i4')]",
          "[('a', 'i4'), ('a', 'i4')]", "{'a': ('i4', 0), 'b': ('O', 1)}", "{'a': ('O', 3)}", "dtype('i4')", "np.dtype('i4')", "[('a', [('b', 'O')])]", "'O8'", "'|O'", "['i4']", "{'i4'}", "'c16'", "'>u8'", "-5", "1+2j", "'\\x00'", "b'\\xff'"]


def attr_value(r, marker, f, objs):
    k = r.randrange(14)
    if k <= 2:
        h = hostile(r, marker)
        return np.bytes_(h.encode("utf-8").replace(b"\0", b"?")) if r.random() < 0.7 or "\0" in h else h
    if k == 3:
        return r.choice(DTYPES).replace("%s", marker)
    if k == 4:
        return np.array([r.randrange(-3, 5) for _ in range(r.randrange(0, 4))], dtype=r.choice(["u8", "i8", "i4", "f8", "u1"]))
    if k == 5:
        return r.choice([np.uint8(1), np.uint8(0), np.uint8(2), np.int64(-1), np.float64("nan"), np.uint64(2 ** 63), np.bool_(True), np.complex128(1j)])
    if k == 6:
        return np.array([r.choice([2 ** 62, 2 ** 40, 0, 1]) for _ in range(2)], dtype="u8")
    if k == 7:
        return h5py.Empty(r.choice(["S1", "f8", "u1"]))
    if k == 8:
        return np.array([hostile(r, marker).replace("\0", "?") for _ in range(r.randrange(0, 4))], dtype=h5py.special_dtype(vlen=str))
    if k == 9:
        return r.choice(objs).ref if objs else np.uint8(1)
    if k == 10:
        fs = np.empty(2, dtype=object)
        for i in range(2):
            fs[i] = np.array([bytes([b]) for b in r.choice([b"ab", b"\xff", b"a/b", b"__class__", b""])], dtype="S1")
        return ("vlenS1", fs)
    if k == 11:
        return np.array([(1, 2.5)], dtype=[("a", "i4"), ("b", "f8")])
    if k == 12:
        return np.bytes_(r.choice(["struct", "cell", "char", "logical", "double", "single", "int8", "uint64", "function_handle", "canonical empty", "int32", "sparse", "opaque"]))
    return np.void(b"\x80\x04\x95cos\nsystem\n.")


ATTRS = ["Python.Type", "Python.Type", "Python.Shape", "Python.Empty", "Python.numpy.UnderlyingType", "Python.numpy.Container", "Python.Fields", "Python.dict.StoredAs", "Python.dict.keys_values_names", "Python.dict.key_str_types",
         "Python.numpy.dtype", "MATLAB_class", "MATLAB_class", "MATLAB_empty", "MATLAB_int_decode", "MATLAB_fields", "H5PATH", "MATLAB_sparse", "MATLAB_object_decode"]


def objects(f):
    out = []
    f.visititems(lambda n, o: out.append(o))
    return out


def mutate(r, f, marker):
    """Applies one mutation, gives what it was."""
    objs = objects(f)
    if not objs:
        return ("none",)
    o = r.choice(objs)
    k = r.randrange(11)
    kind = type(o).__name__
    if k <= 5:
        a = r.choice(ATTRS if r.random() < 0.6 or not len(o.attrs) else list(o.attrs))
        if r.random() < 0.15:
            if a in o.attrs:
                del o.attrs[a]
            return ("del", a, kind)
        v = attr_value(r, marker, f, objs)
        if isinstance(v, tuple):
            o.attrs.create(a, v[1], dtype=h5py.special_dtype(vlen=np.dtype("S1")))
        else:
            o.attrs[a] = v
        return ("attr", a, kind, type(v).__name__ + str(getattr(v, "dtype", ""))[:12])
    if k == 6:
        # other data in place of the object
        name, par, at = o.name, o.parent, dict(o.attrs.items())
        new = r.choice([lambda: np.arange(6).reshape(2, 3), lambda: np.bytes_(b"text"), lambda: np.zeros((0,)), lambda: np.frombuffer(b"\xff\xfe\xfd\0", "u1"), lambda: np.array([0xd800, 0xdc00, 0xdc00], "u2"),
                        lambda: np.array([0x110000, 1], "u4"), lambda: np.float16(2), lambda: h5py.Empty("f8"), lambda: np.array([(1, 2)], dtype=[("a", "i4"), ("b", "u1")]),
                        lambda: hostile(r, marker).replace("\0", "?"), lambda: np.array(DTYPES[r.randrange(len(DTYPES))].encode()), lambda: np.array([True, False]), lambda: np.array([b"a", b"bc"]), lambda: np.zeros(3, "V4")])()
        try:
            del par[name]
            d = par.create_dataset(name, data=new)
        except Exception:
            return ("none",)
        for x, v in at.items():
            with contextlib.suppress(Exception):
                d.attrs[x] = v
        return ("data", kind, str(getattr(new, "dtype", type(new).__name__))[:12])
    if k == 7:
        # references to anything
        ds = [x for x in objs if isinstance(x, h5py.Dataset) and h5py.check_dtype(ref=x.dtype) is h5py.Reference and 0 < (x.size or 0) < 10 ** 6]
        if not ds:
            return ("none",)
        d = r.choice(ds)
        a = d[...]
        t = r.choice(["self", "root", "any", "null", "parent"])
        ref = {"self": d.ref, "root": f["/"].ref, "any": r.choice(objs).ref, "null": h5py.Reference(), "parent": d.parent.ref}[t]
        a = np.asarray(a, dtype=object).reshape(-1) if not isinstance(a, h5py.Reference) else np.array([a], dtype=object)
        a[r.randrange(len(a))] = ref
        with contextlib.suppress(Exception):
            d[...] = a.reshape(d.shape) if d.shape else a[0]
        return ("ref", t)
    if k == 8:
        g = r.choice([x for x in objs if isinstance(x, h5py.Group)] or [f["/"]])
        t = r.choice(["self", "root", "soft loop", "dangling", "hard", "name"])
        n = r.choice(["__class__", "__init__", "__reduce__", "a", "x", "\\x2f", "\\u0000", "\\", "\\x", ". .", "keys", "values", "0", " ", "os.system('x')", "numerator", "start", "\u202e", "..x"])
        with contextlib.suppress(Exception):
            if t == "self":
                g[n] = g
            elif t == "root":
                g[n] = f["/"]
            elif t == "soft loop":
                g[n] = h5py.SoftLink(g.name + "/" + n)
            elif t == "dangling":
                g[n] = h5py.SoftLink("/nowhere/at/all")
            elif t == "hard":
                g[n] = r.choice(objs)
            else:
                g[n] = np.arange(3)
        return ("link", t)
    if k == 9:
        ds = [x for x in objs if isinstance(x, h5py.Dataset) and 0 < (x.size or 0) < 10 ** 6 and x.dtype.kind in "iufS" and x.shape]
        if not ds:
            return ("none",)
        d = r.choice(ds)
        a = d[...]
        b = bytearray(a.tobytes())
        for _ in range(r.randrange(1, 4)):
            b[r.randrange(len(b))] = r.randrange(256)
        with contextlib.suppress(Exception):
            d[...] = np.frombuffer(bytes(b), a.dtype).reshape(a.shape)
        return ("bytes", str(d.dtype)[:5])
    g = r.choice([x for x in objs if isinstance(x, h5py.Group)] or [f["/"]])
    t = r.choice(["named type", "vlen", "regionref", "enum", "nullspace", "opaque", "fixed str", "bitfield", "big"])
    with contextlib.suppress(Exception):
        n = "m%d" % r.randrange(100)
        if t == "named type":
            g[n] = np.dtype("f8")
        elif t == "vlen":
            d = g.create_dataset(n, (2,), dtype=h5py.special_dtype(vlen=np.dtype("i4")))
            d[0] = np.arange(3)
        elif t == "regionref":
            d = g.create_dataset(n + "x", data=np.arange(5))
            e = g.create_dataset(n, (1,), dtype=h5py.special_dtype(ref=h5py.RegionReference))
            e[0] = d.regionref[1:3]
        elif t == "enum":
            g.create_dataset(n, (2,), dtype=h5py.special_dtype(enum=("i4", {"A": 1, "B": 2})))
        elif t == "nullspace":
            g.create_dataset(n, data=h5py.Empty("f8"))
        elif t == "opaque":
            g.create_dataset(n, data=np.zeros(2, "V5"))
        elif t == "fixed str":
            g.create_dataset(n, data=np.array([b"x", b"\xff"]), dtype=h5py.string_dtype("utf-8", 3))
        elif t == "bitfield":
            g.create_dataset(n, data=np.array([1], "u1").view("bool"))
        else:
            g.create_dataset(n, shape=(10 ** 13,), dtype="i8", chunks=(1000,))
    return ("add", t)


OKTYPES = (type(None), bool, int, float, complex, str, bytes, bytearray, list, tuple, set, frozenset, dict, collections.deque, slice, range, type(Ellipsis), type(NotImplemented),
           datetime.timedelta, datetime.timezone, datetime.tzinfo, datetime.date, datetime.time, datetime.datetime, fractions.Fraction, np.generic, np.ndarray, np.dtype, collections.ChainMap,
           h5py.Reference, h5py.RegionReference, h5py.Empty)


def odd(v, seen=None, d=0):
    """Something in v that isn't data."""
    if seen is None:
        seen = set()
    if id(v) in seen or d > 60 or len(seen) > 3000:
        return None
    seen.add(id(v))
    if not isinstance(v, OKTYPES):
        return v
    t = type(v)
    if t.__module__ not in ("builtins", "numpy", "collections", "datetime", "fractions", "h5py", "h5py.h5r", "h5py._hl.base") and not isinstance(v, (np.dtype, np.generic, np.ndarray, h5py.Empty)):
        return v
    if isinstance(v, dict):
        for k, x in v.items():
            y = odd(k, seen, d + 1) or odd(x, seen, d + 1)
            if y is not None:
                return y
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            y = odd(x, seen, d + 1)
            if y is not None:
                return y
    elif isinstance(v, np.ndarray) and v.dtype.hasobject and v.size < 5000:
        for x in v.reshape(-1).tolist():
            y = odd(x, seen, d + 1)
            if y is not None:
                return y
    return None


class Cut(BaseException):
    pass


def _alarm(sig, frame):
    # an exception in a callback of the interpreter would be lost
    if frame is not None and frame.f_code.co_filename.startswith(SRC):
        raise Cut


def cyclic(fn):
    """Whether the links and references in the file form a cycle, so that
    reading it needs not end in any reasonable time."""
    with h5py.File(fn, "r") as f:
        done, path = set(), set()

        def go(o):
            a = h5py.h5o.get_info(o.id).addr
            if a in path:
                return True
            if a in done:
                return False
            path.add(a)
            nxt = []
            if isinstance(o, h5py.Group):
                for k in o:
                    with contextlib.suppress(Exception):
                        nxt.append(o[k])
            elif isinstance(o, h5py.Dataset) and h5py.check_dtype(ref=o.dtype) is h5py.Reference and o.size:
                for x in np.asarray(o[...], dtype=object).reshape(-1):
                    with contextlib.suppress(Exception):
                        if x:
                            nxt.append(f[x])
            for x in nxt:
                if go(x):
                    return True
            path.discard(a)
            done.add(a)
            return False

        try:
            return go(f["/"])
        except Exception:
            # HDF5 itself gets lost
            return True


def watch(c, fun, what, files, allow=()):
    """Runs a read under the monitors, gives (value, exception)."""
    global EVENTS
    digests = [raw.digest(f) for f in files]
    mods = set(sys.modules)
    env, cwd = dict(os.environ), os.getcwd()
    listing = sorted(os.listdir(c.tmp))
    bi = dict(vars(builtins))
    err = val = None
    lim = sys.getrecursionlimit()
    cyc = any(cyclic(x) for x in files if h5py.is_hdf5(x))
    EVENTS = []
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 0.3 if cyc else 45, 0.003)
        try:
            val = fun()
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Exception as e:
            err = e
        except Cut:
            signal.setitimer(signal.ITIMER_REAL, 0)
            err = Cut()
        except BaseException as e:
            EVENTS, seen = None, EVENTS
            c.bad("reading a hostile file raises %r, which isn't an ordinary exception" % (e,), mutations=what)
    finally:
        EVENTS, seen = None, EVENTS
        signal.setitimer(signal.ITIMER_REAL, 0)
    if isinstance(err, Cut):
        c.ok(cyc, "reading a hostile file doesn't end", mutations=what)
    seen = [x for x in seen if not any(x[0] == a[0] and a[1] in x[1] for a in allow)]
    c.ok(not seen, "reading a hostile file causes %s" % (seen[:3],), mutations=what, error=err)
    new = set(sys.modules) - mods
    c.ok(not new, "reading a hostile file imports %s" % sorted(new)[:4], mutations=what)
    c.ok(dict(os.environ) == env and os.getcwd() == cwd and sys.getrecursionlimit() == lim, "reading a hostile file changes the process", mutations=what)
    c.ok(dict(vars(builtins)) == bi, "reading a hostile file changes builtins", mutations=what)
    c.ok(sorted(os.listdir(c.tmp)) == listing, "reading a hostile file makes or removes files: %s" % sorted(os.listdir(c.tmp)), mutations=what)
    for f, x in zip(files, digests):
        c.ok(raw.digest(f) == x, "reading a hostile file changes %s" % os.path.basename(f), mutations=what)
    if err is None:
        y = odd(val)
        c.ok(y is None, "reading a hostile file gives something that isn't data: %r" % (y,), mutations=what)
    c.count("read" if err is None else "raised " + type(err).__name__)
    return val, err


def start(c):
    r = c.r
    fn = c.path()
    marker = os.path.join(c.tmp, "MARK")
    kw = opts.gen(r)
    kw["action_for_matlab_incompatible"] = "ignore"
    kw.pop("compress_size_threshold", None)
    g = gen.Gen(r, maxdepth=2)
    simple = [lambda: {"a": 1, "b": [1, 2]}, lambda: [1, ["x", None]], lambda: np.zeros(2, dtype=[("a", "i4"), ("b", "O")]), lambda: datetime.datetime(2020, 1, 2, 3), lambda: range(3), lambda: np.dtype("i4"),
              lambda: {1: 2, (3,): "x"}, lambda: "text", lambda: fractions.Fraction(1, 2), lambda: {1, 2}, lambda: np.array(["a", "bc"]), lambda: 10 ** 30, lambda: collections.Counter("abca"), lambda: np.arange(3) * 1j]
    vals = [g.value() for _ in range(2)] + [x() for x in r.sample(simple, 3)]
    n = 0
    with hs.File(fn, writable=True, **kw) as f:
        for i, v in enumerate(vals):
            with contextlib.suppress(NotImplementedError, TypeError, ValueError):
                f["v%d" % i] = v
                n += 1
    return fn, marker, kw


def readers(r, fn, kw):
    names = list(h5names(fn))
    kw = dict(kw)
    if r.random() < 0.3:
        kw["structs_as_dicts"] = not kw.get("structs_as_dicts", False)
    if r.random() < 0.2:
        kw["matlab_compatible"] = not kw["matlab_compatible"]
    n = r.choice(names) if names else "x"
    k = r.randrange(5)
    if k <= 1:
        return [(lambda n=n: hs.read((n,), filename=fn, **kw), "read", n) for n in names]
    if k == 2:
        return [(lambda: hs.reads([(n,) for n in names], filename=fn, **kw), "reads", "")]
    if k == 3:
        def all_():
            with hs.File(fn, **kw) as f:
                out = []
                for x in f:
                    try:
                        out.append(f[x])
                    except Exception:
                        out.append(None)
                return out, len(f), n in f
        return [(all_, "iterate", "")]
    return [(lambda: hs.read("/", filename=fn, **kw), "root", "")]


def h5names(fn):
    with h5py.File(fn, "r") as f:
        return list(f)


def run(c):
    globals()["do_" + c.kind](c)


def do_mutate(c):
    r = c.r
    fn, marker, kw = start(c)
    with h5py.File(fn, "a") as f:
        what = [mutate(r, f, marker) for _ in range(r.choice([1, 1, 2, 3, 5]))]
    for w in what:
        c.note(w)
    for fun, how, n in readers(r, fn, kw):
        v, e = watch(c, fun, what, [fn])
        c.ev((tuple(what), how, type(e).__name__))
    c.sample(what)


def do_text(c):
    """A hostile text in each of the attributes that hold texts."""
    r = c.r
    fn, marker, kw = start(c)
    a = r.choice(ATTRS)
    t = hostile(r, marker)
    with h5py.File(fn, "a") as f:
        for o in objects(f):
            if a in o.attrs or r.random() < 0.5:
                with contextlib.suppress(ValueError):
                    o.attrs[a] = r.choice([np.bytes_(t.encode()), t, np.array([ord(x) for x in t if ord(x) < 65536], "u2") if t else np.uint16(0)])
    for fun, how, n in readers(r, fn, kw):
        v, e = watch(c, fun, (a, t), [fn])
        c.ev((a, t[:30], how, type(e).__name__))


def do_dtype(c):
    """Hostile texts of dtypes."""
    r = c.r
    fn = c.path()
    marker = os.path.join(c.tmp, "MARK")
    kw = opts.gen(r, matlab=r.random() < 0.3)
    kw["action_for_matlab_incompatible"] = "ignore"
    t = r.choice(DTYPES).replace("%s", marker) if r.random() < 0.7 else hostile(r, marker)
    v = np.dtype("i4")
    hs.write({"k": v} if r.random() < 0.3 else [v] if r.random() < 0.3 else v, path="/v", filename=fn, **kw)
    with h5py.File(fn, "a") as f:
        ds = [o for o in objects(f) if isinstance(o, h5py.Dataset) and o.attrs.get("Python.Type") in (b"numpy.dtype", "numpy.dtype")]
        for o in ds:
            at, name, par = dict(o.attrs.items()), o.name, o.parent
            b = t.encode()
            data = r.choice([np.bytes_(b) if b else np.zeros(0, "u1"), np.frombuffer(b, "u1") if b else np.zeros(0, "u1"), np.array([[ord(x) for x in t]], "u4").astype("u2") if t else np.zeros(0, "u2")])
            refs = [x for x in objects(f) if isinstance(x, h5py.Dataset) and h5py.check_dtype(ref=x.dtype) is h5py.Reference]
            del par[name]
            d = par.create_dataset(name, data=data)
            for k, x in at.items():
                d.attrs[k] = x
            for x in refs:
                if x.shape:
                    x[...] = np.full(x.shape, d.ref, dtype=object)
    v, e = watch(c, lambda: hs.read("/v", filename=fn, **kw), t, [fn])
    c.ev(("dtype", t[:60], type(e).__name__, type(v).__name__))
    c.sample((t[:80], repr(e)[:80], same.short(v, 80)))


def do_unknown(c):
    """Types of modules that nobody declares, and a registered marshaller
    whose modules aren't needed."""
    r = c.r
    fn, marker, kw = start(c)
    d = os.path.join(c.tmp, "mods")
    os.mkdir(d)
    mod = "vftrip%d" % r.randrange(10 ** 9)
    body = "open(%r, 'w').write('x')\nclass T(dict):\n    def __init__(self, *a, **k):\n        open(%r, 'w').write('x')\ndef f(*a, **k):\n    open(%r, 'w').write('x')\n" % (marker, marker, marker)
    open(os.path.join(d, mod + ".py"), "w").write(body)

    class M(HM.TypeMarshaller):
        def __init__(self):
            HM.TypeMarshaller.__init__(self)
            self.required_parent_modules = self.required_modules = [mod]
            self.types = self.python_type_strings = [mod + ".Declared"]
            self.matlab_classes = ["vfdeclared"]
            self.update_type_lookups()

    sys.path.insert(0, d)
    try:
        mc = hs.MarshallerCollection(lazy_loading=True, marshallers=[M()])
        name = r.choice([mod + ".T", mod + ".f", mod, mod + ".Declared.x", "x." + mod + ".T", mod + ".declared", " " + mod + ".Declared", mod + ".Declared ", mod + ":T", "builtins." + mod])
        a = r.choice(["Python.Type", "Python.Type", "Python.numpy.UnderlyingType", "Python.numpy.Container", "MATLAB_class"])
        with h5py.File(fn, "a") as f:
            for o in objects(f):
                o.attrs[a] = np.bytes_(name.encode())
        for fun, how, n in readers(r, fn, dict(kw, marshaller_collection=mc)):
            v, e = watch(c, fun, (a, name), [fn])
            c.ev(("unknown", a, name.replace(mod, "M"), type(e).__name__))
        c.ok(mod not in sys.modules, "a module was imported because a file names it")
    finally:
        sys.path.remove(d)
        sys.modules.pop(mod, None)


def do_links(c):
    """Links to other files and to special files."""
    r = c.r
    fn, marker, kw = start(c)
    other = c.path("other.h5")
    with h5py.File(other, "w") as f:
        f["secret"] = np.arange(3)
    text = c.path("text.txt")
    open(text, "w").write("secret text")
    t = r.choice(["soft", "text", "missing", "path text", "name"])
    with h5py.File(fn, "a") as f:
        n = "l"
        if t == "soft":
            f[n] = h5py.SoftLink(r.choice(["/l", "l", "../../x", "/v0/../v1", other]))
        elif t == "text":
            f[n] = h5py.ExternalLink(text, "/x")
        elif t == "missing":
            f[n] = h5py.ExternalLink(c.path("missing.h5"), "/x")
        elif t == "path text":
            f[n] = np.bytes_(text.encode())
            f[n].attrs["H5PATH"] = np.bytes_(text.encode())
        else:
            f.create_group("g").create_dataset(text.replace("/", "\\x2f"), data=3)
    for fun, how, n in readers(r, fn, kw) + [(lambda: hs.read("/l", filename=fn, **kw), "read", "l")]:
        v, e = watch(c, fun, t, [fn, other, text])
        try:
            shown = repr(v)
        except (UnicodeError, RecursionError):  # Numpy cannot show some matrices
            shown = ""
        c.ok("secret" not in shown[:10000].lower(), "the content of another file is read", link=t)
        c.ev(("links", t, how, type(e).__name__))


def do_loadmat(c):
    r = c.r
    fn, marker, kw = start(c)
    with h5py.File(fn, "a") as f:
        what = [mutate(r, f, marker) for _ in range(r.choice([1, 2, 3]))]
    md = {"keep": 1} if r.random() < 0.5 else None
    names = None if r.random() < 0.5 else ["v0", "v1", "../x", "v2", "/"]

    def fun():
        return hs.loadmat(fn, mdict=md, appendmat=False, variable_names=names)

    # for files that aren't HDF5 files SciPy is asked as documented
    v, e = watch(c, fun, what, [fn], allow=[("import", "scipy"), ("open", "scipy"), ("os.listdir", "site-packages"), ("os.listdir", "")])
    if e is None and md is not None:
        c.ok(v is md and md["keep"] == 1 or "keep" in h5names(fn), "loadmat of a hostile file damages the given dict")
    c.ev((tuple(what), "loadmat", type(e).__name__))


def do_fields(c):
    """Names of fields in attributes that are paths to other objects."""
    r = c.r
    fn = c.path()
    kw = opts.gen(r)
    kw["action_for_matlab_incompatible"] = "ignore"
    v = r.choice([lambda: {"a": 1, "b": [1, 2], "d": {"x": 5}}, lambda: np.array([(1, [2])], dtype=[("a", "i4"), ("b", "O")]), lambda: {1: 2, "x": 3}, lambda: collections.Counter("ab"),
                  lambda: collections.OrderedDict([("a", {"k": 2}), ("c", 2)])])()
    secret = 123456789
    hs.writes({"/v": v, "/secret": secret, "/g/secret": secret, "/g/v": v}, filename=fn, **kw)
    names = ["/secret", "../secret", "/g/secret", ".", "..", "/", "./a", "a/../b", "d/x", "/v", "//secret", "a/", "secret", "\\x2fsecret", "/g"]
    t = [r.choice(names) for _ in range(r.randrange(1, 4))]
    if r.random() < 0.5:
        t.insert(r.randrange(len(t) + 1), "a")
    a = r.choice(["Python.Fields", "MATLAB_fields", "Python.dict.keys_values_names"])
    with h5py.File(fn, "a") as f:
        for n in ("v", "g/v"):
            o = f[n]
            if a == "MATLAB_fields":
                fs = np.empty(len(t), dtype=object)
                for i, s in enumerate(t):
                    fs[i] = np.array([x.encode() for x in s], dtype="S1")
                o.attrs.create(a, fs, dtype=h5py.special_dtype(vlen=np.dtype("S1")))
            else:
                o.attrs.create(a, t, dtype=h5py.special_dtype(vlen=str))
    for n in ("/v", "/g/v"):
        got, e = watch(c, lambda: hs.read(n, filename=fn, **kw), (a, t), [fn])
        if e is None:
            c.ok(str(secret) not in same.short(got, 100000), "names of fields in %s lead to objects elsewhere in the file" % a, names=t, got=same.short(got, 300))
        c.ev(("fields", a, tuple(t), type(v).__name__, type(e).__name__))
