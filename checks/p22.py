"""P22: what opening, truncating, flushing and closing keep."""
import builtins
import gc
import os
import pickle
import select
import signal
import sys
import time

import h5py
import numpy as np

from vf.env import SRC, hs
from vf import conform, faults, gen, opts, raw, same, work

ID = "P22"
TITLE = "opening, flushing, closing"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with crash injection: every combination of open flags on every kind of existing file is followed by a table model over raw content and bytes; processes doing histories of writes are killed at chosen executed lines after a flush or close and the file they leave is compared with the model; open file descriptors are counted after every exit path, injected failures included"
LEVEL_NOTE = "flags x existing files are enumerated; histories, values and the line where the process is killed are sampled"
RULE = "one evaluation = one open judged by what is in the file afterwards, one killed process whose file was compared, or one exit path after which the descriptors were counted; distinct = (flags, existing file), (history, kill point) or (call, failure)"
ASSUMPTIONS = ["a killed process stands for a crash of the process: the operating system itself keeps running", "h5py reports what is in the file"]
TIMEOUT = 90

KINDS = ["none", "hs matlab", "hs plain", "h5 no userblock", "h5 512", "h5 1024", "h5 512 header", "text", "empty", "directory", "no parent", "truncated hdf5", "latest", "hs refs", "symlink", "broken symlink"]


def combos():
    return [(k, w, t, i, m) for k in KINDS for w in (False, True) for t in (False, True) for i in (False, True) for m in (False, True)]


def plan(tier):
    k = 12 if tier == "thorough" else 1
    return [("open", len(combos()) * (3 if tier == "thorough" else 1)), ("kill", 1400 * k), ("fds", 1200 * k), ("again", 300 * k)]


def worker_init():
    faults.install()


def run(c):
    globals()["do_" + c.kind](c)


def fds(fn):
    """How many descriptors of this process are open on the file."""
    n = 0
    real = os.path.realpath(fn)
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue
        n += t == real or t == real + " (deleted)"
    return n


def closed(c, fn, what, **d):
    if fds(fn):
        gc.collect()
    c.ok(fds(fn) == 0, "%s leaves the file open" % what, **d)


def content(fn):
    t = raw.tree(fn)
    x = raw.canon(t)
    return x


def make(c, kind, fn):
    r = c.r
    g = gen.Gen(r, matlab=True, maxdepth=2, deny=("void",), ustruct=kind == "hs matlab")
    if kind in ("hs matlab", "hs plain", "hs refs"):
        hs.writes({"/a": g.value(), "/b/c": np.arange(r.randrange(1, 2000)), "/d": [1, [2, "x"]]}, filename=fn, matlab_compatible=kind == "hs matlab")
    elif kind in ("symlink", "broken symlink"):
        t = os.path.join(c.tmp, "target.h5")
        if kind == "symlink":
            hs.write([1, 2], path="/a", filename=t)
        os.symlink(t, fn)
    elif kind.startswith("h5") or kind == "latest":
        ub = {"h5 no userblock": 0, "h5 512": 512, "h5 1024": 1024, "h5 512 header": 512, "latest": 0}[kind]
        k = {"libver": "latest"} if kind == "latest" else {}
        with h5py.File(fn, "w", userblock_size=ub, **k) as f:
            f["q"] = np.arange(7)
            f["g/h"] = "text"
            f["g"].attrs["at"] = [1, 2]
            f["q"].attrs["MATLAB_class"] = np.bytes_(b"int64")
            f["soft"] = h5py.SoftLink("/q")
            f["hard"] = f["q"]
        if ub:
            with open(fn, "r+b") as f:
                f.write(b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Fri Feb 07 02:29:00 2014 HDF5 schema 1.00 .".ljust(116) + b"\0" * 8 + b"\x00\x02IM" if kind == "h5 512 header" else bytes(r.randrange(256) for _ in range(ub)))
    elif kind == "text":
        open(fn, "wb").write(b"MATLAB 5.0 MAT-file " + bytes(r.randrange(256) for _ in range(r.randrange(300, 3000))))
    elif kind == "empty":
        open(fn, "wb").close()
    elif kind == "directory":
        os.mkdir(fn)
    elif kind == "truncated hdf5":
        hs.write(np.arange(5000), path="/a", filename=fn, compress=False, matlab_compatible=False)
        b = open(fn, "rb").read()
        open(fn, "wb").write(b[:len(b) // 2])


def do_open(c):
    r = c.r
    al = combos()
    kind, w, t, inv, mat = al[c.idx % len(al)]
    fn = c.path("f.h5")
    if kind == "no parent":
        fn = os.path.join(c.tmp, "no", "f.h5")
    make(c, kind, fn)
    hdf5 = kind in ("hs matlab", "hs plain", "hs refs", "latest", "symlink") or kind.startswith("h5")
    bytes0 = open(fn, "rb").read() if os.path.isfile(fn) else None
    before = content(fn) if hdf5 else None
    ub = 0
    if hdf5:
        with h5py.File(fn, "r") as f:
            ub = f.userblock_size
    kw = {}
    for n, v, dflt in (("writable", w, False), ("truncate_existing", t, False), ("truncate_invalid_matlab", inv, False)):
        if v != dflt or r.random() < 0.5:
            kw[n] = v
    k = r.randrange(3)
    ow = {"matlab_compatible": mat}
    if k == 0:
        kw["options"] = hs.Options(**ow)
    else:
        kw.update(ow)
    use = r.random() < 0.5
    names0 = sorted(os.listdir(c.tmp))
    d = dict(kind=kind, flags=repr(kw))
    # what should happen
    if not w:
        works = hdf5
        new = False
    else:
        works = hdf5 or (kind in ("none", "broken symlink")) or (t and kind in ("text", "empty", "truncated hdf5"))
        new = not hdf5 or t or (mat and inv and ub < 128)
    c.note("%s %r" % (kind, kw))
    try:
        if r.random() < 0.5:
            with hs.File(fn, **kw) as f:
                c.ok(not f.closed, "an open File says that it is closed")
                if use:
                    list(f)
            c.ok(f.closed, "a File is open after its with block")
        else:
            f = hs.File(fn, **kw)
            if use:
                len(f)
            q = r.randrange(3)
            if q == 0:
                f.close()
            elif q == 1:
                f.flush()
                f.close()
                f.close()
            if q < 2:
                c.ok(f.closed, "a File is open after close()")
            del f
    except OSError as e:
        c.ok(not works or kind == "empty" and not t, "opening raises %r" % e, **d)
        e = None
        works = False
    except Exception as e:
        c.bad("opening raises %r, which is no OSError" % e, **d)
    else:
        # HDF5 itself makes something of an empty file
        c.ok(works or kind == "empty" and w, "opening works", **d)
        works = True
    closed(c, fn, "opening and closing", **d)
    c.ev((kind, w, t, inv, mat, k == 0, use))
    c.count("opened" if works else "refused")
    if not works or not w:
        if bytes0 is None:
            c.ok(sorted(os.listdir(c.tmp)) == names0, "something was made by a call that only reads or fails", **d)
        else:
            c.ok(open(fn, "rb").read() == bytes0, "the file was changed by opening it for reading or in vain", **d)
        return
    if kind == "symlink":
        c.ok(os.path.islink(fn), "the symbolic link was replaced", **d)
    with h5py.File(fn, "r") as f:
        ub2 = f.userblock_size
    after = content(fn)
    if kind == "empty" and not t and not (mat and inv):
        c.ok(len(raw.tree(fn).items) == 0, "there is something in an empty file", **d)
        return
    if new:
        c.ok(len(raw.tree(fn).items) == 0, "there is something in the new or truncated file", **d)
        c.ok(ub2 == 512, "the userblock has %d bytes" % ub2, **d)
        ub = 512
        head0 = b"\0" * 512
    else:
        x = raw.diff(before, after)
        c.ok(x is None, "opening for writing changed the content: %s" % x, **d)
        c.ok(ub2 == ub, "the userblock has %d bytes instead of %d" % (ub2, ub), **d)
        head0 = bytes0[:ub]
    head = open(fn, "rb").read(ub)
    if mat and ub >= 128:
        c.ok(head[128:] == head0[128:], "the userblock was changed after the header", **d)
        if not head0[128:].strip(b"\0"):
            x = conform.header(fn, ub)
            c.ok(x is None, "MATLAB header: %s" % x, **d)
    else:
        c.ok(head == head0, "the userblock was changed", **d)
    c.ev(n=2)


# ---------------------------------------------------------------- kills
def kind_of_step(r):
    return r.choice(["write", "write", "write", "over", "del", "refs", "batch", "fail"])


def child(fd, fn, kw, steps, how, line, seed):
    """Runs the history and is killed at a line after the last flush."""
    def say(x):
        os.write(fd, pickle.dumps(x) + b"\n--end--\n")

    import random
    r = random.Random(seed)
    f = hs.File(fn, writable=True, **kw)
    for s in steps:
        if s[0] == "set":
            f[s[1]] = s[2]
        elif s[0] == "batch":
            f.writes(s[1])
        elif s[0] == "del":
            del f[s[1]]
        elif s[0] == "fail":
            try:
                f.write([1, object()], s[1])
            except NotImplementedError:
                pass
        elif s[0] == "flush":
            f.flush()
        elif s[0] == "reopen":
            f.close()
            f = hs.File(fn, writable=True, **kw)
    if how == "flush":
        f.flush()
    elif how == "close":
        f.close()
    elif how == "with":
        with f:
            pass
    elif how == "raise":
        try:
            with f:
                raise KeyError
        except KeyError:
            pass
    elif how == "del":
        del f
        f = None
    elif how == "module":
        f.close()
        hs.write(steps[0][2] if steps and steps[0][0] == "set" else 1, path="/last", filename=fn, **kw)
    elif how == "exception":
        # a failing call, and the File is left to the garbage collector
        def q(f):
            f.read("/does not exist")
        f.close()
        f = hs.File(fn, writable=True, **kw)
        f["/last"] = 5
        f.flush()
        try:
            q(f)
        except KeyError:
            pass
    say("done")
    n = [0]

    def die():
        say(("at", n[0]))
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(60)

    if line == "exit":
        say(("at", -1))
        os._exit(0)

    def tr(frame, ev, arg):
        if ev == "line":
            n[0] += 1
            if n[0] >= line:
                die()
        return tr

    def start(frame, ev, arg):
        return tr if frame.f_code.co_filename.startswith(SRC) or frame.f_code.co_filename == __file__ else None

    def after():
        # nothing that changes the file
        g = f
        if f is None or f.closed:
            g = hs.File(fn, **kw)
        for i in range(50):
            q = r.randrange(6)
            names = list(g)
            if q == 0 and names:
                try:
                    g[r.choice(names)]
                except Exception:
                    pass
            elif q == 1:
                "nope" in g
                len(g)
            elif q == 2:
                try:
                    g.read("/nope")
                except KeyError:
                    pass
            elif q == 3:
                try:
                    g.write(1, opts.effective(kw)["group_for_references"] + "/x")
                except (ValueError, OSError):
                    pass
            elif q == 4:
                g.flush()
            else:
                try:
                    hs.read("/nope", filename=fn, **kw)
                except KeyError:
                    pass

    sys.settrace(start)
    after()
    sys.settrace(None)
    die()


def do_kill(c):
    r = c.r
    fn = c.path("f.h5")
    kw = opts.gen(r)
    kw["action_for_matlab_incompatible"] = "error" if kw["matlab_compatible"] else "ignore"
    kw["delete_unused_variables"] = True
    e = opts.effective(kw)
    mat = kw["matlab_compatible"]
    g = gen.Gen(r, matlab=mat, maxdepth=2, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if mat else ())
    model = {}
    if r.random() < 0.3:
        hs.writes({"/old": [1, 2], "/x": {"a": 1}}, filename=fn, **kw)
        model.update({"old": [1, 2], "x": {"a": 1}})
    steps = []
    for _ in range(r.randrange(1, 6)):
        k = kind_of_step(r)
        if k == "over" and model:
            n = r.choice(sorted(model))
            v = g.value()
            steps.append(("set", n, v))
            model[n] = v
        elif k == "del" and model:
            n = r.choice(sorted(model))
            steps.append(("del", n))
            del model[n]
        elif k == "batch":
            b = {r.choice("pqrst"): g.value() for _ in range(3)}
            steps.append(("batch", b))
            model.update(b)
        elif k == "fail":
            steps.append(("fail", "bad"))
        else:
            n = r.choice("abcdeg")
            v = g.value() if k != "refs" else [g.value(), [1, {"z": 2}]]
            steps.append(("set", n, v))
            model[n] = v
        q = r.random()
        if q < 0.15:
            steps.append(("flush",))
        elif q < 0.25:
            steps.append(("reopen",))
    how = r.choice(["flush", "flush", "flush", "close", "with", "raise", "del", "module", "exception"])
    line = r.choice(["exit", 1, 2, r.randrange(3, 30), r.randrange(3, 300), r.randrange(3, 3000)])
    if how == "module":
        model["last"] = steps[0][2] if steps[0][0] == "set" else 1
    elif how == "exception":
        model["last"] = 5
    c.note("options %r" % kw)
    c.note("%s, %s, steps %s" % (how, line, same.short(steps, 1500)))
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.alarm(80)
            child(wr, fn, kw, steps, how, line, c.r.random())
        except BaseException:
            import traceback
            os.write(wr, pickle.dumps(("error", traceback.format_exc()[-1500:])) + b"\n--end--\n")
        finally:
            os._exit(3)
    os.close(wr)
    buf = b""
    end = time.monotonic() + 60
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                raise TimeoutError("the process to be killed does nothing")
            b = os.read(rd, 65536)
            if not b:
                break
            buf += b
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    msgs = [pickle.loads(x) for x in buf.split(b"\n--end--\n") if x]
    for m in msgs:
        if isinstance(m, tuple) and m[0] == "error":
            c.bad("the history raises", traceback=m[1], options=kw)
    c.ok(msgs and msgs[0] == "done" and len(msgs) == 2, "the process ended before it was killed: %r" % msgs)
    # What did it leave?
    lax = same.group_stored(e)
    c.count("killed after " + how)
    try:
        t = raw.tree(fn)
    except Exception as x:
        c.bad("the file is not readable after the process was killed: %r" % x, how=how, at=repr(msgs[1]), options=kw)
    with hs.File(fn, writable=r.random() < 0.5, **kw) as f:
        names = set(f) - {"bad"}
        c.ok(names == set(model), "the file has %r after the process was killed" % sorted(names), want=sorted(model), how=how, at=repr(msgs[1]), options=kw)
        for n in model:
            x = same.same(model[n], f[n], lax)
            c.ok(x is None, "%r is damaged after the process was killed: %s" % (n, x), how=how, at=repr(msgs[1]), options=kw)
            c.ev()
        # and it goes on from there
    with hs.File(fn, writable=True, **kw) as f:
        f["/go on"] = [1, 2]
        c.ok(f["/go on"] == [1, 2], "the file cannot be used after the process was killed")
    c.ev((how, tuple(s[0] for s in steps), line, opts.sig(kw)))


# ---------------------------------------------------------- descriptors
def do_fds(c):
    r = c.r
    fn = c.path("f.h5")
    kw = {"matlab_compatible": r.random() < 0.5}
    hs.writes({"/a": [1, 2], "/b": {"x": np.arange(4)}, "/c": "text"}, filename=fn, **kw)
    before = content(fn)
    bad = [1, object()]
    k = r.randrange(9)
    exc = (Exception,)
    what = None

    def fails(fun, label):
        nonlocal what
        what = label
        try:
            fun()
        except Exception as e:
            c.count(type(e).__name__)
            return True
        return False

    if k == 0:
        fun, lab = r.choice([
            (lambda: hs.write(bad, path="/n", filename=fn, **kw), "write of something unsupported"),
            (lambda: hs.writes({"/n": 1, 3: 4}, filename=fn, **kw), "writes to an invalid path"),
            (lambda: hs.write(1, path="/#refs#/a", filename=fn, **kw), "write into the references Group"),
            (lambda: hs.write(1, path="/a/b/c", filename=fn, **kw), "write below a Dataset"),
            (lambda: hs.read("/nope", filename=fn, **kw), "read of nothing"),
            (lambda: hs.reads(["/a", "/nope"], filename=fn, **kw), "reads of nothing"),
            (lambda: hs.read(3, filename=fn, **kw), "read of an invalid path"),
            (lambda: hs.writes(None, filename=fn, **kw), "writes of no Mapping"),
            (lambda: hs.reads(None, filename=fn, **kw), "reads of no paths"),
            (lambda: hs.savemat(fn, {"n": bad}, appendmat=False), "savemat of something unsupported"),
            (lambda: hs.savemat(fn, {"n": np.float16(2)}, appendmat=False), "savemat of something incompatible"),
            (lambda: hs.loadmat(fn, variable_names=["a", 3], appendmat=False), "loadmat of an invalid name"),
            (lambda: hs.loadmat(fn, variable_names=3, appendmat=False), "loadmat with invalid names"),
        ])
        c.ok(fails(fun, lab), "%s works" % lab)
    elif k == 1:
        keep = []

        def fun():
            with hs.File(fn, writable=r.random() < 0.7, **kw) as f:
                keep.append(f)
                q = r.randrange(5)
                if q == 0:
                    f["nope"]
                elif q == 1:
                    raise KeyboardInterrupt
                elif q == 2:
                    f.write(bad, "/n")
                elif q == 3:
                    f.writes({"/n": bad})
                raise GeneratorExit
        try:
            fun()
        except BaseException:
            pass
        what = "an exception in a with block"
        c.ok(keep[0].closed and fds(fn) == 0, "a File is still open after an exception in its with block")
    elif k == 2:
        # a generator abandoned in the middle of a with block, and Files dropped
        def gen_():
            with hs.File(fn, **kw) as f:
                for n in f:
                    yield f[n]
        it = gen_()
        next(it)
        del it
        f = hs.File(fn, writable=True, **kw)
        it = iter(f)
        next(it, None)
        del f, it
        what = "dropping a File"
    elif k in (3, 4, 5):
        # calls into h5py fail
        def fun():
            q = r.randrange(4)
            rr = r
            if q == 0:
                hs.write({"z": [1, 2]}, path="/n", filename=fn, **kw)
            elif q == 1:
                hs.reads(["/a", "/b"], filename=fn, **kw)
            elif q == 2:
                with hs.File(fn, writable=True, **kw) as f:
                    f["n"] = [1]
                    f["a"]
            else:
                hs.loadmat(fn, appendmat=False)
        s = r.getstate()
        with faults.Plan() as p:
            fails(fun, "")
        r.setstate(s)
        n = r.randrange(p.calls) if r.random() < 0.6 else r.randrange(min(p.calls, 3))
        after = r.random() < 0.3
        name = p.names[n]
        with faults.Plan(n, after, r.choice([faults.Injected, faults.InjectedRuntime]), skip=("File.close",)) as q:
            fails(fun, "")
        what = "a failure of call %d (%s)" % (n, name)
    elif k == 6:
        # writing the header fails
        real = builtins.open

        def bad_open(name, *a, **kk):
            if name == fn and sys._getframe(1).f_code.co_filename.startswith(SRC):
                raise r.choice([PermissionError(13, "injected"), OSError(28, "injected")])
            return real(name, *a, **kk)
        builtins.open = bad_open
        try:
            z = fails(lambda: hs.File(fn, writable=True, matlab_compatible=True, truncate_existing=r.random() < 0.2), "")
        finally:
            builtins.open = real
        c.count("header failures", z)
        what = "a failure to write the header"
        before = None
    elif k == 7:
        # the file vanishes or is replaced
        f = hs.File(fn, writable=r.random() < 0.5, **kw)
        os.unlink(fn)
        open(fn, "wb").write(b"x")
        fails(lambda: f["a"], "")
        f.close()
        what = "a File whose file was replaced"
        c.ok(open(fn, "rb").read() == b"x", "closing a File changed the file that took its name")
        before = None
    else:
        # constructor arguments
        bads = r.choice([dict(filename=3), dict(filename=None), dict(writable=1), dict(truncate_existing=1, writable=True), dict(truncate_invalid_matlab="x", writable=True),
                         dict(options=3), dict(options={}, writable=True)])
        a = dict(filename=fn, writable=True)
        a.update(bads)
        c.ok(fails(lambda: hs.File(**a), ""), "File(%r) works" % a)
        what = "File with invalid arguments"
    closed(c, fn, what)
    if before is not None and k in (0, 8):
        t = content(fn)
        got = hs.reads(["/a", "/c"], filename=fn, **kw)
        c.ok(got == [[1, 2], "text"], "after %s the rest of the file is damaged" % what)
        if k == 8 or "read" in what or "loadmat" in what or "into" in what or "invalid path" in what or "no Mapping" in what:
            x = raw.diff(before, t)
            c.ok(x is None, "%s changed the file: %s" % (what, x))
    c.ev((k, what))


def do_again(c):
    """Opening a file that is open already."""
    r = c.r
    fn = c.path("f.h5")
    kw = {"matlab_compatible": r.random() < 0.5}
    hs.writes({"/a": [1, 2], "/b": {"x": np.arange(4)}}, filename=fn, **kw)
    before = content(fn)
    w = r.random() < 0.5
    with hs.File(fn, writable=w, **kw) as f:
        what = r.choice(["truncate", "read", "write", "loadmat"])
        try:
            if what == "truncate":
                hs.write(1, path="/q", filename=fn, truncate_existing=True, **kw)
                c.bad("an open file can be truncated")
            elif what == "read":
                c.ok(hs.read("/a", filename=fn, **kw) == [1, 2], "another File sees something else")
            elif what == "loadmat":
                hs.loadmat(fn, appendmat=False)
            elif w and not kw["matlab_compatible"]:
                hs.write(5, path="/q", filename=fn, **kw)
                c.ok(f["q"] == 5, "two Files on the same file differ")
                del f["q"]
        except (OSError, ImportError):
            c.count("refused")
        c.ok(f["a"] == [1, 2] and np.array_equal(f["b"]["x"], np.arange(4)), "%s by another File damaged an open one" % what)
    closed(c, fn, what)
    got = hs.reads(["/a", "/b"], filename=fn, **kw)
    c.ok(got[0] == [1, 2], "%s by another File damaged the file" % what)
    if what != "write":
        x = raw.diff(before, content(fn))
        c.ok(x is None, "%s by another File changed the file: %s" % (what, x))
    c.ev((what, w, kw["matlab_compatible"]))
