"""P10: attempts to get at the references Group through user paths."""
import pathlib

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work

ID = "P10"
TITLE = "references group"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: hostile spellings of paths are thrown at every entry point; outcome oracle plus raw dumps of the references Group and of everything using it around every call"
LEVEL_NOTE = "spellings are generated from every path inside of and around references Groups at several places"
RULE = "one evaluation = one call with one spelling judged by its outcome and by the raw content of the references Group after it; distinct = (entry point, kind of spelling, target, place of the Group)"
ASSUMPTIONS = ["h5py reports what is in the file"]


def plan(tier):
    k = 8 if tier == "thorough" else 1
    return [("attack", 500 * k), ("near", 300 * k), ("above", 400 * k), ("root", 600 * k)]


PLACES = ["/#refs#", "/#refs#", "/refs", "/r r", "/zz", "/a/refs", "/a/b/c", "/\u4e00/x", "/keys"]


def config(c, mat=None):
    r = c.r
    if mat is None:
        mat = r.random() < 0.3
    if mat:
        kw = opts.gen(r, matlab=True, meta=True)
        return kw, "/#refs#"
    kw = opts.gen(r, matlab=False, meta=True)
    refs = r.choice(PLACES)
    kw["group_for_references"] = refs
    if r.random() < 0.2:
        kw["group_for_references"] = r.choice(["/" + refs, refs + "/", refs.replace("/", "//"), "/q/.." + refs, "/." + refs])
    if "\\" in refs:
        raise AssertionError
    return kw, refs


def spell(r, parts):
    """A path that leads to the names, and how it is given. The names contain
    nothing to be escaped."""
    k = r.randrange(9)
    plain = "/".join(parts)
    if k == 0:
        return "/" + plain, "abs"
    if k == 1:
        return plain, "rel"
    if k == 2:
        return tuple(parts), "tuple"
    if k == 3:
        return [x.encode("utf-8") for x in parts], "bytes parts"
    if k == 4:
        return ("/" + plain).encode("utf-8"), "bytes"
    if k == 5:
        return pathlib.PurePosixPath(r.choice(["", "/", "//"]) + plain), "pure"
    if k == 6:
        return pathlib.PureWindowsPath(r.choice(["", "C:\\", "\\"]) + "\\".join(parts)), "windows"
    s = r.choice(["", "/", "//", "./", "/./", "/../", "///"])
    for i, n in enumerate(parts):
        for _ in range(r.choice([0, 1, 1, 2])):
            s += r.choice(["./", "zz/../", ".//", "q/w/../../", n + "/../"])
        s += n
        s += r.choice(["/", "//", "/./"]) if i < len(parts) - 1 else r.choice(["", "/", "/.", "/x/..", "//", "/./"])
    return (s, "noisy") if k == 7 else (s.encode("utf-8"), "noisy bytes")


def state(fn, refs):
    t = raw.tree(fn)
    parts = refs.strip("/").split("/")
    g = raw.get(t, parts)
    return t, {k: raw.canon(x, refs) for k, x in g.items.items()}


def setup(c, kw, refs, extra=()):
    fn = c.path()
    r = c.r
    vals = {"/v1": [1, ["a", None]], "/w/x": (1, "b"), "/v2": {"k": [1, 2]}}
    for p in extra:
        vals[p] = r.choice([3, [1], "x"])
    with hs.File(fn, writable=True, **kw) as f:
        for p, v in vals.items():
            f[p] = v
    return fn, vals


def intact(c, fn, kw, refs, vals, objs, what, lost=()):
    t, now = state(fn, refs)
    for k, x in objs.items():
        c.ok(k in now, "%s removed %r from the references Group" % (what, k), refs=refs)
        c.ok(now[k] == x, "%s changed %r in the references Group: %s" % (what, k, raw.diff(x, now[k])), refs=refs)
    for p, v in vals.items():
        if p in lost:
            continue
        try:
            w = hs.read(p, filename=fn, **kw)
        except Exception as e:
            c.bad("%s made %r unreadable: %r" % (what, p, e), refs=refs, options=kw)
        c.ok(same.same(v, w) is None, "%s changed the value of %r" % (what, p), got=same.short(w), refs=refs, options=kw)
    return now


def run(c):
    r = c.r
    kw, refs = config(c)
    parts = refs.strip("/").split("/")
    k = c.kind
    if k == "attack":
        fn, vals = setup(c, kw, refs)
        t, objs = state(fn, refs)
        names = sorted(objs)
        for _ in range(6):
            tail = r.choice([[], [], [r.choice(names)], ["new"], [r.choice(names), "x"], ["a"], ["b", "c", "d"]])
            p, form = spell(r, parts + tail)
            before = raw.digest(fn)
            tree0 = raw.canon(raw.tree(fn))
            calls = {
                "read": lambda: hs.read(p, filename=fn, **kw),
                "reads": lambda: hs.reads(["/v1", p], filename=fn, **kw),
                "getitem": lambda: _file(fn, kw, lambda f: f[p], r.random() < 0.5),
                "File.read": lambda: _file(fn, kw, lambda f: f.read(p), True),
                "write": lambda: hs.write(1, path=p, filename=fn, **kw),
                "setitem": lambda: _file(fn, kw, lambda f: f.__setitem__(p, [1])),
                "File.write": lambda: _file(fn, kw, lambda f: f.write({"x": 1}, p)),
                "delitem": lambda: _file(fn, kw, lambda f: f.__delitem__(p)),
                "pop": lambda: _file(fn, kw, lambda f: f.pop(p, None)),
            }
            if not isinstance(p, list):
                calls["writes"] = lambda: hs.writes({"/other": 1, p: 2}, filename=fn, **kw)
                calls["update"] = lambda: _file(fn, kw, lambda f: f.update({p: 2}))
                calls["setdefault"] = lambda: _file(fn, kw, lambda f: f.setdefault(p, 2))
            for n in r.sample(sorted(calls), 4):
                c.note("%s %s %r" % (n, form, p))
                try:
                    v = calls[n]()
                except ValueError:
                    pass
                except Exception as e:
                    c.bad("%s of %r in the references Group raises %r rather than ValueError" % (n, p, e), refs=refs, options=kw)
                else:
                    c.bad("%s of %r in the references Group does not raise" % (n, p), refs=refs, options=kw, value=same.short(v))
                c.ev((n, form, tuple(tail) and len(tail), refs))
                c.count("refused " + n)
                d = raw.diff(tree0, raw.canon(raw.tree(fn)))
                c.ok(d is None, "%s of %r changed the file: %s" % (n, p, d), refs=refs)
            with hs.File(fn, writable=r.random() < 0.5, **kw) as f:
                c.ok(p not in f, "%r is in the File" % (p,), refs=refs)
        # HDF5 itself ends names at a null
        refs0 = raw.canon(raw.sub(fn, parts))
        p = "/".join([""] + parts[:-1] + [parts[-1] + "\x00" + r.choice(["", "x", "/", "/a", "/" + r.choice(names)])])
        if r.random() < 0.3:
            p = p.encode("utf-8")
        calls = {
            "read": lambda: hs.read(p, filename=fn, **kw),
            "getitem": lambda: _file(fn, kw, lambda f: f[p], r.random() < 0.5),
            "in": lambda: _file(fn, kw, lambda f: {True: 1}[p in f]),
            "delitem": lambda: _file(fn, kw, lambda f: f.__delitem__(p)),
        }
        for n in r.sample(sorted(calls), 2) + ["write"]:
            if n == "write":
                try:
                    hs.write(1, path=p, filename=fn, **kw)
                except (ValueError, KeyError, hs.exceptions.Hdf5storageError):
                    pass
                else:
                    c.ok(hs.read(p, filename=fn, **kw) == 1, "%r was written but is not there" % p)
            else:
                try:
                    v = calls[n]()
                except (ValueError, KeyError):
                    pass
                else:
                    c.bad("%s of %r in the references Group does not raise" % (n, p), refs=refs, options=kw, value=same.short(v))
            c.ok(raw.diff(refs0, raw.canon(raw.sub(fn, parts))) is None, "%s of %r changed the references Group" % (n, p))
            c.ev((n, "null", refs))
        intact(c, fn, kw, refs, vals, objs, "all of this")
        c.sample("%s in %r" % (refs, p))
    elif k == "near":
        # paths which only look like it
        near = [refs + "x", refs[:-1] + "_", "/sub" + refs, refs.upper() + "q", "/x" + refs, refs.rsplit("/", 1)[0] + "/sib", refs.rsplit("/", 1)[0] + "/sib2/y",
                "/" + refs.strip("/").replace("/", "_"), refs + ".x", "/" + "/".join(parts[:-1] + [" " + parts[-1]])]
        near = [p for p in near if p != refs and not refs.startswith(p + "/") and not p.startswith(refs + "/")]
        p0 = r.sample(near, 3)
        p0 = [p for i, p in enumerate(p0) if not any(p != q and (q + "/").startswith(p + "/") for q in p0)]
        fn, vals = setup(c, kw, refs, p0)
        t, objs = state(fn, refs)
        with hs.File(fn, writable=True, **kw) as f:
            for p in p0:
                q, form = spell(r, p.strip("/").split("/"))
                c.ok(q in f, "%r, which is outside of the references Group, is not in the File" % (q,), refs=refs)
                c.ok(same.same(vals[p], f[q]) is None, "%r, which is outside of the references Group, is read as something else" % (q,), refs=refs)
                q, form = spell(r, p.strip("/").split("/"))
                f[q] = [5]
                c.ok(f[p] == [5], "%r was not overwritten" % p)
                vals[p] = [5]
                c.ev((form, p, refs), 3)
            p = p0[0]
            q, form = spell(r, p.strip("/").split("/"))
            del f[q]
            del vals[p]
            c.ok(p not in f, "%r was not deleted" % (q,))
        intact(c, fn, kw, refs, vals, objs, "using paths around it")
        # the names of the Group are free to use elsewhere
        for n in sorted({parts[-1], parts[0]}):
            w = np.zeros(r.choice([1, 2, 3]), [("n", "O"), (n, r.choice(["i4", "O", "f8"]))])
            for i in range(len(w)):
                w[i] = ([i], {"z": i, n: [i]} if w.dtype[n] == "O" else i + 1)
            q = "/inn/" + r.choice(["u", "u/v"]) + str(parts.index(n))
            m = {n: r.choice([[1, [2]], {"z": 1}, {n: {n: 1}}]), "n": 3}
            try:
                hs.write(m, path=q + "d", filename=fn, **kw)
                hs.write(w, path=q + "s", filename=fn, **kw)
            except NotImplementedError:
                c.count("name not writable")
                continue
            d = hs.read(q + "d", filename=fn, **kw)
            c.ok(same.same(m, d) is None, "a dict with the key %r outside of the references Group is read as something else" % n,
                 refs=refs, options=kw, value=same.short(d))
            x = hs.read(q + "s", filename=fn, **kw)
            if isinstance(x, dict):
                names, got = sorted(x), None
            else:
                names, got = sorted(x.dtype.names or ()), [tuple(e) for e in x.ravel()]
            c.ok(names == sorted(w.dtype.names), "a structured array with the field %r outside of the references Group is read with the fields %r" % (n, names),
                 refs=refs, options=kw)
            c.ok(got is None or same.same([tuple(e) for e in w], got) is None, "a structured array with the field %r outside of the references Group is read as something else" % n,
                 refs=refs, options=kw, value=same.short(x))
            c.ev(("name", n, refs), 2)
    elif k == "above":
        # what is read and written above the Group
        kw["group_for_references"] = refs = r.choice(["/g/refs", "/g/h/refs", "/g/#refs#"])
        kw["matlab_compatible"] = False
        for x in ("action_for_matlab_incompatible",):
            kw.pop(x, None)
        parts = refs.strip("/").split("/")
        top = "/g"
        fn, vals = setup(c, kw, refs, ["/g/s1", "/g/s2"])
        t, objs = state(fn, refs)
        name = parts[1]
        v = None
        try:
            v = hs.read("/g", filename=fn, **kw)
        except (KeyError, ValueError, hs.exceptions.CantReadError):
            c.count("not readable")
        else:
            keys = v.keys() if isinstance(v, dict) else v.dtype.names
            if refs.count("/") == 2:
                c.ok(name not in keys, "the value of the Group above includes the references Group", value=same.short(v))
            for o in objs:
                c.ok(("'%s'" % o) not in repr(keys), "the value of the Group above includes what is in the references Group")
        c.ev(("read above", refs))
        w = r.choice([5, [1, [2]], {"n": [1]}, {}, np.zeros(2, [("s1", "i4")]), np.zeros(1, [("x", "O")]), {1: 2}, {"refs": 1, "h": 2, "#refs#": 3}, {"h": {"refs": 4}}, None, "abc"])
        route = r.randrange(4)
        what = "writing %s to %s (route %d)" % (same.short(w, 60), top, route)
        c.note(what)
        try:
            if route == 0:
                hs.write(w, path=spell(r, ["g"])[0] if r.random() < 0.5 else "/g", filename=fn, **kw)
            elif route == 1:
                hs.write({"g": w}, path="/", filename=fn, **kw)
            elif route == 2:
                _file(fn, kw, lambda f: f.__delitem__(spell(r, ["g"])[0]))
                c.bad("a Group that holds the references Group can be deleted", refs=refs)
            else:
                hs.write(w, path="/g/h", filename=fn, **kw)
        except ValueError:
            c.count("refused above")
        except (NotImplementedError, TypeError, KeyError) as e:
            c.count("refused above with " + type(e).__name__)
        c.ev((route, type(w).__name__, refs))
        lost = [p for p in vals if p.startswith("/g")] + (list(vals) if route == 1 else [])
        intact(c, fn, kw, refs, vals, objs, what, lost)
        walk_refs(c, fn, refs, what)
    else:
        # writes to the root
        kw["delete_unused_variables"] = True
        if kw["matlab_compatible"]:
            kw.pop("delete_unused_variables")
        fn, vals = setup(c, kw, refs)
        t, objs = state(fn, refs)
        e = opts.effective(kw)
        rn = parts[0]
        for _ in range(r.choice([1, 2, 3])):
            w = r.choice([{"x": [1, (2,)]}, {}, {"x": 1, rn: 5}, {rn: [1]}, {rn: {"a": 1}}, {rn: {}}, {1: 2}, {"v1": [2, [3]], "y": "z"}, np.zeros(1, [("x", "O")]),
                          np.array([(1, 2.0)], [("x", "i4"), (rn, "f8")]), 5, [1, 2], None, "text", np.zeros(3)])
            what = "writing %s to the root" % same.short(w, 80)
            c.note(what)
            p = r.choice(["/", "", ".", b"/", pathlib.PurePosixPath("/"), "//", "/x/..", "./"])
            ok = True
            try:
                hs.write(w, path=p, filename=fn, **kw)
            except (ValueError, TypeError, NotImplementedError, hs.exceptions.TypeNotMatlabCompatibleError) as x:
                ok = False
                c.count("root write refused with " + type(x).__name__)
            if isinstance(w, dict) and rn not in w and 1 not in w:
                c.ok(ok, what + " fails", refs=refs, options=kw)
            if isinstance(w, dict) and rn in w and len(parts) == 1:
                c.ok(not ok, what + " does not raise", refs=refs)
            objs = intact(c, fn, kw, refs, {}, objs, what)
            walk_refs(c, fn, refs, what)
            c.ev((type(w).__name__, repr(w)[:20], refs, ok))
            if ok and isinstance(w, dict) and 1 not in w:
                with hs.File(fn, **kw) as f:
                    names = set(w) | (set() if len(parts) == 1 else {rn})
                    c.ok(set(f) == names, "after %s the File has %r" % (what, sorted(f)), refs=refs)
                    for n, v in w.items():
                        if n == rn:
                            continue
                        c.ok(same.same(v, f[n]) is None, "after %s the value of %r is %s" % (what, n, same.short(f[n])))
                v = hs.read("/", filename=fn, **kw)
                if isinstance(v, dict):
                    c.ok(set(v) - {rn} == set(w) - {rn} and (len(parts) > 1 or rn not in v), "the root is read with the keys %r" % sorted(v), refs=refs, written=w)
                    for n in set(w) - {rn}:
                        c.ok(same.same(w[n], v[n]) is None, "the root is read with another value for %r" % n, got=same.short(v))
                c.count("root writes read back")


def walk_refs(c, fn, refs, what):
    t = raw.tree(fn)
    seen, stack, n = set(), [t], 0
    while stack:
        x = stack.pop()
        if x is None or x.addr in seen:
            continue
        seen.add(x.addr)
        if x.kind == "G":
            stack += list(x.items.values())
        elif x.refs is not None:
            for y, q in zip(x.refs, x.refpaths):
                n += 1
                c.ok(y is not None and y.kind != "X" and q and q.rsplit("/", 1)[0] == refs, "after %s %s holds a bad reference to %r" % (what, x.path, q), refs=refs)
    c.count("references checked", n)


def _file(fn, kw, fun, writable=True):
    with hs.File(fn, writable=writable, **kw) as f:
        return fun(f)
