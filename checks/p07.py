"""P07: one operation, everything else in the file must stay as it was."""
import os

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work

ID = "P07"
TITLE = "isolation of paths"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: raw dumps (bytes, attributes, filters, followed references) of everything but the target are compared before and after every operation of a history"
LEVEL_NOTE = "histories of writes, deletes and opens of every kind on files with mixed contents (also plain HDF5 made without the package) are sampled"
RULE = "one evaluation = one raw object outside of the target compared over one operation; distinct = (operation, target relation, value structure, options)"
ASSUMPTIONS = ["h5py reports what is in the file"]


def plan(tier):
    k = 8 if tier == "thorough" else 1
    return [("hist", 1500 * k), ("foreign", 400 * k), ("open", 300 * k)]


def flat(n, path, out, refs):
    """path parts -> canonical content without members."""
    if n.kind == "G":
        if path == refs:
            return
        at = tuple(sorted((k, raw.attr_canon(v)) for k, v in n.attrs.items()))
        out[path] = ("G", at)
        for k, x in n.items.items():
            if x is not None:
                flat(x, path + (k,), out, refs)
    else:
        out[path] = raw.canon(n)


def snapshot(fn, refs):
    t = raw.tree(fn)
    out = {}
    flat(t, (), out, refs)
    g = raw.get(t, refs)
    objs = {}
    if g is not None and g.kind == "G":
        for k, x in g.items.items():
            if x is not None:
                objs[k] = raw.canon(x, g.path)
    used = {}
    for p in out:
        s = set()
        reach(raw.get(t, p), s, set(), top=True)
        used[p] = s
    return out, objs, used


def reach(n, s, seen, top=False):
    """Names of the objects a Dataset refers to, also indirectly."""
    if n is None or n.addr in seen:
        return
    seen.add(n.addr)
    if n.refs is not None:
        for x, p in zip(n.refs, n.refpaths):
            if p:
                s.add(p.rsplit("/", 1)[1])
                reach(x, s, seen)
    if n.kind == "G" and not top:
        for x in n.items.values():
            reach(x, s, seen)


def foreign(fn, r):
    """A file made without the package."""
    with h5py.File(fn, "w", userblock_size=r.choice([0, 512, 1024]), libver=r.choice(["earliest", "latest"])) as f:
        f["plain"] = np.arange(6.0).reshape(2, 3)
        f["plain"].attrs["units"] = "m"
        f["plain"].attrs["n"] = np.arange(3)
        f.create_dataset("vl", data=["a", "bc"], dtype=h5py.string_dtype())
        f.create_dataset("null", data=h5py.Empty("f4"))
        f.create_dataset("resizable", shape=(4, 2), maxshape=(None, 2), chunks=(2, 2), compression="lzf", fillvalue=7)
        g = f.create_group("g")
        g.attrs["x"] = "y"
        g["d"] = np.array([(1, 2.0)], dtype=[("a", "i2"), ("b", "f4")])
        g["t"] = np.dtype("i4")
        g.create_group("empty")
        f["zzkept"] = np.arange(3)
        f.create_dataset("refs", data=np.array([f["zzkept"].ref, f["zzkept"].ref], dtype=h5py.ref_dtype))
        f.attrs["root"] = 1
        n = f.userblock_size
    if n and r.random() < 0.5:
        with open(fn, "r+b") as f:
            f.write(bytes(r.randrange(256) for _ in range(64)) * (n // 64))


def userblock(fn):
    """What is in the userblock, where the header of a MAT file isn't."""
    with h5py.File(fn, "r") as f:
        n = f.userblock_size
    with open(fn, "rb") as f:
        b = f.read(n)
    return n, b[:128], b[128:]


def rel(a, b):
    if a == b:
        return "self"
    if a[:len(b)] == b:
        return "above"
    if b[:len(a)] == a:
        return "below"
    return "other"


def run(c):
    r = c.r
    fn = c.path()
    mat = r.random() < 0.4
    refs = ("#refs#",) if mat or r.random() < 0.5 else r.choice([("refs",), ("zz",), ("0",)])

    def sp_(p):
        return p if all(expect.esc(x) == x for x in p) and r.random() < 0.5 else "/" + "/".join(p)

    def options():
        kw = opts.gen(r, matlab=mat if r.random() < 0.8 or refs != ("#refs#",) else not mat, meta=r.random() < 0.8)
        if kw["matlab_compatible"]:
            if refs != ("#refs#",):
                kw = opts.gen(r, matlab=False)
            else:
                kw["action_for_matlab_incompatible"] = r.choice(["ignore", "discard", "error"])
        if not kw["matlab_compatible"]:
            kw["group_for_references"] = "/" + "/".join(refs)
        return kw
    g = gen.Gen(r, maxdepth=2)
    names = [(n,) for n in ("a", "b", "ab", "a b", "\u4e00", "#", "v1")]
    nested = [("d", "x"), ("d", "y"), ("d", "e", "z"), ("a", "k"), ("q", "a", "b")]
    # what is there before
    if c.kind == "foreign" or (c.kind == "open" and r.random() < 0.5):
        foreign(fn, r)
        paths = [("plain",), ("g", "d"), ("g", "new"), ("new",), ("vl",), ("refs",), ("resizable",), ("g",), ("null",), ("g", "empty", "x"), ("plain", "x")]
        if refs == ("refs",):
            refs = ("#refs#",)
            paths.remove(("refs",))
        kw = options()
    else:
        kw = options()
        paths = names + nested
        for p in r.sample(paths, r.choice([2, 4, 6])):
            v = objval(r, g) if r.random() < 0.5 else g.value()
            try:
                hs.write(v, path="/" + "/".join(p), filename=fn, truncate_existing=False, **kw)
            except Exception:
                pass
        if not os.path.exists(fn):
            return
    for step in range(r.choice([1, 2, 3, 4]) if c.kind != "open" else 1):
        if r.random() < 0.3:
            kw = options()
        before, objs, used = snapshot(fn, refs)
        ub = userblock(fn)
        p = r.choice(paths)
        if r.random() < 0.3:
            there = [x for x in before if x and x != ("zzkept",)]
            if there:
                p = r.choice(there)
        sp = "/" + "/".join(p)
        op = "open" if c.kind == "open" else r.choice(["write", "write", "write", "del", "session", "read", "open"])
        if c.kind == "open" and r.random() < 0.5:
            kw["truncate_existing"] = False
        v = None
        err = None
        targets = [p]
        c.note("%s %s with %r" % (op, sp, kw))
        try:
            if op == "write":
                v = objval(r, g) if r.random() < 0.4 else g.value()
                c.note(same.short(v, 1000))
                if r.random() < 0.5:
                    hs.write(v, path=sp, filename=fn, **kw)
                else:
                    with hs.File(fn, writable=True, **kw) as f:
                        f[sp_(p)] = v
            elif op == "session":
                targets = [r.choice(paths) for _ in range(3)]
                with hs.File(fn, writable=True, **kw) as f:
                    for q in targets:
                        try:
                            if r.random() < 0.3:
                                del f[sp_(q)]
                            else:
                                f[sp_(q)] = objval(r, g) if r.random() < 0.4 else g.value()
                        except Exception as e:
                            c.note("%r: %r" % (q, e))
                            c.count("error " + type(e).__name__)
            elif op == "del":
                with hs.File(fn, writable=True, **kw) as f:
                    del f[sp_(p)]
            elif op == "open":
                targets = []
                f = hs.File(fn, writable=True, **kw)
                if r.random() < 0.5:
                    f.flush()
                f.close()
            else:
                targets = []
                with hs.File(fn, writable=True, **kw) as f:
                    f.read(sp)
        except Exception as e:
            err = type(e).__name__
            c.note("error %r" % e)
            c.count("error " + err)
        # opening a file without a userblock for MATLAB may not be asked to truncate here
        after, objs2, used2 = snapshot(fn, refs)
        ub2 = userblock(fn)
        c.ok(ub2[0] == ub[0] and ub2[2] == ub[2], "%s changed the userblock" % op, options=kw, error=err, was=ub[2][:32], now=ub2[2][:32])
        c.ok(ub2[1] == ub[1] or (kw["matlab_compatible"] and ub2[1][:10] == b"MATLAB 7.3"), "%s changed the start of the userblock" % op, options=kw, was=ub[1], now=ub2[1])
        c.ev(("userblock", ub[0], op, kw["matlab_compatible"]))
        touched = set()
        for q, cont in before.items():
            rels = {rel(q, x) for x in targets}
            if "self" in rels or any(q[:len(x)] == x for x in targets):
                touched |= used.get(q, set())
                continue
            if q not in after:
                c.bad("%s %r removed %r" % (op, targets, q), options=kw, error=err, value=same.short(v, 500))
            d = raw.diff(cont, after[q])
            c.ok(d is None, "%s %r changed %r: %s" % (op, targets, q, d), options=kw, error=err, value=same.short(v, 500))
            c.ev((op, sorted(rels), work.shape_sig(v), err, opts.sig(kw)))
        for q in after:
            if q in before or any(q[:len(x)] == x for x in targets):
                continue
            ok = any(x[:len(q)] == q for x in targets) and after[q] == ("G", ())
            c.ok(ok, "%s %r added %r" % (op, targets, q), options=kw, error=err, value=same.short(v, 500), found=after[q])
        keep = set()
        for q, s in used.items():
            if not any(q[:len(x)] == x for x in targets):
                keep |= s
        for k, cont in objs.items():
            if k in keep or op in ("open", "read", "del"):
                c.ok(objs2.get(k) == cont, "%s %r changed the object %r in the references Group" % (op, targets, k), options=kw, error=err,
                     diff=raw.diff(cont, objs2.get(k)), value=same.short(v, 500))
                c.count("objects in the references Group compared")
        if op in ("open", "read"):
            c.ok(set(objs2) - set(objs) <= {"a"}, "%s added objects to the references Group" % op)
        c.count("op " + op)
    c.sample("%d objects, last %s of %r with %s" % (len(before), op, sp, same.short(v, 100)))


def objval(r, g):
    return g.make(r.choice(["list", "tuple", "objarray", "dict", "mixdict", "set", "counter", "objstruct", "struct"]))
