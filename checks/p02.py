"""P02: the reference graph of the whole file after every session of a
history."""
import os

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work

ID = "P02"
TITLE = "references"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: after every session of a history of writes, overwrites, deletes and root writes the reference graph of the closed file is walked and compared with a model of all values (resolution, place, uniqueness over the whole file, canonical empty)"
LEVEL_NOTE = "sequences of sessions over one file are sampled, including files with references and references Groups made by others"
RULE = "one evaluation = one object reference of a closed file resolved and its target compared with the element last written; distinct = (history step kinds, value structure, options)"
ASSUMPTIONS = ["h5py resolves references correctly"]

KINDS = ["list", "tuple", "deque", "set", "objarray", "mixdict", "chainmap", "objstruct", "dict", "struct", "counter", "none", "ndarray", "list", "tuple", "objarray", "datetime"]


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("hist", 900 * k), ("discard", 300 * k), ("foreign", 250 * k), ("names", 60 * k), ("canon", 400 * k), ("shared", 400 * k)]


def walk(t, refs, where=""):
    """All Datasets of references with their place, the references Group
    included."""
    seen = set()
    stack = [t]
    while stack:
        n = stack.pop()
        if n is None or n.addr in seen:
            continue
        seen.add(n.addr)
        if n.kind == "G":
            stack += list(n.items.values())
        elif n.refs is not None:
            yield n


def foreign(fn, refs, r):
    """A references Group made by somebody else. What its content is must not
    matter as long as somebody refers to it."""
    with h5py.File(fn, "w", userblock_size=512) as f:
        g = f.create_group(refs)
        if r.random() < 0.5:
            d = g.create_dataset("a", data=np.zeros(2, r.choice(["u8", "u4"])))
            d.attrs["MATLAB_class"] = np.bytes_("canonical empty")
            d.attrs["MATLAB_empty"] = np.uint8(1)
        names = r.sample("bcdefgh", 3) + ["0123456789abcdef"]
        for i, n in enumerate(names):
            d = g.create_dataset(n, data=np.full((1, i + 1), float(i)))
            d.attrs["MATLAB_class"] = np.bytes_("double")
            d.attrs["H5PATH"] = np.bytes_(refs.encode())
        c = f.create_dataset("foreigncell", data=np.array([[g[n].ref for n in names]], dtype=h5py.ref_dtype))
        c.attrs["MATLAB_class"] = np.bytes_("cell")
        return names


def run(c):
    r = c.r
    fn = c.path()
    mat = c.kind == "discard" or r.random() < 0.4
    refs = "/#refs#" if mat or r.random() < 0.4 else r.choice(["/refs", "/zz", "/0", "/a b", "/\u4e00"])
    if c.kind == "canon":
        return do_canon(c, r, fn, mat, refs)
    if c.kind == "shared":
        return do_shared(c, r, fn, mat, refs)
    mixed = refs == "/#refs#" and r.random() < 0.3

    def options():
        kw = opts.gen(r, matlab=(r.random() < 0.5 if mixed else mat), meta=r.random() < 0.8)
        if kw["matlab_compatible"]:
            kw["action_for_matlab_incompatible"] = "discard" if c.kind == "discard" else r.choice(["ignore", "discard"])
        else:
            kw["group_for_references"] = refs
            kw["delete_unused_variables"] = True
        return kw
    g = gen.Gen(r, maxdepth=3)
    if c.kind == "discard":
        # what MATLAB cannot represent, deep within
        def bad(d):
            k = r.randrange(4)
            if d > 2 or k == 0:
                return r.choice([np.float16(1), np.zeros(2, "f2"), np.void(b"ab"), np.zeros((2, 1), "V3")])
            if k == 1:
                return [bad(d + 1) if r.random() < 0.6 else g.value(2) for _ in range(3)]
            if k == 2:
                return {n: bad(d + 1) if r.random() < 0.6 else g.value(2) for n in ("x", "y", "z")}
            a = np.empty((2, 2), object)
            for i in range(4):
                a.flat[i] = bad(d + 1) if r.random() < 0.6 else g.value(2)
            return a

    def value():
        if c.kind == "discard" and r.random() < 0.6:
            return r.choice([list, tuple])([bad(1), g.value(2), bad(1)])
        return g.make(r.choice(KINDS)) if r.random() < 0.8 else g.value()
    names = None
    if c.kind == "foreign":
        names = foreign(fn, refs, r)
        before = [raw.canon(raw.get(raw.tree(fn), [refs[1:], n])) for n in names]
    if c.kind == "names":
        run_names(c, refs)
        return
    have = {}  # path -> (model, options, value)
    paths = ["/a1", "/b", "/v", "/zzz", "/#", "/n/x", "/n/y", "/n/m/z"]
    sig = []
    sigopts = None
    for sess in range(r.choice([1, 2, 3, 4])):
        kw = options()
        e = opts.effective(kw)
        g.ustruct = e["structured_numpy_ndarray_as_struct"]
        with hs.File(fn, writable=True, **kw) as f:
            for _ in range(r.choice([1, 2, 3, 5])):
                k = r.random()
                if k < 0.12 and have:
                    p = r.choice(sorted(have))
                    c.note("del %s" % p)
                    del f[p]
                    del have[p]
                    sig.append("del")
                elif k < 0.2 and names is None:
                    d = {n: value() for n in r.sample(["a1", "b", "v", "new"], 2)}
                    c.note("root %s with %r" % (same.short(d, 800), kw))
                    f.write(d, "/")
                    have = {}
                    for n, v in d.items():
                        m = expect.model(v, e)
                        if m is not None:
                            have["/" + n] = (m, kw, v, "root")
                    sig.append("root")
                elif k < 0.3:
                    ps = r.sample(paths, 2)
                    vs = [value(), value()]
                    c.note("writes %r %s %r" % (ps, same.short(vs, 800), kw))
                    f.writes(dict(zip(ps, vs)))
                    for p, v in zip(ps, vs):
                        m = expect.model(v, e)
                        if m is not None:
                            have[p] = (m, kw, v, "p")
                    sig.append("writes")
                else:
                    p = r.choice(paths)
                    v = value()
                    c.note("%s <- %s with %r" % (p, same.short(v, 800), kw))
                    f[p] = v
                    m = expect.model(v, e)
                    if m is not None:
                        have[p] = (m, kw, v, "p")
                    sig.append(("write", work.shape_sig(v)))
                if r.random() < 0.1:
                    f.flush()
                if r.random() < 0.1:
                    list(f)
                    len(f)
        t = raw.tree(fn)
        # everything is what was last written, and nothing is shared
        addrs = {}
        for p, (m, kw2, v, how) in sorted(have.items()):
            e2 = opts.effective(kw2)
            cm = expect.Cmp(e2, filt=False)
            cm.refaddrs = addrs
            parts = p.strip("/").split("/")
            parent = None if how == "p" and len(parts) == 1 else "/" if how == "root" else "?"
            d = cm.cmp(m, raw.get(t, parts), parent, p)
            c.ok(d is None, "after the session: " + str(d), value=same.short(v, 800), options=kw2, history=sig)
            c.ev((tuple(sig[-3:]), opts.sig(kw)), n=cm.nodes)
        # every stored reference is good, also within objects nobody uses
        users = {}
        nref = 0
        for n in walk(t, refs):
            for x, q in zip(n.refs, n.refpaths):
                nref += 1
                c.ok(x is not None and x.kind != "X", "%s holds a reference that does not resolve" % n.path, history=sig, options=kw, error=x and x.error)
                c.ok(q is not None and q.rsplit("/", 1)[0] == refs, "%s refers to %r" % (n.path, q), history=sig, options=kw)
                if q == refs + "/a" and x.attrs.get("MATLAB_class") == b"canonical empty":
                    continue
                c.ok(x.addr not in users, "%s and %s refer to the same object %s" % (users.get(x.addr), n.path, q), history=sig, options=kw)
                users[x.addr] = n.path
        c.count("references resolved", nref)
        rg = raw.get(t, [refs[1:]])
        if rg is not None:
            a = rg.items.get("a")
            c.ok(a is not None or names is not None, "there is a references Group without the canonical empty", history=sig)
            d = None if a is None else expect.Cmp(opts.effective(kw)).canonical(a, refs + "/a")
            c.ok(d is None, str(d), history=sig)
            c.ev(("canonical", len(rg.items)))
            if names is not None:
                after = [raw.canon(x) if x else None for x in (rg.items.get(n) for n in names)]
                c.ok(after == before, "objects that are referred to were changed: %s" % raw.diff(tuple(before), tuple(after)), history=sig)
                q = raw.get(t, ["foreigncell"])
                c.ok(q.refpaths == [refs + "/" + n for n in names], "the references of another object changed", got=q.refpaths)
                c.ev(("foreign", tuple(names)))
        c.count("sessions")
    c.sample(repr(sig)[:300])


def do_shared(c, r, fn, mat, refs):
    """Others refer to the elements of what the package wrote, which is then
    overwritten and deleted."""
    def options():
        kw = opts.gen(r, matlab=mat, meta=r.random() < 0.8)
        if mat:
            kw["action_for_matlab_incompatible"] = "ignore"
        else:
            kw["group_for_references"] = refs
        return kw
    g = gen.Gen(r, maxdepth=2)
    paths = ["v", "w", "g/x", "g/y"]
    kinds = ["list", "tuple", "objarray", "objstruct", "mixdict", "set", "deque", "struct", "chainmap"]

    def value():
        return [g.make(r.choice(kinds)) for _ in range(r.choice([1, 2, 3]))] if r.random() < 0.6 else g.make(r.choice(kinds))
    kw = options()
    e = opts.effective(kw)
    g.ustruct = e["structured_numpy_ndarray_as_struct"]
    with hs.File(fn, writable=True, **kw) as f:
        for p in r.sample(paths, r.choice([1, 2, 3])):
            f.write(value(), p)
    kept = {}
    with h5py.File(fn, "r+") as f:
        found = []
        f.visititems(lambda n, o: found.append(n) if isinstance(o, h5py.Dataset) and h5py.check_dtype(ref=o.dtype) is h5py.Reference and o.size else None)
        if not found:
            c.count("nothing to share")
            return
        q = f.create_group("mine")
        for i, n in enumerate(r.sample(found, min(len(found), r.choice([1, 2, 4])))):
            o = f[n]
            d = o[...]
            if r.random() < 0.4:
                d = np.array([r.choice(d.reshape(-1))] * r.choice([1, 2]), dtype=h5py.ref_dtype)
            if r.random() < 0.15:
                q.attrs["r%d" % i] = d.reshape(-1)[0]
            x = q.create_dataset("s%d" % i, data=d, dtype=h5py.ref_dtype)
            for a in o.attrs:
                if a == "MATLAB_class":
                    x.attrs[a] = o.attrs[a]
        for n in q:
            kept[n] = None
    for n in kept:
        kept[n] = raw.canon(raw.sub(fn, ["mine", n]))
    sig = []
    for sess in range(r.choice([1, 2, 3])):
        kw = dict(options(), delete_unused_variables=True)
        e = opts.effective(kw)
        g.ustruct = e["structured_numpy_ndarray_as_struct"]
        with hs.File(fn, writable=True, **kw) as f:
            for _ in range(r.choice([1, 2, 4])):
                p = r.choice(paths)
                k = r.random()
                if k < 0.3 and p in f:
                    c.note("del %s" % p)
                    del f[p]
                    sig.append("del")
                elif k < 0.35 and "g" in f:
                    c.note("del g")
                    del f["g"]
                    sig.append("del")
                elif k < 0.45:
                    c.note("update")
                    f.update({"v": value(), "w": 4})
                    sig.append("update")
                else:
                    v = value() if r.random() < 0.6 else g.value()
                    c.note("write %s %s" % (p, same.short(v, 500)))
                    f.write(v, p)
                    sig.append(work.shape_sig(v))
        for n, was in kept.items():
            s = raw.sub(fn, ["mine", n])
            d = raw.diff(was, raw.canon(s))
            c.ok(d is None, "what others refer to changed: %s" % d, options=kw)
            c.ev((n, tuple(sig), opts.sig(kw)))
        t = raw.tree(fn)
        for n in walk(t, refs):
            for x, p in zip(n.refs, n.refpaths):
                c.ok(x is not None and x.error is None, "a reference in %s does not resolve" % n.path, error=x and x.error)
                c.ok(p is not None and p.rsplit("/", 1)[0] == refs, "a reference in %s leads to %r" % (n.path, p))
                c.ev()
    c.count("shared elements")
    c.sample("elements of others: %s" % (sig,))


def run_names(c, refs):
    """The names in the references Group stay unique even if the random
    numbers they are made of collide."""
    import random
    r = c.r
    fn = c.path()
    kw = dict(matlab_compatible=False, group_for_references=refs)
    vals = {}
    st = r.randrange(1 << 30)
    with hs.File(fn, writable=True, **kw) as f:
        for i in range(6):
            random.seed(st)
            np.random.seed(st % (1 << 32))
            v = [i, [i, str(i)], (i,)] * r.choice([1, 3])
            f["/v%d" % i] = v
            vals["/v%d" % i] = v
        if r.random() < 0.5:
            del f["/v2"]
            del vals["/v2"]
    with hs.File(fn, writable=True, **kw) as f:
        random.seed(st)
        np.random.seed(st % (1 << 32))
        f["/w"] = vals["/w"] = [object.__doc__, 5]
        # many elements at once
        f["/many"] = vals["/many"] = [x % 7 for x in range(300)]
    t = raw.tree(fn)
    e = opts.effective(kw)
    addrs = {}
    for p, v in vals.items():
        cm = expect.Cmp(e, filt=False)
        cm.refaddrs = addrs
        d = cm.cmp(expect.model(v, e), raw.get(t, [p[1:]]), None, p)
        c.ok(d is None, "with colliding random numbers: %s" % d, value=v)
        c.ev(("names", p, len(v)))
    for p, v in vals.items():
        c.ok(same.same(v, hs.read(p, filename=fn, **kw)) is None, "another value is read", value=v)


VALID = ["valid", "valid u4", "valid one width", "valid text"]
INVALID = ["no class", "other class", "no empty", "empty 0", "ones", "shape", "scalar", "float", "signed", "group", "first one", "second one"]


def make_a(g, how):
    """The object `a` of a references Group made by somebody."""
    data = np.zeros(2, "u8")
    cl, em = np.bytes_("canonical empty"), np.uint8(1)
    if how == "valid u4":
        data = np.zeros(2, "u4")
    elif how == "valid one width":
        data, em = np.zeros(2, "u2"), np.int32(1)
    elif how == "valid text":
        cl = "canonical empty"
    elif how == "no class":
        cl = None
    elif how == "other class":
        cl = np.bytes_("double")
    elif how == "no empty":
        em = None
    elif how == "empty 0":
        em = np.uint8(0)
    elif how == "ones":
        data = np.ones(2, "u8")
    elif how == "first one":
        data = np.array([1, 0], "u8")
    elif how == "second one":
        data = np.array([0, 1], "u4")
    elif how == "shape":
        data = np.zeros((1, 2), "u8")
    elif how == "scalar":
        data = np.uint64(0)
    elif how == "float":
        data = np.zeros(2)
    elif how == "signed":
        data = np.zeros(2, "i8")
    d = g.create_group("a") if how == "group" else g.create_dataset("a", data=data)
    if cl is not None:
        d.attrs["MATLAB_class"] = cl
    if em is not None:
        d.attrs["MATLAB_empty"] = em


def do_canon(c, r, fn, mat, refs):
    """A canonical empty that is there is used and kept, what is something
    else is replaced, whatever needs one first."""
    import hdf5storage.utilities as U
    kw = opts.gen(r, matlab=mat)
    if mat:
        kw["action_for_matlab_incompatible"] = "ignore"
    else:
        kw["group_for_references"] = refs
    how = r.choice(VALID + VALID + INVALID + ["none", "no group", "not a group"])
    users = how in VALID
    with h5py.File(fn, "w", userblock_size=512) as f:
        f["other"] = np.arange(3)
        if how == "not a group":
            f[refs] = 5
        elif how != "no group":
            g = f.create_group(refs)
            g["b"] = np.arange(4)
            if how != "none":
                make_a(g, how)
                if users:
                    f.create_dataset("user", data=np.array([g["a"].ref, g["b"].ref, g["a"].ref], dtype=h5py.ref_dtype))
    entry = r.choice(["name", "name", "array", "write", "names then array", "array then name", "empty"])
    before = raw.tree(fn)
    v = [1, "two", [None]]
    o = hs.Options(**kw)
    got = []
    if entry == "write":
        hs.write(v, path="/v", filename=fn, options=o)
    else:
        with h5py.File(fn, "r+") as h:
            f = U.LowLevelFile(h, o)
            a = np.empty(3 if entry != "empty" else 0, dtype=object)
            a[:] = v[:len(a)]
            for _ in range(r.choice([1, 2, 5])):
                if entry in ("name", "names then array"):
                    got.append(f.next_unused_ref_group_name())
                    if r.random() < 0.5:
                        h[refs][got[-1]] = 3
            if entry not in ("name",):
                f.write_object_array(a)
            if entry == "array then name":
                got.append(f.next_unused_ref_group_name())
                c.ok(got[-1] not in h[refs], "the name %r is used already" % got[-1])
    t = raw.tree(fn)
    what = "%s with %r" % (entry, how)
    c.sample(what)
    rg = raw.get(t, [refs[1:]])
    c.ok(rg is not None and rg.kind == "G", "%s: there is no references Group" % what)
    a = rg.items.get("a")
    c.ok(a is not None, "%s: there is no canonical empty" % what)
    c.ok(len(set(got)) == len(got) and "a" not in got and ("b" not in got or how in ("no group", "not a group")), "%s: the names %r were given" % (what, got))
    if how in VALID:
        old = raw.get(before, [refs[1:], "a"])
        c.ok(a.addr == old.addr and raw.canon(a) == raw.canon(old), "%s: the canonical empty that was there was replaced or changed" % what)
    else:
        d = expect.Cmp(opts.effective(kw)).canonical(a, refs + "/a")
        c.ok(d is None, "%s: %s" % (what, d))
    if how not in ("no group", "not a group"):
        c.ok(raw.canon(rg.items.get("b")) == raw.canon(raw.get(before, [refs[1:], "b"])), "%s: another object of the references Group was changed" % what)
    if users:
        u = raw.get(t, ["user"])
        c.ok(u.refs[0] is not None and u.refs[0].addr == a.addr and u.refs[2].addr == a.addr, "%s: references to the canonical empty are lost" % what)
        c.ok(u.refs[1].addr == rg.items["b"].addr, "%s: another reference is lost" % what)
    c.ok(raw.canon(raw.get(t, ["other"])) == raw.canon(raw.get(before, ["other"])), "%s: something else was changed" % what)
    if entry == "write":
        x = hs.read("/v", filename=fn, options=o)
        c.ok(same.same(v, x) is None, "%s: %r was read" % (what, x))
    c.ev(("canonical kept", how, entry, users, mat))
