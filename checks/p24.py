"""P24: the same content encoded in other ways."""
import os

import h5py
import numpy as np

from vf.env import hs
from vf import gen, opts, refread, rewrite, same, work
from checks import p05

ID = "P24"
TITLE = "independence of the encoding"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (metamorphic): files written by the real code or assembled in the MAT v7.3 layout are rewritten object by object with the same content encoded another way; values the real code reads from both are compared"
LEVEL_NOTE = "encodings of attributes (kind, size and character set of strings, width and byte order of integers), Dataset layouts, filters and byte orders, links, places of objects, userblocks and file format versions are sampled per object"
RULE = "one evaluation = one value read from the rewritten file compared with the value read from the original; distinct = (structure of the value, options, kind of rewriting)"
ASSUMPTIONS = ["vf/rewrite.py keeps the content (h5py reads the same values and attributes from both files; this is checked for every object)"]


def plan(tier):
    k = 10 if tier == "thorough" else 1
    return [("rewrite", 1500 * k), ("attrs", 900 * k), ("data", 700 * k), ("links", 500 * k), ("place", 500 * k), ("copied", 300 * k), ("external", 200 * k), ("mat", 700 * k)]


def readers(c, fn, kw, paths):
    """All values, or the exception each read ends with."""
    out = []
    with hs.File(fn, **kw) as f:
        for p in paths:
            out.append(f[p] if c.r.random() < 0.5 else f.read(p))
    return out


def sameset(a, b):
    """Whether attributes have the same meaning."""
    def canon(v):
        if isinstance(v, (bytes, np.bytes_)):
            return bytes(v).decode("utf-8", "surrogateescape")
        if isinstance(v, str):
            return str(v)
        if isinstance(v, np.ndarray):
            return [canon(x) for x in v.flat]
        if isinstance(v, np.generic):
            return v.item()
        return v
    return set(a) == set(b) and all(str(canon(a[n])) == str(canon(b[n])) or canon(a[n]) == canon(b[n]) for n in a)


def verify(a, seen, src):
    """The harness itself: the rewritten objects hold the same content."""
    def visit(o):
        i = h5py.h5o.get_info(o.id)
        n = seen[(i.fileno, i.addr)]
        assert sameset(o.attrs, n.attrs), (dict(o.attrs), dict(n.attrs))
        if isinstance(o, h5py.Dataset):
            assert o.shape == n.shape, o
            if h5py.check_dtype(ref=o.dtype) is None:
                x, y = o[...], n[...]
                assert x.astype(x.dtype.newbyteorder("=")).tobytes() == y.astype(y.dtype.newbyteorder("=")).tobytes() or x.dtype.kind == "V", (o.dtype, o.shape, n.dtype, n.chunks, n.compression, [q for q in zip(x.reshape(-1)[:9], y.reshape(-1)[:9])])
        else:
            for k in o:
                visit(o[k])
    visit(src)


def run(c):
    r = c.r
    fn, f2 = c.path("a.h5"), c.path("b.h5")
    if c.kind == "mat":
        kw = dict({"matlab_compatible": False}, **p05.readopts(r))
        kw.pop("complex_names", None)
        with h5py.File(fn, "w", userblock_size=512) as f:
            m = p05.Mat(r, f, bool(kw.get("structs_as_dicts")))
            for i in range(r.choice([1, 2, 3])):
                m.put(f, "x%d" % i, r.choice([0, 1]))
            paths = ["x%d" % j for j in range(i + 1)]
        c.note("layout %r" % m.sig)
        sig = tuple(str(x) for x in m.sig[:6])
        refs = "#refs#"
        rk = kw
    else:
        kw, g = work.make(c)
        if r.random() < 0.25:
            kw["store_python_metadata"] = False
        vals = [g.value() for _ in range(r.choice([1, 1, 2, 3]))]
        if c.kind in ("links", "external", "place", "copied") and r.random() < 0.6:
            vals[0] = g.make(r.choice(["dict", "list", "objarray", "mixdict", "objstruct", "tuple", "chainmap"]))
        paths = ["v%d" % i for i in range(len(vals))]
        for v in vals:
            c.note("value %s" % same.short(v, 1500))
        hs.writes(dict(zip(paths, vals)), filename=fn, **kw)
        sig = work.shape_sig(vals[0])
        refs = opts.effective(kw)["group_for_references"].strip("/")
        rk = dict(kw)
        if r.random() < 0.2:
            rk["structs_as_dicts"] = True
    c.note("options %r" % rk)
    try:
        want = readers(c, fn, rk, paths)
    except (ValueError, TypeError) as e:
        # without metadata some names or texts cannot be decoded
        assert not kw.get("store_python_metadata", True) or c.kind == "mat", e
        c.count("unreadable without metadata")
        return
    lib = r.choice([None, None, "latest", "earliest", ("v108", "v110"), ("earliest", "v114")])
    ub = r.choice([0, 0, 512, 1024, 4096])
    what = c.kind
    got = None
    moved = list(paths)
    if c.kind in ("rewrite", "attrs", "data", "links", "place", "mat"):
        p = {"rewrite": dict(text=.5, ints=.5, order=.3, layout=.4, hard=.1, soft=.1),
             "mat": dict(text=.5, ints=.5, order=.3, layout=.4, hard=.1, soft=.1),
             "attrs": dict(text=.7, ints=.7), "data": dict(order=.5, layout=.8), "links": dict(hard=.5, soft=.5), "place": dict()}[c.kind]
        enc = rewrite.Enc(r, **p)
        if rk.get("structs_as_dicts"):
            # the items come in the order HDF5 gives them in
            enc.track = False
        rename = {}
        if c.kind in ("place", "rewrite", "mat") and r.random() < 0.6:
            rename[refs] = r.choice(["#old#", "aaa", "\u4e00", "zzz"])
        with h5py.File(fn, "r") as a, h5py.File(f2, "w", libver=lib, userblock_size=ub) as b:
            seen = rewrite.copy(enc, a, b, rename)
            verify(c, seen, a)
        for k, n in enc.n.items():
            c.count("changed " + k, n)
    elif c.kind == "copied":
        k = r.randrange(3)
        if k == 0:
            what = "copied to another file"
            with h5py.File(fn, "r") as a, h5py.File(f2, "w", libver=lib, userblock_size=ub) as b:
                for n in paths:
                    a.copy(n, b, expand_refs=True)
        elif k == 1:
            what = "copied in the file"
            f2 = fn
            moved = ["copies/" + n for n in paths]
            with h5py.File(fn, "a") as a:
                a.create_group("copies")
                try:
                    for n in paths:
                        a.copy(n, "copies/" + n)
                except RuntimeError as e:
                    # HDF5 cannot copy some Datasets
                    assert "unable to copy dataset elements" in str(e), e
                    c.count("HDF5 cannot copy it")
                    return
        else:
            what = "moved in the file"
            f2 = fn
            moved = ["m/o/" + n for n in paths]
            with h5py.File(fn, "a") as a:
                a.create_group("m/o")
                for n in paths:
                    a.move(n, "m/o/" + n)
    else:
        # links from another file, which has objects of its own
        with h5py.File(f2, "w", libver=lib, userblock_size=ub) as b:
            if r.random() < 0.6:
                x = b.create_group(refs)
                for i in range(40):
                    x["%d" % i] = i
            for n in paths:
                b[n] = h5py.ExternalLink(fn, "/" + n)
            b.create_group("g")["all"] = h5py.ExternalLink(fn, "/")
        if r.random() < 0.5:
            moved = ["g/all/" + n for n in paths]
    got = readers(c, f2, rk, moved)
    for v, w in zip(want, got):
        if c.kind == "mat":
            d = refread.diff(refread.norm(v), refread.norm(w))
        else:
            d = same.same(v, w)
        if d:
            c.bad("the same content encoded differently (%s) is read as something else: %s" % (what, d), options=rk, read=same.short(v, 600), got=same.short(w, 600))
        c.ev((sig, opts.sig(rk), what))
    c.count(what)
    c.sample("%s: %s with %r" % (what, sig, rk))
