"""P05: reading data without Python metadata."""
import os
import shutil

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, refread, same, work

ID = "P05"
TITLE = "reading without Python metadata"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (differential): files assembled with raw h5py in the MAT v7.3 and plain HDF5 layouts, or written without metadata, are read by the real code and compared with the values they were built from and with an independent reader"
LEVEL_NOTE = "layouts, classes, shapes, strings, names, nesting, attribute kinds and read options are sampled from seeded generators; every value read is compared exactly"
RULE = "one evaluation = one value read compared with the value the file was built from or with the independent reader; distinct = (layout structure, read options)"
ASSUMPTIONS = ["vf/refread.py states the documentation's table of MATLAB classes and the empty, dimension order and struct conventions", "h5py reports what is in the file"]


def plan(tier):
    k = 24 if tier == "thorough" else 2
    return [("mat", 2200 * k), ("own", 2200 * k), ("plain", 900 * k), ("stable", 250 * k)]


NUMS = ["double", "double", "single", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


class Mat:
    """Builds MATLAB like content, keeping the values it stands for in the
    normal form of refread."""
    cnames = ("real", "imag")

    def __init__(self, r, f, sad=False):
        self.r, self.f, self.sad = r, f, sad
        self.n = 0
        self.sig = []
        refs = f.require_group("#refs#")
        d = refs.create_dataset("a", data=np.zeros(2, "u8"))
        d.attrs["MATLAB_class"] = np.bytes_(b"canonical empty")
        d.attrs["MATLAB_empty"] = np.uint8(1)

    def dims(self, zero=False):
        r = self.r
        nd = r.choice([2, 2, 2, 2, 3, 4])
        s = [r.choice([1, 1, 2, 3, 4]) for _ in range(nd)]
        if zero:
            s[r.randrange(nd)] = 0
            if r.random() < 0.4:
                s = [0, 0]
        return tuple(s)

    def cls(self, o, name):
        k = self.r.randrange(5)
        if k < 3:
            o.attrs["MATLAB_class"] = np.bytes_(name.encode())
        elif k == 3:
            o.attrs.create("MATLAB_class", name, dtype=h5py.string_dtype("ascii" if self.r.random() < 0.5 else "utf-8"))
        else:
            # null terminated, as MATLAB makes them
            o.attrs.create("MATLAB_class", np.bytes_(name.encode() + b"\0"), dtype="S%d" % (len(name) + 1))
        if self.r.random() < 0.1:
            o.attrs["some other attribute"] = self.r.choice([5, "text", np.arange(3), b"\xff"])

    def fields(self, o, names):
        a = np.empty(len(names), dtype=object)
        for i, n in enumerate(names):
            a[i] = np.array([bytes([b]) for b in n.encode("utf-8")], dtype="S1")
        o.attrs.create("MATLAB_fields", a, dtype=h5py.vlen_dtype(np.dtype("S1")))

    def dset(self, parent, name, data, **k):
        r = self.r
        if data.size and data.ndim and r.random() < 0.3:
            k.update(chunks=True, compression=r.choice(["gzip", None]), shuffle=r.random() < 0.5, fletcher32=r.random() < 0.3)
        return parent.create_dataset(name, data=data, **k)

    def put(self, parent, name, depth=0):
        """Makes a random object and gives its normal form."""
        r = self.r
        kinds = ["num"] * 4 + ["complex", "logical", "char", "char", "empty", "unknown"]
        if depth < 3:
            kinds += ["cell", "cell", "struct", "struct", "structarray", "emptycell", "emptystruct"]
        k = r.choice(kinds)
        self.sig.append((depth, k))
        return getattr(self, "p_" + k)(parent, name, depth)

    def p_num(self, parent, name, depth):
        r = self.r
        c = r.choice(NUMS)
        a = gen.fill(r, refread.CLASSES[c], self.dims())
        d = self.dset(parent, name, a.T.astype(a.dtype.newbyteorder(r.choice("<<<>"))))
        self.cls(d, c)
        return refread.norm(a)

    def p_complex(self, parent, name, depth):
        r = self.r
        c = r.choice(["double", "single"])
        n = refread.CLASSES[c]
        shp = self.dims()
        re, im = gen.fill(r, n, shp), gen.fill(r, n, shp)
        names = r.choice([("real", "imag")] * 4 + [("re", "im"), ("Real", "Imag"), ("r", "i"), ("R", "IMAGINARY")] + [self.cnames] * 3)
        s = np.empty(shp[::-1], dtype=[(names[0], n), (names[1], n)])
        if r.random() < 0.15:
            s = np.empty(shp[::-1], dtype=[(names[1], n), (names[0], n)])
        s[names[0]], s[names[1]] = re.T, im.T
        d = self.dset(parent, name, s)
        self.cls(d, c)
        z = np.empty(shp, dtype={"f8": "c16", "f4": "c8"}[n])
        z.real, z.imag = re, im
        return refread.norm(z)

    def p_logical(self, parent, name, depth):
        r = self.r
        a = gen.fill(r, "?", self.dims())
        d = self.dset(parent, name, a.T.astype("u1") * (r.choice([1, 1, 1, 7, 255]) if r.random() < 0.2 else 1))
        self.cls(d, "logical")
        if r.random() < 0.9:
            d.attrs["MATLAB_int_decode"] = np.int32(1)
        return refread.norm(a)

    def p_char(self, parent, name, depth):
        r = self.r
        m, n = r.choice([1, 1, 1, 2, 3]), r.choice([1, 2, 3, 5, 12])
        lead = r.choice([(), (), (), (2,)])
        w = r.choice([2, 2, 2, 2, 4, 1])
        pool = {1: [chr(x) for x in range(1, 128)], 2: gen.ASCII_CHARS + gen.BMP_CHARS, 4: gen.ASCII_CHARS + gen.BMP_CHARS + gen.ASTRAL_CHARS}[w]
        strs = []
        for _ in range(m * int(np.prod(lead))):
            s = "".join(r.choice(pool) for _ in range(n))
            if w == 2 and n >= 2 and r.random() < 0.3:
                i = r.randrange(n - 1)
                s = s[:i] + r.choice(gen.ASTRAL_CHARS) + s[i + 2:]
            strs.append(s)
        enc = {1: "utf-8", 2: "utf-16-le", 4: "utf-32-le"}[w]
        a = np.array([np.frombuffer(s.encode(enc), dtype="<u%d" % w) for s in strs]).reshape(lead + (m, n))
        d = self.dset(parent, name, a.T.astype(a.dtype.newbyteorder(r.choice("<<>"))))
        self.cls(d, "char")
        if r.random() < 0.9:
            d.attrs["MATLAB_int_decode"] = np.int32(2)
        return ("str", "U", lead + (m, 1), tuple(strs))

    def p_empty(self, parent, name, depth):
        r = self.r
        c = r.choice(NUMS + ["logical", "char", "canonical empty"])
        shp = self.dims(True) if c != "canonical empty" else (0, 0)
        d = parent.create_dataset(name, data=np.array(shp, "u8"))
        self.cls(d, c)
        d.attrs["MATLAB_empty"] = r.choice([np.uint8, np.int32, np.int64, np.uint32])(1)
        if c == "char":
            d.attrs["MATLAB_int_decode"] = np.int32(2)
            return ("str", "U", shp, ())
        return refread.norm(np.zeros(shp, refread.CLASSES[c]))

    def p_unknown(self, parent, name, depth):
        """Classes that are not in the table are not changed."""
        r = self.r
        a = gen.fill(r, r.choice(["f8", "u4", "i2"]), self.dims())
        d = self.dset(parent, name, a)
        self.cls(d, r.choice(["function_handle", "table", "string", "Double", "FileWrapper__", "datetime", "", "cell ", "opaque"]))
        return refread.norm(a)

    def ref(self, depth):
        r = self.r
        if r.random() < 0.1:
            return self.f["#refs#/a"].ref, refread.norm(np.zeros((0, 0)))
        self.n += 1
        n = "b%d" % self.n
        v = self.put(self.f["#refs#"], n, depth + 1)
        if r.random() < 0.5:
            self.f["#refs#"][n].attrs["H5PATH"] = np.bytes_(b"/#refs#/" + n.encode())
        return self.f["#refs#"][n].ref, v

    def refarray(self, parent, name, shp, depth):
        n = int(np.prod(shp))
        a = np.empty(n, dtype=object)
        vals = []
        for i in range(n):
            a[i], v = self.ref(depth)
            vals.append(v)
        a = a.reshape(shp)
        d = parent.create_dataset(name, data=a.T, dtype=h5py.ref_dtype)
        return d, ("obj", shp, tuple(vals))

    def small(self):
        return self.r.choice([(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 2, 2), (2, 3)])

    def p_cell(self, parent, name, depth):
        d, v = self.refarray(parent, name, self.small(), depth)
        self.cls(d, "cell")
        return v

    def p_emptycell(self, parent, name, depth):
        shp = self.dims(True)
        d = parent.create_dataset(name, data=np.array(shp, "u8"))
        self.cls(d, "cell")
        d.attrs["MATLAB_empty"] = np.uint8(1)
        return ("obj", shp, ())

    def names(self):
        """(stored, meaning) names of fields."""
        r = self.r
        out = {}
        n = r.choice([0, 1, 1, 2, 3, 5])
        while len(out) < n:
            k = r.random()
            if k < 0.7:
                s = "".join(r.choice("abcXYZ_019") for _ in range(r.randrange(1, 6)))
                s = ("f" + s) if not s[0].isalpha() else s
                m = s
            else:
                m = gen.name(r)
                s = expect.esc(m)
                if k > 0.95 and "/" not in m and m and m[0] != "." and "\0" not in m:
                    # other spellings of the same name
                    s = "\\u%04x" % ord(m[0]) + expect.esc("a" + m[1:])[1:] if ord(m[0]) < 0x10000 else s
            if m not in out:
                out[m] = s
        return [(s, m) for m, s in out.items()]

    def order(self, g, names, vals):
        """MATLAB_fields or no MATLAB_fields."""
        r = self.r
        ms = [m for _, m in names]
        k = r.random()
        if k < 0.7:
            self.fields(g, [s for s, _ in names])
            return ms
        if k < 0.8 and len(names) > 1 and all(s == expect.esc(m) for s, m in names):
            # only some of them: the others come afterwards by name
            part = [x for x in names if r.random() < 0.5]
            self.fields(g, [s for s, _ in part])
            return [m for _, m in part] + sorted(set(ms) - {m for _, m in part})
        return sorted(ms)

    def p_struct(self, parent, name, depth):
        r = self.r
        g = parent.create_group(name)
        self.cls(g, "struct")
        names = self.names()
        vals = {}
        for s, m in r.sample(names, len(names)):
            vals[m] = self.put(g, s, depth + 1)
        o = self.order(g, names, vals)
        if self.sad:
            return ("dict", tuple(sorted(vals.items())))
        return ("rec", (1,), tuple((m, (vals[m],)) for m in o))

    def p_structarray(self, parent, name, depth):
        r = self.r
        g = parent.create_group(name)
        self.cls(g, "struct")
        names = self.names() or [("a", "a")]
        shp = r.choice([(1, 2), (2, 1), (2, 2), (2, 3), (1, 2, 2)])
        vals = {}
        for s, m in r.sample(names, len(names)):
            d, v = self.refarray(g, s, shp, depth)
            vals[m] = v
        o = self.order(g, names, vals)
        if self.sad:
            # (the fields are whole arrays, as they are stored)
            def t(v):
                a = np.empty(len(v[2]), dtype=object)
                for i, x in enumerate(v[2]):
                    a[i] = x
                a = a.reshape(v[1]).T
                return ("obj", a.shape, tuple(a.reshape(-1)))
            return ("dict", tuple(sorted((m, t(v)) for m, v in vals.items())))
        return ("rec", shp, tuple((m, vals[m][2]) for m in o))

    def p_emptystruct(self, parent, name, depth):
        shp = self.dims(True)
        d = parent.create_dataset(name, data=np.array(shp, "u8"))
        self.cls(d, "struct")
        d.attrs["MATLAB_empty"] = np.uint8(1)
        if self.r.random() < 0.7:
            names = self.names()
            if names:
                self.fields(d, [s for s, _ in names])
                return ("rec", shp, tuple((m, ()) for _, m in names))
        return ("obj", shp, ())


def readopts(r):
    kw = {}
    if r.random() < 0.5:
        kw["matlab_compatible"] = r.random() < 0.5
    if r.random() < 0.4:
        kw["structs_as_dicts"] = r.random() < 0.7
    if kw.get("matlab_compatible") is False and r.random() < 0.3:
        kw["complex_names"] = r.choice([("a", "b"), ("real", "imag"), ("x", "real")])
        kw["reverse_dimension_order"] = r.random() < 0.5
    return kw


def eff(kw):
    return opts.effective(dict({"matlab_compatible": False}, **kw))


def check(c, fn, path, kw, want, what):
    k = c.r.randrange(3)
    if k == 0:
        got = hs.read(path, filename=fn, **kw)
    elif k == 1:
        with hs.File(fn, **dict({"matlab_compatible": False}, **kw)) as f:
            got = f[path]
    else:
        got = hs.reads([path], filename=fn, options=hs.Options(**dict({"matlab_compatible": False}, **kw)))[0]
    d = refread.diff(want, refread.norm(got))
    c.ok(d is None, "what is read differs from %s: %s" % (what, d), options=kw, got=same.short(got, 800))
    return got


def run(c):
    r = c.r
    fn = c.path()
    if c.kind in ("mat", "stable"):
        kw = readopts(r)
        with h5py.File(fn, "w", userblock_size=512) as f:
            m = Mat(r, f, bool(kw.get("structs_as_dicts")))
            m.cnames = tuple(eff(kw)["complex_names"])
            p = r.choice(["/x", "/x", "/g/y"])
            kinds = [k[2:] for k in dir(m) if k.startswith("p_")]
            if r.random() < 0.5:
                k = kinds[c.idx % len(kinds)]
                m.sig.append(k)
                want = getattr(m, "p_" + k)(f.require_group(p.rpartition("/")[0] or "/"), p.rpartition("/")[2], 1)
            else:
                want = m.put(f.require_group(p.rpartition("/")[0] or "/"), p.rpartition("/")[2])
            for i in range(r.choice([0, 0, 2])):
                m.put(f, "other%d" % i, 2)
        c.note("layout %r" % m.sig)
        c.note("want %r" % (want,))
        with h5py.File(fn, "r") as f:
            ref = refread.read(f, f[p], eff(kw), expect.unesc)
        d = refread.diff(want, ref)
        assert d is None, "the independent reader is wrong: " + d
        check(c, fn, p, kw, want, "what the file was built from")
        c.ev((tuple(m.sig[:8]), opts.sig(kw)))
        for x in m.sig:
            c.count("kind %s" % (x[1] if isinstance(x, tuple) else x))
        c.sample("%r read with %r" % (m.sig[:10], kw))
        if c.kind == "stable":
            # only the file and the options matter
            f2 = c.path("copy.h5")
            with h5py.File(fn, "r") as a, h5py.File(f2, "w") as b:
                for n in a:
                    if n != "#refs#":
                        a.copy(n, b, expand_refs=True)
            with hs.File(fn, **dict({"matlab_compatible": False}, **kw)) as f:
                names = [n for n in f]
                for _ in range(4):
                    for n in r.sample(names, len(names)):
                        try:
                            f[n]
                        except ValueError:
                            pass
                    d = refread.diff(want, refread.norm(f[p]))
                    c.ok(d is None, "the value read depends on what was read before: %s" % d, options=kw)
            try:
                hs.read("/nowhere", filename=fn)
            except KeyError:
                pass
            check(c, fn, p, kw, want, "what the file was built from, on second reading")
            shutil.copyfile(fn, f2)
            with hs.File(f2, writable=True, **dict({"matlab_compatible": False}, **kw)) as f:
                f["new"] = {"a": [1, "x"], "b": [[]]}
                d = refread.diff(want, refread.norm(f[p]))
                c.ok(d is None, "the value read depends on what was written elsewhere: %s" % d, options=kw)
            c.ev(("stable", tuple(m.sig[:4])), n=3)
    elif c.kind == "own":
        kw = opts.gen(r, meta=False)
        kw["store_python_metadata"] = False
        mat = kw["matlab_compatible"]
        if mat:
            kw["action_for_matlab_incompatible"] = r.choice(["ignore", "discard", "error"])
        strict = mat and kw["action_for_matlab_incompatible"] != "ignore"
        e = opts.effective(kw)
        g = gen.Gen(r, matlab=strict, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if strict else ())
        v = g.value()
        c.note("options %r" % kw)
        c.note("value %s" % same.short(v, 1500))
        hs.write(v, path="/v", filename=fn, **kw)
        rk = readopts(r)
        if r.random() < 0.6:
            rk = dict(kw)
            if r.random() < 0.3:
                rk["structs_as_dicts"] = True
        e = eff(rk)
        with h5py.File(fn, "r") as f:
            want = refread.read(f, f["/v"], e, expect.unesc)
        check(c, fn, "/v", rk, want, "what the independent reader makes of the file")
        c.ev((work.shape_sig(v), opts.sig(kw), opts.sig(rk)))
        c.count("own " + ("matlab" if mat else "plain"))
        if strict:
            own(c, v, fn, kw)
    else:
        plain(c, fn)


def own(c, v, fn, kw):
    """Plain numeric values come back as they were, at least two dimensional."""
    if isinstance(v, (np.ndarray, np.generic)) and v.dtype.kind in ("biufc" if v.size else "biuf") and not isinstance(v, np.matrix):
        a = np.atleast_1d(np.asarray(v))
        if a.ndim == 1:
            a = a.reshape((-1, 1) if kw.get("oned_as") == "column" else (1, -1))
        if np.asarray(v).ndim == 0:
            a = np.asarray(v).reshape(1, 1)
        got = hs.read("/v", filename=fn)
        d = refread.diff(refread.norm(a), refread.norm(got))
        c.ok(d is None, "a numeric array differs after reading it without metadata: %s" % d, options=kw, value=same.short(v))
        c.ev(("numeric", str(a.dtype), a.shape))


def plain(c, fn):
    """HDF5 files without any attributes this package knows."""
    r = c.r

    def put(g, n, depth):
        k = r.randrange(12 if depth < 3 else 10)
        sig.append((depth, k))
        if k < 3:
            a = gen.fill(r, r.choice(gen.PLAIN), gen.shape(r))
            g.create_dataset(n, data=a.astype(a.dtype.newbyteorder(r.choice("<>"))) if a.dtype.kind != "c" else a)
        elif k == 3:
            g.create_dataset(n, data=gen.strarr(r, "S", gen.shape(r, 12), nul=False))
        elif k == 4:
            g.create_dataset(n, data=np.array([gen.text(r).replace("\0", "_") for _ in range(3)], dtype=object), dtype=h5py.string_dtype())
        elif k == 5:
            g.create_dataset(n, data=gen.text(r).replace("\0", "_"))
        elif k == 6:
            G = gen.Gen(r, ustruct=False, nulnames=False)
            dt = np.dtype([(x, r.choice(["i4", "f8", "S3", "?"])) for x in "abc"[:r.randrange(1, 4)]] + ([("r", "f8"), ("i", "f8")] if r.random() < 0.3 else []))
            a = np.zeros(gen.shape(r, 8), dtype=dt)
            for x in dt.names:
                a[x] = gen.strarr(r, "S", a.shape, nul=False).astype("S3") if dt.fields[x][0].kind == "S" else gen.fill(r, dt.fields[x][0], a.shape)
            g.create_dataset(n, data=a)
        elif k == 7:
            g.create_dataset(n, data=np.frombuffer(bytes(r.randrange(256) for _ in range(6)), dtype="V3"))
        elif k == 8:
            d = g.create_dataset(n, data=gen.fill(r, "f8", (2, 3)))
            d.attrs["units"] = "m"
            d.attrs["Python"] = 5
            d.attrs["CLASS"] = np.bytes_(b"IMAGE")
        elif k == 9:
            refs = []
            for i in range(r.choice([1, 2, 3])):
                m = "t%d" % len(sig)
                while m in top:
                    m += "_"
                put(top, m, 3)
                refs.append(top[m].ref)
            a = np.empty(len(refs), dtype=object)
            a[:] = refs
            g.create_dataset(n, data=a.reshape(r.choice([(-1,), (1, -1)])), dtype=h5py.ref_dtype)
        else:
            s = g.create_group(n)
            for i in range(r.choice([0, 1, 2, 3])):
                m = expect.esc(gen.name(r))
                if m not in s:
                    put(s, m, depth + 1)
    sig = []
    with h5py.File(fn, "w") as f:
        top = f.create_group("top")
        put(f, "x", 0)
    kw = readopts(r)
    with h5py.File(fn, "r") as f:
        want = refread.read(f, f["x"], eff(kw), expect.unesc)
    c.note("layout %r" % sig)
    check(c, fn, "/x", kw, want, "what the independent reader makes of the file")
    c.ev((tuple(sig[:8]), opts.sig(kw)))
    c.count("plain")
