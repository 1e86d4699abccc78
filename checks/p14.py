"""P14: the filters of every Dataset against the options, and corruption of
checksummed data."""
import collections

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, opts, raw, same, work
from vf.conform import anyopts, compare, write

ID = "P14"
TITLE = "filters and checksums"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: filter pipelines of every Dataset in files made by the real code are compared with the options; injected single byte corruption of stored chunks has to be reported by the reader"
LEVEL_NOTE = "every algorithm x level x shuffle x checksum combination around the size threshold is enumerated; values, overwrite histories and corruption places are sampled"
RULE = "one evaluation = the filters of one Dataset compared with the options, or one read of a file with one corrupted byte; distinct = (value structure, options) or corruption place"
ASSUMPTIONS = ["h5py reports filters correctly", "changing a single byte always changes the Fletcher32 sum (it does mathematically)"]

ALGS = ["gzip", "lzf"]


def plan(tier):
    k = 8 if tier == "thorough" else 3
    return [("grid", 80), ("val", 1500 * k), ("over", 1500 * k), ("default", 150 * k), ("corrupt", 1200 * k), ("corruptnest", 400 * k)]


def cfg(r, fl=None):
    kw = dict(compress=r.random() < 0.7, compress_size_threshold=r.choice([0, 1, 7, 8, 9, 16, 63, 64, 65, 100, 1000]),
              gzip_compression_level=r.randrange(10), shuffle_filter=r.random() < 0.5,
              compressed_fletcher32_filter=r.random() < 0.5, uncompressed_fletcher32_filter=r.random() < 0.5)
    kw["matlab_compatible"] = r.random() < 0.3
    if not kw["matlab_compatible"]:
        kw["compression_algorithm"] = r.choice(ALGS)
        if r.random() < 0.4:
            kw[r.choice(["make_atleast_2d", "convert_numpy_str_to_utf16", "reverse_dimension_order", "store_shape_for_empty", "structured_numpy_ndarray_as_struct"])] = True
        kw["delete_unused_variables"] = True
    else:
        kw["action_for_matlab_incompatible"] = "discard"
    if r.random() < 0.3:
        kw["store_python_metadata"] = False
    return kw


def bigdata(r):
    k = r.randrange(7)
    n = r.choice([0, 1, 2, 7, 8, 9, 12, 13, 100, 1000])
    if k == 0:
        return np.frombuffer(bytes(r.randrange(256) for _ in range(n)), "u1").copy()
    if k == 1:
        return np.arange(n, dtype="f8").reshape(r.choice([(n,), (1, n), (n, 1)]))
    if k == 2:
        return np.random.RandomState(r.randrange(1 << 30)).randint(0, 100, size=(r.choice([1, 3, 20]), r.choice([1, 2, 50])), dtype="i4")
    if k == 3:
        return "abc\u4e00" * n
    if k == 4:
        return bytes(n)
    if k == 5:
        return list(range(min(n, 20)))
    return np.zeros(r.choice([(), (1,), (3, 4)]), dtype="c16")


def check_file(c, kw, fn, v, m):
    compare(c, kw, fn, "/v", m, v)


def chunks(fn):
    """[(dataset path, file offset, size)] of the chunks of all Datasets with
    a checksum."""
    out = []
    blob = open(fn, "rb").read()
    with h5py.File(fn, "r") as f:
        ub = f.userblock_size

        def visit(name, o):
            if isinstance(o, h5py.Dataset) and o.fletcher32 and o.chunks is not None:
                for i in range(o.id.get_num_chunks()):
                    ci = o.id.get_chunk_info(i)
                    _, rawb = o.id.read_direct_chunk(ci.chunk_offset)
                    for off in (ci.byte_offset, ci.byte_offset + ub):
                        if blob[off:off + ci.size] == rawb and ci.size:
                            out.append((o.name, off, ci.size))
                            break
        f.visititems(visit)
    return out, blob


def run(c):
    r = c.r
    fn = c.path()
    k = c.kind
    if k == "grid":
        # every configuration around the threshold
        alg = ALGS[c.idx % 2]
        level = (c.idx // 2) % 10
        sh, cf = (c.idx // 20) % 2 == 1, (c.idx // 40) % 2 == 1
        with hs.File(fn, writable=True, matlab_compatible=False, compress=True, compress_size_threshold=64, compression_algorithm=alg,
                     gzip_compression_level=level, shuffle_filter=sh, compressed_fletcher32_filter=cf, uncompressed_fletcher32_filter=not cf) as f:
            for n in (0, 1, 62, 63, 64, 65, 66, 1000):
                f["a%d" % n] = np.arange(n).astype("u1")
                f["b%d" % n] = np.zeros((n, 2), "u4")
                f["c%d" % n] = "x" * n
            f["s"] = np.float64(3)
        with h5py.File(fn, "r") as f:
            for name, d in f.items():
                want = (None, None, False, not cf)
                if d.shape == ():
                    want = (None, None, False, False)
                elif d.size * d.dtype.itemsize >= 64:
                    want = (alg, level if alg == "gzip" else None, sh, cf)
                got = (d.compression, d.compression_opts, bool(d.shuffle), bool(d.fletcher32))
                c.ok(got == want, "Dataset %s of %d bytes has the filters %r rather than %r" % (name, d.size * d.dtype.itemsize, got, want))
                c.ev((name, want))
        with hs.File(fn, matlab_compatible=False) as f:
            for n in (0, 1, 62, 63, 64, 65, 66, 1000):
                c.ok(np.array_equal(f["a%d" % n], np.arange(n).astype("u1")) and f["c%d" % n] == "x" * n and f["b%d" % n].shape == (n, 2) and not f["b%d" % n].any(), "a value changed")
    elif k in ("val", "over"):
        kw = cfg(r)
        g = gen.Gen(r, matlab=kw["matlab_compatible"], maxdepth=2, ustruct=opts.effective(kw)["structured_numpy_ndarray_as_struct"], deny=("void",) if kw["matlab_compatible"] else ())

        def val():
            return bigdata(r) if r.random() < 0.5 else (g.v_bigarray(0) if r.random() < 0.5 else g.value())
        v = val()
        if k == "over":
            n = r.choice([1, 1, 2, 3])
            for _ in range(n):
                write(c, kw, fn, v)
                mc, kw = kw["matlab_compatible"], cfg(r)
                kw["matlab_compatible"] = mc
                if mc:
                    for x in [x for x in kw if x in opts.MATLAB]:
                        del kw[x]
                    kw["action_for_matlab_incompatible"] = "discard"
                else:
                    kw["delete_unused_variables"] = True
                g.ustruct = opts.effective(kw)["structured_numpy_ndarray_as_struct"]
                q = r.random()
                if q < 0.6 and isinstance(v, np.ndarray) and v.dtype.names is None:
                    v = np.array(v)
                    if v.size and v.dtype.kind in "iuf" and r.random() < 0.7:
                        v.reshape(-1)[r.randrange(v.size)] = 1
                elif q > 0.8 or not isinstance(v, (str, bytes, int)):
                    v = val()
        m = write(c, kw, fn, v)
        if m is None:
            return
        c.sample(same.short(v) + " with " + repr(kw))
        check_file(c, kw, fn, v, m)
        if kw.get("store_python_metadata", True):
            w = hs.read("/v", filename=fn, **kw)
            d = same.same(v, w, same.group_stored(opts.effective(kw)))
            c.ok(d is None, "the value read differs: %s" % d, options=kw, value=same.short(v, 800))
            c.count("value compared")
    elif k == "default":
        # the documented defaults
        n = r.choice([16383, 16384, 16385, 20000, 100])
        kw = {}
        v = np.random.RandomState(c.idx).randint(0, 5, size=n).astype("u1")
        hs.write({"x": v}, path="/v", filename=fn)
        e = opts.effective(kw)
        compare(c, kw, fn, "/v", expect.model({"x": v}, e), v)
        c.ok(np.array_equal(hs.read("/v", filename=fn)["x"], v), "value changed")
        # and through savemat, which has its own arguments
        f2 = c.path("s.mat")
        hs.savemat(f2, {"q": v}, do_compression=r.random() < 0.5) if r.random() < 0.5 else hs.savemat(f2, {"q": v})
        c.ok(np.array_equal(np.squeeze(hs.loadmat(f2)["q"]), v), "value changed by savemat")
        c.ev(("savemat", n))
    else:
        kw = cfg(r)
        kw["compressed_fletcher32_filter"] = kw["uncompressed_fletcher32_filter"] = True
        kw["store_python_metadata"] = True
        g = gen.Gen(r, matlab=kw["matlab_compatible"], maxdepth=2, ustruct=opts.effective(kw)["structured_numpy_ndarray_as_struct"], deny=("void",) if kw["matlab_compatible"] else ())
        if k == "corrupt":
            q = r.random()
            v = bigdata(r) if q < 0.5 else g.v_ndarray(0) if q < 0.8 else g.v_strarray(0)
            if type(v) is np.ndarray and v.size == 0:
                v = np.arange(5.0)
        else:
            v = g.make(r.choice(["list", "tuple", "dict", "objarray", "struct", "set", "deque", "counter", "fraction", "datetime"]))
        hs.write(v, path="/v", filename=fn, **kw)
        ch, blob = chunks(fn)
        want = hs.read("/v", filename=fn, **kw)
        lax = same.group_stored(opts.effective(kw))
        if not ch:
            c.count("nothing with a checksum")
            return
        for _ in range(4):
            name, off, size = r.choice(ch)
            p = off + (r.randrange(size) if r.random() < 0.8 else r.choice([0, size - 1]))
            b = bytearray(blob)
            b[p] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            f2 = c.path("bad%d.h5" % _)
            with open(f2, "wb") as h:
                h.write(b)
            ro = hs.Options(**kw)
            how = r.randrange(3)
            try:
                if how == 0:
                    got = hs.read("/v", filename=f2, options=ro)
                elif how == 1:
                    with hs.File(f2, options=ro) as f:
                        got = f["v"]
                else:
                    got = hs.reads(["/v"], filename=f2, options=ro)[0]
            except Exception as e:
                c.count("reported as " + type(e).__name__)
                c.ev((work.shape_sig(v), p - off))
                continue
            if name == "/#refs#/a":
                c.ok(same.same(want, got, lax) is None, "corruption was not reported", value=same.short(v, 500), place=(name, p - off))
                continue
            bad = leftout(want, got, lax)
            c.ok(bad is None, "corrupted data was returned: %s" % bad, value=same.short(v, 500), got=same.short(got, 500), place=(name, p - off), options=kw)
            c.ev((work.shape_sig(v), "left out"))
            c.count("left out of a Group")


def leftout(a, b, lax):
    """Elements of Groups that cannot be read are left out; anything else
    must be unchanged."""
    if same.same(a, b, lax) is None:
        return None  # e.g. the Dataset of a None, whose content is not used
    if isinstance(a, collections.ChainMap) and type(a) is type(b):
        return leftout(a.maps, b.maps, lax)
    if isinstance(a, np.void) and isinstance(b, np.void) and a.dtype.names and b.dtype.names:
        a, b = np.array([a]), np.array([b])
    if isinstance(a, dict) and type(a) is type(b):
        for k in b:
            if k not in a:
                return "a key that was not there: %r" % (k,)
            d = leftout(a[k], b[k], lax)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple, collections.deque)) and type(a) is type(b) and len(a) == len(b):
        for x, y in zip(a, b):
            d = leftout(x, y, lax)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.names and b.dtype.names:
        for n in b.dtype.names:
            if n not in a.dtype.names:
                return "a field that was not there"
            if a.shape == b.shape:
                for x, y in zip(a.reshape(-1), b.reshape(-1)):
                    d = leftout(x[n], y[n], lax)
                    if d:
                        return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == object and a.shape == b.shape:
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            d = leftout(x, y, lax)
            if d:
                return d
        return None
    return same.same(a, b, lax)
