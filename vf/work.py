"""Workload pieces shared by the checks."""
import os

from .env import hs, np
from . import gen, opts, same


def shape_sig(v, d=0):
    if d > 4:
        return "..."
    t = type(v).__name__
    if isinstance(v, np.ndarray):
        return (t, str(v.dtype)[:80], v.ndim, v.size == 0, v.shape[:1] == (1,))
    if isinstance(v, (list, tuple)):
        return (t, len(v), tuple(shape_sig(x, d + 1) for x in v[:4]))
    if isinstance(v, dict):
        return (t, len(v), tuple((type(k).__name__, shape_sig(x, d + 1)) for k, x in list(v.items())[:4]))
    if isinstance(v, (str, bytes)):
        return (t, min(len(v), 3), v[-1:], max(v, default=0) if isinstance(v, bytes) else len(max(v, default="").encode("utf-8", "surrogatepass")))
    return t


def make(c, matlab=None, action=("ignore", "error", "discard"), **k):
    """Options and a generator of values that can be read back under them."""
    r = c.r
    kw = opts.gen(r, matlab=matlab)
    if kw["matlab_compatible"]:
        kw["action_for_matlab_incompatible"] = r.choice(action)
    mat = kw["matlab_compatible"] and kw["action_for_matlab_incompatible"] != "ignore"
    e = opts.effective(kw)
    g = gen.Gen(r, matlab=mat, ustruct=e["structured_numpy_ndarray_as_struct"],
                deny=("void",) if mat else (), **k)
    return kw, g


def pathfor(r):
    return r.choice(["/v", "/v", "v", "/a/b", "/g/\u4e00/x", b"/v", ("a", "b"), ("x/y", "."), "/#", "/a b/c.d"])


def write(c, kw, fn, items):
    r = c.r
    k = r.randrange(5)
    c.count("write route %d" % k)
    if k == 0 and len(items) == 1:
        (p, v), = items
        hs.write(v, path=p, filename=fn, **kw)
    elif k == 1:
        hs.writes(dict(items), filename=fn, options=hs.Options(**kw))
    elif k == 2:
        with hs.File(fn, writable=True, **kw) as f:
            for p, v in items:
                f[p] = v
    elif k == 3:
        with hs.File(fn, writable=True, options=hs.Options(**kw)) as f:
            f.writes(dict(items))
    else:
        for p, v in items:
            with hs.File(fn, writable=True, truncate_existing=False, **kw) as f:
                f.write(v, p)


def read(c, kw, fn, paths):
    r = c.r
    k = r.randrange(4)
    if k == 0:
        return [hs.read(p, filename=fn, **kw) for p in paths]
    if k == 1:
        return hs.reads(list(paths), filename=fn, **kw)
    with hs.File(fn, writable=(k == 3), **kw) as f:
        if k == 2:
            return [f[p] for p in paths]
        return f.reads(paths)


def roundtrip(c, kw, items, fn=None):
    fn = fn or c.path()
    c.note("options %r" % kw)
    for p, v in items:
        c.note("%r <- %s" % (p, same.short(v, 1500)))
    write(c, kw, fn, items)
    got = read(c, kw, fn, [p for p, _ in items])
    lax = same.group_stored(opts.effective(kw))
    for (p, v), w in zip(items, got):
        d = same.same(v, w, lax)
        if d:
            c.bad("value read differs from value written: " + d, options=kw, path=p, value=same.short(v, 800), got=same.short(w, 800))
        c.ev((shape_sig(v), opts.sig(kw)))
        c.count("type " + type(v).__module__.split(".")[0] + "." + type(v).__name__)
    c.count("matlab" if kw["matlab_compatible"] else "not matlab")
    if c.r.random() < 0.4:
        other = opts.readers(c.r, kw)
        got = read(c, other, fn, [p for p, _ in items])
        for (p, v), w in zip(items, got):
            d = same.same(v, w, lax)
            if d:
                c.bad("value read with other options that do not matter for reading differs from value written: " + d, options=kw, others=other, path=p, value=same.short(v, 800), got=same.short(w, 800))
        c.ev(("other", opts.sig(kw), opts.sig(other)), len(items))


def rm(fn):
    if os.path.exists(fn):
        os.unlink(fn)
