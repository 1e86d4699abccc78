"""P04: MATLAB compatible files against an independent model of the MAT v7.3
layout the documentation prescribes."""
import h5py

from vf.env import hs, np
from vf import gen, opts, same, work, raw
from vf.conform import Clock, anyopts, compare, header, write

ID = "P04"
TITLE = "on-disk layout in MATLAB mode"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent model of the MAT v7.3 layout checks the header bytes and every Dataset, Group and Attribute of files produced by the real code"
LEVEL_NOTE = "all documented types, MATLAB compatible or not, under all three actions are sampled from seeded hostile generators; every object in every file produced is compared exactly"
RULE = "one evaluation = one Dataset, Group or file header in a written file compared with the documentation's model; distinct = (value structure, options) pairs"
ASSUMPTIONS = ["the model in vf/expect.py states the storage format documentation", "h5py reports file contents correctly"]


def plan(tier):
    k = 8 if tier == "thorough" else 1
    return [("val", 4000 * k), ("leaf", 3000 * k), ("compat", 1500 * k), ("several", 500 * k), ("savemat", 500 * k), ("header", 200 * k)]


def run(c):
    r = c.r
    kw = anyopts(r, True)
    fn = c.path("f.mat")
    compat = c.kind == "compat"
    g = gen.Gen(r, matlab=compat, maxdepth={"leaf": 1}.get(c.kind, 3), deny=("void",) if compat else ())
    if c.kind in ("val", "leaf", "compat"):
        if c.kind == "leaf":
            kinds = sorted(set(g._leaf + g._cont))
            v = g.make(kinds[c.idx % len(kinds)])
        else:
            v = g.value()
        p = r.choice(["/v", "/v", "/v", "/a/b", "/\u4e00/x y"])
        c.sample(same.short(v) + " with " + repr(kw))
        m = write(c, kw, fn, v, p)
        if m == "error":
            c.ev(("rejected", work.shape_sig(v)))
            c.ok(not compat, "a value MATLAB supports was rejected", value=same.short(v, 800))
        else:
            t = raw.tree(fn)
            compare(c, kw, fn, p, m, v, t)
            left = set(t.items) - {p.strip("/").split("/")[0], "#refs#"}
            c.ok(not left, "unexpected objects in the root", left=left, options=kw)
        h = header(fn)
        c.ok(h is None, "MATLAB header: %s" % h)
        c.ev("header")
    elif c.kind == "several":
        names, ms = [], []
        kw["action_for_matlab_incompatible"] = r.choice(["ignore", "discard"])
        for i in range(r.choice([2, 3, 6])):
            v = g.value()
            p = "/" + "abcdefgh"[i]
            if r.random() < 0.3 and names:
                p = r.choice(names)
                k = names.index(p)
                if ms[k][0] is None:
                    continue
                m = write(c, kw, fn, v, p)
                if m is None:
                    continue
                ms[k] = (m, v)
                continue
            names.append(p)
            ms.append((write(c, kw, fn, v, p), v))
        t = raw.tree(fn)
        for p, (m, v) in zip(names, ms):
            compare(c, kw, fn, p, m, v, t)
        h = header(fn)
        c.ok(h is None, "MATLAB header: %s" % h)
    elif c.kind == "savemat":
        g = gen.Gen(r, matlab=True, maxdepth=2, deny=("void",))
        d = {n: g.value() for n in ("a", "b1", "c_2")}
        meta = r.random() < 0.5
        ori = r.choice(["row", "column"])
        hs.savemat(fn, d, format="7.3", store_python_metadata=meta, oned_as=ori, appendmat=r.random() < 0.5)
        k2 = dict(matlab_compatible=True, store_python_metadata=meta, oned_as=ori, action_for_matlab_incompatible="error")
        t = raw.tree(fn)
        from vf import expect
        for n, v in d.items():
            compare(c, k2, fn, "/" + n, expect.model(v, opts.effective(k2)), v, t, filt=False)
        h = header(fn)
        c.ok(h is None, "MATLAB header: %s" % h)
    else:
        # files that exist already
        k = r.randrange(6)
        what = ["new", "no userblock, truncating", "bigger userblock", "other header", "matlab again", "userblock without header"][k]
        if k in (1, 2, 3, 5):
            with h5py.File(fn, "w", userblock_size={1: 0, 2: 1024, 3: 512, 5: 512}[k]) as f:
                f["old"] = np.arange(5)
            if k == 3:
                with open(fn, "r+b") as b:
                    b.write(b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Fri Feb 07 02:29:00 2014 HDF5 schema 1.00 .".ljust(116) + b"\0" * 8 + b"\x00\x02IM")
        if k == 4:
            hs.write(1, path="/old", filename=fn, matlab_compatible=True)
        kw.pop("action_for_matlab_incompatible", None)
        clock = None
        if r.random() < 0.7:
            with Clock(r) as clock:
                hs.write(np.arange(3.0), path="/x", filename=fn, truncate_invalid_matlab=True, **kw)
            c.count("header at another time" if clock.asked else "clock not asked")
        else:
            hs.write(np.arange(3.0), path="/x", filename=fn, truncate_invalid_matlab=True, **kw)
        size = 1024 if k == 2 else 512
        h = header(fn, size, clock)
        c.ok(h is None, "MATLAB header after writing to a file with %s: %s" % (what, h))
        with h5py.File(fn, "r") as f:
            c.ok(f.userblock_size == size, "userblock size %d with %s" % (f.userblock_size, what))
            c.ok("x" in f, "what was written is missing with %s" % what)
            if k in (2, 3, 4, 5):
                c.ok("old" in f, "what was there before is missing with %s" % what)
        c.ev(("header", what), n=3)
