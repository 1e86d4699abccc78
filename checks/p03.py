"""P03: the file contents under non-MATLAB options against an independent
model of the storage format documentation."""
from vf import gen, opts, same, work, raw
from vf.conform import anyopts, compare, write

ID = "P03"
TITLE = "on-disk layout outside MATLAB mode"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an independent model of the storage format checks every Dataset, Group and Attribute of files produced by the real code"
LEVEL_NOTE = "all option combinations and documented types are sampled from seeded hostile generators; every object in every file produced is compared exactly"
RULE = "one evaluation = one Dataset or Group in a written file compared in kind, dtype, shape, bytes, members, attributes and filters with the documentation's model; distinct = (value structure, options) pairs"
ASSUMPTIONS = ["the model in vf/expect.py states the storage format documentation", "h5py reports file contents correctly"]


def plan(tier):
    k = 9 if tier == "thorough" else 2
    return [("val", 5000 * k), ("leaf", 3000 * k), ("meta", 1000 * k), ("nested", 800 * k)]


def run(c):
    r = c.r
    kw = anyopts(r, False)
    if c.kind == "meta":
        kw["store_python_metadata"] = r.random() < 0.3
    e = opts.effective(kw)
    g = gen.Gen(r, ustruct=e["structured_numpy_ndarray_as_struct"], maxdepth={"leaf": 1}.get(c.kind, 3))
    fn = c.path()
    if c.kind == "leaf":
        kinds = sorted(set(g._leaf + g._cont))
        v = g.make(kinds[c.idx % len(kinds)])
    else:
        v = g.value()
    p = "/v"
    if c.kind == "nested":
        p = r.choice(["/a/b", "/g/h/i", "/\u4e00/x y"])
    c.sample(same.short(v) + " with " + repr(kw))
    m = write(c, kw, fn, v, p)
    t = raw.tree(fn)
    compare(c, kw, fn, p, m, v, t)
    c.ok(not open(fn, "rb").read(512).strip(b"\0"), "a file not meant for MATLAB has a header for it")
    # nothing else is in the file
    refs = e["group_for_references"].strip("/")
    left = set(t.items) - {p.strip("/").split("/")[0], refs}
    c.ok(not left, "unexpected objects in the root", left=left, options=kw)
    c.ok(not t.attrs, "unexpected attributes on the root", attrs=t.attrs)
