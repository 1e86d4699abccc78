"""P01 round trip: write, then read back through the public API, and compare
with an independent structural comparison."""
from vf.env import np
from vf import gen, opts, same
from vf.work import make, pathfor, roundtrip

ID = "P01"
TITLE = "round trip"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential oracle on write/read executions under generated hostile workloads"
LEVEL_NOTE = "every execution of seeded generated values x options is observed and compared with an independent structural comparator; all code points, all 8/16-bit values and all small shapes of every dtype are enumerated, the rest is sampled"
RULE = ("one evaluation = one value written through the public API and read back from the reopened file, compared in type, "
        "dtype, shape and content by an independent comparator; distinct = distinct (value structure, options) pairs")
ASSUMPTIONS = ["h5py/HDF5 store what they are asked to store",
               "values are drawn from the generators in vf/gen.py (all documented types, nested, hostile strings, special floats, "
               "memory layouts); exclusions are listed in DESIGN.md"]
TIMEOUT = 60


def plan(tier):
    if tier == "thorough":
        return [("val", 60000), ("leaf", 40000), ("many", 4000), ("deep", 4000), ("codepoints", 68 * 4), ("enum", 60)]
    return [("val", 6000), ("leaf", 5000), ("many", 500), ("deep", 400), ("codepoints", 68), ("enum", 20)]


def run(c):
    r = c.r
    k = c.kind
    if k == "val":
        kw, g = make(c)
        v = g.value()
        c.sample(same.short(v) + " with " + repr(kw))
        roundtrip(c, kw, [(pathfor(r), v)])
    elif k == "leaf":
        kw, g = make(c, maxdepth=1)
        kinds = sorted(set(g._leaf + g._cont))
        v = g.make(kinds[c.idx % len(kinds)])
        roundtrip(c, kw, [("/v", v)])
    elif k == "many":
        kw, g = make(c, maxdepth=2)
        n = r.choice([2, 5, 12])
        names = []
        while len(names) < n:
            s = gen.name(r)
            if s not in names and "/" + s != kw.get("group_for_references", "/#refs#"):
                names.append(s)
        pre = r.choice([(), ("g",), ("g.h", "\u4e00")])
        roundtrip(c, kw, [(pre + (s,), g.value()) for s in names])
        c.sample("names %r" % names)
    elif k == "deep":
        kw, g = make(c, maxdepth=6)
        v = g.make(r.choice(g._cont))
        for _ in range(r.randrange(6)):
            w = r.randrange(5)
            if w == 0:
                v = [v]
            elif w == 1:
                v = (1, v, "x")
            elif w == 2:
                v = {r.choice(["a", "b/c", "\u4e00", "."]): v}
            elif w == 3:
                a = np.empty((1, 2), dtype=object)
                a[0, 0], a[0, 1] = v, None
                v = a
            else:
                v = {(1, "k"): v}
        roundtrip(c, kw, [("/v", v)])
    elif k == "codepoints":
        blk = c.idx % 68
        lo = blk * 0x4000
        cps = range(lo, min(lo + 0x4000, 0x110000))
        s = "".join(map(chr, cps))
        kw = opts.gen(r)
        step = r.choice([97, 256, 1000])
        parts = [s[i:i + step] for i in range(0, len(s), step)]
        arr = np.array(parts)
        singles = [chr(x) for x in r.sample(cps, 12)] + [chr(cps[0]), chr(cps[-1])]
        items = [("/whole", s), ("/nps", np.str_(s)), ("/arr", arr), ("/b", s.encode("utf-8", "surrogatepass")), ("/singles", singles),
                 ("/keys", {x if x not in ("\0", "/") else "a" + x: i for i, x in enumerate(dict.fromkeys(singles))}),
                 ("/one", np.array(list(s[:300])))]
        if lo == 0xC000:
            # lone surrogates: str can have them, UTF-8 and UTF-16 not
            sur = [chr(x) for x in r.sample(range(0xD800, 0xE000), 6)]
            items += [("/sur", sur), ("/skeys", {x: x + "a" for x in sur}), ("/mixed", {sur[0] + "a": 1, "b": sur[1], 3: None}),
                      ("/snps", np.str_("a" + sur[2])), ("/sarr", np.array([["x" + sur[3], sur[4]], ["", "\U0001f600"]])), ("/pair", "\udc00\ud800")]
        roundtrip(c, kw, items)
        c.count("code points", len(cps))
    elif k == "enum":
        kw = opts.gen(r)
        mat = kw["matlab_compatible"]
        kw["action_for_matlab_incompatible"] = "ignore"
        a8 = np.arange(256, dtype="u1")
        items = [("/u1", a8), ("/i1", a8.view("i1")), ("/f2", np.arange(65536, dtype="u2").view("f2").reshape(256, 256)),
                 ("/u2", np.arange(65536, dtype="u2")), ("/bytes", bytes(a8)), ("/ba", bytearray(bytes(a8)[::-1])),
                 ("/npb", np.bytes_(bytes(a8))), ("/bb", np.array([bytes([i]) for i in range(256)]).reshape(16, 16)),
                 ("/bool", np.array([True, False] * 5)),
                 ("/pow", [2 ** i for i in range(70)] + [-2 ** i for i in range(70)] + [2 ** i - 1 for i in range(70)]),
                 ("/fl", [float(x) for x in gen.FLOATS]), ("/cx", np.array([complex(a, b) for a in gen.FLOATS for b in gen.FLOATS]).reshape(19, 19)),
                 ("/cxl", [complex(a, b) for a in gen.FLOATS[:9] for b in gen.FLOATS[:9]])]
        # every numpy dtype with every small shape
        for dt in gen.PLAIN + ["S1", "S3", "U1", "U3"]:
            for shp in [(), (0,), (1,), (2,), (0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 3), (1, 1, 1), (2, 1, 3), (0, 2, 1), (2, 3, 4, 2)]:
                a = gen.strarr(r, dt[0], shp).astype(dt) if dt[0] in "SU" else gen.fill(r, dt, shp)
                items.append(("/%s_%s" % (dt.replace("?", "b1"), "x".join(map(str, shp))), a))
        roundtrip(c, kw, items)
