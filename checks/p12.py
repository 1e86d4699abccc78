"""P12: Options over sequences of assignments."""
import copy
import itertools
import pickle

import h5py
import numpy as np

from vf.env import hs
from vf import gen, opts, raw, same

ID = "P12"
TITLE = "Options"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: after every assignment of a generated history of Options objects the values of all options are compared with a table model (online checker)"
LEVEL_NOTE = "every option x every valid and invalid value from every single-deviation state is enumerated, pairs of assignments over all options are enumerated, longer histories with copies, Files and writes in between are sampled"
RULE = "one evaluation = the values of all options after one assignment, construction or copy compared with the model; distinct = (previous state, option, value)"
ASSUMPTIONS = ["the table model states the documentation of hdf5storage.Options"]


class S(str):
    pass


class I(int):
    pass


class T(tuple):
    pass


BADBOOL = [1, 0, None, "True", b"x", 1.0, [], (), np.bool_(True), np.bool_(False), np.array([True]), "false", object()]
ALLBOOLS = ["store_python_metadata", "matlab_compatible", "delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
            "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order",
            "structs_as_dicts", "store_shape_for_empty", "compress", "shuffle_filter", "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"]
GOOD = {k: [True, False] for k in ALLBOOLS}
BAD = {k: BADBOOL for k in ALLBOOLS}
GOOD["action_for_matlab_incompatible"] = ["error", "ignore", "discard"]
BAD["action_for_matlab_incompatible"] = ["Error", "", None, 3, b"error", ("error",), "ignore ", True, ["error"], {"ignore"}, np.array("error")]
GOOD["oned_as"] = ["row", "column"]
BAD["oned_as"] = ["Row", "", None, 0, b"row", "col", "columns", True, ["row"]]
GOOD["compression_algorithm"] = ["gzip", "lzf", "szip"]
BAD["compression_algorithm"] = ["GZIP", "", None, 4, b"gzip", "bzip2", True, ["lzf"]]
GOOD["complex_names"] = [("real", "imag"), ("r", "i"), ("a", "b"), ("imag", "real"), ("\u4e00", " "), ("x/y", "z")]
BAD["complex_names"] = [["real", "imag"], ("real",), ("a", "b", "c"), (b"a", b"b"), ("a", b"b"), (1, "b"), ("a", None), "ab", None, (), {"a", "b"}, ("a", 2)]
GOOD["group_for_references"] = ["/#refs#", "/refs", "/a/b", "/a//b/", "/a/./b", "/a/../c", "//d", "/#refs#/", "/\u4e00", "///e/f", "/#refs#/.", "/ "]
BAD["group_for_references"] = ["", "/", "refs", "a/b", "./a", "../a", b"/refs", None, 4, "//", "/.", "/..", "/a/..", ("a",), ["/x"], "#refs#", True, "/a\x00b", "/#refs#\x00"]
GOOD["dict_like_keys_name"] = ["keys", "k", "a/b", "", "\u4e00", "."]
BAD["dict_like_keys_name"] = [b"keys", None, 3, ("k",), ["k"], 1.5, True]
GOOD["dict_like_values_name"] = ["values", "v", "a/b", "", "\u4e00", ".."]
BAD["dict_like_values_name"] = [b"values", None, 3, ("v",), ["v"], 1.5]
GOOD["compress_size_threshold"] = [0, 1, 100, 16 * 1024, 2 ** 63, 10 ** 30]
BAD["compress_size_threshold"] = [-1, -2 ** 40, 1.0, "1", None, b"1", [1], np.float64(3), (2,), 0.0]
GOOD["gzip_compression_level"] = list(range(10))
BAD["gzip_compression_level"] = [-1, 10, 100, -9, 7.0, "7", None, [1], b"5"]
ALL = sorted(GOOD)
assert set(ALL) == set(opts.DEFAULTS)
TABLE = dict(opts.MATLAB)


def normref(v):
    out = []
    for x in v.split("/"):
        if x == "..":
            out and out.pop()
        elif x not in ("", "."):
            out.append(x)
    return "/" + "/".join(out)


def model_set(st, k, v, good):
    """The state after the assignment."""
    if not good:
        return dict(st)
    st = dict(st)
    if k == "group_for_references":
        v = normref(v)
    st[k] = v
    if k == "matlab_compatible":
        if v:
            st.update(TABLE)
    elif k in TABLE and v != TABLE[k]:
        st["matlab_compatible"] = False
    return st


def model_new(kw):
    st = dict(opts.DEFAULTS)
    st["matlab_compatible"] = False
    for k, (v, good) in kw.items():
        if k != "matlab_compatible" and good:
            st[k] = normref(v) if k == "group_for_references" else v
    m = kw.get("matlab_compatible", (True, True))
    if not m[1]:
        return None, st
    st["matlab_compatible"] = m[0]
    if m[0]:
        st.update(TABLE)
    return st, st


def state(o):
    return {k: getattr(o, k) for k in ALL}


def consistent(c, st, what):
    """What must hold whatever happened."""
    for k in ALL:
        v = st[k]
        ok = {True: lambda: isinstance(v, bool)}.get(k in ALLBOOLS)
        if ok:
            c.ok(ok(), "%s is %r after %s" % (k, v, what))
    c.ok(st["action_for_matlab_incompatible"] in ("error", "ignore", "discard"), "invalid action after %s" % what)
    c.ok(st["oned_as"] in ("row", "column"), "invalid oned_as after %s" % what)
    c.ok(st["compression_algorithm"] in ("gzip", "lzf", "szip"), "invalid compression algorithm after %s" % what)
    n = st["complex_names"]
    c.ok(isinstance(n, tuple) and len(n) == 2 and all(isinstance(x, str) for x in n), "complex_names is %r after %s" % (n, what))
    g = st["group_for_references"]
    c.ok(isinstance(g, str) and g[:1] == "/" and g[1:2] not in ("", "/") and normref(g) == g, "group_for_references is %r after %s" % (g, what))
    c.ok(isinstance(st["dict_like_keys_name"], str) and isinstance(st["dict_like_values_name"], str), "dict_like names %r after %s" % (st, what))
    c.ok(isinstance(st["compress_size_threshold"], int) and st["compress_size_threshold"] >= 0, "compress_size_threshold %r after %s" % (st["compress_size_threshold"], what))
    c.ok(isinstance(st["gzip_compression_level"], int) and 0 <= st["gzip_compression_level"] <= 9, "gzip_compression_level %r after %s" % (st["gzip_compression_level"], what))
    if st["matlab_compatible"]:
        for k, v in TABLE.items():
            c.ok(st[k] == v, "matlab_compatible with %s = %r after %s" % (k, st[k], what))


def assign(c, o, st, k, v, good):
    was = st
    try:
        setattr(o, k, v)
    except (TypeError, ValueError) as e:
        c.ok(not good, "setting %s to %r raised %r" % (k, v, e))
    st = model_set(st, k, v, good)
    now = state(o)
    consistent(c, now, "setting %s to %r" % (k, v))
    if now != st:
        d = {x: (st[x], now[x]) for x in ALL if st[x] != now[x]}
        c.bad("after setting %s to %r (%s) options are (expected, found) %r" % (k, v, "valid" if good else "invalid", d), before=was)
    c.ev((tuple(sorted((x, str(y)) for x, y in was.items())), k, repr(v)[:40]))
    return st


def plan(tier):
    k = 12 if tier == "thorough" else 5
    return [("single", len(ALL)), ("pairs", len(ALL)), ("construct", 400 * k), ("walk", 500 * k), ("copies", 120 * k), ("effect", 150 * k)]


def fresh(c, r, k=None, v=None):
    """An Options in a random state, with its model state."""
    m = r.random() < 0.5
    o = hs.Options(matlab_compatible=m)
    st = dict(opts.DEFAULTS, matlab_compatible=m)
    if m:
        st.update(TABLE)
    return o, st


def run(c):
    r = c.r
    kind = c.kind
    if kind == "single":
        k = ALL[c.idx]
        for m in (True, False):
            for k0 in [None] + ALL:
                for v0 in [None] if k0 is None else GOOD[k0]:
                    for good, vals in ((True, GOOD[k]), (False, BAD[k])):
                        for v in vals:
                            o = hs.Options(matlab_compatible=m)
                            st = dict(opts.DEFAULTS, matlab_compatible=m)
                            if m:
                                st.update(TABLE)
                            if k0 is not None:
                                st = assign(c, o, st, k0, v0, True)
                            assign(c, o, st, k, v, good)
        c.count("option " + k)
        c.sample("every value of %s after every valid value of every option" % k)
    elif kind == "pairs":
        # every order of leaving and going back to MATLAB compatibility
        k = ALL[c.idx]
        for k1 in ALL:
            for v, v1 in itertools.product(GOOD[k], GOOD[k1]):
                o = hs.Options()
                st = dict(opts.DEFAULTS, **TABLE)
                st = assign(c, o, st, k, v, True)
                st = assign(c, o, st, k1, v1, True)
                st = assign(c, o, st, "matlab_compatible", True, True)
                st = assign(c, o, st, k, v, True)
                st = assign(c, o, st, "matlab_compatible", False, True)
                st = assign(c, o, st, k1, v1, True)
    elif kind == "construct":
        for _ in range(20):
            kw = {}
            for k in r.sample(ALL, r.choice([0, 1, 2, 3, 8, len(ALL)])):
                good = r.random() < 0.7
                kw[k] = (r.choice(GOOD[k] if good else BAD[k]), good)
            if "compression_algorithm" in kw and kw["compression_algorithm"][0] == "szip":
                pass
            args = {k: v for k, (v, _) in kw.items()}
            if r.random() < 0.3:
                args["an_option_of_the_future"] = r.choice([1, None, "x"])
            what = "Options(%r)" % (args,)
            try:
                o = hs.Options(**args)
            except (TypeError, ValueError) as e:
                c.ok(any(not g for _, g in kw.values()), "%s raised %r" % (what, e))
                c.ev(("rejected", tuple(sorted(kw))))
                continue
            now = state(o)
            consistent(c, now, what)
            want, st = model_new(kw)
            if want is None:
                # only matlab_compatible itself is undecided
                want = dict(st, matlab_compatible=now["matlab_compatible"])
                if now["matlab_compatible"]:
                    continue
            if now != want:
                d = {x: (want[x], now[x]) for x in ALL if want[x] != now[x]}
                c.bad("%s has (expected, found) %r" % (what, d))
            c.ok(o.marshaller_collection is hs.get_default_marshaller_collection(), "%s does not use the default marshallers" % what)
            c.ev(("new", repr(sorted(args.items(), key=str))[:300]))
    elif kind == "walk":
        o, st = fresh(c, r)
        n = r.choice([10, 40, 100])
        tail = []
        mc = o.marshaller_collection
        for _ in range(n):
            if r.random() < 0.12:
                k = "matlab_compatible"
            else:
                k = r.choice(ALL)
            good = r.random() < 0.75
            v = r.choice(GOOD[k] if good else BAD[k])
            if good and r.random() < 0.1 and isinstance(v, str) and k not in ("group_for_references",):
                v = S(v)
            if good and r.random() < 0.1 and type(v) is int:
                v = I(v)
            tail = (tail + ["%s = %r" % (k, v)])[-10:]
            c.note(tail[-1])
            st = assign(c, o, st, k, v, good)
            if r.random() < 0.05:
                new = r.choice([hs.MarshallerCollection(), None, 5, "x", hs.get_default_marshaller_collection()])
                try:
                    o.marshaller_collection = new
                except (TypeError, ValueError):
                    pass
                if isinstance(new, hs.MarshallerCollection):
                    mc = new
                c.ok(o.marshaller_collection is mc, "marshaller_collection is wrong after setting it to %r" % (new,))
                c.ok(state(o) == st, "setting marshaller_collection changed other options")
        c.sample("... " + "; ".join(tail))
    elif kind == "copies":
        o, st = fresh(c, r)
        objs = [(o, st)]
        fn = c.path()
        for _ in range(30):
            i = r.randrange(len(objs))
            o, st = objs[i]
            q = r.random()
            if q < 0.6:
                k = r.choice(ALL)
                good = r.random() < 0.8
                objs[i] = (o, assign(c, o, st, k, r.choice(GOOD[k] if good else BAD[k]), good))
            elif q < 0.7:
                objs.append((copy.copy(o), st))
            elif q < 0.8:
                objs.append((hs.Options(**state(o)), st))
            elif q < 0.9:
                objs.append((copy.deepcopy(o), st))
            else:
                # using them does not change them
                with hs.File(fn, writable=True, options=o) as f:
                    try:
                        f["x"] = r.choice([1, [1, "a"], {"a": 1}, np.zeros(3), (1, "\u4e00")])
                        f["x"]
                    except ValueError:
                        pass
            for j, (x, s) in enumerate(objs):
                now = state(x)
                c.ok(now == s, "an Options changed although another one (or its use) was changed", difference={y: (s[y], now[y]) for y in ALL if s[y] != now[y]})
            c.ev(("copies", len(objs), int(q * 10)), n=len(objs))
    else:
        effect(c)


def content(fn, refs):
    return raw.canon(raw.tree(fn), skip=tuple(x for x in [refs.strip("/").split("/")[0]]))


def effect(c):
    """A File has its own copy: changes after opening have no effect, and the
    same state reached in different ways does the same."""
    r = c.r
    kw = opts.gen(r)
    o = hs.Options(**kw)
    st = state(o)
    # the same state by single assignments in random order
    o2 = hs.Options(matlab_compatible=r.random() < 0.5)
    ks = [k for k in ALL if k != "matlab_compatible"]
    r.shuffle(ks)
    o2.matlab_compatible = False
    for k in ks:
        if r.random() < 0.3:
            setattr(o2, k, r.choice(GOOD[k]))
        setattr(o2, k, st[k])
    o2.matlab_compatible = st["matlab_compatible"]
    for k in r.sample(ks, len(ks)):
        setattr(o2, k, st[k])
    now = state(o2)
    c.ok(now == st, "the same values reached by single assignments give other options", difference={y: (st[y], now[y]) for y in ALL if st[y] != now[y]})
    g = gen.Gen(r, matlab=kw["matlab_compatible"], maxdepth=2, ustruct=opts.effective(kw)["structured_numpy_ndarray_as_struct"], deny=("void",))
    vals = [("v%d" % i, g.value()) for i in range(3)]
    fa, fb = c.path("a.h5"), c.path("b.h5")
    if st["group_for_references"].strip("/").split("/")[0] in ("v0", "v1", "v2"):
        return
    with hs.File(fa, writable=True, options=o) as f:
        for n, v in vals:
            f[n] = v
    with hs.File(fb, writable=True, options=o2) as f:
        for n, v in vals:
            for _ in range(3):
                k = r.choice(ALL)
                setattr(o2, k, r.choice(GOOD[k]))
            f[n] = v
        c.ok({k: getattr(f.options, k) for k in ALL} == st if hasattr(f, "options") else True, "changing the Options given changed those of the File")
    x = raw.diff(content(fa, st["group_for_references"]), content(fb, st["group_for_references"]))
    c.ok(x is None, "changing the Options after opening the File has an effect: %s" % x, options=kw)
    # and so it is for reading, however the File was opened
    o3 = hs.Options(**st)
    w = r.random() < 0.4

    def look(f):
        out = [sorted(f), len(f), st["group_for_references"] in f]
        for n in f:
            try:
                out.append(f[n])
            except Exception as e:
                out.append(type(e).__name__)
        return out
    with hs.File(fa, writable=False, options=hs.Options(**st)) as f:
        want = look(f)
    with hs.File(fa, writable=w, options=o3) as f:
        for k in r.sample(ALL, r.choice([1, 3, len(ALL)])) + r.choice([[], ["group_for_references", "structs_as_dicts", "complex_names"], ["reverse_dimension_order"]]):
            setattr(o3, k, r.choice(GOOD[k]))
            if r.random() < 0.2:
                o3.marshaller_collection = hs.MarshallerCollection()
        o3.group_for_references = r.choice(["/v0", st["group_for_references"], "/other"])
        d = same.same(want, look(f))
        c.ok(d is None, "changing the Options after opening the File for %s has an effect on what is read: %s" % ("writing" if w else "reading", d), options=kw)
    c.ev(("effect", opts.sig(kw)), n=3)
