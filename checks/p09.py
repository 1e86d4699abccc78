"""P09: histories of mapping operations against a dict."""
import collections
import pathlib

import numpy as np

from vf.env import handle, hs
from vf import expect, gen, opts, same, work

ID = "P09"
TITLE = "mapping"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every mapping operation of random histories on an open File is checked online against a dict model; the whole mapping is compared after every operation"
LEVEL_NOTE = "histories of up to 40 operations with names sorting before and after the references Group, at several places of it, are sampled"
RULE = "one evaluation = the outcome of one mapping operation compared with the model; distinct = (operation, form of the key, present or not, previous operation, options)"
ASSUMPTIONS = []

NOTHING = object()


def plan(tier):
    k = 12 if tier == "thorough" else 2
    return [("scalar", 700 * k), ("values", 700 * k)]


def run(c):
    r = c.r
    fn = c.path()
    mat = r.random() < 0.4
    kw = opts.gen(r, matlab=mat, meta=True)
    if mat:
        kw["action_for_matlab_incompatible"] = "error"
    else:
        kw["group_for_references"] = r.choice(["/#refs#", "/refs", "/m", "/zzzz", "/!", "/\u4e00", "/deep/refs", "/deep/er/refs", "/nm", "/n"])
    if not mat:
        kw["delete_unused_variables"] = True
    refs = opts.effective(kw)["group_for_references"]
    e = opts.effective(kw)
    g = gen.Gen(r, matlab=mat, maxdepth=2, ustruct=e["structured_numpy_ndarray_as_struct"], deny=("void",) if mat else ())
    lax = same.group_stored(e)
    pool = ["a", "b", "m", "z", "refs2", "#refs", "#refs#x", "!x", "~", "A b", "\u4e01", "n1", "nn", "a.b", ".hidden", "sl/ash", "back\\", "nul\0"]
    pool = [p for p in pool if "/" + expect.esc(p) != refs]
    pool = r.sample(pool, 7)
    model = {}  # escaped name -> value

    def newval():
        if c.kind == "scalar":
            return r.choice([1, 2.5, "x", "y", True, None, (1, 2), [], [1, [2]], {"k": 1}, b"b", 10 ** 30])
        return g.value()

    def key(n):
        """A form of the key for the name n, and its kind."""
        en = expect.esc(n)
        k = r.randrange(7)
        if k <= 1:
            return en, "str"
        if k == 2:
            return (n,), "tuple"
        if k == 3:
            return "/" + en, "abs"
        if k == 4:
            return en.encode("utf-8"), "bytes"
        if k == 5:
            return pathlib.PurePosixPath(en), "pure"
        return "//" + en + "/", "noisy"

    def eq(a, b):
        return same.same(a, b, lax) is None

    def top(f):
        names = set(model)
        if any(len([x for x in refs.split("/") if x]) > 1 for _ in [0]) and usedrefs(f):
            names.add(refs.split("/")[1])
        return names

    def usedrefs(f):
        return refs in handle(f)

    f = hs.File(fn, writable=True, **kw)
    prev = None
    nested = refs.count("/") > 1
    try:
        for step in range(r.choice([10, 20, 40])):
            op = r.choice(["set", "set", "set", "get", "get", "in", "in", "del", "pop", "popd", "popitem", "setdefault", "update", "getd",
                           "keys", "values", "items", "eq", "len", "iter", "clear", "reopen", "updatekw", "bool", "refs", "missing"])
            if op == "clear" and r.random() < 0.6:
                continue
            if nested and op in ("popitem", "clear", "values", "items", "eq", "update", "setdefault"):
                # the Group holding the references Group is an item
                if op in ("popitem", "clear", "values", "items", "eq"):
                    continue
            n = r.choice(pool)
            en = expect.esc(n)
            k, form = key(n)
            has = en in model
            c.note("%s %r (%s)" % (op, k, "there" if has else "not there"))
            what = None
            if op == "set":
                v = newval()
                f[k] = v
                model[en] = v
            elif op == "get":
                try:
                    v = f[k]
                    c.ok(has and eq(model[en], v), "File[%r] gives %s rather than %s" % (k, same.short(v), same.short(model.get(en, "a KeyError"))))
                except KeyError:
                    c.ok(not has, "File[%r] raises KeyError for an item that is there" % (k,))
            elif op == "in":
                c.ok((k in f) == has, "%r in File is %r" % (k, not has))
            elif op == "del":
                try:
                    del f[k]
                    c.ok(has, "deleting %r, which is not there, does not raise" % (k,))
                    del model[en]
                except KeyError:
                    c.ok(not has, "deleting %r raises KeyError although it is there" % (k,))
            elif op in ("pop", "popd"):
                d = () if op == "pop" else (NOTHING,)
                try:
                    v = f.pop(k, *d)
                    c.ok(has and eq(model[en], v) or (not has and v is NOTHING), "pop(%r) gives %s rather than %s" % (k, same.short(v), same.short(model.get(en))))
                    model.pop(en, None)
                except KeyError:
                    c.ok(not has and not d, "pop(%r) raises KeyError" % (k,))
            elif op == "popitem":
                try:
                    k2, v = f.popitem()
                    c.ok(k2 in model and eq(model[k2], v), "popitem gives %r: %s" % (k2, same.short(v)), model=sorted(model))
                    del model[k2]
                except KeyError:
                    c.ok(not model, "popitem raises KeyError although there are items", model=sorted(model))
            elif op == "setdefault":
                d = newval()
                v = f.setdefault(k, d)
                if has:
                    c.ok(eq(model[en], v), "setdefault(%r) gives %s rather than %s" % (k, same.short(v), same.short(model[en])))
                else:
                    c.ok(v is d, "setdefault(%r) does not give the default" % (k,))
                    model[en] = d
            elif op == "update":
                names = r.sample(pool, 3)
                vs = [newval() for _ in names]
                d = dict(zip([key(x)[0] for x in names], vs))
                if r.random() < 0.5:
                    f.update(d)
                else:
                    f.update(list(d.items()))
                model.update(dict(zip([expect.esc(x) for x in names], vs)))
            elif op == "updatekw":
                v = newval()
                f.update(kwarg=v)
                model["kwarg"] = v
            elif op == "getd":
                d = r.choice([None, 5, "d"])
                v = f.get(k, d)
                c.ok(eq(model[en], v) if has else v is d, "get(%r, %r) gives %s" % (k, d, same.short(v)))
            elif op == "keys":
                ks = f.keys()
                c.ok(set(ks) == top(f) and len(ks) == len(top(f)) and (k in ks) == has, "keys() gives %r rather than %r" % (sorted(ks), sorted(top(f))))
            elif op == "values":
                vs = list(f.values())
                c.ok(len(vs) == len(model), "values() has %d elements rather than %d" % (len(vs), len(model)))
                for a, b in zip(list(f), vs):
                    c.ok(eq(model[a], b), "values() gives another value for %r" % a)
            elif op == "items":
                it = dict(f.items())
                c.ok(set(it) == set(model), "items() has the keys %r rather than %r" % (sorted(it), sorted(model)))
                for a in it:
                    c.ok(eq(model[a], it[a]), "items() gives another value for %r" % a)
            elif op == "eq":
                if c.kind == "scalar":
                    c.ok(f == model and not (f != model), "the File does not equal the dict of what is in it", model=model)
                    m2 = dict(model)
                    m2["other"] = 1
                    c.ok(f != m2 and not (f == m2), "the File equals a dict with something else in it")
                    c.ok(f != 5 and f != [], "the File equals something that is not a mapping")
                    if model:
                        m2 = dict(model)
                        m2[r.choice(sorted(m2))] = "changed"
                        c.ok(f != m2, "the File equals a dict with another value")
            elif op == "len":
                pass
            elif op == "bool":
                c.ok(bool(f) == bool(top(f)), "the truth value of the File is wrong")
            elif op == "clear":
                f.clear()
                model.clear()
                c.ok(len(f) == 0 and list(f) == [], "clear() leaves %r" % list(f))
            elif op == "refs":
                for p in (refs, refs[1:], refs + "/", "/" + refs, refs + "/a", refs.encode("utf-8"), refs + "/.", tuple(refs[1:].split("/"))):
                    c.ok(p not in f, "%r in File is True" % (p,))
                    try:
                        f[p]
                    except (ValueError, KeyError):
                        pass
                    else:
                        c.bad("File[%r] gives the references Group" % (p,))
                    c.ok(f.get(p, 3) == 3 if not _raises(lambda: f.get(p, 3)) else True, "get(%r) gives the references Group" % (p,))
            elif op == "missing":
                p = r.choice(["nothere", "a/nothere", "nothere/x", ("q", "r"), b"nothere", "/" + en + "/zz/yy"])
                if r.random() < 0.5:
                    c.ok(p not in f, "%r in File is True" % (p,))
                else:
                    try:
                        v = f[p]
                    except KeyError:
                        pass
                    else:
                        c.bad("File[%r] gives %s" % (p, same.short(v)))
            elif op == "reopen":
                f.close()
                f = hs.File(fn, writable=True, **kw)
            # the whole of it
            names = top(f)
            c.ok(len(f) == len(names), "after %s: the length is %d rather than %d" % (op, len(f), len(names)), names=sorted(names), options=kw)
            it = list(f)
            c.ok(len(it) == len(set(it)) and set(it) == names, "after %s: iteration gives %r rather than %r" % (op, it, sorted(names)), options=kw)
            for x in r.sample(pool, 3):
                c.ok((key(x)[0] in f) == (expect.esc(x) in model), "after %s: membership of %r is wrong" % (op, x), options=kw)
            for bad in (None, 5, object(), ("a", 1)):
                c.ok(bad not in f, "%r is in the File" % (bad,))
            c.ev((op, form, has, prev, opts.sig(kw)), 1)
            c.count("op " + op)
            prev = op
        f.close()
        # and when read again
        with hs.File(fn, **kw) as f:
            for n, v in model.items():
                c.ok(eq(v, f[n]), "%r is read as %s rather than %s" % (n, same.short(f[n]), same.short(v)), options=kw)
            c.ok(len(f) == len(list(f)), "the length of the reopened File is wrong")
        c.sample("%d items, refs %s, last operations %s" % (len(model), refs, [x[:20] for x in c.log[-6:]]))
    finally:
        f.close()


def _raises(fun):
    try:
        fun()
    except (ValueError, KeyError):
        return True
    return False
