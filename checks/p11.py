"""P11: escaping of names and the forms of paths."""
import pathlib
import re

import h5py
import numpy as np

from vf.env import hs
from vf import expect, gen, raw
from hdf5storage import pathesc

ID = "P11"
TITLE = "paths"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: results of the escaping functions against a reference implementation and online collision detection over all names seen; objects reached through every form of a path are compared by their raw place in real files"
LEVEL_NOTE = "all strings up to length 6 (quick: 5) over the characters that matter are enumerated, longer ones and path forms are sampled"
RULE = "one evaluation = one name escaped and unescaped, or one path form resolved to an object of a file; distinct = name or (form, sequence of names)"
ASSUMPTIONS = ["h5py reports the names of objects"]

CHARS = "\\/.xuU4\0a"
ALLC = None


def plan(tier):
    k = 12 if tier == "thorough" else 5
    return [("enum", len(CHARS)), ("codes", 17), ("rand", 150 * k), ("forms", 700 * k), ("files", 350 * k), ("types", 150), ("unesc", 150 * k)]


BADESC = re.compile(r"\\(\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})?")


def refunescape(s):
    """Left to right; None if there is an invalid escape."""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        m = BADESC.match(s, i)
        if not m.group(1):
            return None
        if m.group(1) == "\\":
            out.append("\\")
        else:
            n = int(m.group(1)[1:], 16)
            if n > 0x10FFFF:
                return None
            out.append(chr(n))
        i = m.end()
    return "".join(out)


def one(c, s, seen):
    e = pathesc.escape_path(s)
    c.ok(type(e) is str, "escape_path gives a %s" % type(e).__name__, name=repr(s))
    c.ok("/" not in e and "\0" not in e and e[:1] != ".", "the escaped name %r can be mistaken for a path" % e, name=repr(s))
    b = pathesc.unescape_path(e)
    c.ok(b == s, "unescaping %r gives %r rather than %r" % (e, b, s))
    c.ok(e == expect.esc(s), "%r is escaped as %r rather than as %r" % (s, e, expect.esc(s)))
    o = seen.setdefault(e, s)
    c.ok(o == s, "%r and %r are both escaped as %r" % (o, s, e))
    try:
        y = s.encode("utf-8")
    except UnicodeEncodeError:
        return
    c.ok(pathesc.escape_path(y) == e, "the UTF-8 bytes of %r are escaped otherwise" % s)
    c.ok(pathesc.unescape_path(e.encode("utf-8")) == s, "unescaping the UTF-8 bytes of %r gives something else" % e)


def forms(r, names):
    """Ways to say the sequence of names."""
    E = [expect.esc(n) for n in names]
    out = [("tuple", tuple(names)), ("list", list(names)), ("str", "/" + "/".join(E)), ("relative", "/".join(E)),
           ("bytes", ("/" + "/".join(E)).encode("utf-8")), ("relative bytes", "/".join(E).encode("utf-8")),
           ("trailing", "/".join(E) + "/"), ("pure", pathlib.PurePosixPath("/" + "/".join(E))),
           ("relative pure", pathlib.PurePosixPath("/".join(E))),
           ("byte parts", tuple(n.encode("utf-8") for n in names)),
           ("mixed parts", [n.encode("utf-8") if r.random() < 0.5 else n for n in names])]
    # with noise that does not mean anything
    s = r.choice(["", "/", "//", "///"])
    for i, n in enumerate(E):
        for _ in range(r.choice([0, 0, 1, 2])):
            s += r.choice(["./", "zz/../", ".//", "q/w/../../"])
        s += n
        s += r.choice(["/", "//", "/./"]) if i < len(E) - 1 else r.choice(["", "/", "/.", "/x/.."])
    out.append(("noisy", s))
    out.append(("noisy bytes", s.encode("utf-8")))
    if all(str(pathlib.PurePosixPath(n)) == n for n in names):
        out.append(("pure parts", tuple(pathlib.PurePosixPath(n) for n in names)))
    if any("\x00" in n for n in names) and all("\\" not in n for n in names):
        # the null itself cannot be in the name in the file
        out.append(("null", "/" + "/".join(E).replace("\\x00", "\x00")))
    if all("\\" not in e and ":" not in e for e in E):
        out.append(("windows", pathlib.PureWindowsPath("C:\\" + "\\".join(E))))
        out.append(("windows root", pathlib.PureWindowsPath("\\" + "\\".join(E))))
    return out


def place(p):
    g, t = pathesc.process_path(p)
    return [x for x in (g + "/" + t).split("/") if x not in ("", ".")]


def run(c):
    r = c.r
    k = c.kind
    if k == "enum":
        # all short strings which start with one of the characters
        seen = {}
        n = 0
        level = [CHARS[c.idx]]
        one(c, "", seen)
        for ln in range(1, 7 if c.tier == "thorough" else 6):
            for s in level:
                one(c, s, seen)
                n += 1
            level = [s + x for s in level for x in CHARS]
        c.ev(("enum", c.idx), n)
        c.sigs.update(range(c.idx << 40, (c.idx << 40) + n))
        c.count("short names", n)
    elif k == "codes":
        # every code point of a plane
        seen = {}
        for i in range(c.idx << 16, (c.idx + 1) << 16):
            ch = chr(i)
            one(c, ch, seen)
            if i % 64 == 0:
                one(c, "." + ch + "\\" + ch + "/", seen)
        c.ev(("codes", c.idx), 1 << 16)
        c.sigs.update(range((1 << 60) + (c.idx << 16), (1 << 60) + ((c.idx + 1) << 16)))
        c.count("code points", 1 << 16)
    elif k == "rand":
        seen = {}
        for _ in range(300):
            s = gen.name(r) if r.random() < 0.5 else "".join(r.choice(gen.PATHY) for _ in range(r.randrange(1, 40)))
            if r.random() < 0.1:
                s += chr(r.randrange(0xD800, 0xE000))
            one(c, s, seen)
            # escaping what looks escaped
            one(c, pathesc.escape_path(s), seen)
            c.ev(s, 2)
    elif k == "unesc":
        for _ in range(300):
            s = "".join(r.choice(["\\", "\\\\", "\\x5c", "\\x41", "\\u004e", "\\U0001f600", "\\x", "\\u12", "\\U00110000", "\\Uffffffff", "a", "4", "/", ".", "\\q", "x41", "\u4e00", "\\x2F"]) for _ in range(r.randrange(1, 6)))
            want = refunescape(s)
            try:
                got = pathesc.unescape_path(s if r.random() < 0.7 else s.encode())
            except ValueError:
                got = None
            c.ok(got == want, "%r is unescaped as %r rather than %r" % (s, got, want))
            c.ev(s)
        for x in (None, 1, 1.5, [], ("a",), bytearray(b"a"), pathlib.PurePosixPath("a"), object()):
            for fun in (pathesc.escape_path, pathesc.unescape_path):
                try:
                    fun(x)
                except TypeError:
                    c.ev(type(x).__name__)
                else:
                    c.bad("%s accepts a %s" % (fun.__name__, type(x).__name__))
    elif k == "forms":
        names = [gen.name(r) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        E = [expect.esc(n) for n in names]
        for what, p in forms(r, names):
            got = place(p)
            c.ok(got == E, "the form %r of the names %r leads to %r" % (what, names, got), path=repr(p))
            c.ev((what, tuple(names)))
        for p in ("/", "", ".", "//", "/.", "./", "a/..", b"/", pathlib.PurePosixPath("/"), pathlib.PurePosixPath("."), pathlib.PureWindowsPath("\\"), "/../.."):
            c.ok(place(p) == [], "%r does not lead to the root but to %r" % (p, place(p)))
            c.ev(repr(p))
        c.sample(repr(names))
    elif k == "files":
        run_files(c)
    else:
        run_types(c)


def run_files(c):
    """Every object is where its names say, and nowhere else, whichever form
    is used to write and to read it."""
    r = c.r
    fn = c.path()
    kw = dict(matlab_compatible=r.random() < 0.3)
    base = [gen.name(r) for _ in range(3)]
    seqs = {}
    pool = base + ["a", "a/b", "b", "..", ".", "a\\x2fb", "x\0", "x", "\\x2e", "a\\", "\\", ".a", "\\x2ea"]
    for i in range(r.choice([2, 4, 8])):
        s = tuple(r.choice(pool) for _ in range(r.choice([1, 1, 2, 3])))
        # no object within another one
        if any(s[:len(o)] == o or o[:len(s)] == s for o in seqs) or s[0].startswith("#refs"):
            continue
        seqs[s] = i
    ar = r.random() < 0.3
    with hs.File(fn, writable=True, **kw) as f:
        for s, i in seqs.items():
            what, p = r.choice(forms(r, s))
            c.note("%s %r" % (what, p))
            how = r.randrange(3)
            if how == 0 and not isinstance(p, list):
                f.writes({p: [i] if ar else float(i)})
            elif how == 1:
                f[p] = [i] if ar else float(i)
            else:
                f.write([i] if ar else float(i), p)
    t = raw.tree(fn)
    found = set()

    def leaves(n, path):
        for k, x in n.items.items():
            if path == () and k == "#refs#":
                continue
            if x.kind == "G":
                leaves(x, path + (k,))
            else:
                found.add(path + (k,))
    leaves(t, ())
    want = {tuple(expect.esc(x) for x in s) for s in seqs}
    c.ok(found == want, "the objects in the file are not the ones written: extra %r, missing %r" % (sorted(found - want), sorted(want - found)), names=list(seqs))
    with hs.File(fn, writable=True, **kw) as f:
        for s, i in seqs.items():
            fs = forms(r, s)
            r.shuffle(fs)
            for what, p in fs[:5]:
                v = f[p] if r.random() < 0.5 else f.reads([p])[0]
                c.ok(v == ([i] if ar else i), "another object is read through the form %r of %r" % (what, s), path=repr(p), got=v)
                c.ok(p in f, "the form %r of %r is not in the File" % (what, s), path=repr(p))
                c.ev((what, s))
            c.count("objects")
        top = {expect.esc(s[0]) for s in seqs}
        it = list(f)
        c.ok(sorted(it) == sorted(top), "iteration gives %r rather than %r" % (sorted(it), sorted(top)))
        # names as they come from the iteration are paths
        for n in it:
            c.ok(n in f, "%r from the iteration is not in the File" % n)
            c.ok(tuple([pathesc.unescape_path(n)]) in f, "the name %r is not in the File" % n)
        if seqs:
            s = r.choice(sorted(seqs))
            what, p = r.choice(forms(r, s))
            del f[p]
            c.ok(p not in f and all((o in f) == (o != s) for o in seqs), "deletion through the form %r of %r deletes something else" % (what, s), path=repr(p))
    c.sample(repr(list(seqs)))


def run_types(c):
    r = c.r
    fn = c.path()
    hs.write(1.0, path="/a", filename=fn, matlab_compatible=False)
    before = raw.digest(fn)
    bad = r.choice([None, 1, 2.5, True, object(), {"a"}, {"a": 1}, frozenset(["a"]), (1,), ("a", None), ["a", 3.0], ("a", ("b",)), range(3), bytearray(b"a"),
                    np.array(["a"]), np.float64(3), iter(["a"]), (x for x in "a"), Ellipsis, slice(1), type, lambda: 0, ("a", bytearray(b"b")), memoryview(b"a")])

    def hashable(x):
        try:
            hash(x)
            return True
        except TypeError:
            return False
    calls = [("read", lambda: hs.read(bad, filename=fn)), ("reads", lambda: hs.reads([bad], filename=fn)), ("reads second", lambda: hs.reads(["/a", bad], filename=fn)),
             ("write", lambda: hs.write(1, path=bad, filename=fn, matlab_compatible=False))]
    if hashable(bad):
        calls.append(("writes", lambda: hs.writes({"/new": 1, bad: 2}, filename=fn, matlab_compatible=False)))

    def with_file(fun, w=True):
        def do():
            with hs.File(fn, writable=w, matlab_compatible=False) as f:
                fun(f)
        return do

    def dele(f):
        del f[bad]

    def seti(f):
        f[bad] = 1
    calls += [("File.read", with_file(lambda f: f.read(bad), False)), ("getitem", with_file(lambda f: f[bad])), ("setitem", with_file(seti)),
              ("delitem", with_file(dele)), ("File.write", with_file(lambda f: f.write(1, bad))), ("process_path", lambda: pathesc.process_path(bad))]
    for n, call in calls:
        try:
            call()
        except TypeError:
            c.ev((n, repr(type(bad)), repr(bad)[:20]))
        else:
            c.bad("%s accepts %r as a path" % (n, bad))
    with hs.File(fn, matlab_compatible=False) as f:
        c.ok(bad not in f, "%r is in the File" % (bad,))
    c.ok(raw.digest(fn) == before, "a call with an invalid path changed the file", path=repr(bad))
