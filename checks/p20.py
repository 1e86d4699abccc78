"""P20: string, complex and dtype conversions are exact and reversible."""
import ast
import warnings

import numpy as np

from vf.env import hs
from vf import gen, snap

import hdf5storage.utilities as U

ID = "P20"
TITLE = "conversions"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring (reference oracle): every call of the conversion functions is compared with an element by element reference made of Python's own codecs and struct, then converted back, with the arguments snapshotted"
LEVEL_NOTE = "texts, shapes, lengths, memory layouts, byte orders, field names and dtypes are sampled"
RULE = "one evaluation = one result compared with the reference, one round trip, or one rejected argument; distinct = (function, type, dtype, shape, layout, kind of characters)"
ASSUMPTIONS = ["the codecs of Python and its struct module are right"]


def plan(tier):
    k = 24 if tier == "thorough" else 4
    return [("str", 3500 * k), ("arr", 5000 * k), ("uint", 3000 * k), ("bad", 1500 * k),
            ("cplx", 2500 * k), ("dec", 2500 * k), ("dtype", 2500 * k)]


def run(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c.kind](c)


ALPH = ["abcXYZ019 _", "\x00", "\x01\x7f", "\xe9\xdf\x80\xff", "\u0100\u0394\u0416\u07ff\u0800", "\u4e2d\u6587\u3042",
        "\ufeff", "\ufffe\uffff", "\ud7ff\ue000", "\u0300\u200d", "\U0001f600\U00010000", "\U0010ffff\U000e0001", "\u0a00\u1200\U00020000"]


def text(r, n=None, allow=None):
    """Any text; allow filters the characters."""
    n = r.choice([0, 1, 1, 2, 3, 4, 7, 12]) if n is None else n
    k = r.choice([1, 1, 2, len(ALPH)])
    sets = r.sample(ALPH, k)
    s = "".join(r.choice(r.choice(sets)) for _ in range(n))
    if allow:
        s = "".join(x for x in s if allow(x))
    return s


def cls(s):
    m = max([ord(x) for x in s], default=-1)
    return (m > 0x7f) + (m > 0x7ff) + (m > 0xffff) + 4 * ("\x00" in s) + 8 * ("\ufeff" in s)


def same(c, what, got, want, **d):
    c.ok(type(got) is type(want), "%s: type %s instead of %s" % (what, type(got), type(want)), got=repr(got), want=repr(want), **d)
    if isinstance(want, (np.ndarray, np.generic)):
        c.ok(got.dtype.newbyteorder("=") == want.dtype.newbyteorder("=") and got.shape == want.shape, "%s: %s %s instead of %s %s" % (what, got.dtype, got.shape, want.dtype, want.shape),
             got=repr(got), want=repr(want), **d)
        if want.dtype.kind in "US":
            c.ok(got.tolist() == want.tolist(), what + ": other strings", got=repr(got), want=repr(want), **d)
        else:
            c.ok(np.asarray(got, got.dtype.newbyteorder("=")).tobytes() == np.asarray(want, want.dtype.newbyteorder("=")).tobytes(), what + ": other values", got=repr(got), want=repr(want), **d)
    else:
        c.ok(got == want, what + ": other value", got=repr(got), want=repr(want), **d)


def call(c, what, fn, *a, **k):
    before = [snap.snap(x) for x in a]
    res = fn(*a, **k)
    for b, x in zip(before, a):
        q = snap.differs(b, snap.snap(x))
        c.ok(q is None, "%s changed its argument: %s" % (what, q), arg=repr(x))
    return res


def layout(r, a):
    """The same array in another layout."""
    k = r.randrange(6)
    if k == 0 and a.ndim:
        return np.asfortranarray(a)
    if k == 1 and a.ndim:
        b = np.zeros(tuple(2 * x for x in a.shape), a.dtype)
        w = b[tuple(slice(None, None, 2) for _ in a.shape)]
        w[...] = a
        return w
    if k == 2 and a.ndim > 1:
        return np.ascontiguousarray(a.T).T
    if k == 3:
        a = a.copy()
        a.setflags(write=False)
        return a
    if k == 4 and a.ndim:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def words(s, bits):
    """The UTF-8/16/32 words of s as ints."""
    if bits == 8:
        return list(s.encode("utf-8"))
    if bits == 32:
        return [ord(x) for x in s]
    out = []
    for x in s:
        o = ord(x)
        if o > 0xffff:
            o -= 0x10000
            out += [0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)]
        else:
            out.append(o)
    return out


def uarr(s, bits, order="="):
    return np.array(words(s, bits), dtype=np.dtype("u%d" % (bits // 8)).newbyteorder(order))


def forms(r, s):
    """(name, object) forms of the text s."""
    out = [("str", s), ("bytes", s.encode("utf-8")), ("bytearray", bytearray(s.encode("utf-8")))]
    if not s.endswith("\x00"):
        out += [("np.str_", np.str_(s)), ("np.bytes_", np.bytes_(s.encode("utf-8")))]
        o = r.choice("<>")
        out.append(("U0d", np.array(s, dtype=np.dtype("U%d" % max(1, len(s))).newbyteorder(o))))
        b = s.encode("utf-8")
        out.append(("S0d", np.array(b, dtype="S%d" % max(1, len(b)))))
        if s:
            out.append(("U1", np.array([s], dtype=np.dtype("U%d" % len(s)).newbyteorder(o))))
            out.append(("S1", np.array([b])))
    for bits in (8, 16, 32):
        for o in "<>" if bits > 8 else "|":
            a = uarr(s, bits, o)
            out.append(("u%d%s" % (bits, o), layout(r, a)))
            if a.size and r.random() < 0.3:
                f = [x for x in range(1, a.size + 1) if a.size % x == 0]
                q = r.choice(f)
                out.append(("u%d%s2d" % (bits, o), layout(r, a.reshape((q, -1)))))
        if len(words(s, bits)) == 1:
            out.append(("u%dscalar" % bits, uarr(s, bits)[0]))
            out.append(("u%d0d" % bits, uarr(s, bits, r.choice("<>"))[0:1].reshape(())))
    return out


def do_str(c):
    r = c.r
    s = text(r)
    st = s.rstrip("\x00")  # what a Numpy string keeps
    for name, x in forms(r, s):
        want = s
        if name in ("U0d", "S0d") and s == "":
            want = "\x00"  # the whole width counts
        got = call(c, "convert_to_str", U.convert_to_str, x)
        same(c, "convert_to_str(%s)" % name, got, want, arg=repr(x))
        c.ev(("str", name, len(s), cls(s)))
        if "2d" in name or name in ("U1", "S1", "U0d", "S0d") or (isinstance(x, np.ndarray) and name.startswith("u") and name.endswith("0d")):
            if name.startswith("u") and name.endswith("0d"):
                for fn, tp, t in ((U.convert_to_numpy_str, np.str_, st), (U.convert_to_numpy_bytes, np.bytes_, st.encode("utf-8"))):
                    if len(words(s, 8)) == 1 or "8" not in name:
                        got = call(c, fn.__name__, fn, x)
                        c.ok(type(got) is tp and got.rstrip(t[:0] + (b"\0" if tp is np.bytes_ else "\0")) == t, "%s of a 0d array" % fn.__name__, arg=repr(x), got=repr(got))
            continue  # arrays, see below
        want = np.str_(st)
        if isinstance(x, np.ndarray):
            want = np.array([s] if x.size else [], dtype="U%d" % max(1, x.size))
        got = call(c, "convert_to_numpy_str", U.convert_to_numpy_str, x)
        if s != st and isinstance(want, np.str_):
            # trailing nulls are not kept by Numpy
            c.ok(isinstance(got, np.str_) and str(got).rstrip("\x00") == st, "convert_to_numpy_str(%s)" % name, arg=repr(x), got=repr(got))
        else:
            same(c, "convert_to_numpy_str(%s)" % name, got, want, arg=repr(x))
        b = s.encode("utf-8")
        want = np.bytes_(b)
        if isinstance(x, np.ndarray):
            want = np.array([b] if x.size else [], dtype="S%d" % max(1, x.size, len(b) if x.size else 0))
        got = call(c, "convert_to_numpy_bytes", U.convert_to_numpy_bytes, x)
        if isinstance(want, np.bytes_) and s != st:
            # trailing nulls are not kept by Numpy
            c.ok(isinstance(got, np.bytes_), "convert_to_numpy_bytes(%s): type %s" % (name, type(got)))
            c.ok(bytes(got).rstrip(b"\x00") == b.rstrip(b"\x00"), "convert_to_numpy_bytes(%s): other value" % name, got=repr(got), want=repr(want))
        else:
            same(c, "convert_to_numpy_bytes(%s)" % name, got, want, arg=repr(x))
        c.ev(n=2)
    # The Numpy string's own words.
    if st == s:
        x = r.choice([np.str_(s), np.array(s, dtype=np.dtype("U%d" % max(1, len(s))).newbyteorder(r.choice("<>")))])
        for bits, fn in ((16, U.convert_numpy_str_to_uint16), (32, U.convert_numpy_str_to_uint32)):
            got = call(c, fn.__name__, fn, x)
            want = uarr(s, bits)
            if s == "" and x.dtype.itemsize:
                want = np.zeros((1,), "u%d" % (bits // 8))
            same(c, fn.__name__ + " of one", got, want, arg=repr(x))
            if s:
                c.ok(U.convert_to_str(got) == s, "not reversible", got=repr(got), want=repr(s))
            c.ev(("u", bits, len(s), cls(s)), 2)
    c.sample(repr(s))


def shape(r):
    return r.choice([(), (1,), (2,), (3,), (5,), (0,), (2, 3), (3, 1), (1, 4), (2, 0), (0, 3), (2, 2, 2), (1, 3, 2), (2, 0, 3), (1, 1, 1, 2)])


def strarray(r, kind, order=None):
    sh = shape(r)
    n = r.choice([1, 1, 2, 3, 5, 9])
    k = int(np.prod(sh))
    vals = []
    for _ in range(k):
        s = text(r, r.choice([0, 1, n, n]))
        if r.random() < 0.05:
            s = ""
        if kind == "S":
            b = s.encode("utf-8")
            while len(b) > n:
                s = s[:-1]
                b = s.encode("utf-8")
            vals.append(b.rstrip(b"\x00"))
        else:
            vals.append(s[:n].rstrip("\x00"))
    a = np.empty((k,), dtype="%s%d" % (kind, n))
    for i, v in enumerate(vals):
        a[i] = v
    a = a.reshape(sh)
    if kind == "U":
        a = a.astype(a.dtype.newbyteorder(r.choice("<>")))
    return layout(r, a), vals, n, sh


def do_arr(c):
    r = c.r
    kind = r.choice("USU")
    a, vals, n, sh = strarray(r, kind)
    sig = (kind, n, sh, a.dtype.byteorder, a.flags.c_contiguous, max([cls(v) for v in vals], default=0) if kind == "U" else 0)
    # To the other kind of string.
    got = call(c, "convert_to_numpy_str", U.convert_to_numpy_str, a)
    txt = vals if kind == "U" else [v.decode("utf-8") for v in vals]
    c.ok(isinstance(got, (np.ndarray, np.str_)) and got.dtype.kind == "U" and got.shape == sh, "convert_to_numpy_str of an array: %s %s" % (got.dtype, got.shape), arg=repr(a))
    c.ok([str(x) for x in np.asarray(got).ravel().tolist()] == txt, "convert_to_numpy_str of an array: other strings", arg=repr(a), got=repr(got))
    got = call(c, "convert_to_numpy_bytes", U.convert_to_numpy_bytes, a)
    c.ok(isinstance(got, (np.ndarray, np.bytes_)) and got.dtype.kind == "S" and got.shape == sh, "convert_to_numpy_bytes of an array: %s %s" % (got.dtype, got.shape), arg=repr(a))
    c.ok(np.asarray(got).ravel().tolist() == [t.encode("utf-8") for t in txt], "convert_to_numpy_bytes of an array: other strings", arg=repr(a), got=repr(got))
    c.ev(("arr",) + sig, 2)
    if kind == "U":
        # and back
        back = U.convert_to_numpy_str(got)
        c.ok(back.shape == sh and np.asarray(back).ravel().tolist() == vals, "bytes of a Numpy str array are not reversible", arg=repr(a), got=repr(back))
        if a.size == 1 and (a.ndim == 0 or r.random() < 0.5):
            w = vals[0] + "\x00" * (n - len(vals[0]))
            c.ok(U.convert_to_str(a) == w, "convert_to_str of one string", arg=repr(a))
        for bits, fn in ((16, U.convert_numpy_str_to_uint16), (32, U.convert_numpy_str_to_uint32)):
            got = call(c, fn.__name__, fn, a)
            c.ok(got.dtype == np.dtype("u%d" % (bits // 8)), fn.__name__ + ": dtype %s" % got.dtype)
            c.ev((bits,) + sig)
            if a.size == 0:
                c.ok(got.size == 0, fn.__name__ + " of nothing", got=repr(got))
                continue
            ws = [words(v, bits) for v in vals]
            width = max([n] + [len(w) for w in ws])
            esh = list(sh) if sh else [1]
            esh[-1] *= width
            want = np.array([w + [0] * (width - len(w)) for w in ws], dtype=got.dtype).reshape(esh)
            same(c, fn.__name__, got, want, arg=repr(a))
            # and back, in any byte order
            q = layout(r, got.astype(got.dtype.newbyteorder(r.choice("<>"))))
            back = call(c, "convert_to_numpy_str", U.convert_to_numpy_str, q, width)
            c.ok(back.dtype.newbyteorder("=") == np.dtype("U%d" % width) and back.shape == (sh or (1,)), "back from %s: %s %s" % (q.dtype, back.dtype, back.shape), arg=repr(a))
            c.ok(back.ravel().tolist() == vals, "not reversible through uint%d" % bits, arg=repr(a), got=repr(back))
            bb = call(c, "convert_to_numpy_bytes", U.convert_to_numpy_bytes, q, width)
            c.ok(bb.shape == (sh or (1,)) and bb.ravel().tolist() == [t.encode("utf-8") for t in vals], "uint%d to bytes" % bits, arg=repr(a), got=repr(bb))
            c.ev(n=3)
    elif a.size:
        q = np.ascontiguousarray(np.atleast_1d(a)).view("u1")
        c.ok(U.convert_to_numpy_bytes(q, n).ravel().tolist() == vals, "uint8 to bytes", arg=repr(q))
        back = U.convert_to_numpy_str(q, n)
        c.ok(back.ravel().tolist() == txt and back.shape == (sh or (1,)), "uint8 to str", arg=repr(q), got=repr(back))
        c.ev(("u8",) + sig, 2)


def do_uint(c):
    """uint arrays with lengths, against a reference on rows."""
    r = c.r
    bits = r.choice([8, 16, 32])
    length = r.choice([1, 2, 3, 4, 6])
    lead = r.choice([(), (), (2,), (1,), (3, 2), (0,), (2, 0)])
    m = r.choice([0, 1, 1, 2, 3])
    k = int(np.prod(lead)) * m
    cells = []
    for _ in range(k):
        s = ""
        while True:
            x = text(r, 1)
            if not x or len(words(s + x, bits)) > length or (r.random() < 0.1):
                break
            s += x
        cells.append(s)
    flat = [w for s in cells for w in words(s, bits) + [0] * (length - len(words(s, bits)))]
    dt = np.dtype("u%d" % (bits // 8)).newbyteorder(r.choice("<>"))
    a = layout(r, np.array(flat, dtype=dt).reshape(lead + (m * length,)))
    keep = [s.rstrip("\x00") for s in cells]
    usenone = m == 1 and r.random() < 0.5 and k
    args = (a,) if usenone else (a, length)
    got = call(c, "convert_to_numpy_str", U.convert_to_numpy_str, *args)
    want = np.empty((k,), "U%d" % length)
    want[:] = keep
    same(c, "convert_to_numpy_str(uint%d, %s)" % (bits, args[1:]), got, want.reshape(lead + (m,)), arg=repr(a))
    got = call(c, "convert_to_numpy_bytes", U.convert_to_numpy_bytes, *args)
    bs = [s.encode("utf-8") for s in keep]
    c.ok(isinstance(got, np.ndarray) and got.dtype.kind == "S" and got.shape == lead + (m,) and got.dtype.itemsize >= length, "convert_to_numpy_bytes(uint%d, %s): %s %s" % (bits, args[1:], got.dtype, got.shape), arg=repr(a))
    c.ok(got.ravel().tolist() == bs, "convert_to_numpy_bytes(uint%d): other strings" % bits, arg=repr(a), got=repr(got))
    c.ok(U.convert_to_str(a) == "".join(s + "\x00" * (length - len(words(s, bits))) for s in cells), "convert_to_str(uint%d array)" % bits, arg=repr(a))
    c.ev((bits, length, lead, m, dt.byteorder, a.flags.c_contiguous, usenone, max([cls(s) for s in cells], default=0)), 3)
    c.sample((a.tolist(), length))


def do_bad(c):
    r = c.r
    k = r.randrange(4)
    fns = [U.convert_to_str, U.convert_to_numpy_str, U.convert_to_numpy_bytes]
    if k == 0:
        x = r.choice([1, 1.5, None, [], ["a"], (), ("a",), {}, {"a": 1}, object(), np.int8(3), np.int16(3), np.int32(2), np.int64(1), np.uint64(4), np.float16(1), np.float32(2), np.float64(1),
                      np.bool_(True), np.complex64(1), np.complex128(1), np.zeros((2,)), np.zeros((2,), "i1"), np.zeros((2,), "u8"), np.zeros((1,), "?"), np.zeros((0,), "f4"), np.array([None]), np.array("2001", "M8[D]"),
                      np.zeros((2,), [("a", "u1")]), np.zeros((1,), "V3"), memoryview(b"abc"), frozenset(), Ellipsis, int, np.uint8, np.dtype("U2"), slice(3), True, b"a".hex, 1j])
        for fn in fns:
            try:
                y = call(c, fn.__name__, fn, x)
            except TypeError:
                pass
            else:
                c.bad("%s accepts %r" % (fn.__name__, x), got=repr(y))
            c.ev((fn.__name__, type(x).__name__, str(getattr(x, "dtype", ""))))
    elif k == 1:
        # not UTF-8
        b = r.choice([b"\xff", b"a\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\xe2\x82"])
        for x in (b, bytearray(b), np.bytes_(b), np.array([b]), np.frombuffer(b, "u1")):
            for fn in fns[:2]:
                try:
                    y = call(c, fn.__name__, fn, x)
                except UnicodeDecodeError:
                    pass
                else:
                    c.bad("%s accepts %r" % (fn.__name__, x), got=repr(y))
                c.ev((fn.__name__, b, type(x).__name__))
    elif k == 2:
        # not UTF-16/32
        w, bits = r.choice([([0xd800], 16), ([0xdc00, 0x41], 16), ([0x41, 0xdbff], 16), ([0xdc00, 0xd800], 16), ([0x110000], 32), ([0x41, 0xffffffff], 32)])
        x = np.array(w, np.dtype("u%d" % (bits // 8)).newbyteorder(r.choice("<>")))
        for fn in fns:
            try:
                y = call(c, fn.__name__, fn, x)
            except UnicodeDecodeError:
                pass
            else:
                c.bad("%s accepts %r" % (fn.__name__, x), got=repr(y))
            c.ev((fn.__name__, bits, tuple(w)))
    else:
        # no UTF-16 form
        s = r.choice(["\ud800", "a\udfff", "\udc00b"])
        for x in (np.str_(s), np.array([s, "a"])):
            try:
                y = call(c, "convert_numpy_str_to_uint16", U.convert_numpy_str_to_uint16, x)
            except UnicodeEncodeError:
                pass
            else:
                c.bad("convert_numpy_str_to_uint16 accepts %r" % (x,), got=repr(y))
            # but one in UTF-32
            y = call(c, "convert_numpy_str_to_uint32", U.convert_numpy_str_to_uint32, x)
            w = words(s, 32)
            if x.ndim:
                w += (words("a", 32) + [0] * len(s))[:len(s)]
            c.ok(y.dtype == np.uint32 and y.tolist() == w, "UTF-32 of %s" % ascii(x), got=repr(y))
            y = y.astype(np.dtype("u4").newbyteorder(r.choice("<>")))
            if x.ndim:
                same(c, "convert_to_numpy_str(lone surrogates)", call(c, "convert_to_numpy_str", U.convert_to_numpy_str, y, len(s)), x, arg=repr(y))
            else:
                for z in (x, y, np.array(x)):
                    same(c, "convert_to_str(lone surrogates)", call(c, "convert_to_str", U.convert_to_str, z), s, arg=repr(z))
            c.ev(("sur", s, type(x).__name__))
        x = r.choice(["int32", "", None, int, 3, [("a", "i4")], np.int8, np.zeros((2, 0)), np.int32(3), ("uint8", (1, 0))])
        for fn in (U.convert_dtype_to_str, U.does_dtype_have_a_zero_shape):
            try:
                y = fn(x)
            except TypeError:
                pass
            else:
                c.bad("%s accepts %r" % (fn.__name__, x), got=repr(y))
            c.ev((fn.__name__, repr(x)))


FLOATS = [0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), float("nan"), 5e-324, 1e308, 3.4e38, 1e-45, 0.1]
REAL = ["r", "re", "real", "R", "Re", "REAL", "rEAl"]
IMAG = ["i", "im", "imag", "imaginary", "I", "Im", "IMAG", "Imaginary"]


def do_cplx(c):
    """encode_complex and back."""
    r = c.r
    sh = shape(r)
    dt = np.dtype(r.choice(["c8", "c16"])).newbyteorder(r.choice("<>"))
    part = np.dtype("f%d" % (dt.itemsize // 2)).newbyteorder(dt.byteorder)
    k = int(np.prod(sh))
    raw = np.empty((k, 2), part)
    for i in range(k):
        for j in range(2):
            raw[i, j] = r.choice(FLOATS) if r.random() < 0.7 else r.uniform(-5, 5)
    a = np.frombuffer(raw.tobytes(), dt).reshape(sh)
    if sh == () and r.random() < 0.6:
        a = a[()]
        part = part.newbyteorder("=")
        raw = raw.astype(part)
    elif len(sh):
        # view() needs the last axis to be contiguous only
        a = r.choice([a, a.copy(), a[::-1][::-1], a[::-1]])
    names = r.choice([("r", "i"), ("real", "imag"), ("a", "b"), ("i", "r"), ("Im", "Re"), ("\xe9", "x y"), ("0", "1"), (r.choice(REAL), r.choice(IMAG))])
    got = call(c, "encode_complex", U.encode_complex, a, names)
    c.ok(got.dtype.names == names and got.shape == sh, "encode_complex: %s %s" % (got.dtype, got.shape), arg=repr(a))
    for q, z in zip(names, (a.real, a.imag)):
        c.ok(got.dtype[q] == part, "encode_complex: field %s %s" % (got.dtype[q], part))
        c.ok(np.asarray(got[q]).tobytes() == np.asarray(z).tobytes(), "encode_complex: other %s" % q, arg=repr(a), got=repr(got))
    c.ev(("enc", dt.str, sh, names, type(a).__name__), 2)
    for nm in (names, (None, None)):
        back = call(c, "decode_complex", U.decode_complex, got, nm)
        if nm != names and not (names[0].lower() in [x.lower() for x in REAL] and names[1].lower() in [x.lower() for x in IMAG] or
                                names[1].lower() in [x.lower() for x in REAL] and names[0].lower() in [x.lower() for x in IMAG]):
            c.ok(back is got or back.dtype == got.dtype and back.tobytes() == got.tobytes(), "decode_complex of unknown names", got=repr(back))
            continue
        swapped = nm != names and names[0].lower() in [x.lower() for x in IMAG]
        c.ok(back.dtype.kind == "c" and back.dtype.itemsize == dt.itemsize and back.shape == sh and isinstance(back, np.ndarray) == isinstance(got, np.ndarray),
             "decode_complex: %s %s %s" % (type(back), back.dtype, back.shape), arg=repr(got))
        x, y = (back.imag, back.real) if swapped else (back.real, back.imag)
        for p, q in ((x, a.real), (y, a.imag)):
            c.ok(np.asarray(p, part.newbyteorder("=")).tobytes() == np.asarray(q, part.newbyteorder("=")).tobytes(), "decode_complex(encode_complex) differs", arg=repr(a), got=repr(back), names=names)
        c.ev(("rt", dt.str, sh, names, nm == names), 2)


def do_dec(c):
    """decode_complex of any array."""
    r = c.r
    sh = shape(r)
    n = r.choice([0, 1, 2, 2, 2, 2, 2, 2, 3])
    names = []
    while len(names) < n:
        q = r.choice([r.choice(REAL), r.choice(IMAG), "a", "b", "x", "ri", "realimag", "", "0"])
        if q == "":
            q = "\u00ef"
        if q not in names:
            names.append(q)
    tys = ["f2", "f4", "f8", ">f4", ">f8", "i1", "u2", ">i4", "i8", "u8", "?", "f8", "f4", "S3", "U2", "V4", "M8[s]", ("f4", (2,)), ("f4", (3,)), [("r", "f4"), ("i", "f4")]]
    fts = [r.choice(tys[:13] if r.random() < 0.8 else tys) for _ in names]
    if n == 0:
        dt = np.dtype(r.choice(["f8", "c16", "i4", "S3", "U2"]))
    else:
        dt = np.dtype(list(zip(names, fts)))
    k = int(np.prod(sh))
    a = np.zeros((k,), dt)
    for i in range(k):
        if n:
            a[i] = tuple((r.choice([-3, 0, 1, 100]) if dt[q].kind in "if" and dt[q].shape == () else 1 if dt[q].kind in "u?" else np.zeros((), dt[q])[()]) for q in names)
    a = a.reshape(sh)
    if sh == () and r.random() < 0.5:
        a = a[()]
    cn = r.choice([(None, None), (None, None), None, ("r", "i"), ("a", "b"), ("b", "a"), ("x", None)])
    if cn is None:
        cn = tuple(r.sample(names, 2)) if n >= 2 else ("q", "w")
    before = a.tobytes()
    got = call(c, "decode_complex", U.decode_complex, a, cn) if cn != (None, None) or r.random() < 0.5 else call(c, "decode_complex", U.decode_complex, a)
    c.ok(a.tobytes() == before, "decode_complex changed its argument")
    # Which are the parts?
    parts = None
    if n == 2:
        if set(cn) == set(names):
            parts = cn
        else:
            re = [q for q in names if q.lower() in [x.lower() for x in REAL]]
            im = [q for q in names if q.lower() in [x.lower() for x in IMAG]]
            if len(re) == 1 and len(im) == 1:
                parts = (re[0], im[0])
            elif len(re) + len(im) == 1 and set(cn) & set(names):
                parts = "?"  # one given, one found: not documented
    if parts and parts != "?":
        p, q = dt[parts[0]], dt[parts[1]]
        if p.kind not in "biuf" or q.kind not in "biuf" or p.shape or q.shape:
            parts = "same" if p.shape == q.shape and p.subdtype and q.subdtype else None
    c.ev((dt.descr if n else dt.str, sh, cn, parts, type(a).__name__) if not dt.hasobject else None)
    if parts in ("?", "same"):
        return
    if parts is None:
        c.ok(type(got) is type(a) and got.dtype == a.dtype and got.shape == a.shape and got.tobytes() == before, "decode_complex of what is not complex", arg=repr(a), got=repr(got), names=cn)
        return
    p, q = a[parts[0]], a[parts[1]]
    want = np.result_type(p.dtype, q.dtype, np.complex64)
    c.ok(got.dtype == want and got.shape == sh and isinstance(got, np.ndarray) == isinstance(a, np.ndarray), "decode_complex: %s %s %s" % (type(got), got.dtype, got.shape), arg=repr(a), names=cn)
    c.ok(np.array_equal(np.asarray(got).real, np.asarray(p)) and np.array_equal(np.asarray(got).imag, np.asarray(q)), "decode_complex: other values", arg=repr(a), got=repr(got), names=cn)


def rdtype(r, d=0):
    k = r.random()
    if d > 2 or k < 0.5:
        t = r.choice(["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "O", "m8", "m8[ns]", "M8[D]", "M8[15m]", "S", "U", "V", "S3", "U5", "V7", "U0", "S0"])
        if d and t in ("S", "U", "V", "S0", "U0"):
            t = "S2"
        dt = np.dtype(t)
        return dt.newbyteorder(r.choice("<>=")) if r.random() < 0.5 else dt
    if k < 0.6:
        q = rdtype(r, d + 1)
        if not q.itemsize:
            return q
        return np.dtype((q, r.choice([(2,), (1,), (2, 3), (0,), (3, 0, 1), (1, 0)])))
    n = r.choice([1, 1, 2, 3, 5]) if r.random() > 0.03 else 0
    names = []
    while len(names) < n:
        q = r.choice(["a", "b", "r", "i", "field one", "\xe9", "'", '"', "\\", "\n", "(", "x'y\"z", "\U0001f600", "0", "__import__('os')", "None"]) + r.choice(["", "", "1", "2"])
        if q not in names:
            names.append(q)
    fs = [rdtype(r, d + 1) for _ in names]
    if r.random() < 0.3:
        with_align = not any(f.hasobject or not f.alignment for f in fs) and bool(fs)
        return np.dtype(list(zip(names, fs)), align=with_align)
    if r.random() < 0.3 and n and not any(f.hasobject for f in fs):
        offs, o = [], 0
        for f in fs:
            o += r.randrange(4)
            offs.append(o)
            o += f.itemsize
        perm = list(range(n))
        r.shuffle(perm)
        return np.dtype({"names": [names[i] for i in perm], "formats": [fs[i] for i in perm], "offsets": [offs[i] for i in perm], "itemsize": o + r.randrange(5)})
    if r.random() < 0.1 and n:
        return np.dtype([(("title of " + q, q), f) for q, f in zip(names, fs)])
    return np.dtype(list(zip(names, fs)))


def zero(dt):
    if 0 in dt.shape:
        return True
    if dt.subdtype is not None and zero(dt.subdtype[0]):
        return True
    return dt.fields is not None and any(zero(dt.fields[q][0]) for q in dt.names)


def do_dtype(c):
    dt = rdtype(c.r)
    s = call(c, "convert_dtype_to_str", U.convert_dtype_to_str, dt)
    c.ok(type(s) is str, "convert_dtype_to_str gives %s" % type(s))
    back = np.dtype(ast.literal_eval(s))
    c.ok(back == dt and back.itemsize == dt.itemsize and back.str == dt.str and back.names == dt.names,
         "dtype changed", got=repr(back), want=repr(dt), text=s)
    z = U.does_dtype_have_a_zero_shape(dt)
    c.ok(z is zero(dt), "does_dtype_have_a_zero_shape gives %r" % z, dtype=repr(dt))
    c.ev(repr(dt), 2)
    c.sample(repr(dt))
