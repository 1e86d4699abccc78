"""Seeded generators of hostile, structurally diverse values and configurations.

Everything is driven by one ``random.Random``; the same seed always gives the
same values.  The generators only use the *documented* supported domain; every
exclusion is listed in DESIGN.md.
"""
import collections
import datetime
import fractions
import math
import struct

import numpy as np

# --------------------------------------------------------------------- text
ASCII_CHARS = [chr(c) for c in range(1, 128)]
NICE_CHARS = list("abcdefgXYZ0189_ .-#$%~'\"@[]{}()!")
BMP_CHARS = list("\u00e9\u00ff\u0100\u0200\u0300\u03a9\u0e01\u4e00\u4e8c\u5b57\u7f00\uac00\ue000\ufeff\ufffd\uffff\u2028\u0085")
ASTRAL_CHARS = list("\U00010000\U0001f600\U0001f601\U00020000\U000e0100\U0010ffff\U00010300\U00011100")
NUL = "\x00"
# characters that are magic for paths and escapes
PATHY = list("\\/.xuU0123456789abcdefAF\x00 ")


def text(r, kind=None, maxlen=12, minlen=0):
    """A string; kind in nice/ascii/bmp/astral/nul/mixed/long (None = any)."""
    if kind is None:
        kind = r.choice(["nice", "nice", "ascii", "bmp", "bmp", "astral", "nul", "mixed", "long"])
    n = r.choice([0, 1, 1, 2, 3, 5, 8, maxlen])
    n = max(minlen, n)
    pool = {
        "nice": NICE_CHARS, "ascii": ASCII_CHARS, "bmp": BMP_CHARS + NICE_CHARS[:4],
        "astral": ASTRAL_CHARS + NICE_CHARS[:3], "nul": [NUL, "a", "b", "\u4e00", "\u0100"],
        "mixed": ASCII_CHARS + BMP_CHARS + ASTRAL_CHARS + [NUL],
        "long": NICE_CHARS + BMP_CHARS,
    }[kind]
    if kind == "long":
        n = r.choice([64, 255, 1000])
    s = "".join(r.choice(pool) for _ in range(n))
    if r.random() < 0.15 and kind != "nice" and kind != "ascii":
        s += r.choice(["\u4e00", "\u0100", "\U0001f600", NUL, "\U00010300", "\ufeff", " "])
    if r.random() < 0.08 and kind in ("bmp", "mixed"):
        s = r.choice(["\ufeff", "\ufffe", " "]) + s
    return s


def binary(r, kind=None, maxlen=12):
    if kind is None:
        kind = r.choice(["ascii", "any", "any", "nul", "utf8", "long"])
    n = r.choice([0, 1, 1, 2, 3, 5, 8, maxlen])
    if kind == "ascii":
        return bytes(r.randrange(1, 128) for _ in range(n))
    if kind == "any":
        return bytes(r.randrange(0, 256) for _ in range(n))
    if kind == "nul":
        return bytes(r.choice([0, 0, 65, 255]) for _ in range(n))
    if kind == "long":
        return bytes(r.randrange(0, 256) for _ in range(r.choice([64, 255, 256, 5000])))
    return text(r).encode("utf-8")


def name(r, nul=True):
    """A field/key/variable name, hostile to escaping, never empty."""
    k = r.random()
    if k < 0.45:
        s = "".join(r.choice(NICE_CHARS[:14]) for _ in range(r.randrange(1, 7)))
    elif k < 0.75:
        s = "".join(r.choice(PATHY) for _ in range(r.randrange(1, 9)))
    elif k < 0.9:
        s = text(r, r.choice(["bmp", "astral", "ascii"]), 6, 1)
    else:
        s = r.choice([".", "..", "...", "a/b", "/", "//", "\\", "\\\\", "\\x2f", "\\x41", "\\u0041", ".a", "a.", "..\\",
                      "\x00", "a\x00", "\x00a", "#refs#", "keys", "values", "#", "\\x", "\\u12", "\\U0001f600",
                      "a/", "/a", "./a", "../a", "\\/", "\\\\/", "\\\x00", "\\x2e", "\\\\x2f", "\u4e00"])
    if not nul:
        s = s.replace("\x00", "_")
    return s or "n"


# ------------------------------------------------------------------ numbers
INT_INFO = {k: np.iinfo(k) for k in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8")}


def an_int(r):
    k = r.random()
    if k < 0.3:
        return r.randrange(-10, 11)
    if k < 0.5:
        b = r.choice([7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128])
        return r.choice([1, -1]) * (2 ** b + r.choice([-2, -1, 0, 1, 2]))
    if k < 0.8:
        return r.randrange(-2 ** 63, 2 ** 63)
    return r.choice([1, -1]) * r.getrandbits(r.choice([64, 66, 80, 200, 500]))


FLOATS = [0.0, -0.0, 1.0, -1.5, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, 0.1, 1e16, -1e-300, 2.0 ** 53 + 2, 3.4028234663852886e38, 65504.0, 6e-8, math.pi]


def a_float(r):
    k = r.random()
    if k < 0.5:
        return r.choice(FLOATS)
    if k < 0.75:
        return r.uniform(-1e3, 1e3)
    return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]


def a_complex(r):
    return complex(a_float(r), a_float(r))


# ------------------------------------------------------------------ numpy
PLAIN = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "c8", "c16"]
PLAIN_MAT = [d for d in PLAIN if d != "f2"]


def shape(r, maxn=60, zero=True, maxnd=4):
    nd = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4])
    nd = min(nd, maxnd)
    for _ in range(50):
        s = tuple(r.choice([0, 1, 1, 2, 3, 4, 5, 7] if zero and r.random() < 0.35 else [1, 1, 2, 3, 4, 5, 7]) for _ in range(nd))
        if int(np.prod(s)) <= maxn:
            return s
    return (2,) * min(nd, 3)


def fill(r, dt, shp):
    """ndarray of plain dtype dt with special values mixed in."""
    dt = np.dtype(dt)
    n = int(np.prod(shp))
    if dt.kind == "b":
        a = np.array([r.random() < 0.5 for _ in range(n)], dtype=dt)
    elif dt.kind in "iu":
        ii = np.iinfo(dt)
        a = np.array([r.choice([ii.min, ii.max, 0, 1, ii.max - 1, r.randint(int(ii.min), int(ii.max))]) for _ in range(n)], dtype=dt)
    elif dt.kind == "f":
        if r.random() < 0.3:
            a = np.frombuffer(bytes(r.randrange(256) for _ in range(n * dt.itemsize)), dtype=dt).copy()
        else:
            with np.errstate(all="ignore"):
                a = np.array([a_float(r) for _ in range(n)], dtype="f8").astype(dt)
    elif dt.kind == "c":
        a = np.empty(n, dtype=dt)
        h = np.dtype(dt.byteorder + "f%d" % (dt.itemsize // 2))
        a.real = fill(r, h, (n,))
        a.imag = fill(r, h, (n,))
    else:
        raise AssertionError(dt)
    return a.reshape(shp)


def strarr(r, kind, shp, ascii_only=False, nul=True):
    n = int(np.prod(shp))
    if kind == "S":
        L = r.choice([1, 2, 3, 5, 9])
        v = [(bytes(r.randrange(1, 128) for _ in range(r.randrange(0, L + 1))) if ascii_only or r.random() < 0.5
              else bytes(r.randrange(0, 256) for _ in range(r.randrange(0, L + 1)))) for _ in range(n)]
        if not nul:
            v = [x.replace(b"\0", b"~") for x in v]
        return np.array(v, dtype="S%d" % L).reshape(shp)
    L = r.choice([1, 2, 3, 5, 9])
    tk = r.choice(["ascii", "nice", "bmp", "bmp", "astral", "mixed"])
    v = [text(r, tk)[: r.randrange(0, L + 1)] for _ in range(n)]
    if not nul:
        v = [x.replace("\0", "~") for x in v]
    return np.array(v, dtype="U%d" % L).reshape(shp)


def layout(r, a):
    """Return an equal array with another memory layout."""
    k = r.random()
    if a.ndim == 0 or k < 0.5:
        return a
    if k < 0.65:
        return np.asfortranarray(a)
    if k < 0.8:
        b = np.repeat(a, 2, axis=0)[::2]
        return b
    if k < 0.9:
        return a[::-1][::-1]
    b = a.copy()
    b.setflags(write=False)
    return b


class Gen:
    """Value generator.

    matlab   only produce values every part of which MATLAB supports
    maxdepth nesting bound
    deny     set of kind names that must not be produced
    """

    def __init__(self, r, matlab=False, maxdepth=3, deny=(), nulnames=True, ustruct=True):
        self.r = r
        self.ustruct = ustruct
        self.matlab = matlab
        self.maxdepth = maxdepth
        self.deny = set(deny)
        self.nulnames = nulnames
        self.kinds = collections.Counter()
        self._leaf = [k for k in self.LEAVES if k not in self.deny]
        self._cont = [k for k in self.CONTAINERS if k not in self.deny]

    LEAVES = ("bool", "int", "bigint", "float", "complex", "str", "bytes", "bytearray", "none", "slice", "range",
              "timedelta", "timezone", "date", "time", "datetime", "fraction", "npscalar", "npstr", "npbytes",
              "ndarray", "ndarray", "strarray", "bytesarray", "dtype", "struct", "matrix", "chararray", "recarray",
              "void", "structscalar", "bigarray")
    CONTAINERS = ("list", "tuple", "set", "frozenset", "deque", "chainmap", "dict", "ordereddict", "counter",
                  "mixdict", "objarray", "objstruct")

    def value(self, depth=0):
        r = self.r
        if depth < self.maxdepth and r.random() < (0.5 if depth == 0 else 0.35):
            k = r.choice(self._cont)
        else:
            k = r.choice(self._leaf)
        return self.make(k, depth)

    def make(self, k, depth=0):
        self.kinds[k] += 1
        return getattr(self, "v_" + k)(depth)

    # leaves
    def v_bool(self, d):
        return self.r.random() < 0.5

    def v_int(self, d):
        return max(-2 ** 63, min(2 ** 63 - 1, an_int(self.r)))

    def v_bigint(self, d):
        return an_int(self.r)

    def v_float(self, d):
        return a_float(self.r)

    def v_complex(self, d):
        return a_complex(self.r)

    def v_str(self, d):
        return self.sur(text(self.r))

    def sur(self, s):
        """s, rarely with a lone surrogate in it."""
        if self.r.random() > 0.02:
            return s
        n = self.r.randrange(len(s) + 1)
        return s[:n] + chr(self.r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, self.r.randrange(0xD800, 0xE000)])) + s[n:]

    def v_bytes(self, d):
        return binary(self.r)

    def v_bytearray(self, d):
        return bytearray(binary(self.r))

    def v_none(self, d):
        return self.r.choice([None, Ellipsis, NotImplemented])

    def v_slice(self, d):
        def x():
            return self.r.choice([None, an_int(self.r), 0, a_float(self.r), text(self.r, "nice")])
        return slice(x(), x(), x())

    def v_range(self, d):
        st = an_int(self.r) or 1
        return range(an_int(self.r), an_int(self.r), self.r.choice([1, -1, 2, st]))

    def v_timedelta(self, d):
        r = self.r
        return r.choice([datetime.timedelta.min, datetime.timedelta.max, datetime.timedelta(0),
                         datetime.timedelta(r.randrange(-10 ** 6, 10 ** 6), r.randrange(86400), r.randrange(10 ** 6))])

    def v_timezone(self, d):
        r = self.r
        off = datetime.timedelta(seconds=r.randrange(-86399, 86400), microseconds=r.choice([0, 0, 0, 1, 999999]))
        if not -datetime.timedelta(1) < off < datetime.timedelta(1):
            off = datetime.timedelta(0)
        return r.choice([datetime.timezone.utc, datetime.timezone(off), datetime.timezone(off, text(r, r.choice(["nice", "bmp"])))])

    def v_date(self, d):
        return self.r.choice([datetime.date.min, datetime.date.max, datetime.date.fromordinal(self.r.randrange(1, 3652059))])

    def v_time(self, d):
        r = self.r
        return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1, 999999, r.randrange(10 ** 6)]),
                             tzinfo=r.choice([None, None, self.v_timezone(d)]))

    def v_datetime(self, d):
        r = self.r
        dd, t = self.v_date(d), self.v_time(d)
        return datetime.datetime(dd.year, dd.month, dd.day, t.hour, t.minute, t.second, t.microsecond, tzinfo=t.tzinfo)

    def v_fraction(self, d):
        return fractions.Fraction(an_int(self.r), abs(an_int(self.r)) or 1)

    def _plain(self):
        return np.dtype(self.r.choice(PLAIN_MAT if self.matlab else PLAIN))

    def v_npscalar(self, d):
        dt = self._plain()
        return fill(self.r, dt, (1,))[0]

    def v_npstr(self, d):
        return np.str_(self.sur(text(self.r)).rstrip("\0"))

    def v_npbytes(self, d):
        return np.bytes_(binary(self.r).rstrip(b"\0"))

    def v_ndarray(self, d):
        dt = self._plain()
        if self.r.random() < 0.12:
            dt = dt.newbyteorder(">")
        return layout(self.r, fill(self.r, dt, shape(self.r)))

    def v_bigarray(self, d):
        """Arrays around the default compression threshold (16 KiB)."""
        r = self.r
        dt = self._plain()
        n = (16 * 1024) // dt.itemsize + r.choice([-1, 0, 1, 3, 700])
        base = fill(r, dt, (37,))
        a = np.resize(base, n).astype(dt)
        k = r.random()
        if k < 0.3:
            return a.reshape(1, -1)
        if k < 0.5:
            return a.reshape(-1, 1)
        if k < 0.7 and n % 4 == 0:
            return a.reshape(4, -1)
        return a

    def v_strarray(self, d):
        a = strarr(self.r, "U", shape(self.r, 24))
        if a.size and self.r.random() < 0.05:
            a.flat[self.r.randrange(a.size)] = "\ud800\udc01"[self.r.randrange(2):]
        return layout(self.r, a)

    def v_bytesarray(self, d):
        return layout(self.r, strarr(self.r, "S", shape(self.r, 24)))

    def v_matrix(self, d):
        r = self.r
        return np.asmatrix(fill(r, self._plain(), (r.randrange(1, 5), r.randrange(1, 5))))

    def v_chararray(self, d):
        r = self.r
        a = strarr(r, r.choice("SU"), tuple(x or 1 for x in (shape(r, 24) or (2,))))
        return a.view(np.chararray)

    def v_dtype(self, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            return np.dtype(r.choice(PLAIN + ["S5", "U7", "V3", "O", ">i4", ">f8", "S1", "U1"]))
        if k < 0.7:
            return np.dtype((r.choice(["i4", "f8", "S3"]), r.choice([(2,), (3, 1), (2, 2, 2)])))
        return self._structdt(obj=True)

    def _fieldnames(self, n):
        out = []
        while len(out) < n:
            s = name(self.r, self.nulnames)
            if s.startswith("\x00") and not s.strip("\x00"):
                s = "f" + s
            if s not in out:
                out.append(s)
        return out

    def _structdt(self, nest=True, obj=False, sub=True, strs=True):
        r = self.r
        fs = []
        for n in self._fieldnames(r.choice([1, 2, 2, 3, 5])):
            k = r.random()
            if k < 0.6:
                fs.append((n, self._plain()))
            elif k < 0.72 and strs:
                fs.append((n, r.choice(["S3", "U4", "S1", "U1"] if self.ustruct else ["S3", "S1"])))
            elif k < 0.84 and sub:
                fs.append((n, self._plain(), r.choice([(2,), (1,), (2, 3), (1, 2)])))
            elif k < 0.92 and nest:
                fs.append((n, self._structdt(nest=False, obj=obj, sub=sub, strs=strs)))
            elif obj and r.random() < 0.5:
                fs.append((n, "O"))
            else:
                fs.append((n, self._plain()))
        return np.dtype(fs)

    def _fillstruct(self, dt, shp):
        a = np.zeros(shp, dtype=dt)
        for n in dt.names:
            f = a[n]
            sdt = dt.fields[n][0]
            if sdt.names:
                f[...] = self._fillstruct(sdt, shp)
            elif sdt.subdtype is not None:
                f[...] = fill(self.r, sdt.base, f.shape)
            elif sdt.kind in "SU":
                f[...] = strarr(self.r, sdt.kind, shp).astype(sdt)
            elif sdt.kind == "O":
                flat = np.empty(f.size, dtype=object)
                for i in range(f.size):
                    flat[i] = self.value(self.maxdepth)
                f[...] = flat.reshape(f.shape)
            else:
                f[...] = fill(self.r, sdt, f.shape)
        return a

    def v_struct(self, d):
        if self.r.random() < 0.08:
            return np.zeros(self.r.choice([(0,), (0, 0), (1, 0), (0, 3), (2, 0, 1)]), self._structdt())
        return self._fillstruct(self._structdt(), self._structshape())

    def _structshape(self):
        return tuple(x or 1 for x in shape(self.r, 12, zero=False, maxnd=3))

    def v_recarray(self, d):
        a = self.v_struct(d)
        return np.atleast_1d(a).view(np.recarray)

    def v_structscalar(self, d):
        return self._fillstruct(self._structdt(), (1,))[0]

    def v_void(self, d):
        n = self.r.choice([1, 2, 5, 16])
        return np.void(bytes(self.r.randrange(256) for _ in range(n)))

    # containers
    def _items(self, d, n=None):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if n is None else n
        k = self.r.random()
        if k < 0.12 and n:
            # homogeneous, which numpy loves to broadcast
            L = self.r.choice([0, 1, 2, 3])
            mk = self.r.choice([lambda: list(range(L)), lambda: tuple("ab"[:L]), lambda: np.arange(L), lambda: np.zeros((1,)),
                                lambda: np.zeros((L, 1)), lambda: [[]], lambda: "ab"[:L], lambda: [None] * L])
            return [mk() for _ in range(n)]
        return [self.value(d + 1) for _ in range(n)]

    def v_list(self, d):
        return self._items(d)

    def v_tuple(self, d):
        return tuple(self._items(d))

    def v_deque(self, d):
        return collections.deque(self._items(d))

    def _hashable(self, d):
        r = self.r
        k = r.randrange(12)
        if k == 0:
            return an_int(r)
        if k == 1:
            return r.choice([x for x in FLOATS if x == x])
        if k == 2:
            return text(r)
        if k == 3:
            return binary(r)
        if k == 4:
            return r.choice([None, Ellipsis])
        if k == 5:
            return tuple(self._hashable(d + 1) for _ in range(r.randrange(0, 3))) if d < 4 else (1,)
        if k == 6:
            return frozenset(self._hashable(d + 1) for _ in range(r.randrange(0, 3))) if d < 4 else frozenset()
        if k == 7:
            return self.v_date(d)
        if k == 8:
            return self.v_fraction(d)
        if k == 9:
            return self.v_timedelta(d)
        if k == 10:
            return r.random() < 0.5
        return self.v_datetime(d)

    def v_set(self, d):
        return set(self._hashable(d) for _ in range(self.r.randrange(0, 6)))

    def v_frozenset(self, d):
        return frozenset(self._hashable(d) for _ in range(self.r.randrange(0, 6)))

    def _strkeys(self, n):
        out = {}
        r = self.r
        while len(out) < n:
            s = name(r, self.nulnames)
            k = r.random()
            if k < 0.6:
                key = s
            elif k < 0.75:
                key = s.encode("utf-8")
            elif k < 0.9:
                key = np.str_(s.rstrip("\0") or "z")
            else:
                key = np.bytes_(s.encode("utf-8").rstrip(b"\0") or b"z")
            as_s = key.decode("utf-8") if isinstance(key, bytes) else str(key)
            if as_s in {(x.decode("utf-8") if isinstance(x, bytes) else str(x)) for x in out}:
                continue
            out[key] = 1
        return list(out)

    def v_dict(self, d):
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        return dict(zip(self._strkeys(n), self._items(d, n)))

    def v_ordereddict(self, d):
        n = self.r.choice([0, 1, 2, 3, 5])
        return collections.OrderedDict(zip(self._strkeys(n), self._items(d, n)))

    def v_counter(self, d):
        n = self.r.choice([0, 1, 2, 3, 5])
        if self.r.random() < 0.5:
            return collections.Counter(dict(zip(self._strkeys(n), [an_int(self.r) for _ in range(n)])))
        return collections.Counter({self._hashable(d): an_int(self.r) for _ in range(n)})

    def v_mixdict(self, d):
        n = self.r.choice([1, 2, 3, 5])
        ks = [self._hashable(d) for _ in range(n)]
        return dict(zip(ks, self._items(d, n)))

    def v_chainmap(self, d):
        return collections.ChainMap(*[self.v_dict(d + 1) for _ in range(self.r.randrange(1, 4))])

    def v_objarray(self, d):
        shp = shape(self.r, 8)
        a = np.empty(shp, dtype=object)
        f = a.reshape(-1)
        for i, x in enumerate(self._items(d, f.size)):
            f[i] = x
        return f.reshape(shp)

    def v_objstruct(self, d):
        dt = self._structdt(obj=True, nest=False)
        fs = [(n, dt.fields[n][0]) for n in dt.names]
        fs[0] = (fs[0][0], np.dtype("O"))
        return self._fillstruct(np.dtype(fs), self._structshape())
