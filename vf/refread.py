"""An independent reader, through h5py alone, of data without Python metadata.

It states what the documentation prescribes (MATLAB classes to Numpy types,
reversed dimensions, MATLAB empties, cells, structs) and gives values in a
plain normal form that ``norm`` also makes out of what hdf5storage reads.

    ("num", dtype, shape, bytes)           numbers, bools, void
    ("str", kind, shape, (strings...))     Numpy strings
    ("obj", shape, (values...))            object arrays
    ("rec", shape, ((name, values)...))    structured arrays
    ("dict", ((name, value)...))           structs as dicts
    ("py", type, repr)                     anything else
"""
import h5py
import numpy as np

CLASSES = {"logical": "?", "single": "f4", "double": "f8", "canonical empty": "f8", "char": "U", "cell": "O", "struct": "O"}
for _k in ("int", "uint"):
    for _n in (8, 16, 32, 64):
        CLASSES["%s%d" % (_k, _n)] = "%s%d" % (_k[0], _n // 8)


def _num(a):
    a = np.asarray(a)
    b = a.astype(a.dtype.newbyteorder("=")) if a.dtype.names is None else a
    if b.dtype.kind in "fc":
        # all NaN are alike
        b = b.copy()
        if b.dtype.kind == "f":
            b[np.isnan(b)] = np.nan
        else:
            re, im = b.real.copy(), b.imag.copy()
            re[np.isnan(re)] = np.nan
            im[np.isnan(im)] = np.nan
            b.real, b.imag = re, im
    return ("num", b.dtype.str, b.shape, np.ascontiguousarray(b).tobytes())


def norm(v):
    """The normal form of a value that was read."""
    if isinstance(v, dict):
        return ("dict", tuple(sorted((str(k), norm(x)) for k, x in v.items())))
    if isinstance(v, (np.ndarray, np.generic)) and not (isinstance(v, np.generic) and v.dtype.kind in "O"):
        a = np.asarray(v)
        if a.dtype.names is not None:
            return ("rec", a.shape, tuple((n, tuple(norm(x) for x in _elems(a, n))) for n in a.dtype.names))
        if a.dtype.kind == "O":
            return ("obj", a.shape, tuple(norm(x) for x in a.reshape(-1)))
        if a.dtype.kind in "SU":
            return ("str", a.dtype.kind, a.shape, tuple(x for x in a.reshape(-1).tolist()))
        return _num(a)
    if isinstance(v, (h5py.Reference,)):
        return ("py", "ref", "")
    return ("py", type(v).__name__, repr(v))


def _elems(a, n):
    flat = a.reshape(-1)
    for i in range(flat.size):
        yield flat[n][i]


def attr_str(a, k):
    if k not in a:
        return None
    x = a[k]
    if isinstance(x, np.ndarray):
        return None if x.shape else attr_str({k: x[()]}, k)
    if isinstance(x, bytes):
        return x.decode("utf-8")
    return str(x) if isinstance(x, str) else None


def matlab_fields(a):
    if "MATLAB_fields" not in a:
        return None
    return [b"".join(bytes(c) for c in x).decode("utf-8") for x in a["MATLAB_fields"]]


def words(a, length=None):
    """Array of code units to the strings along its last dimension."""
    if a.ndim == 0:
        a = a.reshape(1)
        scalar = True
    else:
        scalar = False
    L = a.shape[-1] or 1
    enc = {1: "utf-8", 2: "utf-16-le", 4: "utf-32-le"}[a.dtype.itemsize]
    b = np.ascontiguousarray(a.astype(a.dtype.newbyteorder("<"))).reshape(-1, L) if a.size else np.zeros((0, L), a.dtype)
    s = tuple(w.tobytes().decode(enc, "surrogatepass" if enc == "utf-32-le" else "strict").rstrip("\0") for w in b)
    shape = () if scalar else a.shape[:-1] + (a.shape[-1] // L,)
    return ("str", "U", shape, s)


def complex_names(names, opt):
    """Which fields are the real and imaginary parts, or None."""
    if len(names) != 2:
        return None
    if set(opt) == set(names):
        return tuple(opt)
    re = [n for n in names if n.lower() in ("r", "re", "real")]
    im = [n for n in names if n.lower() in ("i", "im", "imag", "imaginary")]
    return (re[0], im[0]) if re and im else None


def decode_complex(a, opt):
    if a.dtype.names is None:
        return a
    n = complex_names(list(a.dtype.names), opt)
    if n is None:
        return a
    re, im = a[n[0]], a[n[1]]
    out = np.empty(a.shape, dtype=np.result_type(re.dtype, im.dtype, "c8"))
    out.real, out.imag = re, im
    return out


def read(f, obj, o, unescape, conv=True):
    """The normal form of one object; o has the effective options."""
    a = obj.attrs
    mc = attr_str(a, "MATLAB_class")
    known = mc if mc in CLASSES else None
    if isinstance(obj, h5py.Dataset):
        if h5py.check_dtype(ref=obj.dtype) is not None:
            data = obj[()]
            shape = np.shape(data)
            vals = [read(f, f[x], o, unescape) for x in np.asarray(data, dtype=object).reshape(-1)]
            el = np.empty(len(vals), dtype=object)
            for i, x in enumerate(vals):
                el[i] = x
            el = el.reshape(shape)
            if known and int(np.ravel(a.get("MATLAB_empty", 0))[0]) != 1:
                el = el.T
            return ("obj", el.shape, tuple(el.reshape(-1)))
        data = obj[...]
        if known is None:
            if h5py.check_dtype(vlen=obj.dtype) in (str, bytes):
                return ("obj", data.shape, tuple(("py", type(x).__name__, repr(x)) for x in data.reshape(-1)))
            return norm(data)
        if int(np.ravel(a.get("MATLAB_empty", 0))[0]) == 1:
            shape = tuple(int(x) for x in np.ravel(data))
            n = int(np.prod(shape))
            fs = matlab_fields(a)
            if fs is not None:
                return ("rec", shape, tuple((unescape(k), (None,) * n) for k in fs))
            k = CLASSES[known]
            if k == "O":
                return ("obj", shape, ())
            if k == "U":
                return words(np.zeros(shape, "u2")) if False else ("str", "U", shape, ())
            return _num(np.zeros(shape, k))
        data = data.T
        if known in ("single", "double"):
            data = decode_complex(data, o["complex_names"])
        if known == "logical":
            data = data != 0
        if known == "char" and data.dtype.kind != "S":
            return words(data)
        return norm(data)
    # A Group is a struct
    refs = o["group_for_references"]
    vals, multi = {}, True
    for k in obj:
        x = obj[k]
        if x.name == refs:
            continue
        if not (isinstance(x, h5py.Dataset) and h5py.check_dtype(ref=x.dtype) is not None
                and not any(n in x.attrs for n in ("MATLAB_class",))):
            multi = False
        vals[unescape(k)] = read(f, x, o, unescape)
    if len({v[1] for v in vals.values()} if multi else ()) > 1:
        # values, as the elements of one array would not fit together
        multi = False
    if mc == "struct" and o["structs_as_dicts"]:
        return ("dict", tuple(sorted(vals.items())))
    order = matlab_fields(a)
    names = [unescape(x) for x in order] if order is not None else []
    names = [x for x in names if x in vals]
    names += sorted(set(vals) - set(names))
    if not multi or not names:
        return ("rec", (1,), tuple((n, (vals[n],)) for n in names))
    shape = vals[names[-1]][1]
    cols = []
    for n in names:
        el = np.empty(len(vals[n][2]), dtype=object)
        for i, x in enumerate(vals[n][2]):
            el[i] = x
        el = el.reshape(shape)
        if known:
            el = el.T
        cols.append((n, tuple(el.reshape(-1))))
    if known:
        shape = shape[::-1]
    return ("rec", shape, tuple(cols))


def diff(a, b, where="value"):
    """First difference between two normal forms."""
    if a == b:
        return None
    if type(a) is not tuple or type(b) is not tuple or not a or not b or a[0] != b[0]:
        return "%s: %.300r instead of %.300r" % (where, b, a)
    if a[0] == "obj" and a[1] == b[1]:
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            d = diff(x, y, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    if a[0] == "rec" and a[1] == b[1] and [x[0] for x in a[2]] == [x[0] for x in b[2]]:
        for (n, x), (_, y) in zip(a[2], b[2]):
            if len(x) != len(y):
                return "%s.%s: %d elements instead of %d" % (where, n, len(y), len(x))
            for i in range(len(x)):
                d = None if x[i] is None else diff(x[i], y[i], "%s.%s[%d]" % (where, n, i))
                if d:
                    return d
        return None
    if a[0] == "rec" and (a[1] != b[1] or [x[0] for x in a[2]] != [x[0] for x in b[2]]):
        return "%s: structured array %r %r instead of %r %r" % (where, b[1], [x[0] for x in b[2]], a[1], [x[0] for x in a[2]])
    if a[0] == "dict" and [x[0] for x in a[1]] == [x[0] for x in b[1]]:
        for (n, x), (_, y) in zip(a[1], b[1]):
            d = diff(x, y, "%s[%r]" % (where, n))
            if d:
                return d
        return None
    if a[0] == "str" and a[3] == b[3] == () and a[2] == b[2] and a[1] == b[1]:
        return None
    return "%s: %.300r instead of %.300r" % (where, b, a)
