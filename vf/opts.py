"""Seeded generation of option combinations (plain keyword dicts)."""
import h5py

BOOLS = ("structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16",
         "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty")
# what being MATLAB compatible implies (documented table)
MATLAB = dict(delete_unused_variables=True, structured_numpy_ndarray_as_struct=True, make_atleast_2d=True,
              convert_numpy_bytes_to_utf16=True, convert_numpy_str_to_utf16=True, convert_bools_to_uint8=True,
              reverse_dimension_order=True, store_shape_for_empty=True, complex_names=("real", "imag"),
              group_for_references="/#refs#", compression_algorithm="gzip")
DEFAULTS = dict(store_python_metadata=True, matlab_compatible=True, action_for_matlab_incompatible="error",
                delete_unused_variables=False, structured_numpy_ndarray_as_struct=False, make_atleast_2d=False,
                convert_numpy_bytes_to_utf16=False, convert_numpy_str_to_utf16=False, convert_bools_to_uint8=False,
                reverse_dimension_order=False, structs_as_dicts=False, store_shape_for_empty=False,
                complex_names=("r", "i"), group_for_references="/#refs#", oned_as="row", dict_like_keys_name="keys",
                dict_like_values_name="values", compress=True, compress_size_threshold=16 * 1024,
                compression_algorithm="gzip", gzip_compression_level=7, shuffle_filter=True,
                compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=False)


def effective(kw):
    """The option values that hold after Options(**kw)."""
    o = dict(DEFAULTS)
    o.update(kw)
    if o["matlab_compatible"]:
        o.update(MATLAB)
    return o


def gen(r, matlab=None, meta=True, action=None, unused=True, szip=False):
    if matlab is None:
        matlab = r.random() < 0.45
    kw = {"matlab_compatible": matlab}
    if not meta or r.random() < 0.3:
        kw["store_python_metadata"] = meta
    if action is not None:
        kw["action_for_matlab_incompatible"] = action
    if not matlab:
        k = r.random()
        for b in BOOLS:
            if k < 0.15:
                continue
            if k < 0.3:
                kw[b] = True
            elif r.random() < 0.8:
                kw[b] = r.random() < 0.5
        if unused and r.random() < 0.6:
            kw["delete_unused_variables"] = r.random() < 0.7
        if r.random() < 0.4:
            kw["complex_names"] = r.choice([("real", "imag"), ("r", "i"), ("a", "b"), ("\u03b1", "\u03b2"), ("re al", "im/ag")])
        if r.random() < 0.4:
            kw["group_for_references"] = r.choice(["/#refs#", "/refs", "/zzrefs", "/0r", "/r r", "/\u9999"])
        if r.random() < 0.3:
            kw["compression_algorithm"] = r.choice(["gzip", "lzf"] + (["szip"] if szip else []))
    if r.random() < 0.4:
        kw["oned_as"] = r.choice(["row", "column"])
    if r.random() < 0.3:
        kw["dict_like_keys_name"], kw["dict_like_values_name"] = r.choice(
            [("k", "v"), ("values", "keys"), ("a/b", "a.b"), (".", ".."), ("x", "x."), ("\u00e9", "\u4e00"), ("keys", "vals")])
    if r.random() < 0.5:
        kw["compress"] = r.random() < 0.7
        kw["compress_size_threshold"] = r.choice([0, 1, 8, 64, 1000, 16384, 10 ** 7])
        kw["gzip_compression_level"] = r.randrange(0, 10)
        kw["shuffle_filter"] = r.random() < 0.5
        kw["compressed_fletcher32_filter"] = r.random() < 0.5
        kw["uncompressed_fletcher32_filter"] = r.random() < 0.5
    return kw


READING = ("reverse_dimension_order", "complex_names", "group_for_references")


def readers(r, kw):
    """Other options with those that matter for reading data that has
    Python metadata as in kw."""
    e = effective(kw)
    new = gen(r, unused=False, meta=r.random() < 0.7)
    new.setdefault("store_python_metadata", True)
    if new["matlab_compatible"] and any(MATLAB[x] != e[x] for x in READING):
        new = gen(r, matlab=False, unused=False)
    if not new["matlab_compatible"]:
        new.update({x: e[x] for x in READING})
    return new


def sig(kw):
    return tuple(sorted((k, str(v)) for k, v in kw.items() if k not in ("compress_size_threshold", "gzip_compression_level")))


def have_szip():
    try:
        return h5py.h5z.filter_avail(h5py.h5z.FILTER_SZIP) and bool(h5py.h5z.get_filter_info(h5py.h5z.FILTER_SZIP) & h5py.h5z.FILTER_CONFIG_ENCODE_ENABLED)
    except Exception:
        return False
