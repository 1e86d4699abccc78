"""Compares files with the model of the storage format."""
import random
import calendar
import re
import time

from .env import hs, np
from . import expect, gen, opts, raw, same, work

INC = hs.exceptions.TypeNotMatlabCompatibleError


def anyopts(r, matlab):
    kw = opts.gen(r, matlab=matlab, meta=r.random() < 0.75, szip=False)
    if matlab or r.random() < 0.2:
        kw["action_for_matlab_incompatible"] = r.choice(["ignore", "error", "discard", "discard"])
    return kw


def write(c, kw, fn, v, path="/v"):
    """Writes v. Returns (expected node or None if discarded, error raised?)."""
    e = opts.effective(kw)
    c.note("options %r" % kw)
    c.note("%r <- %s" % (path, same.short(v, 1500)))
    try:
        m = expect.model(v, e)
    except expect.Incompatible:
        m = "error"
    try:
        work.write(c, kw, fn, [(path, v)])
    except INC as x:
        if m != "error":
            c.bad("%s was raised for something MATLAB supports or under an action that does not raise" % type(x).__name__, options=kw, value=same.short(v, 800))
        c.count("rejected")
        return "error"
    if m == "error":
        c.bad("something MATLAB cannot represent was not rejected although the action is 'error'", options=kw, value=same.short(v, 800))
    return m


def compare(c, kw, fn, path, m, v, tree=None, filt=True):
    e = opts.effective(kw)
    t = tree or raw.tree(fn)
    parts = [x for x in path.split("/") if x]
    n = raw.get(t, parts)
    if m is None:
        if n is not None:
            c.bad("something to be discarded was written", options=kw, value=same.short(v, 800), got=n.kind)
        c.count("discarded")
        c.ev(("discarded", type(v).__name__))
        return None
    cm = expect.Cmp(e, filt=filt)
    d = cm.cmp(m, n, None if len(parts) <= 1 else "?", "$")
    if d:
        c.bad("file differs from the storage format: " + d, options=kw, value=same.short(v, 800))
    c.count("datasets and groups", cm.nodes)
    c.count("attributes", cm.attrs)
    c.ev((work.shape_sig(v), opts.sig(kw)), n=cm.nodes)
    return cm


MAGIC = b"\0" * 8 + b"\x00\x02IM"
HEAD = re.compile(r"^MATLAB 7\.3 MAT-file, Platform: hdf5storage (\S+), Created on: "
                  r"(Mon|Tue|Wed|Thu|Fri|Sat|Sun) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d\d) (\d\d):(\d\d):(\d\d) (\d{4}) "
                  r"HDF5 schema 1\.00 \. *$")


class Clock:
    """While active, the datetime module that the library sees gives another time."""

    def __init__(self, r):
        base = calendar.timegm((r.choice([1970, 1999, 2000, 2019, 2024, 2026, 2038, 2100, 9999]), 1, 1, 0, 0, 0))
        self.when = min(base + r.randrange(366 * 86400), 253402300799)
        if r.random() < 0.5:
            self.when -= self.when % 86400 - r.choice([0, 1, 43199, 43200, 46800, 86399, r.randrange(86400)])
        self.asked = 0

    def __enter__(self):
        import datetime
        import types
        clock = self

        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, datetime.datetime)

        class Fake(datetime.datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                clock.asked += 1
                t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=clock.when)
                return t.astimezone(tz) if tz is not None else t.replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()

        m = types.ModuleType("datetime")
        m.__dict__.update({k: v for k, v in vars(datetime).items() if not k.startswith("__")})
        m.datetime = Fake
        self._real = getattr(hs, "datetime", None)
        if self._real is datetime:
            hs.datetime = m
        return self

    def __exit__(self, *a):
        if self._real is not None:
            hs.datetime = self._real


def header(fn, size=512, clock=None):
    """None or what is wrong with the MATLAB header."""
    b = open(fn, "rb").read(2048)
    if b[size:size + 8] != b"\x89HDF\r\n\x1a\n":
        return "the HDF5 data does not start after a %d byte userblock" % size
    if b[116:128] != MAGIC:
        return "the magic number is %r" % b[116:128]
    try:
        t = b[:116].decode("ascii")
    except UnicodeDecodeError:
        return "the header is not text: %r" % b[:116]
    m = HEAD.match(t)
    if not m:
        return "the header text is %r" % t
    if m.group(1) != hs.__version__:
        return "the header gives version %r" % m.group(1)
    try:
        when = calendar.timegm(time.strptime("%s %s %s %s:%s:%s %s" % m.groups()[1:], "%a %b %d %H:%M:%S %Y"))
    except ValueError:
        return "the date in %r is invalid" % t
    if time.strftime("%a", time.gmtime(when)) != m.group(2):
        return "the day of the week in %r is wrong" % t
    if abs(when - time.time()) > 7200 and (clock is None or not clock.asked or abs(when - clock.when) > 5):
        return "the creation date in %r is not now" % t
    if b[128:size].strip(b"\0") != b"":
        return "there is something in the unused part of the userblock"
    return None
