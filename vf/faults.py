"""Makes calls of the code under test into h5py fail.

The methods of h5py's classes are wrapped; a call made directly by a file of
hdf5storage is counted and, when its number comes up, raises either before
or after doing its work.
"""
import sys

import h5py

from vf.env import SRC

METHODS = [
    (h5py.Group, ["create_dataset", "create_group", "require_group", "__getitem__", "__setitem__", "__delitem__", "__contains__", "get", "__iter__", "__len__"]),
    (h5py.Dataset, ["__getitem__", "__setitem__"]),
    (h5py.AttributeManager, ["create", "modify", "__getitem__", "__setitem__", "__delitem__", "get", "__iter__", "__contains__", "items"]),
    (h5py.File, ["__init__", "flush", "close"]),
]
# not what the class itself defines but what it inherits
_state = None


class Injected(OSError):
    pass


class InjectedRuntime(RuntimeError):
    pass


class Plan:
    """Fails call number n, or none for n=None."""

    def __init__(self, n=None, after=False, exc=Injected, skip=()):
        self.n, self.after, self.exc, self.skip = n, after, exc, skip
        self.calls = 0
        self.fired = None
        self.names = []

    def __enter__(self):
        global _state
        _state = self
        return self

    def __exit__(self, *a):
        global _state
        _state = None


def _wrap(cls, name):
    orig = getattr(cls, name)
    full = "%s.%s" % (cls.__name__, name)

    def wrapper(self, *a, **k):
        s = _state
        if s is None or full in s.skip or not sys._getframe(1).f_code.co_filename.startswith(SRC):
            return orig(self, *a, **k)
        i = s.calls
        s.calls += 1
        if s.n is None:
            s.names.append(full)
        if i != s.n:
            return orig(self, *a, **k)
        s.fired = full
        if s.after:
            orig(self, *a, **k)
        raise s.exc("injected into call %d, %s" % (i, full))

    wrapper.__name__ = name
    return wrapper


def install():
    for cls, names in METHODS:
        for n in names:
            setattr(cls, n, _wrap(cls, n))
