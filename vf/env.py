"""Makes sure that the code under test is the one in $VERIF_REPO/src."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if not sys.path or sys.path[0] != SRC:
    sys.path.insert(0, SRC)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import h5py  # noqa: E402
import hdf5storage as hs  # noqa: E402
import hdf5storage.pathesc  # noqa: E402
import hdf5storage.utilities  # noqa: E402
import hdf5storage.Marshallers  # noqa: E402
import hdf5storage.plugins  # noqa: E402
import hdf5storage.exceptions  # noqa: E402

if not os.path.abspath(hs.__file__).startswith(SRC + os.sep):
    print("hdf5storage was imported from %s rather than %s" % (hs.__file__, SRC), file=sys.stderr)
    sys.exit(2)


def scratch_root():
    for d in (os.environ.get("VF_SCRATCH"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 1 << 30:
                    return d
            except OSError:
                pass
    return "/tmp"


def handle(f):
    """The h5py.File of a File, wherever it keeps it."""
    import h5py
    todo = [f]
    for x in todo:
        if isinstance(x, h5py.File):
            return x
        if len(todo) < 100:
            todo += [y for y in getattr(x, "__dict__", {}).values() if isinstance(y, h5py.File) or type(y).__module__.startswith("hdf5storage")]
    raise AssertionError("no h5py.File in %r" % f)


def lock_free(f, timeout):
    """Whether the locks of a File can be had."""
    for x in vars(f).values():
        if hasattr(x, "acquire") and hasattr(x, "release"):
            if not x.acquire(timeout=timeout):
                return False
            x.release()
    return True
