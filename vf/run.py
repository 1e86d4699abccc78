import os
import sys

from . import env  # noqa: F401
from .core import main

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
