"""Helper process of C29: digests of a chunk of documents under this process's hash seed."""
import sys

from . import run

run.bind()
from .checks import c29  # noqa: E402

print("\n".join(c29.digests(int(sys.argv[1]), bool(int(sys.argv[2])), int(sys.argv[3]))))
