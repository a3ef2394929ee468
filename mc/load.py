"""Import the code under test from /repo's working tree."""
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
logging.getLogger().addHandler(logging.NullHandler())
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def verify():
    import infi                      # a namespace package: our tree first
    first = os.path.join(SRC, "infi")
    path = [first] + [entry for entry in infi.__path__ if os.path.abspath(entry) != first]
    infi.__path__[:] = path
    import infi.asi
    where = os.path.abspath(infi.asi.__file__)
    if not where.startswith(SRC + os.sep):
        from .core import HarnessError
        raise HarnessError("infi.asi imported from %s, not from %s" % (where, SRC))


verify()
