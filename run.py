import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

# the repository's modules are always compiled from their current source
import importlib.machinery as _im  # noqa: E402

_get_code = _im.SourceFileLoader.get_code


def _fresh(self, fullname):
    if os.path.abspath(self.path).startswith(os.path.abspath(sys.path[1]) + os.sep):
        return self.source_to_code(self.get_data(self.path), self.path)
    return _get_code(self, fullname)


_im.SourceFileLoader.get_code = _fresh
from pyvc.driver import main  # noqa: E402

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
