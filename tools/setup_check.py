"""setup_cmd: nothing to build; verifies that the explorer and the package under test import offline."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import core, env  # noqa
import czone
print("czone from", czone.__file__)
