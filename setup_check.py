"""Nothing to build: verify that the interpreter, the solver and the engine are usable."""
import os
import sys

os.environ["NUMBA_DISABLE_JIT"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex import core, load  # noqa: E402

load.install()
import building3d.geom.building  # noqa: E402,F401

print("setup ok: z3", core.z3.get_version_string())
