"""Entry point of every check: python check.py <property id>."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "NUMBA_DISABLE_JIT": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYVISTA_OFF_SCREEN": "true",
    "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)

from symex import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1].upper()))
