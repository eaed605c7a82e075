#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--case NAME] | run.py <ID> --replay FILE"""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PLOTLY_RENDERER": "json",
       "RAY_USAGE_STATS_ENABLED": "0", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "BROWSER": "/bin/true", "QT_QPA_PLATFORM": "offscreen",
       "PYVISTA_OFF_SCREEN": "true", "PYTHONWARNINGS": "ignore"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from symx import driver  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        import numpy
        import z3
        from checks import common  # noqa: F401
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        assert s.check() == z3.unsat
        print("z3", z3.get_version_string(), "numpy", numpy.__version__)
        sys.exit(0)
    sys.exit(driver.main(sys.argv[1:], HERE, REPO))
