"""setup_cmd: nothing is compiled; check that the engine and the solver load."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symx import core, run, loader
z3 = core.z3

s = z3.Solver()
x = z3.Real("x")
s.add(x * x < 0)
assert s.check() == z3.unsat
run.real_rigeo()
print("ok: z3", z3.get_version_string(), "sources", loader.REPO)
