"""setup_cmd: compile the extension once so that the checks find it in the cache, and test the solver."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import cvlm, solve
print(cvlm.build())
print("z3", solve.z3.get_version_string())
