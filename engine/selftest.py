"""Setup check: the interpreter, numpy and the solver are usable offline."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import numpy                    # noqa
from engine import solve        # noqa
import z3
s = z3.Solver()
x = z3.Real('x')
s.add(x * x < 0)
assert s.check() == z3.unsat
print('python %s numpy %s z3 %s' % (sys.version.split()[0], numpy.__version__,
                                    z3.get_version_string()))
