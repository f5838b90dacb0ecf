"""Nothing is compiled: report that the tools the checks use are there."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, sympy, numpy, numba, scipy
print('python', sys.version.split()[0], 'z3', z3.get_version_string(), 'sympy', sympy.__version__,
      'numpy', numpy.__version__, 'numba', numba.__version__)
