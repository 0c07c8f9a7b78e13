"""setup_cmd: nothing has to be built; verify that the interpreter and libraries are usable."""
import sys

import hypothesis
import mpmath
import numpy
import scipy

print("python", sys.version.split()[0], "numpy", numpy.__version__, "scipy", scipy.__version__,
      "mpmath", mpmath.__version__, "hypothesis", hypothesis.__version__)
