"""setup_cmd: nothing is installed; confirms that the harness interpreter has what the checks import"""
import hypothesis, numpy, sys
print("python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
