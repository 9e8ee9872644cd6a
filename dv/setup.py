"""Nothing to build: checks that the interpreter and the solver are present."""
import sys, mpmath, z3
print("python", sys.version.split()[0], "z3", z3.get_version_string(), "mpmath", mpmath.__version__)
