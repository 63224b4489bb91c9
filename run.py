import sys
import os
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
# z3 lives in the verification tooling environment; appended so that the project's own libraries win
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
from symex import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
