"""setup: checks that the toolchain is there and that every specification parses"""
import subprocess
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

if __name__ == "__main__":
    cp = TLA_CP
    bad = 0
    specs = sorted(p.name for p in SPECS.glob("*.tla"))
    p = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", *specs], cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode or "Fatal" in p.stdout or "*** Errors" in p.stdout:
        print(p.stdout[-3000:])
        bad = 1
    v = subprocess.run([PY, "-c", "import sys; print(sys.version)"], stdout=subprocess.PIPE, text=True)
    print("python:", v.stdout.strip(), "specifications:", len(specs))
    sys.exit(bad)
