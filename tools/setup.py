"""Offline sanity check of the tools the checks need."""
import os, subprocess, sys
import z3
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = z3.SimpleSolver(); x = z3.Int("x"); s.add(x > 0, x < 1); assert s.check() == z3.unsat
assert subprocess.run(["cvc5", "--version"], capture_output=True).returncode == 0
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import vc.contracts
print("ok")
