"""Nothing to build: checks that the tools the checks need are here."""
import importlib, subprocess, sys
for m in ("z3", "cvc5"):
    importlib.import_module(m)
sys.path.insert(0, "/verif" if len(sys.argv) < 2 else sys.argv[1])
print("ok")
