"""checks that every tool the checks need is present; there is nothing to build in advance"""
import shutil, sys
need = ["clang++", "g++", "z3", "z3-new", "cvc5"]
miss = [n for n in need if not shutil.which(n)]
import z3
print("z3py", z3.get_version_string(), "missing:", miss)
sys.exit(1 if miss else 0)
