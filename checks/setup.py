"""setup: verify that the verifier, the solver and the repository import"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import live          # noqa: F401
import z3
print('z3', z3.get_version_string())
