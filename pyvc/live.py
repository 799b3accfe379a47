"""The live code of /repo: imports qnet and enumerates its concrete classes."""
import inspect
import os
import sys

REPO = os.environ.get('QNET_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True

import warnings
warnings.filterwarnings('ignore')

import sympy                                             # noqa: E402
import qnet                                              # noqa: E402
assert os.path.realpath(qnet.__file__).startswith(os.path.realpath(REPO)), qnet.__file__
from qnet.algebra.core import (                          # noqa: E402
    abstract_algebra as AA, abstract_quantum_algebra as AQ, scalar_algebra as SA,
    operator_algebra as OA, state_algebra as STA, super_operator_algebra as SOA,
    hilbert_space_algebra as HSA, circuit_algebra as CA, matrix_algebra as MA,
    algebraic_properties as AP, indexed_operations as IO, exceptions as EX)
from qnet.algebra import _rules as RULES                 # noqa: E402
from qnet.algebra import pattern_matching as PM          # noqa: E402
from qnet.algebra.library import (                       # noqa: E402
    fock_operators as FO, spin_algebra as SPA, pauli_matrices as PAU, circuit_components as CC)
from qnet.algebra.toolbox import (                       # noqa: E402
    core as TC, circuit_manipulation as TCM, commutator_manipulation as TCO, equation as TEQ)
from qnet.utils import (                                 # noqa: E402
    indices as IDX, ordering as ORD, permutations as PERM, singleton as SING, check_rules as CHK,
    containers as CONT, properties_for_args as PFA)
from qnet.convert import to_qutip as TQ, to_sympy_matrix as TS   # noqa: E402


def subclasses(base):
    out = []
    todo = [base]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.append(c)
        todo.extend(c.__subclasses__())
    return out


def concrete(base):
    return frozenset(c for c in subclasses(base)
                     if not inspect.isabstract(c) and c.__module__.startswith('qnet.'))


NATIVE = (int, float, complex, sympy.Basic)
SYMLABEL = IDX.SymbolicLabelBase


def _noabs(cs, *drop):
    return frozenset(c for c in cs if c.__name__ not in drop)


SCALARS = concrete(SA.Scalar)
OPS = concrete(OA.Operator)
STATES = concrete(STA.State)
SOPS = concrete(SOA.SuperOperator)
HSS = concrete(HSA.HilbertSpace)
LABELS = frozenset([int, str]) | frozenset(
    c for c in subclasses(SYMLABEL) if not inspect.isabstract(c) and c.__module__.startswith('qnet.'))
RANGES = frozenset(c for c in subclasses(IDX.IndexRangeBase)
                   if not inspect.isabstract(c) and c.__module__.startswith('qnet.'))
KETS = frozenset(c for c in STATES if c.__name__ != 'Bra')
BRAS = frozenset(c for c in STATES if c.__name__ == 'Bra')
CIRCS = concrete(CA.Circuit)
