"""Specification vocabulary shared by the contracts (generic homomorphisms)."""
from pyvc.core import *   # pylint: disable=wildcard-import
import z3

# concatenation / sums / conjunctions of plain element lists; the engine uses
# these names for ''.join, sum, all and any.
JOIN = Hom('join', STR, M_STR, lambda x: x)
SUM = Hom('sum', INT, M_SUM, lambda x: x)
RSUM = Hom('rsumh', REAL, M_RSUM, lambda x: x)
ALL = Hom('all', BOOL, M_AND, lambda x: x)
ANYH = Hom('any', BOOL, M_OR, lambda x: x)
COUNTT = Hom('countT', BOOL, M_SUM,
             lambda x: z3.If(x, z3.IntVal(1), z3.IntVal(0)),
             inv=lambda v: v >= 0)
