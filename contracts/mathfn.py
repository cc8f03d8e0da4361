"""fisx::Math as the other classes see it."""
from dsl import *
FINITE = Contract('fisx::Math::isFiniteNumber', trusted='doubles are exact reals here: every value is finite', ensures=lambda c: [('finite', c.result)])
