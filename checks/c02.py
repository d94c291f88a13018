"""C02: floating expressions, model = vlib.cexpr with exact IEEE rounding."""
from . import c01

RULE = c01.RULE
MIN_EVALS = 5000


def check(ck):
    c01.go(ck, True)
