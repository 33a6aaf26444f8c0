"""C03: numeric operators."""
from .. import opspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE
    opspec.check(ck, ('arith','compare','divide',), 75)
