"""C11: assignment, multi-numeric values and references."""
from .. import opspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE
    opspec.check(ck, ('move','mulnum','assign',), 74)
