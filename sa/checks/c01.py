"""C01: array element access."""
from .. import opspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE
    opspec.check(ck, ('array',), 36)
