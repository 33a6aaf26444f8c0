"""C07: string operators."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('string',), 12)
    fspec.check(ck, ('string', 'print'), 30)
