"""C09: object creation."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('create',), 11)
    fspec.check(ck, ('creation', 'memory'), 25)
