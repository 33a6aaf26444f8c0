"""C08: calls, arguments and returns."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('call',), 44)
    fspec.check(ck, ('call', 'init'), 14)
