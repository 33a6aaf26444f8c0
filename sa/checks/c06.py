"""C06: type conversions."""
from .. import opspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE
    opspec.check(ck, ('convert',), 52)
