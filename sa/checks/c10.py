"""C10: run-time type checks."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('types',), 10)
    fspec.check(ck, ('type_test', 'type_name', 'dump'), 20)
