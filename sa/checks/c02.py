"""C02: field and class variable access."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('field',), 30)
    fspec.check(ck, ('class_var', 'field'), 25)
