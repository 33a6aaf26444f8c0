"""C14: access by name from native code."""
from .. import fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = fspec.RULE
    fspec.check(ck, ('class_var_by_name', 'field_by_name', 'creation_by_name', 'lookup'), 50)
