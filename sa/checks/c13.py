"""C13: weak references."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, (), 3, extra=lambda n: 'WEAK' in n or n in ('GET_FIELD_OBJECT', 'SET_FIELD_OBJECT', 'SET_FIELD_STRING', 'SET_FIELD_UNDEF', 'GET_FIELD_STRING'))
    fspec.check(ck, ('weak',), 6, ('assign_object', 'get_field_object', 'get_field_string', 'set_field_object', 'set_field_string', 'get_elem_object'))
