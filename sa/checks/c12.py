"""C12: reference counting, scopes, destructors."""
import re
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('scope',), 2, extra=lambda n: re.search(r'OBJECT|STRING|UNDEF|NEW_', n) and not re.search(r'COMPARISON|CONVERSION|BOOL|LENGTH', n))
    fspec.check(ck, ('refcount', 'stack'), 10, ('set_field_object', 'set_field_string', 'set_elem_object', 'set_elem_string', 'set_class_var_object', 'set_class_var_string', 'call_method', 'call_method_vm', 'call_method_native', 'destroy_class_vars', 'weaken', 'unweaken', 'set_exception', 'free_weaken_backrefs', 'free_memory_block', 'new_object', 'new_string', 'copy'))
