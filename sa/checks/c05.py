"""C05: exceptions and control flow."""
from .. import opspec, fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = opspec.RULE + " " + fspec.RULE
    opspec.check(ck, ('exception','flow',), 12, extra=lambda n: n.startswith('CALL_'))
    fspec.check(ck, ('exception',), 3, ('call_method', 'call_method_no_mortal', 'call_method_common', 'call_method_vm', 'call_method_native', 'call_class_method_by_name', 'call_instance_method_by_name', 'call_instance_method_static_by_name', 'call_init_methods'))
