"""C26: the compiler's containers and allocator."""
from .. import fspec

LEVEL = "translation_validation"

def run(ck):
    ck.rule = fspec.RULE
    fspec.check(ck, ("list", "hash", "buffer", "allocator", "opcode_list"), 28, lib="core")
