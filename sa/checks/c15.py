"""C15: the native API tables."""
import os, re, glob
from .. import build, fspec, ir, tables
from ..build import AnalysisBroken

LEVEL = "other"
# table type, constructor, prefix of the functions, page of the documents
T = [("struct.spvm_api_allocator", "SPVM_API_ALLOCATOR_new_api", "SPVM_API_ALLOCATOR_", "NativeAPI/Allocator"), ("struct.spvm_api_string_buffer", "SPVM_API_STRING_BUFFER_new_api", "SPVM_API_STRING_BUFFER_", "NativeAPI/StringBuffer"),
     ("struct.spvm_api_compiler", "SPVM_API_COMPILER_new_api", "SPVM_API_COMPILER_", "NativeAPI/Compiler"), ("struct.spvm_api_class_file", "SPVM_API_CLASS_FILE_new_api", "SPVM_API_CLASS_FILE_", "NativeAPI/ClassFile"),
     ("struct.spvm_api_runtime", "SPVM_API_RUNTIME_new_api", "SPVM_API_RUNTIME_", "NativeAPI/Runtime"), ("struct.spvm_api_basic_type", "SPVM_API_BASIC_TYPE_new_api", "SPVM_API_BASIC_TYPE_", "NativeAPI/BasicType"),
     ("struct.spvm_api_class_var", "SPVM_API_CLASS_VAR_new_api", "SPVM_API_CLASS_VAR_", "NativeAPI/ClassVariable"), ("struct.spvm_api_field", "SPVM_API_FIELD_new_api", "SPVM_API_FIELD_", "NativeAPI/Field"),
     ("struct.spvm_api_method", "SPVM_API_METHOD_new_api", "SPVM_API_METHOD_", "NativeAPI/Method"), ("struct.spvm_api_arg", "SPVM_API_ARG_new_api", "SPVM_API_ARG_", "NativeAPI/Argument"),
     ("struct.spvm_api_type", "SPVM_API_TYPE_new_api", "SPVM_API_TYPE_", "NativeAPI/Type"), ("struct.spvm_api_internal", "SPVM_API_INTERNAL_new_api", "SPVM_API_INTERNAL_", "NativeAPI/Internal"),
     ("struct.spvm_api_mutex", "SPVM_API_MUTEX_new_api", "SPVM_API_MUTEX_", "NativeAPI/Mutex"), ("struct.spvm_env", "SPVM_API_new_env", "SPVM_API_", "NativeAPI")]
API_MEMBER = {m: t for m, t in (("allocator", 0), ("string_buffer", 1), ("compiler", 2), ("class_file", 3), ("runtime", 4), ("basic_type", 5), ("class_var", 6), ("field", 7), ("method", 8), ("arg", 9), ("type", 10), ("internal", 11), ("mutex", 12))}

def documented(page):
    """slot numbers the documents give: name -> id"""
    p = os.path.join(build.REPO, "lib/SPVM/Document", page + ".pm")
    if not os.path.exists(p): return {}
    t = open(p, errors="replace").read()
    m = re.search(r"=head1 (?:Native API IDs|Native APIs? ?IDs?)\n(.*?)(?:\n=head1|\Z)", t, re.S)
    if not m: return {}
    l = [(int(k), n) for k, n in re.findall(r"^ +(\d+) (\w+),?$", m.group(1), re.M)]
    ks = [k for k, n in l]
    return {n: k for k, n in l if ks.count(k) == 1}      # a number given twice says nothing

def run(ck):
    ck.rule = ("For every constructor of a native API table the contents of the memory it returns are evaluated over the intermediate representation of the current source (initialisers, stores, copies): each slot must hold the function "
               "named after it, that function's calling signature must be the slot's (return, argument count, width, signedness), and the slot's position must be the one the native API documents give. ")
    P = fspec.pair().p
    src = build.builder_sources()
    rest = [s for s in src if os.path.basename(s) not in ()]
    for st, ctor, prefix, page in T:
        if st not in P.distructs: raise AnalysisBroken("no " + st)
        f = P.fn(ctor); ck.functions.add(ctor)
        tb = tables.table(P, ctor, st)
        doc = documented(page); k = 0
        off = {}
        for n, o, di in P.distructs[st]: off[n] = o // 8
        for n, (x, loc, di) in tb.items():
            if n in ("runtime", "api") and st == "struct.spvm_env": continue
            if n not in P.sigs.get(st, {}): continue
            ck.count("slots")
            want = prefix + n
            if not isinstance(x, str) or not x.startswith("@"):
                ck.violation("slot:%s.%s" % (st[7:], n), "%s: slot %s of %s is not filled with a function (%s)" % (loc, n, st[7:], x)); continue
            if x[1:] != want and want in P.fns:
                ck.violation("slot:%s.%s" % (st[7:], n), "%s: slot %s of %s holds %s, not %s" % (loc, n, st[7:], x[1:], want)); continue
            if x[1:] != want and x[1:] in [prefix + m for m in tb]:
                ck.violation("slot:%s.%s" % (st[7:], n), "%s: slot %s of %s holds %s, the function of another slot" % (loc, n, st[7:], x[1:])); continue
            a, b = P.sigs[st][n], P.fnsigs.get(x[1:])
            if b is not None:
                ck.count("calling signatures")
                if a != b: ck.violation("signature:%s.%s" % (st[7:], n), "%s: slot %s of %s is called as %s, but %s is %s" % (loc, n, st[7:], a, x[1:], b))
            if n in doc:
                ck.count("documented positions")
                if doc[n] != off[n]: ck.violation("position:%s.%s" % (st[7:], n), "lib/SPVM/Builder/include/spvm_native.h: slot %s of %s is number %d, documented as %d" % (n, st[7:], off[n], doc[n]))
        ck.sample("%s: %d slots evaluated in %s" % (st[7:], len(tb), ctor))
    # env->api
    m = tables.Mem(P, P.fn("SPVM_API_new_env")); r = m.returned()
    env = tables.members(P, m, r, "struct.spvm_env")
    a = env["api"][0]
    if not isinstance(a, tuple): raise AnalysisBroken("SPVM_API_new_env: the api member was not recognised")
    sub = tables.members(P, m, a[0], "struct.spvm_env_api")
    for n, (x, loc, di) in sub.items():
        ck.count("sub-tables")
        want = T[API_MEMBER[n]][1] if n in API_MEMBER else None
        got = x[0][1] if isinstance(x, tuple) and isinstance(x[0], tuple) else x
        if want and got != want: ck.violation("api:" + n, "%s: env->api->%s is built by %s, not %s" % (loc, n, got, want))
    ck.need("slots", 350); ck.need("calling signatures", 330); ck.need("sub-tables", 13); ck.need("documented positions", 200)
