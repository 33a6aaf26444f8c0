"""C21: the opcodes the compiler emits."""
import os
from .. import build, kinds, codegen, flow, spec
from ..absint import C, S, P
from ..build import AnalysisBroken
from ..codegen import sym, con, used, throws, show, showv, NUM
from . import c17

LEVEL = "other"
SRC = ("spvm_opcode_builder.c", "spvm_op.c", "spvm_type.c", "spvm_basic_type.c")
OBJ = ("string", "object", "Int", "Class", "Interface", "int[]", "string[]", "object[]", "Class[]", "Mulnum[]", "int[]..", "Class[]..")

def program():
    from ..fspec import merged
    return merged(build.compile_bc([build.BUILDER + "/src/" + f for f in SRC]), "codegen", keep=None)

I = lambda n: sym("idx:" + n)
def lin(v): return con(v[1]) if v[0] == "c" else sym(v[1])

class Cases:
    """every case: a label, the tree, the opcodes documented for it"""
    def __init__(s, b): s.b, s.out, s.k = b, [], b.w.byname
    def expr(s, label, kids, want, src=None, dist="int", elem="int", uv=None, flag=0, stype=None, op=None, wrap=False, after=None, assignable=0):
        """$d = OP(kids)"""
        def make():
            t = s.b.tree(elem); s.b.assignable = assignable
            d = t.var("d", s.k[dist])
            ks = [k(t) for k in kids]
            o = op(t, ks) if op else t.op(src, ks, type=s.k[stype] if stype else None, uv=uv(t) if uv else None, flag=flag)
            if wrap: o = t.op("SEQUENCE", [t.var("z", s.k["int"]), o])
            a = t.op("ASSIGN", [o, d], type=s.k[dist])
            if after: after(t, a, o, d)
            return t.method(a)
        s.out.append((label, make, want))
    def store(s, label, dist, src, want, elem="int"):
        """DIST = $a"""
        def make():
            t = s.b.tree(elem)
            d, v = dist(t), src(t)
            return t.method(t.op("ASSIGN", [v, d], type=s.k["int"]))
        s.out.append((label, make, want))
    def stmt(s, label, root, want, rtype="int", elem="int"):
        def make():
            t = s.b.tree(elem)
            r = root(t)
            return t.method(r, rtype=t.ty(s.k[rtype]))
        s.out.append((label, make, want))
    def V(s, name, kind): return lambda t: t.var(name, s.k[kind])
    def undef(s): return lambda t: t.op("UNDEF", type=s.k["undef"])

def U(name): return {"byte": "BYTE", "short": "SHORT", "int": "INT", "long": "LONG", "float": "FLOAT", "double": "DOUBLE"}[name]

def expressions(b):
    q = Cases(b); V = q.V
    bin_ = lambda src, name, k, d=None: q.expr("%s %s" % (src, k), [V("a", k), V("b", k)], [(name, {0: I("d"), 1: I("a"), 2: I("b")})], src=src, dist=d or k)
    un = lambda src, name, k, d: q.expr("%s %s" % (src, k), [V("a", k)], [(name, {0: I("d"), 1: I("a")})], src=src, dist=d)
    # operators on numbers
    for k in ("int", "long", "float", "double"):
        for o in ("ADD", "SUBTRACT", "MULTIPLY", "DIVIDE"): bin_(o, "%s_%s" % (o, U(k)), k)
        un("PLUS", "MOVE_" + U(k), k, k); un("MINUS", "NEGATE_" + U(k), k, k)
        for o in ("EQ", "NE", "GT", "GE", "LT", "LE", "CMP"): bin_("NUMERIC_COMPARISON_" + o, "NUMERIC_COMPARISON_%s_%s" % (o, U(k)), k, "int")
    for k in ("int", "long"):
        for o in ("MODULO", "BIT_AND", "BIT_OR", "BIT_XOR"): bin_(o, "%s_%s" % (o, U(k)), k)
        for o in ("LEFT_SHIFT", "RIGHT_ARITHMETIC_SHIFT", "RIGHT_LOGICAL_SHIFT"):
            q.expr("%s %s" % (o, k), [V("a", k), V("b", "int")], [("%s_%s" % (o, U(k)), {0: I("d"), 1: I("a"), 2: I("b")})], src=o, dist=k)
        un("BIT_NOT", "BIT_NOT_" + U(k), k, k)
        for o in ("DIVIDE_UNSIGNED", "MODULO_UNSIGNED"): bin_("%s_%s" % (o, U(k)), "%s_%s" % (o, U(k)), k)
    # comparison of objects and references
    for o in ("EQ", "NE"):
        for k in OBJ: bin_("NUMERIC_COMPARISON_" + o, "NUMERIC_COMPARISON_%s_OBJECT" % o, k, "int")
        for k in ("int*", "Mulnum*"): bin_("NUMERIC_COMPARISON_" + o, "NUMERIC_COMPARISON_%s_REF" % o, k, "int")
        n = "IS_UNDEF" if o == "EQ" else "IS_NOT_UNDEF"
        for k in OBJ:
            q.expr("%s %s, undef" % (o, k), [V("a", k), q.undef()], [(n, {0: I("d"), 1: I("a")})], src="NUMERIC_COMPARISON_" + o)
            q.expr("%s undef, %s" % (o, k), [q.undef(), V("b", k)], [(n, {0: I("d"), 1: I("b")})], src="NUMERIC_COMPARISON_" + o)
    for o in ("EQ", "NE", "GT", "GE", "LT", "LE", "CMP"): bin_("STRING_COMPARISON_" + o, "STRING_COMPARISON_" + o, "string", "int")
    bin_("STRING_CONCAT", "STRING_CONCAT", "string")
    # operators on objects
    for k in OBJ:
        un("TYPE_NAME", "TYPE_NAME", k, "string"); un("DUMP", "DUMP", k, "string"); un("COPY", "COPY", k, k)
        for o in ("ISA", "ISA_ERROR", "IS_TYPE", "IS_ERROR"):
            for x in OBJ[:4] + OBJ[5:7] + OBJ[10:] if k in ("object", "Class") else ():
                w = b.w2[x]
                def op(t, ks, o=o, w=w):
                    ty = t.op("TYPE", type=w, uv=t.ty(w)); return t.op(o, ks + [ty])
                q.expr("%s %s, %s" % (o, k, x), [V("a", k)], [(o, {0: I("d"), 1: I("a"), 2: lin(w.bid), 3: lin(w.dim)})], op=op)
    for o, k, d in (("NEW_STRING_LEN", "int", "string"), ("IS_READ_ONLY", "string", "int"), ("STRING_LENGTH", "string", "int"), ("ARRAY_LENGTH", "int[]", "int")): un(o, o, k, d)
    q.expr("UNDEF", [], [("MOVE_OBJECT_UNDEF", {0: I("d")})], src="UNDEF", dist="Class")
    q.expr("EXCEPTION_VAR", [], [("GET_EXCEPTION_VAR", {0: I("d")})], src="EXCEPTION_VAR", dist="string")
    q.expr("EVAL_ERROR_ID", [], [("GET_EVAL_ERROR_ID", {0: I("d")})], src="EVAL_ERROR_ID")
    q.expr("ARGS_WIDTH", [], [("ARGS_WIDTH", {0: I("d")})], src="ARGS_WIDTH")
    for o in ("PRINT", "SAY", "MAKE_READ_ONLY"): q.expr(o, [V("a", "string")], [(o, {0: I("a")})], src=o, dist="int")
    q.expr("WARN", [V("a", "string")], [("WARN", {0: I("a"), 1: sym("line")})], src="WARN", dist="int")
    q.expr("CAN", [V("a", "Class")], [("CAN", {0: I("d"), 1: I("a"), 2: sym("conststr.index")})], op=lambda t, ks: t.op("CAN", ks + [t.op("NAME", uv=t.obj("str"))]))
    q.expr("BASIC_TYPE_ID", [], [("GET_BASIC_TYPE_ID", {0: I("d"), 1: sym("class1")})], op=lambda t, ks: t.op("BASIC_TYPE_ID", [t.op("TYPE", type=q.k["Class"], uv=t.ty(q.k["Class"]))]))
    # conditions
    # the value is in $d and in the condition flag, the first int variable
    cond = lambda name, k: q.expr("CONDITION_EVALUATION " + k, [V("a", k)], [(name, {0: I("d"), 1: I("a")}), ("MOVE_INT", {0: con(0), 1: I("d")})], src="CONDITION_EVALUATION", dist="int")
    for k in ("int", "long", "float", "double"): cond("CONDITION_EVALUATION_" + U(k), k)
    for k in OBJ: cond("CONDITION_EVALUATION_OBJECT", k)
    cond("CONDITION_EVALUATION_BOOL_OBJECT", "Bool"); cond("CONDITION_EVALUATION_REF", "int*")
    # constants
    for k, c in (("byte", "i8"), ("int", "i32"), ("long", "i64"), ("float", ("i32", "float")), ("double", ("double", "i64"))):
        for cc in [c]:
            def uv(t): return t.raw("constant")
            q.expr("CONSTANT " + k, [], [("MOVE_CONSTANT_" + U(k), {0: I("d"), 1: [sym("const:" + x) for x in (cc if isinstance(cc, tuple) else (cc,))]})], src="CONSTANT", dist=k, uv=uv)
    q.expr("CONSTANT string", [], [("NEW_STRING", {0: I("d"), 1: sym("conststr.index")})], src="CONSTANT", dist="string", uv=lambda t: t.raw("constant", string_length=S("conststr.length")))
    # variables
    for k in NUM: q.expr("VAR " + k, [], [("MOVE_" + U(k), {0: I("d"), 1: I("a")})], op=lambda t, ks, k=k: t.var("a", q.k[k]), dist=k)
    for k in OBJ: q.expr("VAR " + k, [], [("MOVE_OBJECT", {0: I("d"), 1: I("a")})], op=lambda t, ks, k=k: t.var("a", q.k[k]), dist=k)
    for k in ("int*", "Mulnum*"): q.expr("VAR " + k, [], [("MOVE_REF", {0: I("d"), 1: I("a")})], op=lambda t, ks, k=k: t.var("a", q.k[k]), dist=k)
    for e in NUM: q.expr("VAR Mulnum of " + e, [], [("MOVE_MULNUM_" + U(e), {0: I("d"), 1: I("a"), 2: sym("nfields")})], op=lambda t, ks: t.var("a", q.k["Mulnum"]), dist="Mulnum", elem=e)
    # $d = ($a = $b), $d = ($z, $a)
    for k in NUM + OBJ + ("int*",):
        n = "MOVE_" + (U(k) if k in NUM else "REF" if k == "int*" else "OBJECT")
        q.expr("ASSIGN " + k, [], [(n, {0: I("a"), 1: I("b")}), (n, {0: I("d"), 1: [I("a"), I("b")]})], op=lambda t, ks, k=k: t.op("ASSIGN", [t.var("b", q.k[k]), t.var("a", q.k[k])], type=q.k[k]), dist=k)
        q.expr("SEQUENCE " + k, [], [(n, {0: I("d"), 1: I("a")})], op=lambda t, ks, k=k: t.var("a", q.k[k]), dist=k, wrap=True)
    # references
    for k in NUM:
        q.expr("REFERENCE " + k, [V("a", k)], [("REF_" + U(k), {0: I("d"), 1: I("a")})], src="REFERENCE", dist=k + "*")
        q.expr("REFERENCE Mulnum of " + k, [V("a", "Mulnum")], [("REF_" + U(k), {0: I("d"), 1: I("a")})], src="REFERENCE", dist="Mulnum*", elem=k)
        q.expr("DEREFERENCE " + k, [V("a", k + "*")], [("GET_DEREF_" + U(k), {0: I("d"), 1: I("a")})], src="DEREFERENCE", stype=k, dist=k)
        q.expr("DEREFERENCE Mulnum of " + k, [V("a", "Mulnum*")], [("DEREF_MULNUM_" + U(k), {0: I("d"), 1: I("a"), 3: sym("nfields")})], src="DEREFERENCE", stype="Mulnum", dist="Mulnum", elem=k)
        q.store("$$d = " + k, lambda t, k=k: t.op("DEREFERENCE", [t.var("d", q.k[k + "*"])], type=q.k[k]), V("a", k), [("SET_DEREF_" + U(k), {0: I("d"), 1: I("a")})])
    # fields, elements, class variables
    FA = lambda t: t.obj("field_access", field=t.field())
    own, fidx = sym("owner.id"), sym("field.index")
    for k in NUM + OBJ:
        u = U(k) if k in NUM else "OBJECT"
        q.expr("FIELD_ACCESS " + k, [V("o", "Class")], [("GET_FIELD_" + u, {0: I("d"), 1: I("o"), 2: own, 3: fidx})], src="FIELD_ACCESS", uv=FA, stype=k, dist=k)
        q.store("field = " + k, lambda t, k=k: t.op("FIELD_ACCESS", [t.var("o", q.k["Class"])], type=q.k[k], uv=FA(t)), V("a", k), [("SET_FIELD_" + u, {0: I("o"), 1: I("a"), 2: own, 3: fidx})])
        CV = lambda t: t.obj("class_var_access", class_var=t.obj("class_var", index=t.rng("cv.index", 0, 65535), current_basic_type=t.obj("owner", id=t.rng("owner.id", 0, 65535))))
        q.expr("CLASS_VAR_ACCESS " + k, [], [("GET_CLASS_VAR_" + u, {0: I("d"), 1: own, 2: sym("cv.index")})], src="CLASS_VAR_ACCESS", uv=CV, stype=k, dist=k)
        q.store("class var = " + k, lambda t, k=k, CV=CV: t.op("CLASS_VAR_ACCESS", type=q.k[k], uv=CV(t)), V("a", k), [("SET_CLASS_VAR_" + u, {0: own, 1: sym("cv.index"), 2: I("a")})])
        if k in OBJ: q.store("class var = undef (%s)" % k, lambda t, k=k, CV=CV: t.op("CLASS_VAR_ACCESS", type=q.k[k], uv=CV(t)), q.undef(), [("SET_CLASS_VAR_UNDEF", {0: own, 1: sym("cv.index")})])
        if k in OBJ: q.store("field = undef (%s)" % k, lambda t, k=k: t.op("FIELD_ACCESS", [t.var("o", q.k["Class"])], type=q.k[k], uv=FA(t)), q.undef(), [("SET_FIELD_UNDEF", {0: I("o"), 2: own, 3: fidx})])
    for k in NUM:
        for inv, s_ in (("Mulnum", ""), ("Mulnum*", "DEREF_")):
            q.expr("FIELD_ACCESS %s of %s" % (inv, k), [V("o", inv)], [("GET_MULNUM_FIELD_%s%s" % (s_, U(k)), {0: I("d"), 1: I("o"), 2: fidx})], src="FIELD_ACCESS", uv=FA, stype=k, dist=k, elem=k)
            q.store("field of %s = %s" % (inv, k), lambda t, k=k, inv=inv: t.op("FIELD_ACCESS", [t.var("o", q.k[inv])], type=q.k[k], uv=FA(t)), V("a", k), [("SET_MULNUM_FIELD_%s%s" % (s_, U(k)), {0: I("o"), 1: I("a"), 2: fidx})], elem=k)
        packed = ((("field.index", 256), ("nfields", 1)), -1)
        AF = lambda t: t.obj("array_field_access", field=t.field())
        q.expr("ARRAY_FIELD_ACCESS " + k, [V("o", "Mulnum[]"), V("i", "int")], [("GET_MULNUM_ARRAY_FIELD_" + U(k), {0: I("d"), 1: I("o"), 2: I("i"), 3: packed})], src="ARRAY_FIELD_ACCESS", uv=AF, stype=k, dist=k, elem=k)
        q.store("array field = " + k, lambda t, k=k, AF=AF: t.op("ARRAY_FIELD_ACCESS", [t.var("o", q.k["Mulnum[]"]), t.var("i", q.k["int"])], type=q.k[k], uv=AF(t)), V("a", k), [("SET_MULNUM_ARRAY_FIELD_" + U(k), {0: I("o"), 1: I("i"), 2: I("a"), 3: packed})], elem=k)
        q.expr("ELEMENT_ACCESS Mulnum[] of " + k, [V("o", "Mulnum[]"), V("i", "int")], [("GET_MULNUM_ARRAY_" + U(k), {0: I("d"), 1: I("o"), 2: I("i"), 3: sym("nfields")})], src="ELEMENT_ACCESS", stype="Mulnum", dist="Mulnum", elem=k)
        q.store("element of Mulnum[] of " + k, lambda t: t.op("ELEMENT_ACCESS", [t.var("o", q.k["Mulnum[]"]), t.var("i", q.k["int"])], type=q.k["Mulnum"]), V("a", "Mulnum"), [("SET_MULNUM_ARRAY_" + U(k), {0: I("o"), 1: I("i"), 2: I("a"), 3: sym("nfields")})], elem=k)
    for f, name in (("WEAKEN", "WEAKEN_FIELD"), ("UNWEAKEN", "UNWEAKEN_FIELD")):
        q.expr(name, [V("o", "Class")], [(name, {0: I("o"), 2: own, 3: fidx})], src="FIELD_ACCESS", uv=FA, stype="Class", dist="int", flag=b.prog.enums["SPVM_OP_C_FLAG_FIELD_ACCESS_" + f])
    q.expr("ISWEAK_FIELD", [V("o", "Class")], [("ISWEAK_FIELD", {0: I("d"), 1: I("o"), 2: own, 3: fidx})], src="FIELD_ACCESS", uv=FA, stype="Class", dist="int", flag=b.prog.enums["SPVM_OP_C_FLAG_FIELD_ACCESS_ISWEAK"])
    ELEM = {"int[]..": ("Class[]",), "Class[]..": ("Class[]",), "object[]": ("Class", "object", "int[]"), "string[]": ("string",), "Class[]": ("Class",), "Interface[]": ("Class", "Interface"), "Int[]": ("Int",)}
    EA = lambda a, e: lambda t: t.op("ELEMENT_ACCESS", [t.var("o", q.k[a]), t.var("i", q.k["int"])], type=q.k[e])
    for k in NUM:
        q.expr("ELEMENT_ACCESS %s[]" % k, [V("o", k + "[]"), V("i", "int")], [("GET_ARRAY_ELEMENT_" + U(k), {0: I("d"), 1: I("o"), 2: I("i")})], src="ELEMENT_ACCESS", stype=k, dist=k)
        q.store("element of %s[]" % k, EA(k + "[]", k), V("a", k), [("SET_ARRAY_ELEMENT_" + U(k), {0: I("o"), 1: I("i"), 2: I("a")})])
    for a, es in ELEM.items():
        # an element of these arrays may be of a narrower type than the array's static type says
        check = not a.startswith(("string", "int", "Int"))
        q.expr("ELEMENT_ACCESS " + a, [V("o", a), V("i", "int")], [("GET_ARRAY_ELEMENT_OBJECT", {0: I("d"), 1: I("o"), 2: I("i")})], src="ELEMENT_ACCESS", stype=es[0], dist=es[0])
        for e in es:
            names = ("SET_ARRAY_ELEMENT_OBJECT_CHECK_TYPE",) if check else ("SET_ARRAY_ELEMENT_OBJECT", "SET_ARRAY_ELEMENT_OBJECT_CHECK_TYPE")
            q.store("element of %s = %s" % (a, e), EA(a, e), V("a", e), [(names, {0: I("o"), 1: I("i"), 2: I("a")})])
        q.store("element of %s = undef" % a, EA(a, es[0]), q.undef(), [("SET_ARRAY_ELEMENT_UNDEF", {0: I("o"), 1: I("i")})])
    q.store("$@ = undef", lambda t: t.op("EXCEPTION_VAR", type=q.k["string"]), q.undef(), [("SET_EXCEPTION_VAR_UNDEF", {})])
    q.store("$@ = string", lambda t: t.op("EXCEPTION_VAR", type=q.k["string"]), V("a", "string"), [("SET_EXCEPTION_VAR", {0: I("a")})])
    # new
    def new(k): return lambda t, ks: t.op("NEW", [t.op("TYPE", type=q.k[k], uv=t.ty(q.k[k]))] + ks, type=q.k[k])
    for k in NUM: q.expr("NEW %s[]" % k, [V("n", "int")], [("NEW_%s_ARRAY" % U(k), {0: I("d"), 1: I("n")})], op=new(k + "[]"), dist=k + "[]")
    for k in ("string[]", "object[]", "Class[]", "Interface[]", "Int[]"): q.expr("NEW " + k, [V("n", "int")], [("NEW_OBJECT_ARRAY", {0: I("d"), 1: lin(q.k[k].bid), 2: I("n")})], op=new(k), dist=k)
    q.expr("NEW Mulnum[]", [V("n", "int")], [("NEW_MULNUM_ARRAY", {0: I("d"), 1: lin(q.k["Mulnum[]"].bid), 2: I("n")})], op=new("Mulnum[]"), dist="Mulnum[]")
    for k in ("int[]..", "Class[]..", "Mulnum[].."): q.expr("NEW " + k, [V("n", "int")], [("NEW_MULDIM_ARRAY", {0: I("d"), 1: lin(q.k[k].bid), 2: I("n"), 3: lin(q.k[k].dim)})], op=new(k), dist=k)
    for k in ("Class", "Int"): q.expr("NEW " + k, [], [("NEW_OBJECT", {0: I("d"), 1: lin(q.k[k].bid)})], op=new(k), dist=k)
    return q

def cast_code(d, s, ok):
    """the conversion a cast performs"""
    R = {0: I("d"), 1: I("a")}
    chk = {**R, 2: lin(d.bid), 3: lin(d.dim)}
    n = lambda k: k.base.upper()
    if s.undef(): return "MOVE_OBJECT_UNDEF", {0: I("d")}
    if d.numeric():
        if s.numeric(): return ("MOVE_" + n(d) if s.base == d.base else "TYPE_CONVERSION_%s_TO_%s" % (n(s), n(d))), R
        if s.string(): return "TYPE_CONVERSION_STRING_TO_" + n(d), R
        return "TYPE_CONVERSION_%s_OBJECT_TO_%s" % (n(d), n(d)), R
    if d.string():
        if s.string(): return ("MOVE_OBJECT_CHECK_READ_ONLY_STRING" if d.flag and not s.flag else "MOVE_OBJECT"), R
        if s.numeric(): return "TYPE_CONVERSION_%s_TO_STRING" % n(s), R
        if s.array(): return "TYPE_CONVERSION_BYTE_ARRAY_TO_STRING", R
        return ("MOVE_OBJECT_CHECK_READ_ONLY_STRING", R) if d.flag else ("MOVE_OBJECT_WITH_TYPE_CHECK", chk)
    if s.numeric(): return "TYPE_CONVERSION_%s_TO_%s_OBJECT" % (n(s), n(s)), R
    if d.base == "byte" and d.d == 1 and s.string(): return "TYPE_CONVERSION_STRING_TO_BYTE_ARRAY", R
    return ("MOVE_OBJECT", R) if ok else ("MOVE_OBJECT_WITH_TYPE_CHECK", chk)

def casts(b, q):
    done = set()
    for d, s in c17.pairs(b.prog):
        if d.void() or d.undef() or s.void() or d.mulnum() or d.ref or c17.same(d, s): continue
        for rel in c17.relations(d, s):
            if not c17.cast(d, s, rel): continue
            a, c = c17.assign(d, s, rel, 0, 0)
            ok = int(a and not c)
            name, args = cast_code(d, s, ok)
            key = (repr(d), repr(s), d.bid == s.bid, d.dim == s.dim, ok)
            if key in done: continue
            done.add(key)
            def op(t, ks, d=d, s=s):
                v = t.op("UNDEF", type=s) if s.undef() else t.var("a", s)
                return t.op("TYPE_CAST", [v, t.op("TYPE", type=d, uv=t.ty(d))], type=d)
            names = (name,) if name != "MOVE_OBJECT" else (name, "MOVE_OBJECT_WITH_TYPE_CHECK") if not d.string() else (name,)
            q.expr("TYPE_CAST " + c17.describe(d, s, rel), [], [(names, {**args, **({2: lin(d.bid), 3: lin(d.dim)} if "MOVE_OBJECT_WITH_TYPE_CHECK" in names else {})})], op=op, dist=repr(d), assignable=ok)

def calls(b, q):
    """arguments go to consecutive stack slots, the return value comes from slot 0"""
    kindof = [(k, "int") for k in NUM + OBJ + ("int*", "Mulnum*")] + [("Mulnum", e) for e in NUM]
    def put(k, e, slot, n):
        if k == "Mulnum": return ("SET_STACK_MULNUM_" + U(e), {0: I(n), 1: sym("nfields"), 3: slot})
        return ("SET_STACK_" + (U(k) if k in NUM else "REF" if k[-1] == "*" else "OBJECT"), {0: I(n), 3: slot})
    def case(label, args, ret, mode, elem="int", undef=(), given=None):
        given = len(args) if given is None else given
        def make():
            t = b.tree(elem)
            decls = [t.obj("var_decl", type=t.ty(q.k[k])) for k in args]
            owner = t.obj("owner", id=t.rng("owner.id", 0, 65535), method_symtable=t.obj("methods"))
            m = t.obj("callee", name=t.obj("str"), current_basic_type=owner, index=t.rng("callee.index", 0, 65535), args_length=C(len(args)), var_decls=t.list(decls), return_type=t.ty(q.k[ret]))
            t.callee = m
            c = t.obj("call_method", method=m, is_class_method=C(mode == "class"), is_instance_method_static=C(mode == "static"))
            ks = [t.op("PUSHMARK")] + [t.op("UNDEF", type=q.k["undef"]) if i in undef else t.var("a%d" % i, q.k[k]) for i, k in enumerate(args[:given])]
            o = t.op("CALL_METHOD", [t.op("LIST", ks)], uv=c, type=q.k[ret])
            return t.method(t.op("ASSIGN", [o, t.var("d", q.k[ret])], type=q.k[ret]))
        want, slot = [], con(0)
        for i, k in enumerate(args[:given]):
            want.append(("SET_STACK_UNDEF", {3: slot}) if i in undef else put(k, elem, slot, "a%d" % i))
            slot = (slot[0], slot[1] + 1) if k != "Mulnum" else ((("nfields", (slot[0][0][1] if slot[0] else 0) + 1),), slot[1])
        name = {"class": "CALL_CLASS_METHOD", "static": "CALL_INSTANCE_METHOD_STATIC", "instance": "CALL_INSTANCE_METHOD"}[mode]
        want.append((name, {0: sym("owner.id"), 1: sym("callee.index"), 2: slot}))
        if ret == "Mulnum": want.append(("GET_STACK_MULNUM_" + U(elem), {0: I("d"), 3: ((("nfields", 256),), 0)}))
        elif ret != "void": want.append(("GET_STACK_" + (U(ret) if ret in NUM else "OBJECT"), {0: I("d"), 3: con(0)}))
        q.out.append((label, make, want))
    for k, e in kindof:
        case("call with %s%s" % (k, " of " + e if k == "Mulnum" else ""), [k, "int", k, "string"], "int", "class", e)
        if k[-1] != "*": case("call returning %s%s" % (k, " of " + e if k == "Mulnum" else ""), [], k, "static", e)
        if k in OBJ: case("call with undef for " + k, ["int", k, "int"], "void", "instance", e, undef=(1,))
    case("call with fewer arguments", ["Class", "int", "long"], "void", "instance", given=2)
    case("call without arguments", [], "void", "class")

def prologue(b, q):
    """a method copies its arguments from consecutive stack slots"""
    kindof = [(k, "int") for k in NUM + OBJ + ("int*", "Mulnum*", "mutable string", "Mulnum[]..", "string[]..")] + [("Mulnum", e) for e in NUM]
    def get(k, e, slot, n):
        if k == "Mulnum": return ("GET_STACK_MULNUM_" + U(e), {0: I(n), 3: ((("nfields", 256 + (slot[0][0][1] if slot[0] else 0)),), slot[1])})
        return ("GET_STACK_" + (U(k) if k in NUM else "REF" if k[-1] == "*" else "OBJECT"), {0: I(n), 3: slot})
    for k, e in kindof:
        for native in (0, 1):
            args = ["int", k, k, "string"] if k != "Mulnum" else ["int", k, "string"]
            def make(args=args, e=e, native=native):
                t = b.tree(e)
                ds = []
                for i, a in enumerate(args):
                    d = t.obj("var_decl", typed_var_index=t.rng("idx:a%d" % i, 0, 65535), is_arg=C(1), type=t.ty(q.k[a])); ds.append(d)
                t.st.rng["nfields"] = (1, 250)
                return t.method(C(0) if native else t.var("z", q.k["int"]), args=ds, native=native)
            want, slot = [], con(0)
            for i, a in enumerate(args):
                want.append(get(a, e, slot, "a%d" % i))
                slot = (slot[0], slot[1] + 1) if a != "Mulnum" else ((("nfields", 1),), slot[1])
            q.out.append(("arguments %s%s%s" % (k, " of " + e if k == "Mulnum" else "", " (native)" if native else ""), make, want + [("END_ARGS", {})]))

def statements(b, q):
    V = q.V
    bl = lambda t, kids, kind, leave=0: t.op("BLOCK", kids, uv=t.obj("block", id=C(b.prog.enums["SPVM_BLOCK_C_ID_" + kind]), need_leave_scope=C(leave)))
    MAIN = lambda t, kids: bl(t, kids, "METHOD")
    # variable declarations
    for k in NUM: q.stmt("my %s" % k, lambda t, k=k: t.var("a", q.k[k], declared=1), [("MOVE_%s_ZERO" % U(k), {0: I("a")})])
    for k in NUM: q.stmt("my Mulnum of %s" % k, lambda t: t.var("a", q.k["Mulnum"], declared=1), [("MOVE_MULNUM_%s_ZERO" % U(k), {0: I("a"), 2: sym("nfields")})], elem=k)
    for k in OBJ:
        q.stmt("my %s" % k, lambda t, k=k: t.var("a", q.k[k], declared=1), [("PUSH_MORTAL", {0: I("a")}), ("MOVE_OBJECT_UNDEF", {0: I("a")})])
        q.stmt("my %s with a value" % k, lambda t, k=k: t.var("a", q.k[k], declared=1, initialized=1), [("PUSH_MORTAL", {0: I("a")})])
        q.stmt("argument %s" % k, lambda t, k=k: t.var("a", q.k[k], declared=1, arg=1), [("PUSH_MORTAL", {0: I("a")})])
    # die
    q.stmt("die TYPE", lambda t: t.op("DIE", [t.var("a", q.k["string"]), t.op("TYPE", type=q.k["Class"], uv=t.ty(q.k["Class"]))]), [("SET_ERROR_ID_BY_TYPE", {0: sym("class1")})])
    q.stmt("die int", lambda t: t.op("DIE", [t.var("a", q.k["string"]), t.var("e", q.k["int"])]), [("SET_ERROR_ID", {0: I("e")})])
    # return
    for k in NUM + OBJ: q.stmt("return " + k, lambda t, k=k: MAIN(t, [t.op("RETURN", [t.var("a", q.k[k])]), t.var("z", q.k["int"])]), [("RETURN_" + (U(k) if k in NUM else "OBJECT"), {0: I("a"), 1: con(2)})], rtype=k)
    for k in NUM: q.stmt("return Mulnum of " + k, lambda t: MAIN(t, [t.op("RETURN", [t.var("a", q.k["Mulnum"])])]), [("RETURN_MULNUM_" + U(k), {0: I("a"), 1: con(2), 2: sym("nfields")})], rtype="Mulnum", elem=k)
    q.stmt("return undef", lambda t: MAIN(t, [t.op("RETURN", [t.op("UNDEF", type=q.k["undef"])])]), [("RETURN_UNDEF", {1: con(2)})], rtype="Class")
    q.stmt("return", lambda t: MAIN(t, [t.op("RETURN")]), [("RETURN_VOID", {1: con(2)})], rtype="void")
    # control flow: the opcodes before a statement are numbered from 1 (0 is END_ARGS)
    MV = lambda d, s: ("MOVE_INT", {0: I(d), 1: I(s)})
    asg = lambda t, d, s: t.op("ASSIGN", [t.var(s, q.k["int"]), t.var(d, q.k["int"])], type=q.k["int"])
    CF = b.prog.enums["SPVM_OP_C_FLAG_CONDITION_IF"]
    for cond, name in (("CONDITION", "IF_EQ_ZERO"), ("CONDITION_NOT", "IF_NE_ZERO")):
        q.stmt("if/else on " + cond, lambda t, cond=cond: MAIN(t, [t.op("IF", [t.op(cond, [t.var("c", q.k["int"])], flag=CF), bl(t, [asg(t, "p", "q")], "IF"), bl(t, [asg(t, "r", "s")], "ELSE")]), asg(t, "u", "v")]),
               [(name, {0: con(4), 1: I("c")}), MV("p", "q"), ("GOTO", {0: con(5)}), MV("r", "s"), MV("u", "v")])
    return q

def control_flow(ck, b, bad, depth):
    seen = set()
    for body in flow.programs(depth):
        t = b.tree(); mk = flow.Make(b, t)
        try: root = mk.block("METHOD", body)
        except KeyError as e: raise AnalysisBroken("statement trees: %s is not defined any more" % e)
        method = t.method(root)
        got = b.run(method)
        src = flow.text(body)
        if len(got) != 1 or got[0] is None or isinstance(got[0], tuple):
            ck.count("undecided"); ck.notes.append("%s: not decided (%s)" % (src, got[:2])); continue
        if got[0] == "abort": bad.append("the compiler aborts on %s" % src); continue
        n, diff = flow.compare(body, got[0], mk.cases, b.capacity())
        ck.count("statement trees"); ck.count("traces", n)
        if diff:
            key = (diff[1][0], diff[2][0])
            if key in seen: continue
            seen.add(key)
            bad.append("the statements %s: under the decisions %s the statements do %s but the opcodes do %s" % (src, diff[0], describe(diff[1]), describe(diff[2])))

def describe(e):
    v = lambda x: x[4:] if x.startswith("idx:") else x
    if e[0] == "release": return "release " + (", ".join(sorted(map(v, e[1]))) or "nothing")
    if e[0] == "clear": return "set " + " and ".join(sorted(e[1])) + " to none"
    return " ".join(str(v(x) if isinstance(x, str) else x) for x in e)

def check_case(ck, b, label, make, want, bad, tail=("END_METHOD",)):
    comp = make()
    got = b.run(comp)
    fn = "SPVM_OPCODE_BUILDER_build_opcodes"
    if not got or any(isinstance(g, tuple) or g is None for g in got):
        ck.count("undecided"); ck.notes.append("%s: not decided (%s)" % (label, [g for g in got if isinstance(g, tuple) or g is None][:1])); return
    full = []
    for name, args in want:
        names = name if isinstance(name, tuple) else (name,)
        full.append((names, args))
        if not names[0].startswith("GOTO_END") and throws(names[0]): full.append((("GOTO_END_OF_METHOD_ON_EXCEPTION",), {2: sym("line")}))
    ck.count("trees"); ck.count("opcodes", len(full))
    for g in got:
        if g == "abort": bad.append("%s: the compiler aborts" % label); return
        ops = list(g)
        if not (full and full[-1][0] == ("END_ARGS",)):
            if ops and ops[0][0] == "END_ARGS": ops = ops[1:]
        if ops and ops[-1][0] == "END_METHOD": ops = ops[:-1]
        text = ", ".join(map(show, ops)) or "nothing"
        i = 0
        for names, args in full:
            # an exception check after an opcode that raises nothing does no harm
            while i < len(ops) and ops[i][0] != names[0] and ops[i][0].startswith("GOTO_END_OF_METHOD_ON_EXCEPTION"): i += 1
            if i >= len(ops) or ops[i][0] not in names: bad.append("%s: emits %s; documented: %s" % (label, text, ", ".join("/".join(n) for n, a in full))); return
            o = ops[i]; i += 1
            for k in used(o[0]):
                if k not in args: continue
                w = args[k] if isinstance(args[k], list) else [args[k]]
                if norm(o[1 + k]) not in [norm(x) for x in w]: bad.append("%s: operand %d of %s is %s; documented: %s" % (label, k, o[0], showv(o[1 + k]), showv(w[0]))); return
        if [o for o in ops[i:] if o[0] != "GOTO_END_OF_METHOD_ON_EXCEPTION"]: bad.append("%s: emits %s; documented: %s" % (label, text, ", ".join("/".join(n) for n, a in full))); return

def norm(v): return v if v[0] == "?" else (tuple(sorted(v[0], key=str)), v[1])

def run(ck):
    ck.rule = ("SPVM_OPCODE_BUILDER_build_opcodes and every function it calls (IR of the current source) are evaluated by an abstract interpreter on checked syntax trees: one tree for every operator and every kind of its operands "
               "(a partition of all types, typed variable indexes, ids and offsets are symbols), and every nesting of the control statements up to a depth, with object variable declarations, operations that can raise and each way of leaving. "
               "An expression must become the opcode sequence documented for the operator and kinds, with its operands; an opcode that can raise must be followed by a jump to the handler of the innermost eval or the end of the method. "
               "For control statements, the emitted opcodes (by the meaning C01 establishes) and a reference interpreter of the statements must give the same trace of actions, evaluated conditions, releases of variables and outcome "
               "for every sequence of decisions (condition, raise, switch value), and keep no more variables than the method reserves.")
    prog = program()
    b = codegen.Build(prog)
    q = expressions(b); casts(b, q); calls(b, q); prologue(b, q); statements(b, q)
    bad = []
    for l, m, w in q.out: check_case(ck, b, l, m, w, bad)
    control_flow(ck, b, bad, int(os.environ.get("C21_DEPTH", 3 if ck.tier == "thorough" else 2)))
    fn = "SPVM_OPCODE_BUILDER_build_opcodes"
    loc = prog.fn(fn).loc
    if bad:
        ck.violation("function:" + fn, "%s (%s) emits other opcodes than the statements mean in %d cases: %s" % (fn, loc, len(bad), "; ".join(bad[:6])))
    for n in b.it.fns: ck.functions.add(n)
    for l, m, w in q.out[:3]: ck.sample(l)
    ck.need("trees", 700); ck.need("opcodes", 1000); ck.need("statement trees", 60); ck.need("traces", 400)
