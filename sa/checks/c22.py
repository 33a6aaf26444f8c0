"""C22: what the checker accepts, and the conversions it inserts."""
import itertools
from .. import build, kinds, checker
from ..absint import C, S, P
from ..build import AnalysisBroken
from ..codegen import BASE, NUM

LEVEL = "other"
SRC = ("spvm_check.c", "spvm_op.c", "spvm_type.c", "spvm_basic_type.c", "spvm_constant.c", "spvm_var.c", "spvm_block.c", "spvm_switch_info.c", "spvm_class_var_access.c", "spvm_array_field_access.c")
FN = "SPVM_CHECK_check_ast_syntax"

def program():
    from ..fspec import merged
    return merged(build.compile_bc([build.BUILDER + "/src/" + f for f in SRC]), "checker", keep=None)

ERR = "error"
class Spec:
    """the documented outcome of every operator, on kinds"""
    def __init__(s, b):
        s.b, s.prog = b, b.prog
        pr = kinds.predicates()[0]
        s.num, s.integer, s.within, s.obj, s.ref, s.undef = (lambda k: k.numeric()), pr["integer_type"], pr["integer_type_within_int"], pr["object_type"], (lambda k: k.ref), (lambda k: k.undef())
        s.sb, s.string, s.array = pr["string_or_byte_array_type"], pr["string_type"], pr["array_type"]
        s.pr = pr
    def T(s, n, d=0, f=0):
        """the type as the tree shows it"""
        return ("TYPE", (C(s.prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_" + n.upper()]), C(d), f))
    def cast(s, x, n): return ("TYPE_CAST", x, s.T(n))
    def to(s, x, k, n): return x if k.base == n and k.numeric() else s.cast(x, n)
    def prom(s, x, k):
        """integer promotional conversion: types within int become int"""
        return s.to(x, k, "int") if s.within(k) else x
    def wide(s, x, k, y, l):
        """binary numeric conversion: the wider of the two, at least int"""
        n = NUM[max(k.numidx(), l.numidx(), 2)]
        return s.to(x, k, n), s.to(y, l, n)
    def binary(s, name, k, l):
        x, y = ("VAR", "a"), ("VAR", "b")
        if k.undef(): x = ("UNDEF",)
        if l.undef(): y = ("UNDEF",)
        if k.void(): x = ("CALL",)
        if l.void(): y = ("CALL",)
        num = lambda p: (name,) + s.wide(x, k, y, l) if p(k) and p(l) else ERR
        if name in ("ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "NUMERIC_COMPARISON_GT", "NUMERIC_COMPARISON_GE", "NUMERIC_COMPARISON_LT", "NUMERIC_COMPARISON_LE", "NUMERIC_COMPARISON_CMP"): return num(s.num)
        if name in ("MODULO", "BIT_AND", "BIT_OR", "BIT_XOR"): return num(s.integer)
        if name.endswith("UNSIGNED_INT"): return (name, x, y) if s.pr["int_type"](k) and s.pr["int_type"](l) else ERR
        if name.endswith("UNSIGNED_LONG"): return (name, x, y) if s.pr["long_type"](k) and s.pr["long_type"](l) else ERR
        if name in ("LEFT_SHIFT", "RIGHT_ARITHMETIC_SHIFT", "RIGHT_LOGICAL_SHIFT"): return (name, s.prom(x, k), s.prom(y, l)) if s.integer(k) and s.within(l) else ERR
        if name in ("NUMERIC_COMPARISON_EQ", "NUMERIC_COMPARISON_NE"):
            ok = s.num(k) and s.num(l) or s.obj(k) and (s.obj(l) or l.undef()) or k.undef() and (s.obj(l) or l.undef()) or k.ref and l.ref
            if not ok: return ERR
            if k.undef() and l.undef(): return ("CONSTANT", 1 if name[-2:] == "EQ" else 0)
            return num(s.num) if s.num(k) else (name, x, y)
        if name.startswith("STRING_COMPARISON"): return (name, x, y) if s.sb(k) and s.sb(l) else ERR
        if name == "STRING_CONCAT":
            f = lambda x, k: s.cast(x, "string") if s.num(k) else x
            return (name, f(x, k), f(y, l)) if all(s.num(q) or s.sb(q) for q in (k, l)) else ERR
        if name == "ELEMENT_ACCESS": return (name, x, s.prom(y, l)) if (s.array(k) or s.string(k)) and s.within(l) else ERR
        raise AssertionError(name)
    def unary(s, name, k):
        x = ("UNDEF",) if k.undef() else ("CALL",) if k.void() else ("VAR", "a")
        ok = lambda p, y=None: (name, y if y is not None else x) if p(k) else ERR
        if name in ("PLUS", "MINUS"): return ok(s.num, s.prom(x, k))
        if name == "BIT_NOT": return ok(s.integer, s.prom(x, k))
        if name in ("TYPE_NAME", "DUMP"): return ok(s.obj)
        if name == "NEW_STRING_LEN": return ok(s.within, s.prom(x, k))
        if name == "ARRAY_LENGTH": return ok(s.array)
        if name in ("STRING_LENGTH", "MAKE_READ_ONLY", "IS_READ_ONLY"): return ok(s.string)
        if name == "COPY": return ok(lambda k: s.string(k) or s.pr["numeric_array_type"](k) or s.pr["mulnum_array_type"](k))
        if name in ("PRINT", "SAY"): return (name, s.cast(x, "string")) if s.num(k) else ok(s.string)
        if name == "WARN": return (name, s.cast(x, "string")) if s.num(k) else ok(s.obj)
        if name == "REFERENCE": return ok(lambda k: s.num(k) or k.mulnum())
        if name == "DEREFERENCE": return ok(s.ref)
        if name == "CONDITION_EVALUATION":
            if k.undef(): return (name, ("CONSTANT", 0))
            return ok(lambda k: s.num(k) or s.obj(k) or k.ref, s.prom(x, k))
        raise AssertionError(name)

BINARY = ("ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "MODULO", "DIVIDE_UNSIGNED_INT", "DIVIDE_UNSIGNED_LONG", "MODULO_UNSIGNED_INT", "MODULO_UNSIGNED_LONG", "BIT_AND", "BIT_OR", "BIT_XOR",
          "LEFT_SHIFT", "RIGHT_ARITHMETIC_SHIFT", "RIGHT_LOGICAL_SHIFT", "NUMERIC_COMPARISON_EQ", "NUMERIC_COMPARISON_NE", "NUMERIC_COMPARISON_GT", "NUMERIC_COMPARISON_GE", "NUMERIC_COMPARISON_LT", "NUMERIC_COMPARISON_LE",
          "NUMERIC_COMPARISON_CMP", "STRING_COMPARISON_EQ", "STRING_COMPARISON_NE", "STRING_COMPARISON_GT", "STRING_COMPARISON_GE", "STRING_COMPARISON_LT", "STRING_COMPARISON_LE", "STRING_COMPARISON_CMP", "STRING_CONCAT", "ELEMENT_ACCESS")
UNARY = ("PLUS", "MINUS", "BIT_NOT", "TYPE_NAME", "DUMP", "NEW_STRING_LEN", "ARRAY_LENGTH", "STRING_LENGTH", "MAKE_READ_ONLY", "IS_READ_ONLY", "COPY", "PRINT", "SAY", "WARN", "REFERENCE", "DEREFERENCE", "CONDITION_EVALUATION")
PAIR = NUM + ("undef", "void", "string", "mutable string", "object", "Int", "Class", "Interface", "Mulnum", "int*", "Mulnum*", "byte[]", "int[]", "string[]", "object[]", "Class[]", "Mulnum[]", "byte[]..", "Class[]..")

def operand(t, name, k, decls):
    if k.undef(): return t.op("UNDEF")
    if k.void(): return t.call_void()
    decls.append(t.decl(name, k)); return t.use(name)

def strip(x):
    """a call of a method returning void is one leaf"""
    if isinstance(x, tuple) and x and x[0] == "CALL_METHOD": return ("CALL",)
    return tuple(strip(y) for y in x) if isinstance(x, tuple) else x

def one(ck, b, label, build_, want, bad, rtype=None, events=None):
    """build_(tree) gives (declarations, operator); want: 'error' or the tree left"""
    if len(bad) >= 12: return
    t = b.tree()
    decls, o = build_(t)
    root = t.block(decls + [o], "METHOD")
    res = b.check(root, rtype(t) if rtype else None)
    if not res or any(r[0] == "give up" for r in res):
        ck.count("undecided"); ck.notes.append("%s: not decided (%s)" % (label, res[:1])); return
    ck.count("trees")
    for r in res:
        if isinstance(r, str): bad.append("%s: the compiler %s" % (label, {"abort": "aborts", "endless": "does not come to an end"}[r])); return
        errs, ev, tree = r
        if want == ERR:
            if not errs: bad.append("%s: accepted, documented: a compilation error" % label); return
            continue
        if errs: bad.append("%s: rejected (%s), documented: accepted" % (label, errs[0].split("\n")[0])); return
        got = strip(tree[1][2 + len(decls):])
        if want is not None and got != (want,): bad.append("%s: becomes %s, documented: %s" % (label, " ".join(map(show, got)), show(want))); return
        if events:
            m = events(t, ev) if events.__code__.co_argcount - len(events.__defaults__ or ()) == 2 else events(t, ev, tree)
            if m: bad.append("%s: %s" % (label, m)); return

NAMES = {}
def show(x):
    if not isinstance(x, tuple): return str(x)
    if x[0] == "VAR": return "$" + str(x[1])
    if x[0] == "TYPE":
        b, d, f = x[1] if len(x[1]) == 3 else (x[1], 0, 0)
        return NAMES.get(b, str(b[1] if isinstance(b, tuple) else b)) + ("[]" * d[1] if isinstance(d, tuple) and d[0] == "c" else "[]..") + ("*" if f == 1 else "")
    return "%s(%s)" % (x[0], ", ".join(map(show, x[1:])))

def operators(ck, b, bad):
    sp = Spec(b); K, L = b.w.byname, b.w2
    for n in UNARY:
        for k in K.values():
            def mk(t): d = []; x = operand(t, "a", k, d); return d, t.op(n, [x])
            one(ck, b, "%s of %s" % (n, k), mk, sp.unary(n, k), bad)
    for n in BINARY:
        for k in PAIR:
            for l in PAIR:
                def mk(t): d = []; x = operand(t, "a", K[k], d); y = operand(t, "b", L[l], d); return d, t.op(n, [x, y])
                one(ck, b, "%s %s %s" % (k, n, l), mk, sp.binary(n, K[k], L[l]), bad)
    ck.count("operators", len(UNARY) + len(BINARY))

def same(k, l): return k.bid == l.bid and k.dim == l.dim and (k.flag & 1) == (l.flag & 1)
def tt(k): return ("TYPE", (k.bid, k.dim, k.flag))
def trip(k): return (k.bid, k.dim, C(k.flag))

def type_operators(ck, b, bad):
    """operators that name a type"""
    K, L = b.w.byname, b.w2
    leaf = lambda k: ("UNDEF",) if k.undef() else ("CALL",) if k.void() else ("VAR", "a")
    for name in ("ISA", "IS_TYPE", "IS_COMPILE_TYPE"):
        for kn in PAIR:
            for l in list(L.values()) + [K[n] for n in ("Class", "Mulnum", "Class[]", "int[]..")]:
                k = K[kn]
                if l.undef() or l.void() or l.flag == 2: continue
                for ok in (0, 1) if name == "ISA" else (0,):
                    value = l.numeric() or l.mulnum() or l.ref
                    ev = None
                    if name == "IS_COMPILE_TYPE" or name == "IS_TYPE" and value: want = ("CONSTANT", int(same(k, l)))
                    elif name == "ISA" and value:
                        want = ("CONSTANT", ok)
                        ev = lambda t, e, k=k, l=l: None if ("assign",) + trip(l) + trip(k) in e else "the assignment requirement is asked for other types than those of the operand and the operator"
                    elif l.any_object() or not k.object(): want = ERR
                    else: want = (name, leaf(k), tt(l))
                    def mk(t):
                        b.assignable = (ok, 0); d = []; x = operand(t, "a", k, d)
                        return d, t.op(name, [x, t.typ(l)])
                    one(ck, b, "%s %s %s" % (k, name, l), mk, want, bad, events=ev)
    for name in ("ISA_ERROR", "IS_ERROR"):
        for k in K.values():
            for l in L.values():
                if l.undef() or l.void() or l.flag == 2 or (not l.classt() and not Spec(b).within(k)): continue
                def mk(t): d = []; x = operand(t, "a", k, d); return d, t.op(name, [x, t.typ(l)])
                sp = Spec(b)
                one(ck, b, "%s %s %s" % (k, name, l), mk, (name, sp.prom(leaf(k), k), tt(l)) if sp.within(k) and l.classt() else ERR, bad)
    # new
    sp = Spec(b)
    for l in K.values():
        if l.undef() or l.void() or l.flag == 2: continue
        if l.array():
            for k in L.values():
                def mk(t): d = []; x = operand(t, "a", k, d); return d, t.op("NEW", [t.typ(l), x])
                ok = sp.within(k) and not (l.base == "object" and l.d > 1)
                one(ck, b, "new %s of length %s" % (l, k), mk, ("NEW", tt(l), sp.prom(leaf(k), k)) if ok else ERR, bad)
        else:
            if l.ref: continue
            for acc, al in ((1, 0), (0, 1), (0, 0)):
                def mk(t): b.accessible, b.allowed = acc, al; return [], t.op("NEW", [t.typ(l)])
                def ev(t, e):
                    q = [x for x in e if x[0] == "access"]
                    return None if any(x[1] == t.current and x[2] == P(("obj", "bt", l.bid)) and x[3] == S("access") and x[4] == C(0) for x in q) else "the access control of the class is not asked"
                one(ck, b, "new %s (%s)" % (l, "accessible" if acc else "allowed" if al else "not accessible"), mk, ("NEW", tt(l)) if l.classt() and (acc or al) else ERR, bad, events=ev)
    # cast
    for l in L.values():
        for k in K.values():
            if l.undef() or l.void() or k.void(): continue
            for ok in (0, 1):
                def mk(t): b.assignable = (ok, 0); d = []; x = operand(t, "a", k, d); return d, t.op("TYPE_CAST", [x, t.typ(l)])
                eq = k.bid == l.bid and k.dim == l.dim and k.flag == l.flag
                def ev(t, e): return None if ("cast",) + trip(l) + trip(k) in e else "the cast requirement is asked for other types than those of the operand and the operator"
                one(ck, b, "(%s)%s%s" % (l, k, "" if ok else ", not castable"), mk, ERR if not ok else leaf(k) if eq else ("TYPE_CAST", leaf(k), tt(l)), bad, events=ev)
    # die
    for k in K.values():
        def mk(t): d = []; x = operand(t, "a", k, d); return d, t.op("DIE", [t.op("DO_NOTHING"), x])
        if not k.void(): one(ck, b, "die with error ID %s" % k, mk, ("DIE", ("DO_NOTHING",), sp.prom(leaf(k), k)) if sp.within(k) else ERR, bad)
        def mk(t): return [], t.op("DIE", [t.op("DO_NOTHING"), t.typ(k)])
        if not k.undef() and not k.void(): one(ck, b, "die with error class %s" % k, mk, ("DIE", ("DO_NOTHING",), tt(k)) if k.classt() else ERR, bad)
    # compile_type_name
    for k in K.values():
        def mk(t): d = []; x = operand(t, "a", k, d); return d, t.op("COMPILE_TYPE_NAME", [x])
        one(ck, b, "compile_type_name %s" % k, mk, ("CONSTANT", "string"), bad)
    ck.count("operators", 9)

def narrowing(b, d, s, const):
    """a numeric literal is converted to a narrower type when its value fits; other values are not"""
    e = d.base in NUM and (d.numeric() or d.array() and d.d == 1)
    if not (e and s.numeric() and d.base != s.base and NUM.index(d.base) < NUM.index(s.base)) or const is None: return 0
    if s.base in ("int", "long"):
        bits = {"byte": 8, "short": 16, "int": 32}[d.base]
        return int(-(1 << bits - 1) <= const < 1 << bits - 1)
    return int(s.base == "double" and d.base == "float")

def assignments(ck, b, bad):
    K, L = b.w.byname, b.w2
    outcomes = ((0, 0), (1, 0), (1, 1))
    def asked(d, s, nar):
        def ev(t, e):
            q = [x for x in e if x[0] == "assign"]
            if not any(x[1:7] == trip(d) + trip(s) for x in q): return "the assignment requirement is asked for other types than those of the two sides"
            if any(x[1:7] == trip(d) + trip(s) and (x[7] != C(nar) or x[8] != C(0)) for x in q): return "narrowing is %s, documented: %s" % (("not allowed", "allowed") if nar else ("allowed", "not allowed"))
        return ev
    def src(t, k, decls, const=None):
        if const is not None: return t.const(k, C(const))
        return operand(t, "a", k, decls)
    def leaf(k, const): return ("CONSTANT", "constant") if const is not None else ("UNDEF",) if k.undef() else ("CALL",) if k.void() else ("VAR", "a")
    def conv(x, d, o): return ("TYPE_CAST", x, tt(d)) if o[1] else x
    D = [L[n] for n in PAIR if n not in ("void", "undef")]
    for d in D:
        for kn in PAIR:
            k = K[kn]
            consts = [None]
            if k.numeric() and d.base in NUM and d.d < 2 and not d.ref and d.base != k.base:
                consts += {"int": (-32769, -32768, -129, -128, 0, 127, 128, 32767, 32768), "long": (-(1 << 31) - 1, -(1 << 31), (1 << 31) - 1, 1 << 31, -129, 128, 127, -128, 40000, 32767, -32768, -32769), "double": (0,), "float": (0,), "short": (1,)}.get(k.base, ())
            for c in consts:
                nar = narrowing(b, d, k, c)
                for o in outcomes if c is None else ((1, 1),):
                    for place in ("assignment", "return", "argument") if c is None else ("assignment",):
                        def mk(t):
                            b.assignable = o; decls = []
                            x = src(t, k, decls, c)
                            if place == "assignment": decls.append(t.decl("d", d)); return decls, t.op("ASSIGN", [x, t.use("d")])
                            if place == "return": return decls, t.op("RETURN", [x])
                            return decls, t.op("WARN", [t.call(t.method_obj("m", t.kind("string"), [d], required_args_length=C(1), is_class_method=C(1)), [x])])
                        want = ERR if not o[0] or k.void() else {"assignment": ("ASSIGN", conv(leaf(k, c), d, o), ("VAR", "d")), "return": ("RETURN", conv(leaf(k, c), d, o)), "argument": None}[place]
                        if place == "argument" and want is None: want = ("WARN", ("CALL",))
                        one(ck, b, "%s of %s%s to %s (%s)" % (place, k, "" if c is None else " literal %d" % c, d, "not assignable" if not o[0] else "with a conversion" if o[1] else "assignable"), mk, want, bad,
                            rtype=(lambda t: t.ty(d)) if place == "return" else None, events=None if k.void() else asked(d, k, nar))
    # every argument of a call is converted to the type of its parameter
    for n in range(1, 5):
        for o in outcomes[1:]:
            def mk(t):
                b.assignable = o; decls = [t.decl("a%d" % i, K["int"]) for i in range(n)]
                return decls, t.op("WARN", [t.call(t.method_obj("m", t.kind("string"), [K[q] for q in ("long", "double", "Int", "long")[:n]], required_args_length=C(n), is_class_method=C(1)), [t.use("a%d" % i) for i in range(n)])])
            def ev(t, e, tree):
                calls = [x for x in flat(tree) if isinstance(x, tuple) and x and x[0] == "CALL_METHOD"]
                exp = tuple(conv(("VAR", "a%d" % i), K[q], o) for i, q in enumerate(("long", "double", "Int", "long")[:n]))
                if len(calls) != 1 or calls[0][1][2:] != exp: return "the arguments become %s, documented: %s" % (", ".join(map(show, calls[0][1][2:])) if calls else "nothing", ", ".join(map(show, exp)))
                q = [x[1:7] for x in e if x[0] == "assign"]
                for w in ("long", "double", "Int", "long")[:n]:
                    if trip(K[w]) + trip(K["int"]) not in q: return "whether an argument can be assigned to %s is not asked" % w
            one(ck, b, "a call with %d arguments (%s)" % (n, "converted" if o[1] else "not converted"), mk, None, bad, events=ev)
    # operands whose conversion may narrow: increments and compound assignments
    def mk(t):
        decls = [t.decl("d", K["byte"]), t.decl("a", L["int"])]; x = t.use("a"); t.put(x, "allow_narrowing_conversion", C(1))
        return decls, t.op("ASSIGN", [x, t.use("d")])
    one(ck, b, "a compound assignment", mk, ("ASSIGN", ("VAR", "a"), ("VAR", "d")), bad, events=asked(K["byte"], L["int"], 1))
    # a variable without a type gets the type of the value
    for k in K.values():
        if k.void(): continue
        def mk(t):
            decls = [] ; x = operand(t, "a", k, decls); v = t.decl("d"); t.put(v, "is_dist", C(1))
            return decls, t.op("ASSIGN", [x, v])
        one(ck, b, "my $d = %s" % k, mk, ERR if k.undef() else ("ASSIGN", ("UNDEF",) if k.undef() else ("VAR", "a"), ("VAR", "d")), bad, events=None if k.undef() else asked(k, k, 0))
    def mk(t): return [], t.decl("d")
    one(ck, b, "my $d without a type", mk, ERR, bad)
    # return with and without a value
    for rt, v, w in (("void", 0, ("RETURN",)), ("void", 1, ERR), ("int", 0, ERR), ("Class", 0, ERR)):
        def mk(t):
            decls = [t.decl("a", K["int"])]
            return decls, t.op("RETURN", [t.use("a")] if v else [])
        one(ck, b, "return %sin a method of %s" % ("a value " if v else "", rt), mk, w, bad, rtype=lambda t: t.ty(K[rt]))
    # characters of strings
    for kn, w in (("string", 0), ("mutable string", 1)):
        def mk(t):
            decls = [t.decl("s", K[kn]), t.decl("i", K["int"]), t.decl("c", K["byte"])]
            return decls, t.op("ASSIGN", [t.use("c"), t.op("ELEMENT_ACCESS", [t.use("s"), t.use("i")])])
        one(ck, b, "setting a character of %s" % kn, mk, ("ASSIGN", ("VAR", "c"), ("ELEMENT_ACCESS", ("VAR", "s"), ("VAR", "i"))) if w else ERR, bad)
    # element types
    for k in K.values():
        if not (k.array() or k.string()): continue
        def mk(t):
            decls = [t.decl("s", k), t.decl("i", K["int"]), t.decl("d", L["long"])]
            return decls, t.op("ASSIGN", [t.op("ELEMENT_ACCESS", [t.use("s"), t.use("i")]), t.use("d")])
        def ev(t, e):
            if k.string(): w = (C(b.prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE"]), C(0))
            else: w = (k.bid, C(k.dim[1] - 1) if k.dim[0] == "c" else ("+", k.dim, -1))
            return None if any(x[0] == "assign" and x[4:6] == w for x in e) else "the type of the element is not the element type of the array"
        one(ck, b, "the element of %s" % k, mk, ("ASSIGN", ("ELEMENT_ACCESS", ("VAR", "s"), ("VAR", "i")), ("VAR", "d")), bad, events=ev)
    ck.count("operators", 3)

def statements(ck, b, bad):
    """where next, last and break may stand; switch statements"""
    K = b.w.byname
    def case(t, c, kids):
        o = t.op("CASE", [c, t.block(kids)], uv=t.obj("case_info")); t.put(t.get(o, "uv"), "op_case_info", o); return o
    for jump, inside in (("NEXT", "LOOP_STATEMENTS"), ("LAST", "LOOP_STATEMENTS"), ("BREAK", None)):
        for outer in ("NORMAL", "LOOP_STATEMENTS", "EVAL", "IF", "SWITCH"):
            for inner in ("NORMAL", "EVAL", "LOOP_STATEMENTS", "SWITCH"):
                for after in (0, 1):
                    def blk(t, kind, kids):
                        if kind != "SWITCH": return t.block(kids, kind)
                        return switch(t, [kids])
                    def switch(t, kids):
                        cond = t.op("DO_NOTHING", [t.op("SWITCH_CONDITION", [t.use("i")])])
                        return t.op("SWITCH", [cond, t.block([case(t, t.const(K["int"], C(1)), k) for k in kids], "SWITCH")], uv=t.obj("switch_info", case_infos=t.list([])))
                    def mk(t):
                        j = t.op(jump); d = [t.decl("i", K["int"])]
                        o = blk(t, outer, [blk(t, inner, [])] + [j]) if after else blk(t, outer, [blk(t, inner, [j])])
                        return d, o
                    need = "SWITCH" if jump == "BREAK" else "LOOP_STATEMENTS"
                    ok = need in ((outer,) if after else (outer, inner))
                    one(ck, b, "%s in a block %s %s a block %s" % (jump.lower(), outer, "after" if after else "around", inner), mk, None if ok else ERR, bad)
    def sw(t, cond, cases, default=0):
        kids = [case(t, c, []) for c in cases]
        t.cases = [t.get(k, "uv") for k in kids]
        if default: kids.insert(default - 1, t.op("DEFAULT", [t.block([])]))
        t.default = kids[default - 1] if default else None; t.nodefault = 1
        t.info = t.obj("switch_info", case_infos=t.list([]))
        return t.op("SWITCH", [t.op("DO_NOTHING", [t.op("SWITCH_CONDITION", [cond])]), t.block(kids, "SWITCH")], uv=t.info)
    def contents(t, vals, tree):
        st = b.st
        l = [C(0)] if (l0 := st.mem.get((t.info[1], ("case_infos",)))) is None else st.mem[(l0[1], ("items",))][1]
        got = [st.mem.get((c[1], ("case_value",)), C(0)) for c in l]
        if got != [C(v) for v in sorted(vals)]: return "the cases are %s, documented: %s" % ([g[1] for g in got], sorted(vals))
        own = {c: v for c, v in zip(t.cases, vals)}
        if any(own.get(c) != g[1] for c, g in zip(l, got)): return "a case has the value of another one"
        d = st.mem.get((t.info[1], ("op_default",)), C(0))
        if t.default is None:
            n = sum(1 for x in flat(tree) if x == ("DEFAULT", ("BLOCK", ("LIST", ("PUSHMARK",)))) or isinstance(x, tuple) and x[:1] == ("DEFAULT",))
            if n != t.nodefault: return "the number of default blocks is %d, documented: %d" % (n, t.nodefault)
        if t.default is not None and d != t.default: return "the default of the switch is another one"
    sp = Spec(b)
    for k in K.values():
        if k.void() or k.undef(): continue
        def mk(t): d = []; x = operand(t, "a", k, d); return d, sw(t, x, [t.const(K["int"], C(1))])
        one(ck, b, "switch of %s" % k, mk, None if sp.within(k) else ERR, bad)
        if sp.within(k) and k.base != "int":
            t = b.tree(); d = []; x = operand(t, "a", k, d); root = t.block(d + [sw(t, x, [t.const(K["int"], C(1))])], "METHOD")
            for r in b.check(root):
                if isinstance(r, str) or r[0] == "give up": continue
                if ("SWITCH_CONDITION", sp.cast(("VAR", "a"), "int")) not in flat(r[2]): bad.append("switch of %s: the condition is not converted to int" % k)
    for vals in ((), (1,), (1, 2), (2, 1), (3, 1, 2), (2, 3, 1), (3, 2, 1), (-1, 5, -2147483648, 2147483647, 0), (4, 3, 2, 1), (0, -3, 7, 3)):
        for default in range(0, min(len(vals) + 1, 2) + 1):
            def mk(t): d = [t.decl("i", K["int"])]; return d, sw(t, t.use("i"), [t.const(K["int"], C(v)) for v in vals], default)
            one(ck, b, "switch with the cases %s%s" % (vals, " and a default" if default else ""), mk, None, bad, events=lambda t, e, tree: contents(t, vals, tree))
    for vals in ((1, 1), (1, 2, 1), (2, 1, 2), (3, 2, 1, 3), (0, 0, 0), (1, 2, 3, 3)):
        def mk(t): d = [t.decl("i", K["int"])]; return d, sw(t, t.use("i"), [t.const(K["int"], C(v)) for v in vals])
        one(ck, b, "switch with the cases %s" % (vals,), mk, ERR, bad)
    for kn in ("byte", "short", "int", "long", "float", "double", "string"):
        def mk(t): d = [t.decl("i", K["int"])]; return d, sw(t, t.use("i"), [t.const(K[kn], C(7))])
        one(ck, b, "switch with a case of %s" % kn, mk, None if kn in ("byte", "int") else ERR, bad, events=lambda t, e, tree: contents(t, (7,), tree))
    def mk(t): d = [t.decl("i", K["int"])]; return d, sw(t, t.use("i"), [t.use("i")])
    one(ck, b, "switch with a case that is not a constant", mk, ERR, bad)
    def mk(t): d = [t.decl("i", K["int"])]; return d, sw(t, t.use("i"), [t.const(K["byte"], C(-1)), t.const(K["int"], C(255))])
    one(ck, b, "switch with the cases '\\xFF' and 255", mk, None, bad, events=lambda t, e, tree: contents(t, (-1, 255), tree))
    # a switch in a case of another: the cases belong to the innermost switch
    def mk(t):
        d = [t.decl("i", K["int"])]
        inner = sw(t, t.use("i"), [t.const(K["int"], C(v)) for v in (5, 4)]); ii, ic = t.info, t.cases
        c = case(t, t.const(K["int"], C(2)), [inner]); c2 = case(t, t.const(K["int"], C(1)), [])
        t.info = t.obj("switch_info", case_infos=t.list([])); t.cases = [t.get(c, "uv"), t.get(c2, "uv")]; t.default = None; t.inner = (ii, ic)
        return d, t.op("SWITCH", [t.op("DO_NOTHING", [t.op("SWITCH_CONDITION", [t.use("i")])]), t.block([c, c2], "SWITCH")], uv=t.info)
    def ev(t, e, tree):
        t.nodefault = 2
        m = contents(t, (2, 1), tree)
        if m: return "outer: " + m
        t.info, t.cases = t.inner; t.default = None
        m = contents(t, (5, 4), tree)
        return m and "inner: " + m
    one(ck, b, "a switch in a case of another switch", mk, None, bad, events=ev)
    ck.count("operators", 5)

def flat(x):
    if isinstance(x, tuple):
        yield x
        for y in x: yield from flat(y)

GROUPS = (operators, type_operators, assignments, statements)

def run(ck):
    ck.rule = ("The checker of method bodies (SPVM_CHECK_check_ast_syntax) and the functions it calls are evaluated from the IR of the current source on syntax trees: every operator applied to operands of every kind of type (kinds partition all "
               "types; symbols stand for every class, interface, multi-numeric type and dimension), every place a value is stored, returned or passed, every literal at the bounds of the narrower types, and switch statements. "
               "Whether it reports an error, and the tree it leaves - the inserted conversions, folded constants and resolved types - must be those of the language documents.")
    b = checker.Build(program())
    NAMES.update({k.bid: k.base for k in list(b.w2.values()) + list(b.w.byname.values()) if k.base})
    bad = []
    for g in GROUPS: g(ck, b, bad)
    report(ck, b, bad)
    for t in ("int ADD long", "byte[] STRING_CONCAT string", "new Class", "return of undef to Class"): ck.sample(t)
    ck.need("trees", 20000)

def report(ck, b, bad):
    prog = b.prog
    for n in b.it.fns: ck.functions.add(n)
    if bad:
        ck.violation("function:" + FN, "%s (%s) treats %d program%s otherwise than documented: %s" % (FN, prog.fn(FN).loc, len(bad), "s" if len(bad) > 1 else "", "; ".join(bad[:6])))
