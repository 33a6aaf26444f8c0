"""C25: the places of values: every value of a method is kept in a variable of its type, and live variables share no storage."""
import itertools
from .. import absint, checker
from ..absint import C, P, S
from .c22 import program, operand, BINARY, UNARY, PAIR, Spec, ERR

LEVEL = "other"
PASSES = ("SPVM_CHECK_check_ast_assign_unassigned_op_to_var", "SPVM_CHECK_check_ast_if_block_need_leave_scope", "SPVM_CHECK_check_ast_typed_var_indexs")
# operators that stand for statements or carry no value of their own; every other operator computes a value
NO_VALUE = {"LOOP_INCREMENT", "CONDITION", "CONDITION_NOT", "NEXT", "LAST", "SWITCH", "SWITCH_CONDITION", "DEFAULT", "CASE", "BREAK", "RETURN", "DIE", "VAR", "ASSIGN", "LIST", "PUSHMARK", "NAME", "TYPE", "BLOCK", "IF", "LOOP", "EVAL", "UNDEF",
            "SEQUENCE", "DO_NOTHING", "WEAKEN_FIELD", "UNWEAKEN_FIELD"}
MW = 3          # the width of the multi-numeric type used

class Build(checker.Build):
    mtype = "int"
    def oracle(s, it, n, a, st):
        if n == "SPVM_VAR_DECL_new":
            st.n += 1; o = P(("obj", "new", st.n)); st.zero = st.zero | {o[1]}
            return [(o, st)]
        if n == "sprintf": return [(C(1), st)]
        if n == "strstr": return [(C(0), st)]
        if n == "SPVM_LIST_get" and a[0][0] == "p" and a[0][1][:2] == ("obj", "fields"): return [(P(("obj", "mfield", s.mtype)), st)]
        if n == "strcmp" and a[0][0] == "p": return [(C(1), st)]
        return checker.Build.oracle(s, it, n, a, st)
    def field(s, it, o, path, ty, st):
        if isinstance(o, tuple) and o[:2] == ("obj", "fields") and path and ty == "i32": return C(MW)
        if isinstance(o, tuple) and o[:2] == ("obj", "mfield") and path and path[-1] == "type": return s.mty
        return checker.Build.field(s, it, o, path, ty, st)
    def tree(s, mtype="int"):
        t = checker.Build.tree(s); s.mtype = mtype; s.mty = t.ty(s.w.byname[mtype])
        return t
    def passes(s, root, bare=False):
        """(state before, state after) of every way through, or a message"""
        t = s.t; args = t.run_method(root)
        op = t.op("METHOD", uv=t.m); t.put(t.m, "op_method", op)
        lost = s.it.lost; s.it.budget = s.it.steps + 4 * checker.STEPS
        try:
            todo = [t.st] if bare else []
            if not bare:
                for v, st in s.it.call("SPVM_CHECK_check_ast_syntax", args, t.st):
                    if v is not None and v[0] == "abort" or any(e[0] == "error" for e in st.trace): continue
                    todo.append(st)
            out = []
            for st in todo:
                # the types of all operators, before
                before = st.copy(); types = {}
                for o in s.ops(before, root):
                    n = s.opname_of(before, o)
                    if n in NO_VALUE or n == "?": continue
                    r = s.it.call("SPVM_CHECK_get_type", (args[0], o), before.copy())
                    r = [x for x in r if x[0] is None or x[0][0] != "abort"]
                    if len(r) == 1 and r[0][0] is not None and r[0][0][0] == "p": types[o] = s.typename(r[0][1], r[0][0])
                cur = [st]
                for p in PASSES:
                    nxt = []
                    for x in cur:
                        for v, y in s.it.call(p, args, x):
                            if v is not None and v[0] == "abort": return "%s aborts" % p
                            nxt.append(y)
                    cur = nxt
                out += [(before, types, y) for y in cur]
        except absint.GiveUp as e: return ("give up", str(e))
        except absint.Budget: return "the passes do not come to an end"
        if s.it.lost > lost: return "the passes do not come to an end"
        return out
    def kids(s, st, o):
        k = checker.Build.kids(s, st, o)
        # the parts of a loop are moved without moving the link to the last one, which no later pass reads there
        if k and k[-1] == "the last operand is not linked" and s.opname_of(st, o) == "BLOCK" and s.get(st, s.get(st, o, "uv"), "id") == C(s.prog.enums["SPVM_BLOCK_C_ID_LOOP_INIT"]):
            k = k[:-1]
            if s.get(st, k[-1], "sibparent") != o: k.append("the last operand does not lead back to its operator")
        return k
    def ops(s, st, root):
        out = []; todo = [root]
        while todo:
            o = todo.pop()
            if isinstance(o, str) or o in out or len(out) > 3000: continue
            out.append(o); todo += s.kids(st, o)
        return out

def shape(b, st, o):
    """the tree of operators, by identity"""
    if isinstance(o, str): return o
    return (o,) + tuple(shape(b, st, k) for k in b.kids(st, o))

def judge(b, t, root, before, types, st):
    """what is wrong with the tree left"""
    decls = {}; temps = {}; wrong = []
    uses = []
    def walk(o, parent, place):
        if isinstance(o, str): wrong.append(o); return
        n = b.opname_of(st, o); kids = b.kids(st, o)
        if n == "VAR":
            uv = b.get(st, o, "uv"); d = b.get(st, uv, "var_decl"); uses.append(d)
            if b.get(st, uv, "is_declaration") != C(0):
                if d in decls: wrong.append("a variable is declared twice")
                decls[d] = o
            return
        for i, k in enumerate(kids): walk(k, o, (i, len(kids)))
        if n in NO_VALUE: return
        pn = b.opname_of(st, parent) if parent else None
        if pn == "ASSIGN":
            if place[0] == 1: return                                # it is assigned to
            dst = b.kids(st, parent)[1]
            if not isinstance(dst, str) and b.opname_of(st, dst) == "VAR": return
        wrong.append("the value of %s is not kept in a variable" % n)
    walk(root, None, None)
    if wrong: return wrong[0]
    # temporaries
    old = {b.get(before, b.get(before, o, "uv"), "var_decl") for o in b.ops(before, root) if b.opname_of(before, o) == "VAR"}
    temp = {d: o for d, o in decls.items() if d not in old}
    for d in set(uses) - old - set(temp): return "a temporary variable is used but not declared"
    for d in temp:
        if uses.count(d) != 1: return "a temporary variable is used for two values"
    vd = b.items(st, b.get(st, t.m, "var_decls"))
    for d in temp:
        if vd.count(d) != 1: return "a temporary variable is %s among the variables of the method" % ("missing" if d not in vd else "twice")
    def collapse(o):
        if isinstance(o, str): return o
        kids = b.kids(st, o)
        if b.opname_of(st, o) == "ASSIGN" and len(kids) == 2 and b.opname_of(st, kids[1]) == "VAR":
            d = b.get(st, b.get(st, kids[1], "uv"), "var_decl")
            if d in temp:
                src = kids[0]; ty = b.typename(st, b.get(st, d, "type"))
                if src in types and ty[:2] + (ty[2] if not isinstance(ty[2], int) else ty[2] & 1,) != types[src][:2] + (types[src][2] if not isinstance(types[src][2], int) else types[src][2] & 1,): wrong.append("the value of %s is kept in a variable of another type" % b.opname_of(st, src))
                return collapse(src)
        if b.opname_of(st, o) == "BLOCK" and b.get(st, b.get(st, o, "uv"), "id") == C(b.prog.enums["SPVM_BLOCK_C_ID_LOOP_INIT"]) and len(kids) == 4: kids = [kids[0], kids[3], kids[1], kids[2]]
        return (o,) + (tuple(collapse(k) for k in kids) if b.opname_of(st, o) != "VAR" else ())
    novar = lambda x: x if isinstance(x, str) else (x[0],) + (() if b.opname_of(before, x[0]) == "VAR" else tuple(novar(k) for k in x[1:]))
    c = collapse(root)
    if wrong: return wrong[0]
    if c != novar(shape(b, before, root)): return "the operators are not left in the order of the source"
    # the condition of a loop comes after its statements and increment
    def loops(x):
        o = x[0]
        if b.opname_of(before, o) == "BLOCK" and b.get(before, b.get(before, o, "uv"), "id") == C(b.prog.enums["SPVM_BLOCK_C_ID_LOOP_INIT"]):
            k = b.kids(before, o); k2 = [strip_(y) for y in b.kids(st, o)]
            if [y for y in k2] != [k[0], k[2], k[3], k[1]]: wrong.append("the parts of a loop are not in the order initialisation, statements, increment, condition")
        for y in x[1:]:
            if not isinstance(y, str): loops(y)
    strip_ = lambda o: o
    loops(shape(b, before, root))
    if wrong: return wrong[0]
    # storage
    groups = {}
    for d in decls:
        bt, dim, fl = b.typename(st, b.get(st, d, "type"))
        k = next((k for k in b.w.byname.values() if k.bid == bt and k.dim == dim and k.flag == fl), None) or next((k for k in list(b.w2.values()) + list(b.w.byname.values()) if k.bid == bt and k.dim == dim and (k.flag & 1) == (fl & 1)), None)
        if k is None:
            if dim != C(0): k = b.w.byname["int[]"]
            else: continue
        g, w = ("object", 1) if k.object() or k.undef() else ("ref", 1) if k.ref else (b.mtype, MW) if k.mulnum() else (k.base, 1) if k.numeric() else (None, 0)
        if g is None: continue
        at = b.get(st, d, "typed_var_index")
        if at[0] != "c": return "the place of a variable is not known"
        groups.setdefault(g, []).append((at[1], w, k))
    for g, l in groups.items():
        l.sort(key=lambda x: x[:2]); end = 0
        for at, w, k in l:
            if at < end: return "two variables of the %s variables overlap" % g
            end = at + w
        width = b.get(st, t.m, g + "_vars_width")
        if width[0] != "c" or width[1] < end: return "the %s variables of a call take %s places, %d are used" % (g, width[1], end)
    # scopes
    def scopes(o):
        has = False
        if isinstance(o, str): return False
        n = b.opname_of(st, o)
        if n == "VAR":
            uv = b.get(st, o, "uv")
            if b.get(st, uv, "is_declaration") != C(0):
                bt, dim, fl = b.typename(st, b.get(st, b.get(st, uv, "var_decl"), "type"))
                k = next((k for k in list(b.w.byname.values()) + list(b.w2.values()) if k.bid == bt and k.dim == dim and (k.flag & 1) == (fl & 1)), None)
                has = bool(k is None and dim != C(0) or k is not None and k.object())
            return has
        for x in b.kids(st, o):
            if scopes(x): has = True
        if n == "BLOCK":
            u = b.get(st, o, "uv"); need = b.get(st, u, "need_leave_scope") != C(0); no = b.get(st, u, "no_scope") != C(0)
            if has and not no and not need: wrong.append("a block that declares object variables, itself or in its inner blocks, does not release them at its end")
            if no and need: wrong.append("a block that is no scope releases object variables at its end")
        return has
    scopes(root)
    return wrong[0] if wrong else None

def one(ck, b, bad, label, build_, mtype="int", bare=False):
    if len(bad) >= 12: return False
    t = b.tree(mtype); b.assignable = (1, 0)
    items = build_(t)
    if items is None: return False
    root = t.block(items, "METHOD")
    r = b.passes(root, bare)
    if isinstance(r, tuple): ck.count("undecided"); ck.notes.append("%s: %s" % (label, r[1])); return False
    if isinstance(r, str): bad.append("%s: %s" % (label, r)); return False
    if not r: return False
    ck.count("trees")
    for before, types, st in r:
        m = judge(b, t, root, before, types, st)
        if m: bad.append("%s: %s" % (label, m)); return True
    return True

def expressions(b):
    """(label, builder of (declarations, operator)) of expressions the checker accepts"""
    K, L = b.w.byname, b.w2
    sp = Spec(b); out = []
    for n in UNARY:
        for k in K.values():
            if sp.unary(n, k) != ERR: out.append(("%s of %s" % (n, k), lambda t, d, s, n=n, k=k: t.op(n, [operand(t, "a" + s, k, d)]), n not in ("PRINT", "SAY", "WARN", "MAKE_READ_ONLY")))
    for n in BINARY:
        for k, l in (("int", "int"), ("byte", "long"), ("float", "double"), ("string", "string"), ("int[]", "int"), ("Class[]", "byte"), ("string", "int"), ("object", "object"), ("int", "string"), ("Mulnum[]", "int")):
            if sp.binary(n, K[k], L[l]) != ERR: out.append(("%s %s %s" % (k, n, l), lambda t, d, s, n=n, k=k, l=l: t.op(n, [operand(t, "a" + s, K[k], d), operand(t, "b" + s, L[l], d)]), True))
    for k in ("int", "string", "double", "long"): out.append(("a constant of %s" % k, lambda t, d, s, k=k: t.const(K[k], C(5)), True))
    for l in ("byte", "double", "string", "object", "int[]", "Class"): out.append(("a cast to %s" % l, lambda t, d, s, l=l: t.op("TYPE_CAST", [operand(t, "a" + s, K["object"], d), t.typ(K[l])]), True))
    out.append(("new of a class", lambda t, d, s: t.op("NEW", [t.typ(K["Class"])]), True))
    out.append(("new of an array", lambda t, d, s: t.op("NEW", [t.typ(K["int[]"]), operand(t, "a" + s, K["int"], d)]), True))
    out.append(("isa", lambda t, d, s: t.op("ISA", [operand(t, "a" + s, K["object"], d), t.typ(K["Class"])]), True))
    out.append(("is_type", lambda t, d, s: t.op("IS_TYPE", [operand(t, "a" + s, K["object"], d), t.typ(K["Class"])]), True))
    out.append(("isa_error", lambda t, d, s: t.op("ISA_ERROR", [operand(t, "a" + s, K["int"], d), t.typ(K["Class"])]), True))
    for n in ("TRUE", "FALSE", "EVAL_ERROR_ID", "ARGS_WIDTH", "EXCEPTION_VAR"): out.append((n, lambda t, d, s, n=n: t.op(n), True))
    out.append(("basic_type_id", lambda t, d, s: t.op("BASIC_TYPE_ID", [t.typ(K["Class"])]), True))
    for r in ("int", "string", "Mulnum", "double", "Class"):
        for n in (0, 1, 2): out.append(("a call returning %s with %d arguments" % (r, n), lambda t, d, s, r=r, n=n: t.call(t.method_obj("m", K[r], [L["int"]] * n, required_args_length=C(n), is_class_method=C(1)), [operand(t, "a%d%s" % (i, s), K["int"], d) for i in range(n)]), True))
    return out

def statement_trees(b, es):
    """every expression as a statement, as a value, as a destination's neighbour, as an operand"""
    K = b.w.byname
    for lab, e, value in es:
        def mk(t): d = []; x = e(t, d, ""); return d + [x]
        yield lab + " as a statement", mk
        if not value: continue
        def mk(t): d = []; x = e(t, d, ""); v = t.decl("d"); t.put(v, "is_dist", C(1)); return d + [t.op("ASSIGN", [x, v])]
        yield lab + " assigned to a variable", mk
        def mk(t):
            d = [t.decl("arr", K["object[]"]), t.decl("i", K["int"])]; x = e(t, d, ""); v = t.op("ELEMENT_ACCESS", [t.use("arr"), t.use("i")]); t.put(v, "is_dist", C(1))
            return d + [t.op("ASSIGN", [x, v])]
        yield lab + " assigned to an element", mk
        def mk(t): d = []; x = e(t, d, ""); return d + [t.op("WARN", [t.op("TYPE_CAST", [x, t.typ(K["string"])])])]
        yield lab + " as an operand", mk

def bodies(t, K, n, tag=""):
    """statements that declare variables"""
    k = ("int", "Class", "string", "Mulnum", "int*", "double", "byte")
    return [t.decl("v%s%d" % (tag, i), K[k[(i + len(tag)) % len(k)]]) for i in range(n)]

def run(ck):
    ck.rule = ("The passes after type checking (SPVM_CHECK_check_ast_assign_unassigned_op_to_var, check_ast_if_block_need_leave_scope, check_ast_typed_var_indexs) are evaluated from the IR of the current source on the trees the checker leaves for every "
               "operator with representative operands in every position, and on nested blocks and loops. In the tree left every operator that computes a value is the source of an assignment to a variable of its own type, temporaries are fresh, the order "
               "of the operators is that of the source, no two variables of a method share storage, the storage of a call covers them, and every scope that contains declarations of object variables, at any depth, releases them at its end.")
    b = Build(program()); bad = []
    K, L = b.w.byname, b.w2
    es = expressions(b); n = 0
    for lab, mk in statement_trees(b, es): n += one(ck, b, bad, lab, mk)
    # two values in one statement
    num = [e for e in es if e[0] in ("int ADD int", "byte MULTIPLY long", "a constant of int", "a call returning int with 2 arguments", "ARRAY_LENGTH of int[]", "int[] ELEMENT_ACCESS int")]
    for (l1, e1, _), (l2, e2, _) in itertools.product(num, repeat=2):
        def mk(t): d = []; x = e1(t, d, "x"); y = e2(t, d, "y"); return d + [t.op("ADD", [x, y]), t.op("SUBTRACT", [e2(t, d2 := [], "z"), t.const(K["int"], C(3))])] if 0 else d + [t.op("ADD", [x, y])]
        one(ck, b, bad, "%s + %s" % (l1, l2), mk)
        def mk(t): d = []; x = e1(t, d, "x"); y = e2(t, d, "y"); return d + [t.call(t.method_obj("m", K["void"], [L["int"]] * 2, required_args_length=C(2), is_class_method=C(1)), [x, y])]
        one(ck, b, bad, "a call with %s and %s" % (l1, l2), mk)
    # every sequence of declarations
    kinds = ("int", "byte", "double", "Class", "string", "Mulnum", "int*", "Mulnum*", "int[]")
    for mt in ("byte", "short", "int", "long", "float", "double"):
        for seq in itertools.product((mt, "Mulnum", "Class", "int*"), repeat=3): one(ck, b, bad, "variables of %s (multi-numeric of %s)" % (seq, mt), lambda t: [t.decl("v%d" % i, K[k]) for i, k in enumerate(seq)], mtype=mt)
    for seq in itertools.product(kinds, repeat=3): one(ck, b, bad, "variables of %s" % (seq,), lambda t: [t.decl("v%d" % i, K[k]) for i, k in enumerate(seq)])
    for k in K.values():
        if not k.void() and not k.undef(): one(ck, b, bad, "three variables of %s" % k, lambda t: [t.decl("v%d" % i, k) for i in range(3)])
    # blocks within blocks
    BL = ("NORMAL", "IF", "ELSE", "EVAL", "SWITCH", "LOOP_STATEMENTS")
    for kinds2 in itertools.product(("int", "Class"), repeat=4):
        for no in itertools.product((0, 1), repeat=2):
            for after in (0, 1):
                def mk(t):
                    inner = t.block([t.decl("c", K[kinds2[2]])], BL[(len(kinds2[0]) + no[0]) % len(BL)], no_scope=no[1])
                    mid = t.block([t.decl("b", K[kinds2[1]]), inner] if not after else [inner, t.decl("b", K[kinds2[1]])], "NORMAL", no_scope=no[0])
                    return [t.decl("a", K[kinds2[0]]), mid, t.decl("d", K[kinds2[3]])]
                one(ck, b, bad, "nested blocks with variables of %s (no scopes: %s)" % (kinds2, no), mk)
    for kid in BL:
        for k in ("int", "Class", "string", "object[]"):
            one(ck, b, bad, "a %s block with a variable of %s" % (kid, k), lambda t: [t.block([t.block([t.decl("a", K[k])], kid)])])
            one(ck, b, bad, "a %s block with a value of %s" % (kid, k), lambda t: [t.decl("x", K[k]), t.block([t.op("CONDITION_EVALUATION", [t.use("x")])], kid)])
    for kid, kid2, kid3 in itertools.product(BL, repeat=3):
        for no in (0, 1):
            one(ck, b, bad, "a %s block in a %s block in a %s block%s" % (kid3, kid2, kid, " that is no scope" * no),
                lambda t: [t.block([t.block([t.block([t.decl("a", K["Class"])], kid3)], kid2, no_scope=no)], kid), t.block([t.decl("b", K["int"])], kid)])
    # loops
    def loop(t, init, cond, stmts, inc):
        c = t.op("CONDITION_NOT", [t.op("CONDITION_EVALUATION", [cond])]); blk = t.block(stmts, "LOOP_STATEMENTS"); li = t.op("LOOP_INCREMENT", [inc])
        ini = t.op("BLOCK", [init, c, blk, li], uv=t.obj("block", id=C(t.e["SPVM_BLOCK_C_ID_LOOP_INIT"])))
        t.put(t.get(ini, "uv"), "no_scope", C(0))
        return t.op("BLOCK", [t.op("LOOP", [ini])], uv=t.obj("block", id=C(t.e["SPVM_BLOCK_C_ID_NORMAL"])))
    for k in ("int", "Class", "Mulnum"):
        for deep in (0, 1):
            def mk(t):
                d = [t.decl("n", L["int"]), t.decl("o", K["object"])]
                def lp(tag, inner):
                    cnd = t.op("NUMERIC_COMPARISON_LT", [t.use("n"), t.const(K["int"], C(10))])
                    return loop(t, t.op("ASSIGN", [t.const(K["int"], C(0)), t.decl("i" + tag, L["int"])]), cnd, [t.decl("v" + tag, K[k])] + inner, t.op("ADD", [t.use("n"), t.const(K["int"], C(1))]))
                return d + [lp("x", [lp("y", [])] if deep else [])]
            one(ck, b, bad, "%sa loop with a variable of %s" % ("a loop in " * deep, k), mk)
    for f in b.it.fns: ck.functions.add(f)
    if bad:
        fn = PASSES[0]
        ck.violation("function:" + fn, "%s (%s) and the passes after it treat %d method%s wrongly: %s" % (fn, b.prog.fn(fn).loc, len(bad), "s" if len(bad) > 1 else "", "; ".join(bad[:6])))
    for s in ("int ADD int assigned to an element", "nested blocks with variables of (int, Class, int, Class)"): ck.sample(s)
    ck.need("trees", 500)
