"""C23: which declaration a name refers to, and who may access it."""
import itertools
from .. import checker
from ..absint import C, P
from .c22 import program, report

LEVEL = "other"

def run_tree(ck, b, label, mk, want, bad, current=None):
    """want: 'error' or a function of the tree left that says what is wrong with it"""
    if len(bad) >= 12: return
    t = b.tree(); b.real = True
    items = mk(t)
    root = t.root = t.block(items, "METHOD")
    if getattr(t, "cur", None): t.current = t.cur
    res = b.check(root)
    if not res or any(r[0] == "give up" for r in res):
        ck.count("undecided"); ck.notes.append("%s: not decided (%s)" % (label, res[:1])); return
    ck.count("trees")
    for r in res:
        if isinstance(r, str): bad.append("%s: the compiler %s" % (label, {"abort": "aborts", "endless": "does not come to an end"}[r])); return
        errs, ev, tree = r
        if want == "error":
            if not errs: bad.append("%s: accepted, documented: a compilation error" % label); return
        elif errs: bad.append("%s: rejected (%s), documented: accepted" % (label, errs[0].split("\n")[0])); return
        else:
            m = want(tree, ev, t)
            if m: bad.append("%s: %s" % (label, m)); return

# scopes --------------------------------------------------------------------
def shapes(depth, n):
    """statement lists of n statements: d(eclare), u(se), or a block"""
    if n == 0: yield (); return
    for rest in shapes(depth, n - 1):
        for h in ("dx", "dy", "ux"): yield (h,) + rest
    if depth:
        for k in range(1, n):
            for inner in shapes(depth - 1, k):
                for rest in shapes(depth, n - 1 - k): yield (("{",) + inner,) + rest

def resolve(prog):
    """[class variable or declaration number for each use], or 'error'"""
    uses = []; num = [0]
    class Err(Exception): pass
    def go(stmts, env):
        here = {}
        for s in stmts:
            if s == "ux":
                for e in [here] + env:
                    if "x" in e: uses.append(e["x"]); break
                else: uses.append("class")
            elif s[0] == "d":
                if s[1] in here: raise Err
                here[s[1]] = num[0]; num[0] += 1
            else: go(s[1:], [here] + env)
    try: go(prog, [])
    except Err: return "error"
    return uses

BLOCKS = ("NORMAL", "IF", "ELSE", "LOOP_STATEMENTS", "EVAL", "SWITCH")

def scopes(ck, b, bad, n=5):
    k = 0
    for prog in shapes(2, n):
        k += 1
        res = resolve(prog)
        for cv in (1, 0) if res != "error" and "class" in res else (1,):
            def mk(t):
                t.cur = t.cls("Cur"); num = [0]; order = t.order = []; idx = [0]
                if cv: v = t.obj("class_var", name=("str", "$x"), current_basic_type=t.cur, access_control_type=C(t.e["SPVM_ATTRIBUTE_C_ID_PRIVATE"])); t.member(t.cur, "class_var", "$x", v); t.names[v] = "Cur::$x"
                def go(stmts):
                    out = []
                    for s in stmts:
                        if s == "ux": out.append(t.use("x"))
                        elif s[0] == "d":
                            o = t.decl(s[1], b.w.byname["int"]); d = t.get(t.get(o, "uv"), "var_decl"); t.decls[d[1]] = num[0]; order.append(d); num[0] += 1; out.append(o)
                        else: idx[0] += 1; out.append(t.block(go(s[1:]), BLOCKS[(k + idx[0]) % len(BLOCKS)]))
                    return out
                return go(prog)
            def want(tree, ev, t):
                got = []
                def walk(x):
                    if not isinstance(x, tuple): return
                    if x and x[0] == "VAR": got.append(x[1])
                    elif x and x[0] == "CLASS_VAR_ACCESS": got.append("class" if x[1] == "Cur::$x" else x[1])
                    else:
                        for y in x: walk(y)
                walk(tree)
                # declarations themselves are read as well
                exp = []; u = iter(res); num = [0]
                def go(stmts):
                    for s in stmts:
                        if s == "ux": exp.append(next(u))
                        elif s[0] == "d": exp.append(num[0]); num[0] += 1
                        else: go(s[1:])
                go(prog)
                if got != exp: return "the uses refer to the declarations %s, documented: %s" % (got, exp)
                l = b.st.mem.get((t.get(t.m, "var_decls")[1], ("items",)))
                if l is None or list(l[1]) != t.order: return "the variables of the method are not its declarations in order"
                for i, d in enumerate(t.order):
                    if b.st.mem.get((d[1], ("index",)), C(0)) != C(i): return "the index of a variable is not its place among the variables of the method"
            show = lambda s: " ".join(x if isinstance(x, str) else "{" + show(x[1:]) + "}" for x in s)
            run_tree(ck, b, "statements %s%s" % (show(prog), "" if cv else " without a class variable x"), mk, "error" if res == "error" or "class" in res and not cv else want, bad)
    # temporaries of the compiler are not redeclarations; a block without a scope belongs to the block around it
    def mk(t): t.cur = t.cls("Cur"); return [t.decl(".t", b.w.byname["int"]), t.decl(".t", b.w.byname["int"])]
    run_tree(ck, b, "two temporaries of the same name", mk, lambda *a: None, bad)
    def mk(t): t.cur = t.cls("Cur"); return [t.decl("x", b.w.byname["int"]), t.block([t.decl("x", b.w.byname["int"])], no_scope=1)]
    run_tree(ck, b, "a redeclaration in a block without a scope", mk, "error", bad)
    def mk(t): t.cur = t.cls("Cur"); return [t.block([t.decl("x", b.w.byname["int"])], no_scope=1), t.use("x")]
    run_tree(ck, b, "a variable declared in a block without a scope", mk, lambda *a: None, bad)

# access ----------------------------------------------------------------------
def world(t, anon, same_field=0):
    """Cur extends Mid extends Base; Derived extends Cur; Ally allows Cur; Friend allows Other; Other"""
    c = {}
    c["Base"] = t.cls("Base", access="PRIVATE"); c["Mid"] = t.cls("Mid", c["Base"]); c["Cur"] = t.cls("Cur", c["Mid"]); c["Derived"] = t.cls("Derived", c["Cur"])
    c["Ally"] = t.cls("Ally", allows=("Other", "Cur")); c["Friend"] = t.cls("Friend", allows=("Other", "Mid", "Derived")); c["Other"] = t.cls("Other"); c["AllyBase"] = t.cls("AllyBase", c["Ally"])
    c["I"] = t.cls("I", cat="INTERFACE")
    # names alike
    for n in ALIKE: c[n] = t.cls(n)
    c["Near"] = t.cls("Near", allows=ALIKE)
    if anon: c["Anon"] = t.cls("Cur::anon_method::1::2", outmost=c["Cur"]); t.outmost_name = "Cur"
    t.cur = c["Anon"] if anon else c["Cur"]
    return c
def may(target, acc, anon):
    return acc == "PUBLIC" or target == "Cur" or target == "Ally" or acc == "PROTECTED" and target in ("Mid", "Base") or anon and target == "Anon"
ACC = ("PUBLIC", "PROTECTED", "PRIVATE")
ALIKE = ("Cu", "Curr", "OCur", "cur", "Other::Cur", "Cur::Other")
TARGETS = ("Base", "Mid", "Cur", "Derived", "Ally", "Friend", "Other", "AllyBase", "Near") + ALIKE

def meth(t, c, name, acc="PUBLIC", class_method=1, args=0, required=None, enum=None, label=None):
    n = args + (0 if class_method else 1)
    decls = ([] if class_method else [t.obj("var_decl", type=t.class_type(c), is_arg=C(1))]) + [t.obj("var_decl", type=t.ty(t.kind("int")), is_arg=C(1)) for _ in range(args)]
    m = t.obj("method", name=("str", name), current_basic_type=c, return_type=t.ty(t.kind("int")), args_length=C(n), required_args_length=C((args if required is None else required) + (0 if class_method else 1)), var_decls=t.list(decls),
              is_class_method=C(class_method), access_control_type=C(t.e["SPVM_ATTRIBUTE_C_ID_" + acc]))
    if enum is not None: t.put(m, "is_enum", C(1)); t.put(m, "enum_value", C(enum))
    t.member(c, "method", name, m); t.names[m] = t.get(c, "name")[1] + "#" + name
    return m
def call(t, name, invocant=None, cls=None, current=0, args=()):
    l = t.op("LIST", [t.op("PUSHMARK")] + ([invocant] if invocant is not None else []) + list(args))
    kids = [l] + ([t.op("TYPE", uv=t.class_type(cls))] if cls is not None else [])
    cm = t.obj("call_method", op_name=t.op("NAME", uv=("str", name)), is_class_method=C(int(invocant is None)), is_current=C(current))
    return t.op("CALL_METHOD", kids, uv=cm)
def fld(t, c, name, acc, kind="int", owner=None):
    f = t.obj("field", name=("str", name), current_basic_type=c, type=t.ty(t.kind(kind)), access_control_type=C(t.e["SPVM_ATTRIBUTE_C_ID_" + acc]), op_name=t.op("NAME", uv=("str", name)))
    t.member(c, "field", name, f); t.names[f] = t.get(c, "name")[1] + "#" + name
    if owner is None: t.member(c, "unmerged_field", name, f)
    return f
def field_access(t, inv, name, flag=0): return t.op("FIELD_ACCESS", [inv], uv=t.obj("field_access", op_name=t.op("NAME", uv=("str", name))), flag=flag)

def last(tree): return tree[1][-1]
def strings(ev): return [e[2][1] for e in ev if e[0] == "string" and e[2][0] == "str"]

def access(ck, b, bad):
    for anon in (0, 1):
        who = "an anon method of Cur" if anon else "Cur"
        for target in TARGETS + (("Anon",) if anon else ()):
            for acc in ACC:
                if target in ALIKE and acc == "PUBLIC": continue
                ok = may(target, acc, anon)
                w = (lambda tree, ev, t: None) if ok else "error"
                def mk(t): c = world(t, anon); meth(t, c[target], "m", acc); return [call(t, "m", cls=c[target])]
                run_tree(ck, b, "%s calls the %s class method of %s" % (who, acc.lower(), target), mk, w, bad)
                def mk(t): c = world(t, anon); meth(t, c[target], "m", acc, 0); return [t.class_decl("o", c[target]), call(t, "m", invocant=t.use("o"))]
                run_tree(ck, b, "%s calls the %s instance method of %s" % (who, acc.lower(), target), mk, w, bad)
                def mk(t):
                    c = world(t, anon); n = t.get(c[target], "name")[1]
                    v = t.obj("class_var", name=("str", "$v"), current_basic_type=c[target], access_control_type=C(t.e["SPVM_ATTRIBUTE_C_ID_" + acc])); t.member(c[target], "class_var", "$v", v); t.names[v] = target
                    return [t.use(n + "::v")]
                run_tree(ck, b, "%s reads the %s class variable of %s" % (who, acc.lower(), target), mk, w if w == "error" else lambda tree, ev, t: None if last(tree) == ("CLASS_VAR_ACCESS", target) else "becomes %s" % (last(tree),), bad)
                def mk(t): c = world(t, anon); t.put(c[target], "access_control_type", C(t.e["SPVM_ATTRIBUTE_C_ID_" + acc])); return [t.op("NEW", [t.op("TYPE", uv=t.class_type(c[target]))])]
                run_tree(ck, b, "%s creates an object of the %s class %s" % (who, acc.lower(), target), mk, w, bad)
                for same in (0, 1):
                    if same and target in ("Cur", "Mid", "Base", "Anon", "Derived") + ALIKE: continue
                    def mk(t):
                        c = world(t, anon); fld(t, c[target], "f", acc)
                        if same: fld(t, c["Cur"], "f", "PRIVATE", "long")
                        return [t.class_decl("o", c[target]), field_access(t, t.use("o"), "f")]
                    run_tree(ck, b, "%s%s accesses the %s field of %s" % (who, ", with a field of the same name," if same else "", acc.lower(), target), mk, "error" if not ok else lambda tree, ev, t: None if last(tree)[1] == t.get(t.classes["Cur::anon_method::1::2" if target == "Anon" else target], "name")[1] + "#f" else "becomes %s" % (last(tree),), bad)
        # a field of the super class, through the class itself: the fields of the super classes are among those of the class
        for acc in ACC:
            def mk(t):
                c = world(t, anon); f = fld(t, c["Base"], "f", acc); g = fld(t, c["Cur"], "f", acc, owner="Base")
                return [t.class_decl("o", c["Cur"]), field_access(t, t.use("o"), "f")]
            run_tree(ck, b, "%s accesses the %s field defined in Base of an object of Cur" % (who, acc.lower()), mk, (lambda tree, ev, t: None) if acc != "PRIVATE" else "error", bad)
    ck.count("accesses", 2 * (len(TARGETS) * 3 * 5 + 3))

# resolution --------------------------------------------------------------------
def methods(ck, b, bad):
    is_ = lambda name, static="": lambda tree, ev, t: None if last(tree)[1:3] == (name, static) else "resolves to %s%s, documented: %s" % (last(tree)[1], " statically" if last(tree)[2] else "", name)
    # which of the classes of a hierarchy define the method
    H = ("Base", "Mid", "Cur")
    for defs in itertools.product((None, 0, 1), repeat=3):            # not defined, instance method, class method
        def setup(t):
            c = world(t, 0)
            for n, d in zip(H, defs):
                if d is not None: meth(t, c[n], "m", class_method=d)
            return c
        label = ", ".join("%s in %s" % ("an instance method" if d == 0 else "a class method", n) for n, d in zip(H, defs) if d is not None) or "no method"
        found = next((n for n, d in reversed(list(zip(H, defs))) if d is not None), None)
        D = dict(zip(H, defs))
        def mk(t): c = setup(t); return [t.class_decl("o", c["Cur"]), call(t, "m", invocant=t.use("o"))]
        run_tree(ck, b, "an instance method call with %s" % label, mk, is_(found + "#m") if found and D[found] == 0 else "error", bad)
        def mk(t): c = setup(t); return [call(t, "m", cls=c["Cur"])]
        run_tree(ck, b, "a class method call with %s" % label, mk, is_("Cur#m") if D["Cur"] == 1 else "error", bad)
        def mk(t): c = setup(t); return [call(t, "m", current=1)]
        run_tree(ck, b, "a class method call of & with %s" % label, mk, is_("Cur#m") if D["Cur"] == 1 else "error", bad)
        # the number of arguments does not tell the sorts apart
        def setup1(t):
            c = world(t, 0)
            for n, d in zip(H, defs):
                if d is not None: meth(t, c[n], "m", class_method=d, args=1 if d else 0)
            return c
        for cur in (0, 1):
            def mk(t): c = setup1(t); return [t.class_decl("o", c["Cur"]), call(t, "m", cls=None if cur else c["Cur"], current=cur, args=[t.use("o")])]
            run_tree(ck, b, "a class method call%s with %s and an object as argument" % (" of &" * cur, label), mk, is_("Cur#m") if D["Cur"] == 1 else "error", bad)
        def mk(t): c = setup1(t); return [t.class_decl("o", c["Cur"]), call(t, "m", invocant=t.use("o"))]
        run_tree(ck, b, "an instance method call with %s of one argument" % label, mk, is_(found + "#m") if found and D[found] == 0 else "error", bad)
        def mk(t): c = setup1(t); return [t.class_decl("o", c["Cur"]), call(t, "SUPER::m", invocant=t.use("o"))]
        s1 = next((n for n in ("Mid", "Base") if D[n] is not None), None)
        run_tree(ck, b, "a method call of SUPER with %s of one argument" % label, mk, is_(s1 + "#m", "static") if s1 and D[s1] == 0 else "error", bad)
        for target in H:
            def mk(t): c = setup(t); return [t.class_decl("o", c["Cur"]), call(t, target + "::m", invocant=t.use("o"))]
            run_tree(ck, b, "a static instance method call of %s with %s" % (target, label), mk, is_(target + "#m", "static") if D[target] == 0 else "error", bad)
        sup = next((n for n in ("Mid", "Base") if D[n] is not None), None)
        def mk(t): c = setup(t); return [t.class_decl("o", c["Cur"]), call(t, "SUPER::m", invocant=t.use("o"))]
        run_tree(ck, b, "a method call of SUPER with %s" % label, mk, is_(sup + "#m", "static") if sup and D[sup] == 0 else "error", bad)
    # names of which another is a part
    def mk(t):
        c = world(t, 0); d = t.cls("Ba"); meth(t, d, "m", class_method=0); e = t.cls("Base::Sub"); meth(t, e, "m", class_method=0); meth(t, c["Base"], "m", class_method=0)
        return [t.class_decl("o", e), call(t, "Base::Sub::m", invocant=t.use("o"))]
    run_tree(ck, b, "a static instance method call of Base::Sub", mk, is_("Base::Sub#m", "static"), bad)
    def mk(t): c = world(t, 0); return [t.class_decl("o", c["Cur"]), call(t, "Nowhere::m", invocant=t.use("o"))]
    run_tree(ck, b, "a static instance method call of a class that is not loaded", mk, "error", bad)
    def mk(t): c = world(t, 0); meth(t, c["Other"], "m"); return [t.class_decl("o", c["Base"]), call(t, "SUPER::m", invocant=t.use("o"))]
    run_tree(ck, b, "a method call of SUPER in a class without a super class", mk, "error", bad)
    for anon in (0, 1):
        def mk(t):
            c = world(t, anon); meth(t, c["Cur"], "m", "PRIVATE")
            if anon: meth(t, c["Anon"], "m")
            return [call(t, "m", current=1)]
        run_tree(ck, b, "a class method call of & in %s" % ("an anon method" if anon else "a class"), mk, is_("Cur#m"), bad)
    # the invocant
    for k in b.w.byname.values():
        if k.void() or k.undef(): continue
        def mk(t):
            world(t, 0); o = t.decl("o", k)
            return [o, call(t, "m", invocant=t.use("o"))]
        if not (k.classt() or k.iface()): run_tree(ck, b, "a method call of an invocant of %s" % k, mk, "error", bad)
    def mk(t): c = world(t, 0); meth(t, c["I"], "m", class_method=0); return [t.class_decl("o", c["I"]), call(t, "m", invocant=t.use("o"))]
    run_tree(ck, b, "an instance method call of an interface", mk, is_("I#m"), bad)
    # the number of arguments
    for inst in (0, 1):
        for args, req in ((0, 0), (1, 1), (2, 2), (2, 1), (3, 1), (3, 0)):
            for n in range(0, 5):
                def mk(t):
                    c = world(t, 0); meth(t, c["Cur"], "m", class_method=1 - inst, args=args, required=req); d = [t.decl("a", b.w.byname["int"])]
                    if inst: d.append(t.class_decl("o", c["Cur"]))
                    a = [t.use("a") for _ in range(n)]
                    return d + [call(t, "m", invocant=t.use("o") if inst else None, cls=None if inst else c["Cur"], args=a)]
                def w(tree, ev, t):
                    cm = None
                    for (o, f), v in b.st.mem.items():
                        if f == ("args_length",) and o[1] == "call_method": cm = v
                    if cm != C(n + inst): return "the number of arguments is recorded as %s, it is %d" % (cm, n + inst)
                    s = strings(ev)
                    if "m" not in s or not inst and "Cur" not in s: return "the names the call needs are not registered as constant strings of the class"
                run_tree(ck, b, "%s method with %d arguments, %d of them required, called with %d" % ("an instance" if inst else "a class", args, req, n), mk, w if req <= n <= args else "error", bad)
    # enumerations
    def mk(t): c = world(t, 0); meth(t, c["Other"], "E", enum=-7); return [call(t, "E", cls=c["Other"])]
    run_tree(ck, b, "a call of an enumeration value", mk, lambda tree, ev, t: None if last(tree) == ("CONSTANT", -7) else "becomes %s, documented: the value" % (last(tree),), bad)
    # can
    for inv, name, ok in (("Cur", "m", 1), ("I", "j", 1), ("Cur", "n", 0)):
        def mk(t): c = world(t, 0); meth(t, c["Cur"], "m", class_method=0); meth(t, c["I"], "j", class_method=0); return [t.class_decl("o", c[inv]), t.op("CAN", [t.use("o"), t.op("NAME", uv=("str", name))])]
        run_tree(ck, b, "can %s of %s" % (name, inv), mk, (lambda tree, ev, t: None if name in strings(ev) else "the name of the method is not registered as a constant string of the class") if ok else "error", bad)
    for k in b.w.byname.values():
        if k.void() or k.undef() or k.classt() or k.iface(): continue
        def mk(t): world(t, 0); return [t.decl("o", k), t.op("CAN", [t.use("o"), t.op("NAME", uv=("str", "m"))])]
        run_tree(ck, b, "can of an invocant of %s" % k, mk, "error", bad)
    # the name of the outmost class
    for anon in (0, 1):
        def mk(t): world(t, anon); return [t.op("OUTMOST_CLASS_NAME")]
        def w(tree, ev, t):
            for (o, f), v in b.st.mem.items():
                if f and f[0] == "value" and v[0] == "str" and v[1] == "Cur": return None
            return "the name is not the name of the outmost class"
        run_tree(ck, b, "__PACKAGE__ in %s" % ("an anon method" if anon else "a method"), mk, w, bad)

def variables(ck, b, bad):
    cv = lambda t, c, n, acc="PUBLIC": (lambda v: (t.member(c, "class_var", "$" + n, v), t.names.__setitem__(v, t.get(c, "name")[1] + "::" + n)))(t.obj("class_var", name=("str", "$" + n), current_basic_type=c, access_control_type=C(t.e["SPVM_ATTRIBUTE_C_ID_" + acc])))
    is_ = lambda name: lambda tree, ev, t: None if last(tree) == ("CLASS_VAR_ACCESS", name) else "becomes %s, documented: the class variable %s" % (last(tree), name)
    for anon in (0, 1):
        def mk(t): c = world(t, anon); cv(t, c["Cur"], "v", "PRIVATE"); cv(t, c["Base"], "v"); return [t.use("v")]
        run_tree(ck, b, "a class variable of the outmost class in %s" % ("an anon method" if anon else "a method"), mk, is_("Cur::v"), bad)
        def mk(t): c = world(t, anon); cv(t, c["Base"], "v"); cv(t, c["Other"], "v"); return [t.use("v")]
        run_tree(ck, b, "a class variable of the super class without its name", mk, "error", bad)
    for n in ("Other", "A::B", "A", "Long::Name::Of::It"):
        def mk(t):
            c = world(t, 0)
            for q in ("A", "A::B", "Long::Name::Of::It", "B", "Long"):
                d = t.cls(q); cv(t, d, "v"); cv(t, d, "vv")
            cv(t, c["Other"], "v"); cv(t, c["Cur"], "v")
            return [t.decl("v", b.w.byname["int"]), t.use(n + "::v")]
        run_tree(ck, b, "the class variable $%s::v" % n, mk, is_(n + "::v"), bad)
    # what is assigned to stays a destination
    for dist in (0, 1):
        def mk(t): c = world(t, 0); cv(t, c["Cur"], "v"); o = t.use("v"); t.put(o, "is_dist", C(dist)); return [o]
        def w(tree, ev, t):
            o = b.kids(b.st, b.kids(b.st, t.root)[0])[-1]
            if b.get(b.st, o, "is_dist") != C(dist): return "forgets whether it is a destination"
        run_tree(ck, b, "a class variable that is%s assigned to" % ("" if dist else " not"), mk, w, bad)
    for n in ("Other::w", "Nowhere::v"):
        def mk(t): c = world(t, 0); cv(t, c["Other"], "v"); cv(t, c["Cur"], "w"); return [t.use(n)]
        run_tree(ck, b, "the class variable $%s that does not exist" % n, mk, "error", bad)

def fields(ck, b, bad):
    F = {n: b.prog.enums["SPVM_OP_C_FLAG_FIELD_ACCESS_" + n] for n in ("WEAKEN", "UNWEAKEN", "ISWEAK")}
    for where in ("Base", "Mid", "Cur", None):
        def mk(t):
            c = world(t, 0)
            if where: fld(t, c[where], "f", "PUBLIC")
            return [t.class_decl("o", c["Cur"]), field_access(t, t.use("o"), "f")]
        run_tree(ck, b, "the field f defined in %s" % where, mk, (lambda tree, ev, t: None if last(tree)[1] == where + "#f" and "f" in strings(ev) and where in strings(ev) else "resolves to %s (constant strings %s)" % (last(tree)[1], strings(ev))) if where else "error", bad)
    for k in b.w.byname.values():
        if k.void() or k.undef(): continue
        good = k.classt() or k.mulnum() or k.ref and k.cat == "MULNUM"
        def mk(t):
            world(t, 0); o = field_access(t, t.use("o"), "f"); c = t.cls("Own"); t.put(t.get(o, "uv"), "field", fld(t, c, "f", "PUBLIC"))
            return [t.decl("o", k), o]
        run_tree(ck, b, "a field access of an invocant of %s" % k, mk, (lambda tree, ev, t: None) if good else "error", bad)
        for n, fl in F.items():
            if k.mulnum(): continue
            def mk(t):
                c = world(t, 0); f = fld(t, c["Cur"], "f", "PUBLIC"); t.put(f, "type", t.ty(k))
                return [t.class_decl("o", c["Cur"]), field_access(t, t.use("o"), "f", fl)]
            run_tree(ck, b, "%s of a field of %s" % (n.lower(), k), mk, (lambda tree, ev, t: None) if k.object() else "error", bad)
    # the field of an element of an array of multi-numeric numbers
    for kn, good in (("Mulnum[]", 1), ("Class[]", 0)):
        def mk(t):
            c = world(t, 0); own = t.cls("Own")
            o = field_access(t, t.op("ELEMENT_ACCESS", [t.use("a"), t.use("i")]), "f"); t.put(o, "is_dist", C(1)); f = fld(t, own, "f", "PUBLIC"); t.put(t.get(o, "uv"), "field", f); t.f = f
            return [t.decl("a", b.w.byname[kn]), t.decl("i", b.w.byname["int"]), o]
        def w(tree, ev, t):
            x = last(tree)
            if good and x != ("ARRAY_FIELD_ACCESS", ("VAR", "a"), ("VAR", "i")): return "becomes %s" % (x,)
            if not good: return None if x[0] == "FIELD_ACCESS" else "becomes %s" % (x,)
            l = [(o, v) for (o, f), v in b.st.mem.items() if f == ("field",) and v == t.f and o[1] != "field_access"]
            if len(l) != 1: return "the access of the element does not name the field"
            d = [o for (o, f), v in b.st.mem.items() if f == ("is_dist",) and v == C(1)]
            if len(d) < 2: return "the access of the element forgets that it is a destination"
        run_tree(ck, b, "a field of an element of %s" % kn, mk, w, bad)

GROUPS = (scopes, access, methods, variables, fields)

def run(ck):
    ck.rule = ("The checker of method bodies (SPVM_CHECK_check_ast_syntax) and the functions that resolve names and decide accesses (check_call_method, check_field_access, check_class_var_access, search_method, can_access, is_allowed, "
               "is_super_class) are evaluated from the IR of the current source on syntax trees: every nesting of declarations and uses up to the stated size, accesses of every access control between classes of every relation, calls over every "
               "hierarchy of definitions. The declaration each name resolves to, and the acceptance, must be those of the resolution and access control rules of the language documents.")
    b = checker.Build(program())
    bad = []
    for g in GROUPS: g(ck, b, bad, *((6,) if g is scopes and ck.tier == "thorough" else ()))
    report(ck, b, bad)
    for t in ("dx { ux dx ux } ux", "an anon method of Cur accesses the protected field of Base"): ck.sample(t)
    ck.need("trees", 2000)
