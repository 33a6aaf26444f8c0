"""What a syntax tree does: a walk of the tree that writes down, in order, what is evaluated, tested, written and left, with the values as terms.
The documented meaning of a construct is written with the same primitives; the two are compared as decision trees."""
from .absint import C, P

INT = ("type", "int", 0, 0)

class Leave(Exception):
    def __init__(s, how, *v): s.how, s.v = how, v

class M:
    """one way through; choices are replayed"""
    def __init__(s, pre):
        s.pre, s.n, s.ev, s.env, s.ver, s.flag, s.cnt = pre, 0, [], {}, {}, ("no condition",), {}
        s.scopes = []
    def emit(s, *e):
        # a scope begins where its first operand is evaluated or its first variable declared; without any it is not told apart
        if s.scopes and not s.scopes[-1] and e[0] in ("evaluate", "declare"): s.scopes[-1] = True; s.ev.append(("{",))
        s.ev.append(e)
    def choose(s, what, k=2):
        b = s.pre[s.n] if s.n < len(s.pre) else 0
        s.n += 1
        if s.n > len(s.pre): s.pre = s.pre + (0,)
        s.arity = getattr(s, "arity", {}); s.arity[s.n - 1] = k
        s.ev.append(("?", what, b))
        return b
    def leaf(s, name):
        k = s.cnt[name] = s.cnt.get(name, 0) + 1
        s.emit("evaluate", name)
        if name.startswith("leave:"): raise Leave(*name.split(":")[1:])
        return ("value", name, k)
    def do(s, name, *args):
        t = (name,) + args; s.emit("do", t); return t
    def test(s, v):
        """condition evaluation: (true?, the evaluated value)"""
        if v[0] == "constant" and v[1] == INT: return (True, ("condition", v)) if v[2] else (False, ("int", 0))
        v = ("condition", v)
        return (True, v) if s.choose(v) == 0 else (False, ("int", 0))
    def read(s, x): return ("variable", x, s.ver.get(x, 0))
    def write(s, x, v, *how):
        s.emit("write", x, v, *how); s.ver[x] = s.ver.get(x, 0) + 1
        return v
    def declare(s, x, *how): s.emit("declare", x, *how); s.ver[x] = s.ver.get(x, 0) + 1
    def scope(s, f):
        s.scopes.append(False)
        try: r = f()
        finally:
            if s.scopes.pop(): s.ev.append(("}",))
        return r
    def loop(s, cond, body, step):
        for k in range(3):
            if not s.test(cond())[0]: return
            if k == 2: s.emit("and so on"); raise Leave("cut")
            try: body()
            except Leave as e:
                if e.how == "last": return
                if e.how != "next": raise
            step()
    def protect(s, f):
        s.emit("eval {")
        try: f()
        except Leave as e:
            if e.how != "die": raise
        s.emit("} eval")

def explore(f, limit=4000):
    """the decision tree of f"""
    def tree(runs, d):
        # runs: [(choices, items)], all alike so far
        out = []; i = 0
        first = runs[0][1]
        while True:
            if i >= len(first): return tuple(out)
            e = first[i]
            if e[0] == "?":
                by = {}
                for c, items in runs: by.setdefault(items[i][2], []).append((c, items[i + 1:]))
                subs = [tree(by[b], d + 1) for b in sorted(by)]
                if all(x == subs[0] for x in subs): return tuple(out) + subs[0]
                return tuple(out) + (("?", e[1], tuple(subs)),)
            out.append(e); i += 1
    runs = []; work = [()]
    while work:
        m = M(work.pop())
        try: r = f(m); m.emit("result", r)
        except Leave as e: m.emit("left", e.how, *e.v)
        runs.append((m.pre, m.ev))
        if len(runs) > limit: raise Exception("too many ways")
        # the last choice that has another alternative
        p = list(m.pre[:m.n])
        while p and p[-1] + 1 >= m.arity[len(p) - 1]: p.pop()
        if p: p[-1] += 1; work.append(tuple(p))
    runs.sort()
    return tree(runs, 0)

class Walk:
    def __init__(s, b, st, leaf, m): s.b, s.st, s.leaf, s.m = b, st, leaf, m
    def g(s, o, f): return s.st.mem.get((o[1], (f,)), C(0))
    def uv(s, o):
        v = s.g(o, "uv")
        return v
    def name(s, o):
        """an operation's name"""
        i = s.g(o, "id")
        return s.b.opnames.get(i[1], "?") if i[0] == "c" else "?"
    def kids(s, o):
        k = s.g(o, "first"); out = []
        while k != C(0):
            out.append(k)
            if len(out) > 50: raise Leave("broken", "a child is followed by itself")
            if s.g(k, "moresib") == C(0):
                if s.g(k, "sibparent") != o: raise Leave("broken", "the last child of %s does not know its parent" % s.name(o))
                break
            k = s.g(k, "sibparent")
        if out and s.g(o, "last") != out[-1]: raise Leave("broken", "the last child of %s is not its last" % s.name(o))
        return out
    def text(s, v): return s.b.text(s.st, v) if v[0] in ("p", "str") else None
    def varname(s, o): return s.text(s.g(s.uv(o), "name"))
    def symname(s, o): return s.text(s.uv(o)) if o[0] == "p" else None
    def type(s, t):
        """type object"""
        if t == C(0): return None
        b = s.g(t, "basic_type"); u = s.g(t, "unresolved_basic_type_name")
        n = s.text(u) if u != C(0) else ("id", s.g(t, "bid")[1]) if s.g(t, "bid") != C(0) else None
        return ("type", n, s.g(t, "dimension")[1], s.g(t, "flag")[1])
    # ---------------------------------------------------------------------
    def value(s, o):
        m = s.m
        if o in s.leaf: return m.leaf(s.leaf[o])
        n = s.name(o)
        f = getattr(s, "x_" + n, None)
        if f: return f(o)
        r = tuple(s.value(k) for k in s.kids(o))
        if s.g(o, "allow_narrowing_conversion") != C(0): r += ("narrowing allowed",)
        if s.g(o, "flag") != C(0): r += (("flag", s.g(o, "flag")[1]),)
        return m.do(n, *r)
    def place(s, o):
        """an operand whose own storage is accessed"""
        if s.name(o) == "VAR" and o not in s.leaf and not s.varname(o).startswith("$."):
            if s.declares(o): s.value(o)
            return ("storage of", s.varname(o))
        if s.name(o) == "ELEMENT_ACCESS" and o not in s.leaf:
            a, i = s.kids(o); return ("element", s.value(a), s.value(i))
        return s.value(o)
    def declares(s, o): return s.g(s.uv(o), "is_declaration") != C(0)
    def x_VAR(s, o):
        x = s.varname(o); m = s.m
        if x == "$.condition_flag": return m.flag
        kids = s.kids(o)
        if s.declares(o):
            d = s.g(s.uv(o), "var_decl")
            if d != C(0) and s.g(d, "var") != s.uv(o): raise Leave("broken", "a declaration declares another variable")
            t = s.type(s.g(d, "type")) if d != C(0) else None
            if x.startswith("$."): m.env[x] = ("initial value", t)
            else: m.declare(x, t)
        if x.startswith("$."):
            if x not in m.env: raise Leave("broken", "a temporary variable is used before it is declared")
            return m.env[x]
        return m.read(x)
    def x_CONSTANT(s, o):
        c = s.uv(o); v = s.st.mem.get((c[1], ("value",)), C(0))
        if v[0] == "c": v = v[1]
        elif v[0] in ("str", "p"): v = s.text(v)
        t = s.type(s.g(c, "type"))
        return ("constant", t, v)
    def x_TYPE(s, o): return s.type(s.uv(o))
    def x_NAME(s, o): return ("name", s.symname(o))
    def x_DO_NOTHING(s, o):
        for k in s.kids(o): s.value(k)
    def x_ASSIGN(s, o):
        m = s.m; k = s.kids(o)
        if len(k) != 2: raise Leave("broken", "an assignment of %d operands" % len(k))
        v = s.value(k[0])
        return s.assign(k[1], v)
    def assign(s, d, v):
        m = s.m; n = s.name(d)
        if d in s.leaf: raise Leave("broken", "assigns to an opaque operand")
        if n == "VAR":
            x = s.varname(d)
            dec = s.declares(d)
            if x == "$.condition_flag": raise Leave("broken", "writes the condition flag")
            if x.startswith("$."):
                if not dec and x not in m.env: raise Leave("broken", "a temporary variable is written before it is declared")
                m.env[x] = v; return v
            if dec: s.value(d)
            return m.write(x, v)
        if n == "ELEMENT_ACCESS":
            a, i = s.kids(d); a, i = s.value(a), s.value(i)
            return m.write(("element", a, i), v)
        if n == "FIELD_ACCESS":
            p = s.place(s.kids(d)[0]); return m.write(("field", p, s.field(d)), v)
        if n == "ARRAY_FIELD_ACCESS":
            a, i = s.kids(d); a, i = s.value(a), s.value(i)
            return m.write(("field", ("element", a, i), s.field(d)), v)
        if n == "DEREFERENCE":
            return m.write(("referent", s.value(s.kids(d)[0])), v)
        if n == "EXCEPTION_VAR": return m.write("$@", v)
        raise Leave("broken", "assigns to " + n)
    def field(s, o):
        u = s.uv(o)
        return s.symname(s.g(u, "op_name"))
    def x_FIELD_ACCESS(s, o):
        k = s.kids(o)
        if len(k) != 1: raise Leave("broken", "a field access of %d operands" % len(k))
        t = ("field", s.place(k[0]), s.field(o))
        f = s.g(o, "flag")
        for w in ("WEAKEN", "UNWEAKEN", "ISWEAK"):
            if f == C(s.b.prog.enums["SPVM_OP_C_FLAG_FIELD_ACCESS_" + w]): return s.m.do(w, t)
        if f != C(0): t += (("flag", f[1]),)
        return s.m.do("get", t, s.m.ver.get(t[1][1], 0) if t[1][:1] == ("storage of",) else 0)
    def x_WEAKEN_FIELD(s, o):
        for k in s.kids(o): s.value(k)
    x_UNWEAKEN_FIELD = x_ISWEAK_FIELD = x_WEAKEN_FIELD
    def x_ELEMENT_ACCESS(s, o):
        k = s.kids(o)
        if len(k) != 2: raise Leave("broken", "an element access of %d operands" % len(k))
        return s.m.do("get", ("element", s.value(k[0]), s.value(k[1])))
    def x_ARRAY_FIELD_ACCESS(s, o):
        k = s.kids(o)
        if len(k) != 2: raise Leave("broken", "an access to a field of an element of %d operands" % len(k))
        return s.m.do("get", ("field", ("element", s.value(k[0]), s.value(k[1])), s.field(o)))
    def x_DEREFERENCE(s, o): return s.m.do("get", ("referent", s.value(s.kids(o)[0])))
    def x_REFERENCE(s, o): return s.m.do("reference to", s.place(s.kids(o)[0]))
    def x_EXCEPTION_VAR(s, o): return s.m.read("$@")
    def x_SEQUENCE(s, o):
        r = None
        for k in s.kids(o): r = s.value(k)
        return r
    def x_LIST(s, o):
        k = s.kids(o)
        if not k or s.name(k[0]) != "PUSHMARK": raise Leave("broken", "a list without its mark")
        return ("list",) + tuple(s.value(x) for x in k[1:])
    def x_BLOCK(s, o):
        u = s.uv(o); ns = s.g(u, "no_scope") != C(0)
        def f():
            for k in s.kids(o): s.value(k)
        if ns: f()
        else: s.m.scope(f)
    def x_IF(s, o):
        k = s.kids(o)
        if len(k) != 3: raise Leave("broken", "an if statement of %d parts" % len(k))
        t, s.m.flag = s.m.test(s.cond(k[0], False))
        s.value(k[1] if t else k[2])
    def cond(s, o, neg):
        n = s.name(o)
        if n != ("CONDITION_NOT" if neg else "CONDITION"): raise Leave("broken", "a condition is a " + n)
        c = s.kids(o)
        if len(c) != 1 or s.name(c[0]) != "CONDITION_EVALUATION": raise Leave("broken", "a condition is not evaluated")
        # the mark tells the code generator what the jump belongs to
        f = s.g(o, "flag"); e = s.b.prog.enums; first = e["SPVM_OP_C_FLAG_CONDITION_IF"]
        kind = "if" if f[0] == "c" and f[1] & first else "loop" if f[0] == "c" and f[1] & e["SPVM_OP_C_FLAG_CONDITION_LOOP"] else None
        if kind != ("loop" if neg else "if"): raise Leave("broken", "the condition of %s is marked as %s" % ("a loop" if neg else "an if statement", "that of " + kind if kind else "no one's"))
        return s.value(s.kids(c[0])[0])
    def x_LOOP(s, o):
        b = s.kids(o)
        if len(b) != 1 or s.name(b[0]) != "BLOCK": raise Leave("broken", "a loop is not a block")
        k = s.kids(b[0])
        if len(k) != 4 or s.name(k[3]) != "LOOP_INCREMENT": raise Leave("broken", "a loop of %d parts" % len(k))
        if s.g(s.uv(b[0]), "id") != C(s.b.prog.enums["SPVM_BLOCK_C_ID_LOOP_INIT"]): raise Leave("broken", "the block of a loop is not marked")
        if s.name(k[2]) == "BLOCK" and s.g(s.uv(k[2]), "id") != C(s.b.prog.enums["SPVM_BLOCK_C_ID_LOOP_STATEMENTS"]): raise Leave("broken", "the statements of a loop are not marked")
        def f():
            s.value(k[0])
            def step():
                for x in s.kids(k[3]): s.value(x)
            s.m.loop(lambda: s.cond(k[1], True), lambda: s.value(k[2]), step)
        s.m.scope(f)
    def x_LAST(s, o): raise Leave("last")
    def x_NEXT(s, o): raise Leave("next")
    def x_BREAK(s, o): raise Leave("break")
    def x_RETURN(s, o):
        k = s.kids(o); v = s.value(k[0]) if k else None
        raise Leave("return", v)
    def x_DIE(s, o):
        k = s.kids(o)
        if len(k) != 2: raise Leave("broken", "a die statement of %d parts" % len(k))
        s.value(k[0]); t = s.value(k[1])
        raise Leave("die", t)
    def x_EVAL(s, o):
        k = s.kids(o)
        if len(k) != 1 or s.name(k[0]) != "BLOCK" or s.g(s.uv(k[0]), "id") != C(s.b.prog.enums["SPVM_BLOCK_C_ID_EVAL"]): raise Leave("broken", "the block of eval is not marked")
        s.m.protect(lambda: s.value(k[0]))
    def x_SWITCH(s, o):
        k = s.kids(o)
        c = s.kids(k[0]) if s.name(k[0]) == "DO_NOTHING" else [k[0]]
        if not c or s.name(c[0]) != "SWITCH_CONDITION": raise Leave("broken", "a switch without a condition")
        if s.uv(o)[0] != "p" or s.uv(c[0]) != s.uv(o): raise Leave("broken", "the list of cases of a switch is not linked")
        v = s.value(s.kids(c[0])[0])
        if s.g(s.uv(k[1]), "id") != C(s.b.prog.enums["SPVM_BLOCK_C_ID_SWITCH"]): raise Leave("broken", "the block of a switch is not marked")
        arms = []
        for x in s.kids(k[1]):
            if s.name(x) == "LIST": arms += s.kids(x)[1:]
            elif x != C(0): arms.append(x)
        lab = []
        for a in arms:
            q = s.kids(a)
            if s.name(a) == "CASE" and (s.uv(a)[0] != "p" or s.g(s.uv(a), "op_case_info") != a): raise Leave("broken", "a case has no place in the list of cases")
            if s.name(a) == "CASE": lab.append((s.leaf.get(q[0]) or s.value(q[0]), q[1:]))
            elif s.name(a) == "DEFAULT": lab.append(("default", q))
            else: raise Leave("broken", "a switch of " + s.name(a))
        s.m.switch(v, [l for l, _ in lab], [lambda q=q: [s.value(x) for x in q] for _, q in lab])
    def x_CALL_METHOD(s, o):
        u = s.uv(o); k = s.kids(o)
        if not k or s.name(k[0]) != "LIST": raise Leave("broken", "a method call without a list of arguments")
        args = s.value(k[0])[1:]
        nm = s.symname(s.g(u, "op_name"))
        if s.g(u, "is_class_method") != C(0):
            c = ("the outmost class",) if s.g(u, "is_current") != C(0) else s.text(s.g(u, "basic_type_name"))
            if len(k) > 1 and (s.name(k[1]) != "TYPE" or s.g(u, "is_current") != C(0)): raise Leave("broken", "a class method call has more operands")
        else:
            c = None
            if s.g(u, "is_current") != C(0): raise Leave("broken", "an instance method call of the current class")
        return s.m.do("call", c, nm, *args)
    def x_IF_REQUIRE(s, o):
        k = s.kids(o)
        if len(k) != 3 or s.name(k[0]) != "USE": raise Leave("broken", "an if require statement of %d parts" % len(k))
        u = s.uv(k[0])
        if s.g(u, "is_require") == C(0): raise Leave("broken", "the class is used, not required")
        t = s.m.choose(("can be loaded", s.type(s.uv(s.g(u, "op_type")))))
        s.value(k[1 + t])

def switch(m, v, labels, bodies):
    """labels in order; the statements from the label on, to the break"""
    k = m.choose(("equals", v, tuple(labels)), len(labels) + (0 if "default" in labels else 1))
    if k == len(labels): return
    try:
        for f in bodies[k:]: f()
    except Leave as e:
        if e.how != "break": raise
M.switch = switch
