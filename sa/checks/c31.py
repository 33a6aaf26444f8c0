"""C31: a class definition defines what is documented: the members the parser's actions leave are those of the definition."""
import itertools, re
from .. import absint, checker, grammar, syntax, meaning
from ..absint import C, P, S
from ..build import AnalysisBroken
from . import c28, c29

LEVEL = "other"
NEW = 100                       # the id of the first class
ATTR = "SPVM_ATTRIBUTE_C_ID_"
BUILTIN = ("void", "byte", "short", "int", "long", "float", "double", "string", "object")

class Build(syntax.Build):
    """whole class definitions; the basic types the definition adds are made by the compiler's own functions"""
    def oracle(s, it, n, a, st):
        t = s.t
        if n in ("SPVM_HASH_get", "SPVM_HASH_set"):
            k = s.text(st, a[1])
            if k is None or a[2][0] != "c": raise absint.GiveUp("a name is not known")
            if a[2][1] > len(k): return [(("abort", "reads a name past its end"), st)]
            key = (a[0][1], ("key:" + k[:a[2][1]],))
            if n == "SPVM_HASH_set": st.mem[key] = a[3]; return [(C(0), st)]
            return [(st.mem.get(key, C(0)), st)]
        if n == "SPVM_COMPILER_add_basic_type":
            k = s.text(st, a[1])
            if k is None: raise absint.GiveUp("a class without a known name")
            key = (s.symtab[1], ("key:" + k,))
            if key in st.mem: return [(st.mem[key], st)]
            out = []
            for v, z in it.call("SPVM_BASIC_TYPE_new", (t.comp,), st):
                if v[0] == "abort": out.append((v, z)); continue
                c = z.mem.get((s.symtab[1], ("count",)), C(0))[1]
                z.mem[(s.symtab[1], ("count",))] = C(c + 1)
                z.mem[(v[1], ("id",))] = C(NEW + c); z.mem[(v[1], ("name",))] = ("str", k)
                z.mem[key] = v; out.append((v, z))
            return out
        if n in ("SPVM_HASH_new_hash_permanent", "SPVM_HASH_new", "SPVM_STRING_BUFFER_new", "SPVM_OPCODE_LIST_new"):
            st.n += 1; return [(P(("obj", "table", "new%d" % st.n)), st)]
        if n == "__ctype_b_loc": return [(P(("obj", "ctype loc")), st)]
        if n == "strtod":
            k = s.text(st, a[0]); m = k is not None and re.match(r"\d*\.?\d*", k)
            if not m: raise absint.GiveUp("strtod")
            if a[1][0] == "p": it.store(st, a[1], ("str", k[m.end():], k) if m.end() else ("str", k))
            st.n += 1; return [(("u", st.n, "double"), st)]
        if n == "sprintf" and len(a) == 3 and a[1] == ("str", "$%s"):
            v = s.text(st, a[2])
            if v is None: raise absint.GiveUp("sprintf of an unknown string")
            st.mem[(a[0][1], ("text",) + a[0][2])] = ("str", "$" + v + "\0"); return [(C(len(v) + 1), st)]
        if n == "memcpy":
            v = s.text(st, a[1])
            if v is None or a[2][0] != "c": raise absint.GiveUp("memcpy")
            st.mem[(a[0][1], ("text",) + a[0][2])] = ("str", (v + "\0")[:a[2][1]]); return [(a[0], st)]
        r = s.real_oracle(it, n, a, st) if n in ("strlen", "strcmp", "strncmp", "strrchr", "strchr", "strstr") else None
        if r is not None: return r
        if n == "strcmp" and s.text(st, a[0]) is not None and s.text(st, a[1]) is not None:
            x, y = s.text(st, a[0]), s.text(st, a[1]); return [(C((x > y) - (x < y)), st)]
        r = syntax.Build.oracle(s, it, n, a, st)
        if n.startswith("SPVM_ALLOCATOR_alloc_memory_block") and len(a) > 1 and a[1][0] == "c": r[0][1].mem[(r[0][0][1], ("its size",))] = a[1]
        return r
    def text(s, st, v): return checker.Build.text(s, st, v)
    def field(s, it, o, path, ty, st):
        if o == ("obj", "ctype loc") : return P(("obj", "ctype"), ("[]", C(0)))
        if isinstance(o, tuple) and o[:2] == ("obj", "ctype") and path:
            k = path[-1][1] if path[-1][0] == "[]" else None
            if k and k[0] == "c":
                ch = chr(k[1] & 255)
                return C((2048 if ch.isdigit() else 0) | (512 if "a" <= ch <= "z" else 0) | (256 if "A" <= ch <= "Z" else 0) | (1024 if ch.isascii() and ch.isalpha() else 0) | (8 if ch.isascii() and ch.isalnum() else 0))
        return syntax.Build.field(s, it, o, path, ty, st)
    def basic_type(s, i, st):
        if i >= NEW: return next(v for (o, p), v in st.mem.items() if o == s.symtab[1] and p[0] != "count" and st.mem.get((v[1], ("id",))) == C(i))
        b = syntax.Build.basic_type(s, i, st)
        if i: st.mem[(b[1], ("category",))] = C(s.w.cat["STRING" if s.btnames[i] == "string" else "ANY_OBJECT" if s.btnames[i] == "object" else "VOID" if s.btnames[i] == "void" else "NUMERIC"])
        return b
    def begin(s, outmost="Outmost"):
        t = syntax.Build.begin(s)
        s.symtab = t.obj("symtable"); s.uses = t.list([]); s.anons = t.list([])
        for f, v in (("basic_type_symtable", s.symtab), ("op_use_stack", s.uses), ("current_anon_op_types", s.anons), ("current_class_dir", ("str", "D")), ("current_class_rel_file", ("str", "R")),
                     ("current_file", ("str", "F")), ("current_outmost_class_name", ("str", outmost)), ("current_enum_value", C(0))): t.put(t.comp, f, v)
        for n in BUILTIN: t.st.mem[(s.symtab[1], ("key:" + n,))] = s.basic_type(s.bid(n), t.st)
        return t
    def bid(s, n): return s.prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_" + ("ANY_OBJECT" if n == "object" else n.upper())]
    def typeop(s, text):
        """a type as the parser's actions make it"""
        t = s.t; dim = text.count("[]"); n = text.replace("[]", "").rstrip("*")
        b = s.basic_type(s.bid(n) if n in BUILTIN else 0, t.st)
        return t.op("TYPE", uv=t.obj("type", basic_type=b, unresolved_basic_type_name=("str", n), dimension=C(dim), flag=C(t.e["SPVM_NATIVE_C_TYPE_FLAG_REF"] if text.endswith("*") else 0)))
    SYMS = {"Q": "qualified_type", "B": "basic_type", "R": "return_type"}
    LINE = 0
    def lexemes(s, text):
        out = []; t = s.t
        for w in text.split():
            m = re.match(r"([A-Z])\.(.+)$", w)
            if m and m[1] in s.SYMS: out.append((s.SYMS[m[1]], s.typeop(m[2])))
            elif m and m[1] in "ES":
                o = t.op("CALL_METHOD", uv=t.obj("call_method")); s.leaf[o] = m[2]; out.append(("operator" if m[1] == "E" else "statement", o))
            elif w[0] == "@": out.append(("ATTRIBUTE", t.op("ATTRIBUTE", uv=t.obj("attribute", id=C(t.e[ATTR + w[1:].upper()])))))
            elif w[0] == "$" and len(w) > 1: out.append(("VAR_NAME", s.token("VAR_NAME", w)))
            elif w[0] == '"': out.append(("SYMBOL_NAME", s.token("SYMBOL_NAME", w[1:])))
            elif w[0] == "#":
                ty = {"'": "string", "L": "long", "D": "double"}.get(w[1], "int"); v = w[2:] if ty != "int" else w[1:]
                if ty == "string": v = v[:-1]
                c = t.obj("constant", type=t.obj("type", basic_type=s.basic_type(s.bid(ty), t.st), unresolved_basic_type_name=("str", ty), dimension=C(0)), value=("str", v) if ty == "string" else C(int(v)))
                if ty == "string": t.put(c, "string_length", C(len(v)))
                out.append(("CONSTANT", t.op("CONSTANT", uv=c)))
            elif w == "USE": out.append((w, t.op("USE", uv=t.obj("use"))))
            elif len(w) == 1: out.append(("'%s'" % w, s.token("'%s'" % w)))
            elif w == "END": out.append(("END_OF_FILE", s.token("END_OF_FILE")))
            else: out.append((w, s.token(w)))
        for k, (_, o) in enumerate(out):
            t.put(o, "line", C(10 + k)); t.put(o, "column", C(20 + k)); t.put(o, "file", ("str", "F"))
        return out
    def built(s, text, outmost="Outmost", start="class"):
        s.begin(outmost); s.leaf = {}; s.it.memo.clear(); out = []
        for v, st in s.parse(s.lexemes(text), start):
            if v[0] in ("abort", "give up", "endless", "refused"): out.append(v); continue
            out.append((tuple(e[1] for e in st.trace if e[0] == "error"), v, st))
        return out
    # reading ------------------------------------------------------------------
    def seq(s, st, o, f):
        l = s.get(st, o, f)
        return list(s.items(st, l)) if l[0] == "p" and (l[1], ("items",)) in st.mem else []
    def str_(s, st, o, f):
        v = s.get(st, o, f)
        return None if v == C(0) else s.text(st, v)
    def num(s, st, o, f):
        v = s.get(st, o, f)
        return v[1] if v[0] == "c" else str(v)
    def typ(s, st, ty):
        if ty == C(0): return None
        b = s.get(st, ty, "basic_type"); n = s.str_(st, ty, "unresolved_basic_type_name")
        i = s.num(st, b, "id") if b != C(0) else None
        if n is None or (n in BUILTIN) and i != s.bid(n): n = "%s as basic type %s" % (n, i)
        return n + "[]" * s.num(st, ty, "dimension") + ("*" if s.num(st, ty, "flag") & s.t.e["SPVM_NATIVE_C_TYPE_FLAG_REF"] else "") + (" (resolved in tree)" if 0 else "")
    def access(s, st, o):
        v = s.num(st, o, "access_control_type")
        return next((k[len(ATTR):].lower() for k, x in s.t.e.items() if k.startswith(ATTR) and x == v), v)
    def body(s, st, m, blk):
        """the statements of a method behind its declarations"""
        W = meaning.Walk(s, st, s.leaf, None); kids = [k for k in W.kids(W.kids(blk)[0]) if W.name(k) not in ("DO_NOTHING", "PUSHMARK")]
        if s.num(st, s.get(st, blk, "uv"), "id") != s.t.e["SPVM_BLOCK_C_ID_METHOD"]: return ("its block is no method's block",)
        def decl(k):
            if k[0] != "p" or W.name(k) != "VAR" or not W.declares(k): return None
            return s.get(st, s.get(st, k, "uv"), "var_decl")
        if not kids or decl(kids[0]) is None or W.varname(kids[0]) != "$.condition_flag" or s.typ(st, s.get(st, decl(kids[0]), "type")) != "int": return ("the condition is not declared first, as int",)
        ds = s.seq(st, m, "var_decls"); kids = kids[1:]
        if [decl(k) for k in kids[:len(ds)]] != ds: return ("the arguments are not declared in order at its beginning",)
        if [W.varname(k) for k in kids[:len(ds)]] != [s.str_(st, s.get(st, d, "var"), "name") for d in ds]: return ("an argument is declared with another name",)
        kids = kids[len(ds):]
        r = s.typ(st, s.get(st, m, "return_type"))
        if not kids or W.name(kids[-1]) != "RETURN": return ("its end does not return",)
        k = W.kids(kids[-1])
        if (r == "void") != (not k) or k and (decl(k[0]) is None or not W.varname(k[0]).startswith("$.") or s.typ(st, s.get(st, decl(k[0]), "type")) != r): return ("its end does not return the initial value of its return type",)
        def run(m):
            w = meaning.Walk(s, st, s.leaf, m)
            for k in kids[:-1]: w.value(k)
        return meaning.explore(run)
    def method(s, st, m, c):
        W = meaning.Walk(s, st, s.leaf, None)
        n = s.str_(st, m, "name"); args = []
        for d in s.seq(st, m, "var_decls")[:s.num(st, m, "args_length")]:
            df = s.get(st, d, "op_arg_default")
            args.append((s.str_(st, s.get(st, d, "var"), "name"), s.typ(st, s.get(st, d, "type")), None if df == C(0) else s.leaf.get(df, "?")))
            if s.num(st, d, "is_arg") != 1: args.append("not an argument")
            if c is not None and s.str_(st, d, "name") != args[-1][0]: args.append("its name for the runtime is not known")
        b = s.get(st, m, "op_block")
        flags = tuple(f for f in ("is_class_method", "is_native", "is_precompile", "is_required", "is_init_method", "is_destroy_method", "is_enum") if s.num(st, m, f))
        out = dict(name=n, args=args, required=s.num(st, m, "required_args_length"), returns=s.typ(st, s.get(st, m, "return_type")), access=s.access(st, m), flags=flags, body=None if b == C(0) else s.body(st, m, b))
        if s.get(st, m, "outmost_basic_type_name") != C(0): out["around"] = s.str_(st, m, "outmost_basic_type_name")
        if "is_enum" in flags: out["enum value"] = s.num(st, m, "enum_value")
        if c is not None:
            if s.get(st, m, "current_basic_type") != c: out["class"] = "not known"
            if s.str_(st, m, "abs_name") not in (None, "%s->%s" % (s.str_(st, c, "name"), n)): out["absolute name"] = s.str_(st, m, "abs_name")
            if st.mem.get((s.get(st, c, "method_symtable")[1], ("key:" + n,))) != m: out["table"] = "not found by name"
            if ("is_init_method" in flags) != (s.get(st, c, "init_method") == m): out["INIT"] = "not the class's INIT method"
        o = s.get(st, m, "op_method")
        if o == C(0) or s.get(st, o, "uv") != m: out["definition"] = "its place in the source is not known"
        return out
    def member(s, st, f, c, kind, table):
        n = s.str_(st, f, "name"); out = dict(name=n, type=s.typ(st, s.get(st, f, "type")), access=s.access(st, f))
        if s.get(st, f, "current_basic_type") != c: out["class"] = "not known"
        if st.mem.get((s.get(st, c, table)[1], ("key:" + n,))) != f: out["table"] = "not found by name"
        o = s.get(st, f, "op_" + kind)
        if o == C(0) or s.get(st, o, "uv") != f: out["definition"] = "its place in the source is not known"
        if kind == "field" and s.num(st, f, "is_anon_method_field"): out["of an anonymous method"] = (s.num(st, f, "is_decl_var_in_anon_method"), s.default(st, s.get(st, f, "op_anon_method_field_default")))
        return out
    def default(s, st, o):
        return None if o == C(0) else s.leaf[o] if o in s.leaf else meaning.Walk(s, st, s.leaf, None).varname(o)
    def means(s, v, st, start): return meaning.explore(lambda m: meaning.Walk(s, st, s.leaf, m).value(v))
    def cls(s, st, name):
        c = st.mem.get((s.symtab[1], ("key:" + name,)))
        if c is None: return None
        t = s.t; cat = s.num(st, c, "category")
        flags = [f for f in ("is_pointer", "is_precompile", "is_anon", "is_generated_by_anon_method") if s.num(st, c, f)]
        out = dict(name=s.str_(st, c, "name"), category=next((k for k, v in s.w.cat.items() if v == cat), cat), access=s.access(st, c), flags=flags, parent=s.str_(st, c, "parent_name"), version=s.str_(st, c, "version_string"),
                   uses=[s.text(st, x) for x in s.seq(st, c, "use_basic_type_names")], aliases={p[0][4:]: s.text(st, v) for (o, p), v in st.mem.items() if o == s.get(st, c, "alias_symtable")[1] and p and str(p[0]).startswith("key:")},
                   allows=[s.str_(st, x, "basic_type_name") for x in s.seq(st, c, "allows")], interfaces=[s.typ(st, s.get(st, s.get(st, x, "op_type"), "uv")) for x in s.seq(st, c, "interface_decls")],
                   anon=[s.str_(st, x, "name") for x in s.seq(st, c, "anon_basic_types")], file=(s.str_(st, c, "class_dir"), s.str_(st, c, "class_rel_file"), s.str_(st, c, "file")),
                   fields=[s.member(st, f, c, "field", "unmerged_field_symtable") for f in s.seq(st, c, "unmerged_fields")], vars=[s.member(st, f, c, "class_var", "class_var_symtable") for f in s.seq(st, c, "class_vars")],
                   methods=[s.method(st, m, c) for m in s.seq(st, c, "methods")])
        return out
    def loads(s, st):
        """classes the definition makes the compiler load"""
        return [(s.str_(st, s.get(st, s.get(st, s.get(st, o, "uv"), "op_type"), "uv"), "unresolved_basic_type_name"), s.num(st, s.get(st, o, "uv"), "is_require")) for o in s.items(st, s.uses)]
    def overrun(s, st):
        for (o, p), v in st.mem.items():
            if p[:1] == ("text",):
                size = st.mem.get((o, ("its size",)))
                at = 0 if len(p) == 1 else p[1][1][1] if p[1][0] == "[]" and p[1][1][0] == "c" else None
                if size and at is not None and at + len(v[1].rstrip("\0")) + 1 > size[1]: return "writes `%s` at %d of a block of %d bytes" % (v[1].replace("\0", ""), at, size[1])

# what is documented ---------------------------------------------------------------
def M(name, returns="void", args=(), flags=(), access="public", body=((),), required=None, enum=None, this="Outmost"):
    static = "is_class_method" in flags
    a = list(args) if static else [("$self", this, None)] + list(args)
    if required is None: required = next((i for i, x in enumerate(a) if x[2]), len(a))
    d = dict(name=name, args=a, required=required, returns=returns, access=access, flags=tuple(flags), body=body)
    if enum is not None: d["enum value"] = enum
    return d

def does(f):
    def g(m): f(m)
    return meaning.explore(g)
EMPTY = does(lambda m: None)
def INIT(*leafs):
    def f(m):
        for l in leafs: m.scope(lambda: [m.leaf(x) for x in l])
    return M("INIT", flags=("is_class_method", "is_init_method"), body=does(f))
def calls(*l): return does(lambda m: [m.leaf(x) for x in l])
def returns(v):
    def f(m): raise meaning.Leave("return", v(m))
    return does(f)
def ty(n): return ("type", n.replace("[]", ""), n.count("[]"), 0)
def wide(n): return "int" if n in ("byte", "short") else n

def CLS(methods=(), init=None, **kw):
    d = dict(name="Outmost", category="CLASS", access="private", flags=[], parent=None, version=None, uses=[], aliases={}, allows=[], interfaces=[], anon=[], file=("D", "R", "F"), fields=[], vars=[])
    d.update(kw); d["methods"] = list(methods) + [init or INIT()]
    return d
def F(name, type="int", access="private", **kw): return dict(name=name, type=type, access=access, **kw)

class Case:
    def __init__(s, text, want=None, error=None, loads=None, outmost="Outmost", free=(), value=None):
        s.text, s.want, s.error, s.loads, s.outmost, s.free, s.value = text, want, error, loads, outmost, free, value

def one(text): return "CLASS B.Outmost " + text + " END"

def classes(a):
    """attributes of the class and its kind"""
    CATS = {"mulnum_t": "MULNUM", "interface_t": "INTERFACE", "pointer": "CLASS"}
    for r in (0, 1, 2, 3):
        for at in itertools.product(("mulnum_t", "interface_t", "pointer", "private", "protected", "public", "precompile"), repeat=r):
            if r == 3 and len(set(at)) < 3: continue
            kinds = [x for x in at if x in CATS]; acc = [x for x in at if x in ("private", "protected", "public")]
            text = one((": " + " ".join("@" + x for x in at) + " " if at else "") + ("{ HAS \"x : Q.int ; }" if "mulnum_t" in at else "{ }"))
            if len(kinds) > 1: a(Case(text, error="Only one of class attributes")); continue
            if len(acc) > 1: a(Case(text, error="Only one of class attributes")); continue
            a(Case(text, CLS(category=CATS[kinds[0]] if kinds else "CLASS", access=acc[0] if acc else "private", flags=[f for f, x in (("is_pointer", "pointer"), ("is_precompile", "precompile")) if x in at],
                             fields=[F("x", access="public")] if "mulnum_t" in at else []), loads=[]))
    for x in ("native", "rw", "ro", "wo", "static", "required"): a(Case(one(": @%s { }" % x), error="Invalid class attribute"))
    for x in ("native", "rw", "ro", "wo", "static", "required"): a(Case(one(": @public @%s { }" % x), error="Invalid class attribute"))
    a(Case(one(";"), CLS())); a(Case(one(": @public ;"), CLS(access="public"))); a(Case(one(": { }"), CLS()))
    a(Case("CLASS B.Other { } END", error="must be"))
    for n in ("OutmostX", "Out", "Outmost::X", "outmostx"):
        if n[0].isupper(): a(Case("CLASS B.%s { } END" % n, error="must be"))
    a(Case("CLASS { } END", CLS(name="X::anon_class::3::4", flags=["is_anon"]), outmost="X::anon_class::3::4"))
    a(Case("CLASS : @public { METHOD \"m : R.void ( ) { S.a } } END", CLS([M("m", body=calls("a"), this="X::anon_class::3::4")], name="X::anon_class::3::4", flags=["is_anon"], access="public"), outmost="X::anon_class::3::4"))
    a(Case("CLASS B.Y { } END", error="cannot have its class name", outmost="X::anon_class::3::4"))
    a(Case(one("EXTENDS B.Parent { }"), CLS(parent="Parent"), loads=[("Parent", 0)])); a(Case(one("EXTENDS B.Pa::Rent : @public ;"), CLS(parent="Pa::Rent", access="public"), loads=[("Pa::Rent", 0)]))
    for k in ("mulnum_t", "interface_t"):
        I = k == "interface_t"
        own = "" if I else 'HAS "x : Q.int ; '
        f = [] if I else [F("x", access="public")]
        a(Case(one(": @%s { %sOUR $V : Q.int ; }" % (k, own)), error="cannnot have class variables"))
        a(Case(one(": @%s { %s@static METHOD \"m : R.int ( ) { S.a } }" % (k, own)), CLS([M("m", "int", flags=("is_class_method",), body=calls("a"))], category=CATS[k], fields=f)))
        a(Case(one(": @%s { %sENUM { \"A , \"B } }" % (k, own)), CLS([enum("A", 0), enum("B", 1)], category=CATS[k], fields=f)))
    a(Case(one(": @interface_t { HAS \"x : Q.int ; }"), error="cannnot have fields"))
    a(Case(one(": @mulnum_t { }"), error="must have at least one field")); a(Case(one(": @mulnum_t ;"), error="must have at least one field"))
    a(Case(one(': @mulnum_t { HAS "x : Q.int ; METHOD "m : R.int ( ) { S.a } }'), error="cannnot have instance methods"))
    a(Case(one(': @mulnum_t { HAS "x : Q.int ; @static METHOD "s : R.int ( ) { S.a } METHOD "m : R.int ( ) { S.a } @static METHOD "t : R.int ( ) { S.a } }'), error="cannnot have instance methods"))
    a(Case(one(': @mulnum_t { HAS "x : Q.int ; INTERFACE B.I ; }'), error="interface statement cannnot be used"))
    a(Case(one(': @mulnum_t { HAS "x : Q.int ; HAS "y : @private Q.int ; HAS "z : @protected Q.int ; }'), CLS(category="MULNUM", fields=[F("x", access="public"), F("y"), F("z", access="protected")])))
    for n in (255, 256):
        text = one(": @mulnum_t { " + " ".join('HAS "f%d : Q.byte ;' % i for i in range(n)) + " }")
        a(Case(text, CLS(category="MULNUM", fields=[F("f%d" % i, "byte", "public") for i in range(n)])) if n == 255 else Case(text, error="must be less than or equal to 255"))
    a(Case(one(': @interface_t { METHOD "m : R.int ( $x : Q.int ) ; @required METHOD "n : R.void ( ) ; @static METHOD "s : R.void ( ) { S.a } METHOD "o : R.void ( ) { S.b } }'),
           CLS([M("m", "int", [("$x", "int", None)], body=None), M("n", flags=("is_required",), body=None), M("s", flags=("is_class_method",), body=calls("a")), M("o", body=calls("b"))], category="INTERFACE")))
    a(Case(one(': @interface_t { @static METHOD "s : R.void ( ) ; }'), error="must have a block"))

def enum(n, v, access="public"):
    return M(n, "int", flags=("is_class_method", "is_enum"), access=access, enum=v, body=returns(lambda m: ("constant", ("type", "int", 0, 0), v)))

def getset(kind, n, t, get, set_):
    """the methods a field or a class variable gets; the name of a setter's argument is free"""
    out = []
    if kind == "our":
        v = n[1:]; fl = ("is_class_method",)
        def w(x): return does(lambda m: m.write(n, m.do("TYPE_CAST", m.read(x), ty(t))))
        if get: out.append(M(v, wide(t), flags=fl, body=returns(lambda m: m.read(n))))
        if set_: out.append(dict(name="SET_" + v, free=lambda x: x != n and M("SET_" + v, args=[(x, wide(t), None)], flags=fl, body=w(x))))
    else:
        f = ("field", ("storage of", "$self"), n)
        def w(x): return does(lambda m: m.write(f, m.do("TYPE_CAST", m.read(x), ty(t))))
        if get: out.append(M(n, wide(t), body=returns(lambda m: m.do("get", f, 0))))
        if set_: out.append(dict(name="set_" + n, free=lambda x: x != "$self" and M("set_" + n, args=[(x, wide(t), None)], body=w(x))))
    return out

ACC = ("private", "protected", "public")
TYPES = ("byte", "short", "int", "long", "float", "double", "string", "object", "Foo", "Foo::Bar", "int[]", "byte[]", "short[][]", "Foo[]")
def members(a):
    """fields and class variables, their attributes and accessors"""
    for kind, name, what in (("our", "$VAR", "class variable"), ("has", "fld", "field")):
        key, none = ("vars", "fields") if kind == "our" else ("fields", "vars")
        src = lambda at, t, n=name: ("OUR %s : %s Q.%s ; " % (n, at, t)) if kind == "our" else ('HAS "%s : %s Q.%s ; ' % (n, at, t))
        for r in (0, 1, 2):
            for at in itertools.product(ACC + ("rw", "ro", "wo"), repeat=r):
                text = one("{ " + src(" ".join("@" + x for x in at), "int") + "}")
                acc = [x for x in at if x in ACC]; rw = [x for x in at if x not in ACC]
                if len(acc) > 1 or len(rw) > 1: a(Case(text, error="Only one of %s attributes" % what)); continue
                a(Case(text, CLS(getset(kind, name, "int", "rw" in at or "ro" in at, "rw" in at or "wo" in at), **{key: [F(name, access=acc[0] if acc else "private")]})))
        for x in ("mulnum_t", "pointer", "native", "precompile", "static", "interface_t", "required"): a(Case(one("{ " + src("@" + x, "int") + "}"), error="Invalid %s attribute" % what))
        for t in TYPES:
            for x in ("rw", "ro", "wo"): a(Case(one("{ " + src("@" + x, t) + "}"), CLS(getset(kind, name, t, x != "wo", x != "ro"), **{key: [F(name, t)]})))
        # several, in order
        if kind == "our":
            for n in ("$value", "$v", "$SET_value", "$x"): a(Case(one("{ " + src("@rw", "long", n) + "}"), CLS(getset(kind, n, "long", 1, 1), vars=[F(n, "long")])))
        n2, n3 = ("$B", "$C_d") if kind == "our" else ("b", "c_d")
        a(Case(one("{ " + src("@rw", "int") + src("@public", "long", n2) + src("@ro @protected", "string", n3) + "}"),
               CLS(getset(kind, name, "int", 1, 1) + getset(kind, n3, "string", 1, 0), **{key: [F(name), F(n2, "long", "public"), F(n3, "string", "protected")]})))
        for gap in ("", src("", "int", n2)):
            for t in ("int", "long"): a(Case(one("{ " + src("", "int") + gap + src("", t) + "}"), error="Redeclaration"))
        bad = "$A::B" if kind == "our" else "a::b"
        a(Case(one("{ " + src("", "int", bad) + "}"), error='cannnot contain "::"'))
    a(Case(one('{ HAS "x : Q.int ; OUR $x : Q.long ; METHOD "x : R.void ( ) { S.a } }'), CLS([M("x", body=calls("a"))], fields=[F("x")], vars=[F("$x", "long")])))
    # accessors against methods of the same name
    for s in ('METHOD "fld : R.void ( ) { S.a }', '@static METHOD "set_fld : R.void ( ) { S.a }', 'ENUM { "fld }'): 
        a(Case(one('{ HAS "fld : @rw Q.int ; %s }' % s), error="Redeclaration")); a(Case(one('{ %s HAS "fld : @rw Q.int ; }' % s), error="Redeclaration"))
    a(Case(one('{ OUR $FLD : @rw Q.int ; METHOD "SET_FLD : R.void ( ) { S.a } }'), error="Redeclaration"))
    a(Case(one('{ OUR $fld : @ro Q.int ; HAS "fld : @ro Q.int ; }'), error="Redeclaration"))
    a(Case(one('{ OUR $fld : @wo Q.int ; HAS "fld : @wo Q.int ; }'), CLS(getset("our", "$fld", "int", 0, 1) + getset("has", "fld", "int", 0, 1), fields=[F("fld")], vars=[F("$fld")])))

def methods(a):
    S = ("is_class_method",)
    FL = {"static": "is_class_method", "native": "is_native", "precompile": "is_precompile", "required": "is_required"}
    order = list(FL)
    for r in (0, 1, 2, 3):
        for at in itertools.combinations(ACC + tuple(FL), r):
            acc = [x for x in at if x in ACC]
            for at in {at, at[::-1]}:
                for blk in (1, 0):
                    text = one("{ " + " ".join("@" + x for x in at) + ' METHOD "m : R.int ( $x : Q.long ) ' + ("{ S.a S.b }" if blk else ";") + " }")
                    err = "Only one of method attributes" if len(acc) > 1 or "native" in at and "precompile" in at else "A native method cannnot have its block" if "native" in at and blk else \
                          "A non-native method must have a block" if "native" not in at and not blk else '"required"' if "required" in at else None
                    a(Case(text, error=err) if err else Case(text, CLS([M("m", "int", [("$x", "long", None)], tuple(FL[x] for x in order if x in at), acc[0] if acc else "public", calls("a", "b") if blk else None)])))
    for x in ("mulnum_t", "pointer", "rw", "ro", "wo", "interface_t"): a(Case(one('{ @%s METHOD "m : R.int ( ) { S.a } }' % x), error="Invalid method attribute"))
    # arguments
    for n in (0, 1, 2, 3, 4):
        for d in range(n + 1):
            for st in (0, 1):
                args = [("$a%d" % i, TYPES[i + 2], None if i < d else "d%d" % i) for i in range(n)]
                src = " , ".join("%s : Q.%s%s" % (x, t, " ASSIGN E." + v if v else "") for x, t, v in args)
                for end in ("", " ,") if n else ("",): a(Case(one('{ %sMETHOD "m : R.Foo ( %s ) { S.a } }' % ("@static " * st, src + end)), CLS([M("m", "Foo", args, S if st else (), body=calls("a"))])))
    for t in TYPES + ("void", "int*"): a(Case(one('{ METHOD "m : R.%s ( ) { S.a } }' % t), CLS([M("m", t, body=calls("a"))])))
    for t in TYPES + ("int*", "Foo*"): a(Case(one('{ METHOD "m : R.void ( $x : Q.%s ) { } }' % t), CLS([M("m", args=[("$x", t, None)], body=EMPTY)])))
    a(Case(one('{ METHOD "a : R.void ( ) { S.a } @static METHOD "b : R.int ( ) { S.b } @native METHOD "c : R.void ( ) ; }'), CLS([M("a", body=calls("a")), M("b", "int", flags=S, body=calls("b")), M("c", flags=("is_native",), body=None)])))
    for gap in ("", '@static METHOD "n : R.int ( ) { S.b } '):
        for st in ("", "@static "): a(Case(one('{ METHOD "m : R.void ( ) { S.a } %s%sMETHOD "m : R.int ( ) { S.b } }' % (gap, st)), error="Redeclaration"))
    a(Case(one('{ METHOD "INIT : R.void ( ) { S.a } }'), error='"INIT" cannnot be used')); a(Case(one('{ @static METHOD "INIT : R.void ( ) { S.a } }'), error='"INIT" cannnot be used'))
    a(Case(one('{ METHOD "INIT_x : R.void ( ) { S.a } METHOD "INI : R.void ( ) { S.a } }'), CLS([M("INIT_x", body=calls("a")), M("INI", body=calls("a"))])))
    a(Case(one('{ METHOD "a::b : R.void ( ) { S.a } }'), error='cannnot contain "::"'))
    D = ("is_destroy_method",)
    a(Case(one('{ METHOD "DESTROY : R.void ( ) { S.a } }'), CLS([M("DESTROY", flags=D, body=calls("a"))])))
    a(Case(one('{ @native METHOD "DESTROY : R.void ( ) ; }'), CLS([M("DESTROY", flags=("is_native",) + D, body=None)])))
    for t in TYPES: a(Case(one('{ METHOD "DESTROY : R.%s ( ) { S.a } }' % t), error="The return type of DESTROY method must be the void type"))
    a(Case(one('{ METHOD "DESTROY : R.void[] ( ) { S.a } }'), error="The return type of DESTROY method must be the void type"))
    a(Case(one('{ @static METHOD "DESTROY : R.void ( ) { S.a } }'), error="DESTROY method must be an instance method")); a(Case(one('{ @static METHOD "DESTROY : R.void ( $x : Q.int ) { S.a } }'), error="DESTROY method must be an instance method"))
    a(Case(one('{ METHOD "DESTROY : R.void ( $x : Q.int ) { S.a } }'), error="DESTROY method cannnot have arguments")); a(Case(one('{ METHOD "DESTROY : R.void ( $x : Q.int ASSIGN E.d ) { S.a } }'), error="DESTROY method cannnot have arguments"))
    a(Case(one('{ METHOD "DESTROY_ : R.int ( ) { S.a } @static METHOD "DEST : R.int ( ) { S.b } }'), CLS([M("DESTROY_", "int", body=calls("a")), M("DEST", "int", flags=S, body=calls("b"))])))
    a(Case(one('{ METHOD : R.int ( ) { S.a } }'), CLS([M("", "int", body=calls("a"))]))); a(Case(one('{ @static METHOD : R.int ( ) { S.a } }'), error="An anon method must be an instance method"))
    a(Case(one(': @interface_t { METHOD : R.int ( $x : Q.int ) ; }'), CLS([M("", "int", [("$x", "int", None)], body=None)], category="INTERFACE")))

def enumerations(a):
    for items in itertools.chain(*[itertools.product((None, 0, 1, 7, -2), repeat=n) for n in (1, 2, 3)]):
        want = []; v = 0
        for i, x in enumerate(items):
            if x is not None: v = x
            want.append(("E%d" % i, v)); v += 1
        src = " , ".join('"E%d%s' % (i, "" if x is None else " ASSIGN #%d" % x) for i, x in enumerate(items))
        a(Case(one("{ ENUM { %s } }" % src), CLS([enum(*w) for w in want])))
    a(Case(one('{ ENUM { "A , "B , } }'), CLS([enum("A", 0), enum("B", 1)]))); a(Case(one("{ ENUM { } }"), CLS()))
    # every enumeration counts from zero
    a(Case(one('{ ENUM { "A ASSIGN #5 , "B } ENUM { "C , "D } }'), CLS([enum("A", 5), enum("B", 6), enum("C", 0), enum("D", 1)])))
    for r in (1, 2):
        for at in itertools.product(ACC, repeat=r):
            text = one("{ " + " ".join("@" + x for x in at) + ' ENUM { "A , "B ASSIGN #3 } METHOD "m : R.void ( ) { S.a } }')
            a(Case(text, error="Only one of enumeration attributes") if r == 2 else Case(text, CLS([enum("A", 0, at[0]), enum("B", 3, at[0]), M("m", body=calls("a"))])))
    for x in ("mulnum_t", "pointer", "rw", "native", "precompile", "static", "required"): a(Case(one('{ @%s ENUM { "A } }' % x), error="Invalid enumeration attribute"))
    for c in ("#L5", "#D5", "#'5'"):
        a(Case(one('{ ENUM { "A ASSIGN %s } }' % c), error="The value of the enumeration must be int type")); a(Case(one('{ ENUM { "A , "B ASSIGN %s , "C } }' % c), error="The value of the enumeration must be int type"))
    a(Case(one('{ ENUM { "A , "A } }'), error="Redeclaration")); a(Case(one('{ ENUM { "A } ENUM { "A } }'), error="Redeclaration")); a(Case(one('{ ENUM { "A } METHOD "A : R.int ( ) { S.a } }'), error="Redeclaration"))
    a(Case(one('{ ENUM { "INIT } }'), error='"INIT" cannnot be used')); a(Case(one('{ ENUM { "a::b } }'), error='cannnot contain "::"'))

def statements(a):
    """version, use, alias, allow, interface, INIT"""
    def version(v):
        if not v: return None
        if any(ch not in "0123456789." for ch in v): return "A character in a version string"
        if not v[0].isdigit(): return "must begin with a number"
        if not v[-1].isdigit(): return "must end with a number"
        if v.count(".") > 1: return 'The number of "."'
        if "." in v and (len(v) - v.index(".") - 1) % 3: return "divisible by 3"
    for n in (1, 2, 3, 4, 5):
        for v in map("".join, itertools.product("1.x" if n < 4 else "1.", repeat=n)):
            e = version(v); a(Case(one("{ VERSION_DECL #'%s' ; }" % v), error=e) if e else Case(one("{ VERSION_DECL #'%s' ; }" % v), CLS(version=v)))
    for v in ("1.001", "12.345678", "0.000001", "1.1234567", "1.12345678", "10", "1.123456789", "123.4.5", "1,001", "1-2", "v1.001", "1.001_002", "2.000001.000001", "1e5", "9.0090090090"):
        e = version(v); a(Case(one("{ VERSION_DECL #'%s' ; }" % v), error=e) if e else Case(one("{ VERSION_DECL #'%s' ; }" % v), CLS(version=v)))
    for c in ("#1", "#L1", "#D1"): a(Case(one("{ VERSION_DECL %s ; }" % c), error="must be string type"))
    a(Case(one("{ VERSION_DECL #'1.001' ; VERSION_DECL #'1.002' ; }"), error="already been declared")); a(Case(one("{ VERSION_DECL #'1.001' ; OUR $A : Q.int ; VERSION_DECL #'1.001' ; }"), error="already been declared"))
    a(Case(one('{ USE B.A ; USE B.B::C AS "D ; USE B.A ; }'), CLS(uses=["A", "B::C", "A"], aliases={"D": "B::C"}), loads=[("A", 0), ("B::C", 0), ("A", 0)]))
    a(Case(one('{ USE B.A AS "X ; USE B.B AS "X ; }'), error="is already used")); a(Case(one('{ USE B.A AS "X ; ALIAS B.B AS "X ; }'), error="is already used"))
    a(Case(one('{ USE B.A AS "x ; }'), error="must begin with an upper case character")); a(Case(one('{ ALIAS B.A AS "xY ; }'), error="must begin with an upper case character"))
    for n in ("A::", "Ab::C::"): a(Case(one('{ USE B.A AS "%s ; }' % n), error='cannnot end with "::"'))
    for n in ("A:", "A::B", "B", "A_"): a(Case(one('{ USE B.A AS "%s ; }' % n), CLS(uses=["A"], aliases={n: "A"}), loads=[("A", 0)]))
    a(Case(one('{ ALIAS B.A AS "X ; ALIAS B.A AS "Y ; }'), CLS(aliases={"X": "A", "Y": "A"}), loads=[], free=("uses",)))
    a(Case(one('{ ALLOW B.A ; ALLOW B.B::C ; }'), CLS(allows=["A", "B::C"]), loads=[("A", 0), ("B::C", 0)])); a(Case(one('{ INTERFACE B.I ; INTERFACE B.J::K ; }'), CLS(interfaces=["I", "J::K"]), loads=[("I", 0), ("J::K", 0)]))
    a(Case(one(': @interface_t { INTERFACE B.I ; }'), CLS(interfaces=["I"], category="INTERFACE"), loads=[("I", 0)]))
    a(Case(one('EXTENDS B.P { USE B.A ; INTERFACE B.I ; ALLOW B.W ; }'), CLS(parent="P", uses=["A"], interfaces=["I"], allows=["W"]), loads=sorted([("A", 0), ("I", 0), ("W", 0), ("P", 0)])))
    a(Case(one("{ INIT { S.a } }"), CLS(init=INIT(["a"])))); a(Case(one("{ INIT { S.a S.b } OUR $V : Q.int ; INIT { S.c } INIT { } INIT { S.d } }"), CLS(init=INIT(["a", "b"], ["c"], ["d"]), vars=[F("$V")])))
    a(Case(one('{ INIT { S.a } METHOD "m : R.void ( ) { S.b } INIT { S.c } }'), CLS([M("m", body=calls("b"))], init=INIT(["a"], ["c"]))))
    a(Case(one("{ VERSION_DECL #'1.001' ; USE B.A ; OUR $V : Q.int ; HAS \"f : Q.int ; ENUM { \"E } METHOD \"m : R.void ( ) { S.a } INIT { S.b } ALLOW B.C ; INTERFACE B.D ; }"),
           CLS([enum("E", 0), M("m", body=calls("a"))], init=INIT(["b"]), version="1.001", uses=["A"], vars=[F("$V")], fields=[F("f")], allows=["C"], interfaces=["D"]), loads=[("A", 0), ("C", 0), ("D", 0)]))

def anonymous(a):
    """anonymous methods: a class with one method and the fields, an object of it whose fields get their values in order"""
    def name(text, nth=0):
        k = [i for i, w in enumerate(text.split()) if w == "METHOD"][nth]
        return "Outmost::anon_method::%d::%d" % (10 + k, 20 + k)
    def value(n, defaults):
        def f(m):
            v = m.do("NEW", ("type", n, 0, 0))
            for x, d in defaults: m.write(("field", v, x), m.read(d) if d[0] == "$" else m.leaf(d))
            return v
        return meaning.explore(f)
    def body(n, vars_, *leafs):
        def f(m):
            for v in vars_: x = m.do("get", ("field", ("storage of", "$self"), v), 0); m.declare("$" + v, None); m.write("$" + v, x)
            for l in leafs: m.leaf(l)
        return does(f)
    def cls(n, fields, methods):
        methods = [dict(m, around="Outmost") for m in methods]
        return CLS(methods, name=n, access="public", flags=["is_generated_by_anon_method"], fields=fields)
    for t in ("void", "int", "Foo"):
        for args in ([], [("$x", "int", None)], [("$x", "int", None), ("$y", "string", "d")]):
            text = "METHOD : R.%s ( %s ) { S.a S.b }" % (t, " , ".join("%s : Q.%s%s" % (x, q, " ASSIGN E." + d if d else "") for x, q, d in args)); n = name(text)
            a(Case(text, cls(n, [], [M("", t, args, body=calls("a", "b"), this=n)]), value=value(n, [])))
    for at in ("private", "protected", "public", "precompile"):
        text = "@%s METHOD : R.void ( ) { S.a }" % at; n = name(text)
        a(Case(text, cls(n, [], [M("", access=at if at in ACC else "public", flags=("is_precompile",) if at == "precompile" else (), body=calls("a"), this=n)]), value=value(n, [])))
    a(Case("@static METHOD : R.void ( ) { S.a }", error="An anon method must be an instance method")); a(Case("@native METHOD : R.void ( ) { S.a }", error="A native method cannnot have its block"))
    # fields: (source, name, type, access, declares a variable, default)
    FS = lambda i: ((('HAS "f%d : Q.int' % i), "f%d" % i, "int", "public", 0, None), (('HAS "f%d : Q.long ASSIGN E.d%d' % (i, i)), "f%d" % i, "long", "public", 0, "d%d" % i), (("$f%d : Q.Foo" % i), "f%d" % i, "Foo", "public", 1, "$f%d" % i),
                    (("$f%d : Q.byte ASSIGN $z%d" % (i, i)), "f%d" % i, "byte", "public", 1, "$z%d" % i), (('HAS "f%d : @private Q.int[] ASSIGN E.d%d' % (i, i)), "f%d" % i, "int[]", "private", 0, "d%d" % i), (('HAS "f%d : Q.int ASSIGN $v%d' % (i, i)), "f%d" % i, "int", "public", 0, "$v%d" % i),
                    (("$f%d : Q.byte ASSIGN E.d%d" % (i, i)), "f%d" % i, "byte", "public", 1, "d%d" % i))
    for r in (1, 2, 3):
        for fs in itertools.product(*[FS(i) if r < 3 else FS(i)[1:4] for i in range(r)]):
            for end in ("", " ,") if r == 1 else ("",):
                text = "[ %s%s ] METHOD : R.int ( $x : Q.int ) { S.a }" % (" , ".join(f[0] for f in fs), end); n = name(text)
                fields = [dict(F(f[1], f[2], f[3]), **{"of an anonymous method": (f[4], f[5])}) for f in fs]
                a(Case(text, cls(n, fields, [M("", "int", [("$x", "int", None)], body=body(n, [f[1] for f in fs if f[4]], "a"), this=n)]), value=value(n, [(f[1], f[5]) for f in fs if f[5]])))
    a(Case('[ HAS "x : Q.int , HAS "x : Q.int ] METHOD : R.void ( ) { S.a }', error="Redeclaration")); a(Case('[ HAS "x : Q.int , $x : Q.int ] METHOD : R.void ( ) { S.a }', error="Redeclaration"))
    # the class around them knows them, in order
    text = one('{ METHOD "m : R.void ( ) { S.a METHOD : R.void ( ) { S.b } ; [ HAS "x : Q.int ] METHOD : R.void ( ) { S.c } ; } METHOD "n : R.void ( ) { METHOD : R.void ( ) { S.d } ; } }')
    l = [name(text, i) for i in (1, 2, 4)]
    def mb(m): m.leaf("a"); m.do("NEW", ("type", l[0], 0, 0)); m.do("NEW", ("type", l[1], 0, 0))
    a(Case(text, CLS([M("m", body=does(mb)), M("n", body=does(lambda m: m.do("NEW", ("type", l[2], 0, 0))))], anon=l)))
    for i, (x, f) in enumerate(zip(l, ([], [dict(F("x", access="public"), **{"of an anonymous method": (0, None)})], []))): a(Case(text, cls(x, f, [M("", body=calls("bcd"[i]), this=x)])))

GROUPS = (anonymous, classes, members, methods, enumerations, statements)

def short(x): return re.sub(r"\s+", " ", str(x))[:220]
def unordered(w):
    """a body with the variables declared from fields at its beginning, in whatever order"""
    i = 0
    def third(a, b, c):
        return a[0] == "do" and b[0] == "declare" and a[1][:2] == ("get", ("field", ("storage of", "$self"), b[1][1:])) and c == ("write", b[1], a[1])
    while isinstance(w, tuple) and len(w) >= i + 3 and third(*w[i:i + 3]): i += 3
    return tuple(sorted(w[k:k + 3] for k in range(0, i, 3))) + w[i:] if i else w
def differs(got, want, free=()):
    for k in want:
        if k in free: continue
        if got.get(k) == want[k]: continue
        if k in ("methods", "fields", "vars"):
            g, w = got[k], list(want[k])
            for i in range(min(len(g), len(w))):
                if "free" in w[i]:
                    if not g[i]["args"]: return "method `%s` has no arguments" % g[i]["name"]
                    w[i] = w[i]["free"](g[i]["args"][-1][0])
                    if not w[i]: return "method `%s`: its argument hides what it sets" % g[i]["name"]
            for i in range(max(len(g), len(w))):
                if i >= len(g): return "%s `%s` is missing" % (k[:-1], w[i]["name"])
                if i >= len(w): return "%s `%s` is defined, which is not documented" % (k[:-1], g[i]["name"])
                if "body" in w[i] and "body" in g[i] and g[i]["body"] != w[i]["body"]: g[i]["body"], w[i] = unordered(g[i]["body"]), dict(w[i], body=unordered(w[i]["body"]))
                if g[i] != w[i]:
                    for q in list(w[i]) + [q for q in g[i] if q not in w[i]]:
                        if q not in g[i] or q not in w[i] or g[i][q] != w[i][q]: return "%s `%s`: %s %s, documented: %s" % (k[:-1], w[i]["name"], q, short(g[i].get(q)), short(w[i].get(q)))
            continue
        return "%s: %s, documented: %s" % (k, short(got.get(k)), short(want[k]))

def judge(b, c):
    """what is wrong with a definition, or None; ('?', why) where it could not be decided"""
    ways = b.built(c.text, c.outmost, "class" if c.text.startswith("CLASS") else "operator")
    for x in ways:
        if x[0] == "give up": return ("?", x[1])
        if x[0] in ("abort", "endless", "refused"): return {"abort": "the compiler %s" % (x[1:],), "endless": "the parser's actions do not end"}.get(x[0], "the definition is refused as a syntax error")
        es, v, st = x
        o = b.overrun(st)
        if o: return o
        if c.error:
            if not any(c.error in str(e) for e in es): return "reports %s, documented: %s" % (short(list(es) or "no error"), c.error)
            continue
        if es: return "reports " + short(es[0])
        try: got = b.cls(st, c.want["name"])
        except meaning.Leave as e: return "the tree is broken: %s %s" % (e.how, e.v)
        if got is None: return "the class is not defined"
        d = differs(got, c.want, c.free)
        if d: return d
        if c.value is not None:
            v = b.means(v, st, "operator")
            if v != c.value: return "its value " + c29.differ(v, c.value)
        if c.loads is not None:
            l = b.loads(st)
            if sorted(l) != sorted(c.loads): return "makes the compiler load %s, documented: %s" % (l, c.loads)

def run(ck):
    ck.rule = ("class definitions are reduced in the order of the documented grammar; the actions of the parser, from the IR of the current source, are evaluated on them; the class they leave - kind, attributes, fields, "
               "class variables, methods with arguments, attributes, bodies and generated accessors, version, uses, aliases, classes to load - is compared with what the definition says, or the error with the documented one.")
    g = grammar.documented(); p, c, tok, tb = c28.numbers(g)
    prod = c28.automaton(c29.Count(), g, c, tok, tb)
    prog = syntax.program()
    b = Build(prog, prod, c)
    for G in GROUPS:
        L = []; bad = []
        G(L.append)
        for k in L:
            ck.count("definitions: " + G.__name__)
            w = judge(b, k)
            if isinstance(w, tuple): ck.notes.append("%s not decided: %s" % (k.text[:100], w[1])); ck.count("definitions not decided"); continue
            if w: bad.append((k, w))
        for k, w in bad[:12]: ck.violation("definition:%s" % k.text[:120], "`%s`: %s (actions of the parser, %s)" % (k.text[:160], w, prog.fn("SPVM_yyparse").loc))
        ck.need("definitions: " + G.__name__, 20)
    for n in b.it.fns: ck.functions.add(n)
    ck.sample('class Outmost { has fld : rw byte; }: the field, `fld` returning int, `set_fld` taking int and casting it to byte, an empty INIT method')
