"""Syntax trees given to the checker of a method: the checker is evaluated by the abstract interpreter on each tree; the errors it reports
and the tree it leaves (conversions, constants, resolved names) are read from the final state."""
from . import absint, codegen, kinds
from .absint import C, S, P
from .build import AnalysisBroken

STEPS = 60000       # no tree needs a fifth of it
BASICS = ("byte", "short", "int", "long", "float", "double", "string", "object")

class Tree(codegen.Tree):
    def __init__(s, w, prog):
        codegen.Tree.__init__(s, w, prog)
        s.decls = {}; s.consts = {}; s.methods = {}; s.fields = {}; s.classvars = {}; s.hash = {}; s.classes = {}; s.names = {}
        s.outmost_name = "Outmost"
        s.current = s.obj("class", id=C(codegen.BASE), name=("str", "Current"), file=("str", "F"), category=C(w.cat["CLASS"]))
    def decl(s, name, kind=None, arg=0):
        """my $name : KIND"""
        d = s.obj("var_decl", is_arg=C(arg))
        if kind is not None: s.put(d, "type", s.ty(kind))
        v = s.obj("var", var_decl=d, is_declaration=C(1), name=("str", "$" + name)); s.put(d, "var", v)
        o = s.op("VAR", uv=v); s.put(d, "op_var_decl", s.op("VAR_DECL", uv=d))
        s.decls[d[1]] = name
        return o
    def use(s, name): return s.op("VAR", uv=s.obj("var", name=("str", "$" + name)))
    def typ(s, kind): return s.op("TYPE", uv=s.ty(kind))
    def const(s, kind, ival=None):
        c = s.obj("constant", type=s.ty(kind), string_length=C(3))
        if ival is not None: s.put(c, "value", ival)
        o = s.op("CONSTANT", uv=c); s.consts[c[1]] = "constant"
        return o
    def method_obj(s, name, rtype, args=(), **f):
        """a method that can be called; args: kinds"""
        cls = s.obj("class", name=("str", "Callee"), id=C(codegen.BASE - 5), method_symtable=s.obj("symtable"))
        m = s.obj("method", name=("str", name), current_basic_type=cls, return_type=s.ty(rtype), args_length=C(len(args)), var_decls=s.list([s.obj("var_decl", type=s.ty(k), is_arg=C(1)) for k in args]), **f)
        s.hash[(s.get(cls, "method_symtable")[1], ("str", name))] = m
        return m
    def call(s, m, args=()):
        return s.op("CALL_METHOD", [s.op("LIST", [s.op("PUSHMARK")] + list(args))], uv=s.obj("call_method", method=m))
    def cls(s, name, parent=None, cat="CLASS", access="PUBLIC", outmost=None, allows=()):
        """a concrete class"""
        c = s.obj("class", id=C(codegen.BASE + 1 + len(s.classes)), name=("str", name), category=C(s.w.cat[cat]), access_control_type=C(s.e["SPVM_ATTRIBUTE_C_ID_" + access]), parent=parent or C(0), parent_name=s.get(parent, "name") if parent else C(0),
                  file=("str", "F"), is_generated_by_anon_method=C(int(outmost is not None)), outmost=outmost or C(0), allows=s.list([s.obj("allow", basic_type_name=("str", a)) for a in allows]), interface_basic_types=s.list([]))
        for t in ("method", "field", "unmerged_field", "class_var", "alias"): s.put(c, t + "_symtable", s.obj("symtable"))
        s.classes[name] = c
        return c
    def member(s, cls, table, name, o): s.hash[(s.get(cls, table + "_symtable")[1], ("str", name))] = o
    def class_type(s, cls): return s.obj("type", basic_type=cls)
    def class_decl(s, name, cls):
        o = s.decl(name); s.put(s.get(s.get(o, "uv"), "var_decl"), "type", s.class_type(cls)); return o
    def call_void(s): return s.call(s.method_obj("nothing", s.kind("void"), is_class_method=C(1)))
    def block(s, kids, kind="NORMAL", no_scope=0):
        l = s.op("LIST", [s.op("PUSHMARK")] + list(kids))
        return s.op("BLOCK", [l], uv=s.obj("block", id=C(s.e["SPVM_BLOCK_C_ID_" + kind]), no_scope=C(no_scope)))
    def run_method(s, root, rtype=None):
        s.rt = rtype or s.ty(s.kind("int"))
        s.m = s.obj("method", op_block=root, current_basic_type=s.current, return_type=s.rt, var_decls=s.list([]), outmost_basic_type_name=("str", s.outmost_name))
        s.btlist = s.obj("list", length=C(codegen.BASE + 1))
        s.comp = s.obj("compiler", basic_types=s.btlist, basic_type_symtable=s.obj("symtable"), ops=s.list([]), op_types=s.list([]))
        return s.comp, s.current, s.m

class Build(codegen.Build):
    real = False
    def text(s, st, v):
        """the characters of a string the compiler has made, or None"""
        if v[0] == "str": return v[1]
        if v[0] != "p" or v[2]: return None
        seg = {}
        for (o, path), x in st.mem.items():
            if o != v[1]: continue
            at = lambda q: 0 if not q else q[0][1][1] if len(q) == 1 and q[0][0] == "[]" and q[0][1][0] == "c" else None
            if path[:1] == ("text",):
                k = at(path[1:])
                if k is None: return None
                for j, ch in enumerate(x[1]): seg[k + j] = ch
            elif at(path) is not None and x[0] == "c": seg.setdefault(at(path), chr(x[1] & 255))
        out = ""
        while seg.get(len(out), "\0") != "\0": out += seg[len(out)]
        return out
    def real_oracle(s, it, n, a, st):
        """names are looked up in the tables of the classes"""
        t = s.t
        if n == "SPVM_LIST_get" and a[0] == t.btlist:
            for c in t.classes.values():
                if a[1] == t.get(c, "id"): return [(c, st)]
        if n == "SPVM_HASH_get":
            k = s.text(st, a[1])
            if k is None: return None
            if a[2][0] == "c":
                if a[2][1] > len(k): return [(("abort", "a name is read past its end"), st)]
                k = k[:a[2][1]]
            if a[0] == t.get(t.comp, "basic_type_symtable"):
                if k in t.classes: return [(t.classes[k], st)]
                if k.startswith("bt:"): return None
                return [(C(0), st)]
            return [(t.hash.get((a[0][1], ("str", k)), C(0)), st)]
        if n in ("strlen", "strcmp", "strncmp", "strrchr", "strchr", "strstr"):
            x = [s.text(st, v) for v in a if v[0] != "c"]
            if None in x or len(x) < len(a) - (n in ('strncmp', 'strrchr', 'strchr')): return None
            if n == "strlen": return [(C(len(x[0])), st)]
            if n in ("strcmp", "strncmp"):
                p, q = x if n == "strcmp" else (x[0][:a[2][1]], x[1][:a[2][1]])
                return [(C((p > q) - (p < q)), st)]
            k = x[0].find(x[1]) if n == "strstr" else x[0].rfind(chr(a[1][1])) if n == "strrchr" else x[0].find(chr(a[1][1]))
            if k < 0: return [(C(0), st)]
            full = a[0][2] if len(a[0]) > 2 else a[0][1]
            off = len(full) - len(x[0]) + k
            return [(("str", full[off:], full) if off else ("str", full), st)]
        return None
    def oracle(s, it, n, a, st):
        t = s.t
        if s.real:
            r = s.real_oracle(it, n, a, st)
            if r is not None: return r
            if n in ("SPVM_CHECK_can_access", "SPVM_OP_is_allowed", "SPVM_CHECK_check_class_var_access", "SPVM_CHECK_check_call_method", "SPVM_CHECK_check_field_access", "SPVM_BASIC_TYPE_is_super_class"): return None
        if n.__class__ is not str: raise absint.GiveUp("indirect call %s" % (n,))
        if n == "SPVM_COMPILER_error":
            st.trace += (("error", a[1][1] if a[1][0] == "str" else a[1]),); return [(C(0), st)]
        if n == "SPVM_COMPILER_get_error_messages_length": return [(C(sum(1 for e in st.trace if e[0] == "error")), st)]
        if n.startswith("SPVM_ALLOCATOR_alloc_memory_block") or n == "SPVM_STRING_new":
            st.n += 1
            o = P(("obj", "new", st.n)); st.zero = st.zero | {o[1]}
            if n == "SPVM_STRING_new" and s.real and a[2][0] == "c" and s.text(st, a[1]) is not None:
                k = s.text(st, a[1])
                if a[2][1] > len(k): return [(("abort", "a string is read past its end"), st)]
                st.mem[(o[1], ("value",))] = ("str", k[:a[2][1]])
            return [(o, st)]
        if n in ("strcmp", "strncmp") and a[0][0] == a[1][0] == "str":
            x, y = a[0][1], a[1][1]
            if n == "strncmp": x, y = x[:a[2][1]], y[:a[2][1]]
            return [(C((x > y) - (x < y)), st)]
        if n == "strlen":
            if a[0][0] == "str": return [(C(len(a[0][1])), st)]
            if a[0][0] == "p" and isinstance(a[0][1], tuple) and a[0][1][0] == "alloca": return [(C(0), st)]      # no reason was given
        if n == "SPVM_TYPE_new_type_name": return [(("str", "TYPE"), st)]
        if n == "SPVM_BASIC_TYPE_add_constant_string":
            st.trace += (("string", a[1], a[2]),); return [(C(0), st)]
        if n == "SPVM_TYPE_satisfy_assignment_requirement":
            ok, need = s.assignable
            st.trace += (("assign",) + a[1:7] + (a[8], a[9]),)
            it.store(st, a[7], C(need)); return [(C(ok), st)]
        if n == "SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion":
            st.trace += (("assign",) + a[1:7],)
            return [(C(s.assignable[0]), st)]
        if n == "SPVM_TYPE_satisfy_cast_requirement":
            st.trace += (("cast",) + a[1:7],); return [(C(s.assignable[0]), st)]
        if n == "SPVM_HASH_get":
            if a[0] == t.st.mem.get((t.comp[1], ("basic_type_symtable",))) and a[1][0] == "str" and a[1][1].startswith("bt:"): return [(P(("obj", "bt", eval(a[1][1][3:]))), st)]
            k = (a[0][1] if a[0][0] == "p" else a[0], a[1])
            return [(t.hash.get(k, C(0)), st)]
        if n == "SPVM_CHECK_can_access":
            st.trace += (("access",) + a[1:5],); return [(C(s.accessible), st)]
        if n == "SPVM_OP_is_allowed":
            st.trace += (("allowed",) + a[1:4],); return [(C(s.allowed), st)]
        if n == "SPVM_CHECK_check_class_var_access":
            # resolves the name of the class variable of the access
            acc = it.load(st, "ptr", P(a[1][1], "uv")); nm = it.load(st, "ptr", P(acc[1], "op_name")); name = it.load(st, "ptr", P(nm[1], "uv"))
            st.mem[(acc[1], ("class_var",))] = t.classvars.get(name, C(0))
            return [(C(0), st)]
        if n in ("SPVM_CHECK_check_call_method", "SPVM_CHECK_check_field_access"): return [(C(0), st)]
        if n in ("SPVM_LIST_get",) and a[0] == t.btlist:
            if a[1] == C(codegen.BASE): return [(t.current, st)]
            return s.w.oracle(it, n, a, st)
        if n == "SPVM_CHECK_get_type": return None
        if n == "SPVM_HASH_set": return [(C(0), st)]
        return codegen.Build.oracle(s, it, n, a, st)
    def field(s, it, o, path, ty, st):
        if isinstance(o, tuple) and o[:2] == ("obj", "bt") and path:
            if path[-1] == "name": return ("str", "bt:" + repr(o[2]))
            if path[-1] == "access_control_type": return S("access")
        return s.w.field(it, o, path, ty, st)
    @property
    def ids(s):
        if not hasattr(s, "_ids"): s._ids = {v: k[len("SPVM_OP_C_ID_"):] for k, v in s.prog.enums.items() if k.startswith("SPVM_OP_C_ID_")}
        return s._ids
    def tree(s):
        t = Tree(s.w, s.prog); s.t = t; s.assignable = (1, 0); s.accessible, s.allowed = 1, 0; s.real = False
        return t
    def check(s, root, rtype=None):
        """[(errors, other events, tree)] for every way through the checker"""
        t = s.t
        args = t.run_method(root, rtype)
        lost = s.it.lost; s.it.budget = s.it.steps + STEPS
        try: r = s.it.call("SPVM_CHECK_check_ast_syntax", args, t.st)
        except absint.GiveUp as e: return [("give up", str(e))]
        except absint.Budget as e: return ["endless"]
        if s.it.lost > lost: return ["endless"]
        out = []
        for v, st in r:
            if v is not None and v[0] == "abort": out.append("abort"); continue
            s.st = st
            out.append((tuple(e[1] for e in st.trace if e[0] == "error"), tuple(e for e in st.trace if e[0] != "error"), s.read(st, root)))
        return out
    # reading the tree ------------------------------------------------------
    def get(s, st, o, f):
        v = st.mem.get((o[1], (f,)))
        return v if v is not None else C(0)
    def opname_of(s, st, o):
        v = s.get(st, o, "id")
        return s.ids.get(v[1], "?") if v[0] == "c" else "?"
    def typename(s, st, ty):
        if ty[0] != "p": return "none"
        bt, d, f = s.get(st, ty, "basic_type"), s.get(st, ty, "dimension"), s.get(st, ty, "flag")
        if bt[0] != "p": return "none"
        b = bt[1][2] if bt[1][:2] == ("obj", "bt") else bt[1]
        return (b, d, f[1] if f[0] == "c" else f)
    def kids(s, st, o):
        out = []; k = s.get(st, o, "first")
        while k != C(0):
            if len(out) > 200: return out[:3] + ["the list of operands does not end"]
            out.append(k)
            if s.get(st, k, "moresib") == C(0): break
            k = s.get(st, k, "sibparent")
        # the links the later passes rely on
        if out and s.get(st, o, "last") != out[-1]: return out + ["the last operand is not linked"]
        if out and s.get(st, out[-1], "sibparent") != o: return out + ["the last operand does not lead back to its operator"]
        return out
    def read(s, st, o):
        if isinstance(o, str): return o
        n = s.opname_of(st, o); uv = s.get(st, o, "uv")
        k = [s.read(st, x) for x in s.kids(st, o)]
        if n == "VAR":
            d = s.get(st, uv, "var_decl") if uv[0] == "p" else C(0)
            return ("VAR", s.t.decls.get(d[1]))
        if n == "TYPE": return ("TYPE", s.typename(st, uv))
        if n == "CONSTANT":
            if uv[1] in s.t.consts: return ("CONSTANT", s.t.consts[uv[1]])
            ty = s.typename(st, s.get(st, uv, "type")); v = st.mem.get((uv[1], ("value",)))
            if ty[0] == C(s.prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_STRING"]): return ("CONSTANT", "string")
            return ("CONSTANT", v[1] if v and v[0] == "c" else 0 if v is None else v)
        if s.real:
            if n == "CLASS_VAR_ACCESS": return (n, s.t.names.get(s.get(st, uv, "class_var")))
            if n == "CALL_METHOD": return (n, s.t.names.get(s.get(st, uv, "method")), "static" if s.get(st, uv, "is_instance_method_static") != C(0) else "") + tuple(k)
            if n == "FIELD_ACCESS": return (n, s.t.names.get(s.get(st, uv, "field"))) + tuple(k)
        return tuple([n] + k)
