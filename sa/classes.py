"""Sets of class definitions given to the passes that relate classes (inheritance, interfaces, fields, methods): the passes are evaluated by
the abstract interpreter on every set of a family; what they report and the tables they leave are read from the final states."""
from . import absint, checker, codegen, kinds
from .absint import C, S, P
from .build import AnalysisBroken

BASE = 100
STEPS = 400000

class Classes(checker.Tree):
    """concrete class definitions"""
    def __init__(s, w, prog, earlier=0):
        checker.Tree.__init__(s, w, prog)
        s.order = []; s.earlier = earlier
    def cls(s, name, parent=None, cat="CLASS", methods=(), anon=False, interfaces=(), uses=(), precompile=0):
        c = s.obj("class", id=C(BASE + len(s.order)), name=("str", name), category=C(s.w.cat[cat]), parent_name=("str", parent) if parent else C(0), op_extends=s.op("EXTENDS") if parent else C(0),
                  file=("str", "F"), op_class=s.op("CLASS"), is_generated_by_anon_method=C(int(anon)), is_precompile=C(precompile))
        for t in ("method", "field", "unmerged_field", "class_var", "alias", "interface_basic"): s.put(c, t + "_symtable", s.obj("symtable"))
        for t in ("class_vars", "unmerged_fields", "fields", "methods", "interface_basic_types", "interface_decls", "use_basic_type_names"): s.put(c, t, s.list([]))
        s.put(c, "interface_decls", s.list([s.obj("interface", op_interface=s.op("INTERFACE"), op_type=s.op("TYPE", uv=s.obj("type", unresolved_basic_type_name=("str", i)))) for i in interfaces]))
        s.put(c, "use_basic_type_names", s.list([("str", u) for u in uses]))
        s.order.append(name); s.classes[name] = c; s.names[c] = name
        for m in methods: s.method_of(name, m)
        return c
    def member(s, cls, table, name, o): s.st.mem[(s.get(cls, table + "_symtable")[1], ("key:" + name,))] = o
    def add(s, cls, lst, o):
        l = s.get(cls, lst); it = s.st.mem[(l[1], ("items",))][1]
        s.put(cls, lst, s.list(list(it) + [o]))
    def method_of(s, cname, mname, args=(), rtype=None, block=True, **f):
        """args: (type object, default operator or None)"""
        c = s.classes[cname]
        ds = [s.obj("var_decl", type=ty, op_arg_default=d or C(0), var=s.obj("var", name=("str", "$a%d" % i))) for i, (ty, d) in enumerate(args)]
        m = s.obj("method", name=("str", mname), current_basic_type=c, args_length=C(len(ds)), var_decls=s.list(ds), return_type=rtype or s.ty(s.kind("void")), op_method=s.op("METHOD"),
                  op_block=s.block([]) if block else C(0), **f)
        s.names[m] = cname + "::" + mname
        s.member(c, "method", mname, m); s.add(c, "methods", m)
        return m, ds
    def field_of(s, cname, fname, ty):
        c = s.classes[cname]
        f = s.obj("field", name=("str", fname), current_basic_type=c, type=ty, op_field=s.op("FIELD"), access_control_type=C(s.e["SPVM_ATTRIBUTE_C_ID_PUBLIC"]))
        s.names[f] = cname + "::" + fname
        s.member(c, "unmerged_field", fname, f); s.add(c, "unmerged_fields", f)
        return f
    def class_var_of(s, cname, name, ty):
        v = s.obj("class_var", name=("str", "$" + name), type=ty, op_class_var=s.op("CLASS_VAR"), current_basic_type=s.classes[cname])
        s.add(s.classes[cname], "class_vars", v); return v
    def class_ty(s, name, dim=0, ref=0): return s.obj("type", basic_type=s.classes[name], dimension=C(dim), flag=C(ref))
    def compiler(s):
        s.btlist = s.obj("list", length=C(BASE + len(s.order)))
        s.comp = s.obj("compiler", basic_types=s.btlist, basic_type_symtable=s.obj("symtable"), ops=s.list([]), op_types=s.list([]), basic_types_base_id=C(BASE + s.earlier))
        return s.comp

class Build(checker.Build):
    real = True
    def tree(s, earlier=0):
        t = Classes(s.w, s.prog, earlier); s.t = t; s.assignable = (1, 0); s.accessible, s.allowed = 1, 0; s.real = True; s.narrow = 0
        s.it.memo.clear(); s.iface = {}
        return t
    def oracle(s, it, n, a, st):
        t = s.t
        if n == "SPVM_HASH_set":
            k = s.text(st, a[1])
            if k is None or a[2][0] != "c": raise absint.GiveUp("name not known")
            if a[2][1] > len(k): return [(("abort", "a name is read past its end"), st)]
            st.mem[(a[0][1], ("key:" + k[:a[2][1]],))] = a[3]; return [(C(0), st)]
        if n == "SPVM_HASH_get" and a[0][0] == "p" and a[0] != t.get(t.comp, "basic_type_symtable"):
            k = s.text(st, a[1])
            if k is None or a[2][0] != "c": raise absint.GiveUp("name not known")
            if a[2][1] > len(k): return [(("abort", "a name is read past its end"), st)]
            return [(st.mem.get((a[0][1], ("key:" + k[:a[2][1]],)), C(0)), st)]
        if n in ("SPVM_LIST_new_list_permanent", "SPVM_LIST_new"):
            st.n += 1
            l = P(("obj", "list", "new%d" % st.n)); s.setitems(st, l, ())
            return [(l, st)]
        if n in ("SPVM_FIELD_new",):
            st.n += 1; o = P(("obj", "field", "new%d" % st.n)); st.zero = st.zero | {o[1]}
            return [(o, st)]
        if n == "SPVM_CHECK_get_type": return None
        if n in ("SPVM_BASIC_TYPE_has_interface", "SPVM_BASIC_TYPE_has_interface_common"):
            ok = s.iface.get((a[1], a[2]), 1)
            st.trace += (("requirement", a[1], a[2]),)
            if not ok and a[3][0] == "p": st.mem[(a[3][1], a[3][2])] = C(65)
            return [(C(ok), st)]
        if n == "SPVM_CHECK_check_allow_narrowing_conversion": return [(C(s.narrow), st)]
        if n == "SPVM_TYPE_satisfy_assignment_requirement":
            st.trace += (("assign",) + a[1:7] + (a[8],),); it.store(st, a[7], C(0)); return [(C(s.assignable[0]), st)]
        if n == "strlen" and a[0][0] == "p" and isinstance(a[0][1], tuple) and a[0][1][0] == "alloca": return [(C(0 if st.mem.get((a[0][1], a[0][2]), C(0)) == C(0) else 1), st)]
        if n == "sprintf" and len(a) >= 2 and a[1][0] == "str":
            vals = iter(a[2:]); out = ""; i = 0; f = a[1][1]
            while i < len(f):
                if f[i] != "%": out += f[i]; i += 1; continue
                if f[i + 1] == "d":
                    v = next(vals)
                    if v[0] != "c": raise absint.GiveUp("sprintf of an unknown number")
                    out += str(v[1])
                elif f[i + 1] == "s":
                    v = s.text(st, next(vals))
                    if v is None: raise absint.GiveUp("sprintf of an unknown string")
                    out += v
                else: raise absint.GiveUp("sprintf %" + f[i + 1])
                i += 2
            st.mem[(a[0][1], a[0][2] + ("text",))] = ("str", out); return [(C(len(out)), st)]
        if n == "snprintf": return [(C(1), st)]
        if n == "SPVM_TYPE_new" or n == "SPVM_VAR_DECL_new":
            st.n += 1; o = P(("obj", "new", st.n)); st.zero = st.zero | {o[1]}
            return [(o, st)]
        if n == "qsort":
            base, cnt, size, cb = a[0], a[1], a[2], a[3]
            owner = next((l for (l, path), v in st.mem.items() if path == ("values",) and v == base), None)
            if owner is None or cb[0] != "fn": raise absint.GiveUp("what is sorted is not known")
            items = list(s.items(st, P(owner)))
            if size != C(8): return [(("abort", "sorting elements of another size"), st)]
            if cnt != C(len(items)): return [(("abort", "sorting another number of elements"), st)]
            def order(x, y):
                p, q = P(("obj", "sortl")), P(("obj", "sortr")); st.mem[(p[1], ())] = x; st.mem[(q[1], ())] = y
                r = it.call(cb[1], (p, q), st.copy())
                if len(r) != 1 or r[0][0][0] != "c": raise absint.GiveUp("comparison of two methods")
                return r[0][0][1]
            import functools
            items.sort(key=functools.cmp_to_key(order))
            s.setitems(st, P(owner), items)
            return [(C(0), st)]
        return checker.Build.oracle(s, it, n, a, st)
    def text(s, st, v):
        if v[0] == "p" and (v[1], v[2] + ("text",)) in st.mem: return st.mem[(v[1], v[2] + ("text",))][1]
        return checker.Build.text(s, st, v)
    def run(s, fn, extra=()):
        """[(errors, other events, state)] or 'abort' / 'endless'"""
        t = s.t; t.compiler()
        lost = s.it.lost; s.it.budget = s.it.steps + STEPS
        try: r = s.it.call(fn, (t.comp,) + tuple(extra), t.st)
        except absint.GiveUp as e: return [("give up", str(e))]
        except absint.Budget as e: return ["endless"]
        if s.it.lost > lost: return ["endless"]
        return ["abort: " + (v[1] if len(v) > 1 else "an assertion") if v is not None and v[0] == "abort" else (tuple(e[1] for e in st.trace if e[0] == "error"), tuple(e for e in st.trace if e[0] != "error"), st) for v, st in r]
    # reading -----------------------------------------------------------------
    def lst(s, st, o, f):
        l = s.get(st, o, f)
        return list(s.items(st, l)) if l[0] == "p" and (l[1], ("items",)) in st.mem else []
    def sym(s, st, o, table):
        l = s.get(st, o, table + "_symtable")
        return {p[0][4:]: v for (x, p), v in st.mem.items() if x == l[1] and p and isinstance(p[0], str) and p[0].startswith("key:")}
