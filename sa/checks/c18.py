"""C18: reflection: the runtime's description of the classes is that of the compiled classes."""
import itertools
from .. import absint, build, classes, codegen, fspec, checker
from ..absint import C, P, S
from ..build import AnalysisBroken

LEVEL = "other"
SRC = ("spvm_compiler.c", "spvm_check.c", "spvm_basic_type.c", "spvm_api_runtime.c", "spvm_api_basic_type.c", "spvm_api_method.c", "spvm_type.c")
STRINGS = ("name", "file", "class_dir", "class_rel_file", "version_string")
METHOD = ("index", "byte_vars_width", "short_vars_width", "int_vars_width", "long_vars_width", "float_vars_width", "double_vars_width", "object_vars_width", "ref_vars_width", "mortal_stack_length", "required_args_length")
METHOD_FLAGS = ("is_class_method", "is_init_method", "is_native", "is_precompile", "is_destroy_method", "is_required", "is_enum")

class Interp(codegen.Interp):
    """copies of memory are as long as their length says"""
    def docall(s, i, fr, st):
        if (i.callee or "").startswith("llvm.memcpy"):
            d, e, k = (s.val(i.ops[j], fr, st) for j in (1, 2, 3))
            if d[0] == "p" and not d[2] and (d[1], ("#size",)) in st.mem:
                st.mem[(d[1], ("#copied",))] = ("copy", e, k)
                if k[0] == "c" and e[0] == "p":
                    for (o, path), v in list(st.mem.items()):
                        if o == e[1] and path[:1] != ("#size",) and path[:1] != ("#copied",):
                            at = path[0][1][1] if path and path[0][0] == "[]" and path[0][1][0] == "c" else 0
                            if path[:1] == ("text",) or at * 8 < k[1]: st.mem[(d[1], path)] = v
                return None
        return codegen.Interp.docall(s, i, fr, st)

class Build(classes.Build):
    def __init__(s, prog):
        classes.Build.__init__(s, prog)
        s.it.__class__ = Interp
    def text(s, st, v):
        if v[0] == "p" and len(v[2]) <= 1 and (v[1], ("text",)) in st.mem:
            k = 0 if not v[2] else v[2][0][1][1] if v[2][0][0] == "[]" and v[2][0][1][0] == "c" else None
            whole = st.mem[(v[1], ("text",))][1]
            if k is not None and 0 <= k <= len(whole): return whole[k:].split("\0")[0]
            return None
        return classes.Build.text(s, st, v)
    def oracle(s, it, n, a, st):
        t = s.t
        if n in ("SPVM_ALLOCATOR_alloc_memory_block_permanent", "SPVM_ALLOCATOR_alloc_memory_block_tmp"):
            st.n += 1; o = P(("obj", "mem", st.n)); st.zero = st.zero | {o[1]}; st.mem[(o[1], ("#size",))] = a[1]
            return [(o, st)]
        if n == "SPVM_ALLOCATOR_free_memory_block_tmp":
            if a[1][0] == "p": st.mem[(a[1][1], ("#freed",))] = C(1)
            return [(C(0), st)]
        if n == "strlen" and a[0][0] == "str": return [(C(len(a[0][1].split("\0")[0])), st)]
        if n == "strcmp":
            x, y = s.text(st, a[0]), s.text(st, a[1])
            if x is None or y is None: raise absint.GiveUp("comparison of unknown texts")
            return [(C((x > y) - (x < y)), st)]
        if n in ("SPVM_STRING_BUFFER_add_len_nullstr", "SPVM_STRING_BUFFER_add_len"):
            v = a[1][1] if a[1][0] == "str" else s.text(st, a[1]) if a[1][0] == "p" else None
            if a[1][0] == "p" and a[2] == C(4) and not v: v = "\0" * 4
            if v is None or a[2][0] != "c": raise absint.GiveUp("an unknown text is added")
            if a[2][1] > len(v) + 1 and v.strip("\0"): return [(("abort", "a text is read past its end"), st)]
            old = st.mem.get((s.get(st, a[0], "string")[1], ("text",)), ("str", ""))[1]
            new = old + (v + "\0" * 5)[:a[2][1]] + ("\0" if n.endswith("nullstr") else "")
            st.mem[(s.get(st, a[0], "string")[1], ("text",))] = ("str", new); st.mem[(a[0][1], ("length",))] = C(len(new))
            return [(C(len(old)), st)]
        if n == "SPVM_BASIC_TYPE_add_constant_string": return None
        if n in ("SPVM_CHECK_check_ast_op_types", "SPVM_CHECK_check_ast_syntax", "SPVM_CHECK_check_ast_assign_unassigned_op_to_var", "SPVM_CHECK_check_ast_if_block_need_leave_scope", "SPVM_CHECK_check_ast_typed_var_indexs"):
            return [(C(0), st)]
        if n == "SPVM_LIST_get" and a[0] == t.btlist:
            l = s.items(st, a[0])
            if a[1][0] != "c" or not 0 <= a[1][1] < len(l): return [(("abort", "list read out of range"), st)]
            return [(l[a[1][1]], st)]
        if n == "SPVM_HASH_get" and a[0][0] == "p":
            k = s.text(st, a[1]) if a[1][0] != "str" else a[1][1]
            if k is None or a[2][0] != "c": raise absint.GiveUp("name not known")
            if a[2][1] > len(k): return [(("abort", "a name is read past its end"), st)]
            return [(st.mem.get((a[0][1], ("key:" + k[:a[2][1]],)), C(0)), st)]
        return classes.Build.oracle(s, it, n, a, st)

class Image(classes.Classes):
    """compiled classes and the runtime built from them"""
    def __init__(s, w, prog):
        classes.Classes.__init__(s, w, prog)
        s.all = []; s.k = 1000; s.consts = {}
        s.btlist = s.list([]); s.rt = s.obj("runtime", basic_types_length=C(0), basic_type_symtable=s.obj("symtable"), allocator=s.obj("allocator"))
        s.comp = s.obj("compiler", basic_types=s.btlist, basic_type_symtable=s.obj("symtable"), runtime=s.rt, basic_types_base_id=C(0))
    def num(s): s.k += 1; return C(s.k)
    def klass(s, name, cat="CLASS", parent=None, strings=("file", "class_dir", "class_rel_file", "version_string"), **f):
        pool = s.obj("pool", string=P(("obj", "poolstring", s.n)))
        c = s.obj("class", id=C(len(s.all)), name=("str", name), category=C(s.w.cat[cat]), string_pool=pool, fields_size=s.num(), **{k: (v if isinstance(v, tuple) else C(v)) for k, v in f.items()})
        for k in strings: s.put(c, k, ("str", "%s of %s" % (k, name)))
        if parent: s.put(c, "parent", s.classes[parent]); s.put(c, "parent_name", ("str", parent))
        s.put(c, "constant_string_symtable", s.obj("symtable"))
        for l in ("constant_strings", "class_vars", "fields", "methods", "anon_basic_types"): s.put(c, l, s.list([]))
        s.classes[name] = c; s.names[c] = name; s.all.append(name); s.consts[name] = []
        st = s.st; st.mem[(s.btlist[1], ("items",))] = ("items", tuple(s.classes[n] for n in s.all)); s.put(s.btlist, "length", C(len(s.all)))
        st.mem[(s.get(s.comp, "basic_type_symtable")[1], ("key:" + name,))] = c
        return c
    def type_of(s, cname): return s.obj("type", basic_type=s.classes[cname], dimension=s.num(), flag=s.num())
    def fld(s, cname, name, ty, owner=None, lst="fields"):
        o = s.obj("member", index=s.num(), offset=s.num(), name=("str", name), type=s.type_of(ty), current_basic_type=s.classes[owner or cname]); s.add(s.classes[cname], lst, o); return o
    def meth(s, cname, name, args=(), rtype=None, flag=None, opt=0):
        c = s.classes[cname]; idx = len(s.st.mem[(s.get(c, "methods")[1], ("items",))][1])
        ds = []
        for i, a in enumerate(args):
            d = s.obj("var_decl", name=("str", "$%s%d" % (name, i)), stack_index=s.num(), type=s.type_of(a), is_optional_arg=C(1 if i >= len(args) - opt else 0)); s.put(d, "arg_default_value", S("default%d" % s.num()[1])); ds.append(d)
        m = s.obj("method", name=("str", name), current_basic_type=c, return_type=s.type_of(rtype or cname), args_length=C(len(ds)), var_decls=s.list(ds + [s.obj("var_decl", name=("str", "$local"), type=s.type_of(cname))]),
                  opcode_list=s.obj("opcodes", length=C(3 + idx), values=P(("obj", "opvals", s.n))))
        for k in METHOD: s.put(m, k, s.num())
        s.put(m, "index", C(idx))
        for k in METHOD_FLAGS: s.put(m, k, C(int(k == flag)))
        s.add(c, "methods", m); s.consts[cname] += ["$%s%d" % (name, i) for i in range(len(args))]
        return m

class Bad(dict):
    def add(s, fn, text): s.setdefault(fn, []); s[fn].append(text) if text not in s[fn] else None

BUILD, REG = "SPVM_COMPILER_build_runtime", "SPVM_CHECK_check_asts"

def evaluate(b, t, states, base, extra):
    """register the strings of the classes from base on and build the runtime: [state] or a message"""
    def call(fn, args, sts):
        out = []
        for st in sts:
            for v, z in b.it.call(fn, args, st):
                if v is not None and v[0] == "abort": raise Failed(fn, "aborts: %s" % (v[1] if len(v) > 1 else "an assertion"))
                out.append(z)
        return out
    b.it.budget = b.it.steps + 2000000; lost = b.it.lost
    try:
        for st in states: st.mem[(t.comp[1], ("basic_types_base_id",))] = C(base)
        for n in t.all[base:]:
            for x in t.consts[n]: states = call("SPVM_BASIC_TYPE_add_constant_string", (t.comp, t.classes[n], ("str", x), C(len(x))), states)
        states = call(REG, (t.comp,), states)
        for n in t.all[base:]:
            for x in extra.get(n, ()): states = call("SPVM_BASIC_TYPE_add_constant_string", (t.comp, t.classes[n], ("str", x), C(len(x))), states)
        states = call(BUILD, (t.comp,), states)
    except absint.Budget: raise Failed(BUILD, "does not come to an end")
    if b.it.lost > lost: raise Failed(BUILD, "does not come to an end")
    return states

class Failed(Exception): pass

def at(p, k): return P(p[1], *((("[]", C(k)),) if k else ()))

def judge(b, t, st, SIZE):
    """differences between the runtime and the compiled classes"""
    prog = b.prog; rt = t.rt
    def g(o, *path):
        v = st.mem.get((o[1], o[2] + tuple(path)))
        return v if v is not None else C(0)
    def room(o, n, struct, what):
        if o[0] != "p": return "%s is not set" % what
        sz = st.mem.get((o[1], ("#size",)))
        if sz is None or sz[0] != "c": return None
        if sz[1] < n * SIZE[struct]: return "the memory of %s has %d bytes for %d elements of %d bytes" % (what, sz[1], n, SIZE[struct])
    if g(rt, "basic_types_length") != C(len(t.all)): return "the runtime has %s classes, %d were compiled" % (g(rt, "basic_types_length"), len(t.all))
    arr = g(rt, "basic_types")
    if arr[0] != "p": return "the runtime has no list of classes"
    if (arr[1], ("#freed",)) in st.mem: return "the list of classes of the runtime is released"
    w = room(arr, len(t.all), "ptr", "the list of classes")
    if w: return w
    R = {}
    for i, n in enumerate(t.all):
        R[n] = st.mem.get((at(arr, i)[1], at(arr, i)[2]), C(0))
        if R[n][0] != "p": return "the class %s is missing in the list of classes" % n
    if len(set(R.values())) != len(R): return "two classes share one description"
    rc = {t.classes[n]: R[n] for n in t.all}
    def text(v): return b.text(st, v) if v[0] == "p" else None
    def same(o, path, want, what):
        got = g(o, *path)
        if want.__class__ is str:
            if text(got) != want: return "%s is %r, compiled %r" % (what, text(got), want)
            if st.mem[(got[1], ("text",))][1].find(want + "\0", got[2][0][1][1] if got[2] else 0) < 0: return "%s is not terminated" % what
            return None
        if got != want: return "%s is %s, compiled %s" % (what, show(got), show(want))
    def show(v): return "class %s" % next(n for n in R if R[n] == v) if v in R.values() else str(v[1]) if v[0] in "cs" else "something else"
    def typ(o, ty, what, prefix=""):
        return (same(o, (prefix + "basic_type",), rc[t.get(ty, "basic_type")], "the type of " + what) or same(o, (prefix + "type_dimension",), t.get(ty, "dimension"), "the dimension of the type of " + what)
                or same(o, (prefix + "type_flag",), t.get(ty, "flag"), "the flag of the type of " + what))
    def method_at(m):
        o = t.get(m, "current_basic_type"); return at(g(rc[o], "methods"), t.get(m, "index")[1])
    for n in t.all:
        c, r = t.classes[n], R[n]
        if st.mem.get((g(rt, "basic_type_symtable")[1], ("key:" + n,))) != r: return "class %s is not found by its name" % n
        w = room(r, 1, "spvm_runtime_basic_type", "a class")
        for k in STRINGS:
            v = t.get(c, k)
            w = w or same(r, (k,), v[1] if v[0] == "str" else v, "the %s of class %s" % (k, n))
        for k in ("id", "category", "fields_size", "is_anon", "is_pointer"): w = w or same(r, (k,), t.get(c, k), "the %s of class %s" % (k, n))
        w = w or same(r, ("initialized",), C(0), "the mark of initialisation of class %s" % n)
        par = t.get(c, "parent")
        w = w or same(r, ("parent",), rc[par] if par != C(0) else C(0), "the parent of class %s" % n) or same(r, ("current_runtime",), rt, "the runtime of class %s" % n)
        if w: return w
        # constants
        pool = g(t.get(c, "string_pool"), "length")
        w = same(r, ("string_pool_length",), pool, "the length of the string pool of class %s" % n)
        p = g(r, "string_pool")
        if not w and p[0] == "p" and st.mem.get((p[1], ("#size",)), pool)[1] < pool[1]: w = "the memory of the string pool of class %s is too small" % n
        if not w and p[0] == "p" and st.mem.get((p[1], ("#copied",)), ("copy", None, pool))[2] != pool: w = "the string pool of class %s is not copied whole" % n
        cs = b.items(st, t.get(c, "constant_strings"))
        w = w or same(r, ("constant_strings_length",), C(len(cs)), "the number of constants of class %s" % n) or (room(g(r, "constant_strings"), len(cs), "spvm_runtime_string", "the constants of class %s" % n) if cs else None)
        if w: return w
        seen = set()
        for i, o in enumerate(cs):
            v = g(o, "value"); l = g(o, "length"); txt = v[1][:l[1]] if v[0] == "str" and l[0] == "c" else None
            if txt is None: return "a constant of class %s has no text" % n
            if g(o, "index") != C(i): return "the constant %r of class %s has the index %s at %d" % (txt, n, g(o, "index")[1], i)
            if txt in seen: return "the constant %r of class %s is there twice" % (txt, n)
            seen.add(txt)
            e = at(g(r, "constant_strings"), i)
            if g(e, "length") != C(len(txt)): return "the length of the constant %r of class %s is %s" % (txt, n, g(e, "length")[1])
            q = g(e, "value")
            k = (0 if not q[2] else q[2][0][1][1]) if q[0] == "p" and q[1] == p[1] and (not q[2] or q[2][0][1][0] == "c") else None
            if k is None: return "the constant %r of class %s does not lie in its string pool" % (txt, n)
            if st.mem[(p[1], ("text",))][1][k:k + len(txt) + 1] != txt + "\0": return "the constant %r of class %s is %r at run time" % (txt, n, st.mem[(p[1], ("text",))][1][k:k + len(txt) + 1])
        for x in t.wanted.get(n, ()):
            if x not in seen: return "the constant %r of class %s is missing" % (x, n)
        # class variables and fields
        for lst, struct, word in (("class_vars", "spvm_runtime_class_var", "class variable"), ("fields", "spvm_runtime_field", "field")):
            items = b.items(st, t.get(c, lst))
            w = same(r, (lst + "_length",), C(len(items)), "the number of %ss of class %s" % (word, n)) or (room(g(r, lst), len(items), struct, "the %ss of class %s" % (word, n)) if items else None)
            if w: return w
            for i, o in enumerate(items):
                e = at(g(r, lst), i); what = "the %s %s of class %s" % (word, t.get(o, "name")[1], n)
                w = same(e, ("name",), t.get(o, "name")[1], "the name of " + what) or same(e, ("index",), t.get(o, "index"), "the index of " + what) or typ(e, t.get(o, "type"), what) or \
                    same(e, ("current_basic_type",), rc[t.get(o, "current_basic_type")], "the class of " + what) or (same(e, ("offset",), t.get(o, "offset"), "the offset of " + what) if lst == "fields" else None)
                if w: return w
        items = b.items(st, t.get(c, "methods"))
        w = same(r, ("methods_length",), C(len(items)), "the number of methods of class %s" % n) or (room(g(r, "methods"), len(items), "spvm_runtime_method", "the methods of class %s" % n) if items else None)
        if w: return w
        for i, m in enumerate(items):
            e = at(g(r, "methods"), i); what = "method %s of class %s" % (t.get(m, "name")[1], n)
            w = same(e, ("name",), t.get(m, "name")[1], "the name of " + what) or same(e, ("current_basic_type",), r, "the class of " + what) or typ(e, t.get(m, "return_type"), what, "return_")
            for k in METHOD + METHOD_FLAGS: w = w or same(e, (k,), t.get(m, k), "%s of %s" % (k, what))
            for k in ("native_address", "precompile_address", "is_precompile_fallback"): w = w or same(e, (k,), C(0), "%s of %s" % (k, what))
            ol = t.get(m, "opcode_list"); oc = g(e, "opcodes"); cnt = t.get(ol, "length")[1]
            w = w or same(e, ("opcodes_length",), C(cnt), "the number of opcodes of " + what) or room(oc, cnt, "spvm_opcode", "the opcodes of " + what)
            if w: return w
            if st.mem.get((oc[1], ("#copied",))) != ("copy", t.get(ol, "values"), C(cnt * SIZE["spvm_opcode"])): return "the opcodes of %s are not all copied" % what
            na = t.get(m, "args_length")[1]
            w = same(e, ("args_length",), C(na), "the number of arguments of " + what) or (room(g(e, "args"), na, "spvm_runtime_arg", "the arguments of " + what) if na else None)
            if w: return w
            for j, d in enumerate(b.items(st, t.get(m, "var_decls"))[:na]):
                x = at(g(e, "args"), j); wa = "argument %d of %s" % (j, what)
                w = same(x, ("name",), t.get(d, "name")[1], "the name of " + wa) or same(x, ("index",), C(j), "the index of " + wa) or typ(x, t.get(d, "type"), wa) or same(x, ("stack_index",), t.get(d, "stack_index"), "the stack index of " + wa) or \
                    same(x, ("current_method",), e, "the method of " + wa) or same(x, ("is_optional",), t.get(d, "is_optional_arg"), "is_optional of " + wa) or same(x, ("default_value",), t.get(d, "arg_default_value"), "the default of " + wa)
                if w: return w
        for k in ("init_method", "destroy_method"):
            m = t.get(c, k)
            if m == C(0): w = same(r, (k,), C(0), "the %s of class %s" % (k, n))
            elif g(r, k) != method_at(m): w = "the %s of class %s is not that of the compiled class (%s)" % (k, n, t.get(m, "name")[1])
            if w: return w
        items = b.items(st, t.get(c, "anon_basic_types"))
        w = same(r, ("anon_basic_types_length",), C(len(items)), "the number of anon classes of class %s" % n) or (room(g(r, "anon_basic_types"), len(items), "ptr", "the anon classes of class %s" % n) if items else None)
        for i, o in enumerate(items):
            e = at(g(r, "anon_basic_types"), i)
            if not w and st.mem.get((e[1], e[2]), C(0)) != rc[o]: w = "the anon class %d of class %s is another" % (i, n)
        if w: return w
    return None

def lookups(b, t, st):
    """members are found by their names, positions and no other"""
    rt = t.rt
    names = lambda n, lst: [t.get(o, "name")[1] for o in b.items(st, t.get(t.classes[n], lst))]
    every = sorted({x for n in t.all for l in ("class_vars", "fields", "methods") for x in names(n, l)} | {"", "zz", "A", "mm"})
    arr = st.mem[(t.rt[1], ("basic_types",))]
    for i, n in enumerate(t.all):
        r = st.mem.get((at(arr, i)[1], at(arr, i)[2]))
        for word, lst in (("class_var", "class_vars"), ("field", "fields"), ("method", "methods")):
            have = names(n, lst); base = st.mem.get((r[1], r[2] + (lst,)), C(0))
            for fn, args, want in [("SPVM_API_BASIC_TYPE_get_%s_by_name" % word, ("str", x), at(base, have.index(x)) if x in have else C(0)) for x in every] + \
                                  [("SPVM_API_BASIC_TYPE_get_%s_by_index" % word, C(k), at(base, k) if 0 <= k < len(have) else C(0)) for k in (-1, 0, 1, 2, 3, 4, 2147483647, -2147483648)]:
                b.it.budget = b.it.steps + 20000
                try: out = b.it.call(fn, (rt, r, args), st.copy())
                except absint.Budget: yield fn, "does not come to an end for %r in %s" % (args[1], have); continue
                got = {v for v, _ in out}
                if got != {want}: yield fn, "gives %s for %r of a class with %s" % ("nothing" if got == {C(0)} else "another" if want != C(0) else "something", args[1], have)

def cases():
    """(name, function that adds the classes of a round, for each round)"""
    every = ("file", "class_dir", "class_rel_file", "version_string")
    for n in range(5):
        for s in itertools.combinations(every, n):
            yield "a class with %s" % (", ".join(s) or "no texts"), [lambda t, s=s: t.klass("A", strings=s)]
    for cat in ("CLASS", "INTERFACE", "MULNUM", "NUMERIC", "STRING", "ANY_OBJECT"):
        for anon, ptr in itertools.product((0, 1), repeat=2):
            yield "a class of category %s, anon %d, pointer %d" % (cat, anon, ptr), [lambda t, cat=cat, anon=anon, ptr=ptr: t.klass("A", cat=cat, is_anon=anon, is_pointer=ptr)]
    for nv, nf in itertools.product(range(4), repeat=2):
        def mk(t):
            t.klass("B"); t.klass("A"); t.klass("D")
            for i in range(nv): t.fld("A", "$V%d" % i, "BAD"[i], lst="class_vars")
            for i in range(nf): t.fld("A", "f%d" % i, "DBA"[i], owner="BAD"[i])
        yield "%d class variables and %d fields" % (nv, nf), [mk]
    for nm in range(5):
        for na in itertools.product(range(3), repeat=min(nm, 2)):
            def mk(t, nm=nm, na=na):
                t.klass("B"); t.klass("A")
                for i in range(nm): t.meth("A", ("", "f", "ff", "g")[i], args=("A", "B")[:na[i]] if i < len(na) else ("B", "A", "B"), rtype="AB"[i & 1], flag=METHOD_FLAGS[(i + sum(na)) % 7], opt=i)
            yield "%d methods, arguments %s" % (nm, na), [mk]
    for fl in METHOD_FLAGS + (None,):
        def mk(t, fl=fl): t.klass("A"); t.meth("A", "m", flag=fl)
        yield "a method with %s" % fl, [mk]
    # INIT and DESTROY, own and inherited, in every order of the classes
    for order in itertools.permutations("CPG"):
        for where in ("P", "G", "PG"):
            for pos in (0, 1, 2):
                for split in range(3):
                    def mk(t, names, done=[]):
                        for n in names: t.klass(n); t.order.append(n)
                    def first(t, order=order, split=split, where=where, pos=pos): part(t, order[:split], order, where, pos)
                    def second(t, order=order, split=split, where=where, pos=pos): part(t, order[split:], order, where, pos)
                    # a class is compiled with or after its parent
                    if split and any(n == "C" and "P" not in order[:split] or n == "P" and "G" not in order[:split] for n in order[:split]): continue
                    yield "classes C extends P extends G in the order %s, %d of them in an earlier compilation, DESTROY in %s behind %d methods" % ("".join(order), split, where, pos), ([first] if split else [lambda t: t.klass("Z")]) + [second]
    for n in range(4):
        def mk(t, n=n):
            t.klass("A"); l = [t.klass("A::anon::%d" % i, is_anon=1) for i in range(n)]
            for c in reversed(l): t.add(t.classes["A"], "anon_basic_types", c)
        yield "%d anon classes" % n, [mk]
    for consts in (("x",), ("x", "x"), ("x", "xy", "y"), ("",), ("a\0b", "a", "a\0c", "a\0b"), ("A",), ("f", "$v", "m"), ("\0",), ("m" * 40, "n" * 300)):
        def mk(t, consts=consts):
            t.klass("A"); t.klass("B"); t.fld("A", "f", "B"); t.fld("A", "$v", "A", lst="class_vars"); t.meth("A", "m", args=("B",)); t.wanted = {"A": list(consts)}
        yield "the constants %s" % (consts,), [mk, lambda t, consts=consts: (t.klass("D"), t.wanted.update({"D": list(reversed(consts))}))]
    for n in range(1, 5):
        yield "%d compilations" % n, [lambda t, i=i: (t.klass("A%d" % i), t.klass("B%d" % i, parent="A%d" % (i - 1 if i else i)), t.fld("A%d" % i, "f", "A%d" % (i // 2)), t.meth("B%d" % i, "m", args=("A0", "B%d" % i))) for i in range(n)]

def part(t, names, order, where, pos):
    chain = {"C": "P", "P": "G", "G": None}
    for n in names: t.klass(n)
    for n in names:
        for k in range(pos): t.meth(n, "A%d" % k)
        if n in where: t.put(t.classes[n], "destroy_method", t.meth(n, "DESTROY", flag="is_destroy_method"))
        t.put(t.classes[n], "init_method", t.meth(n, "INIT", flag="is_init_method"))
    for n in names:
        if chain[n]: t.put(t.classes[n], "parent", t.classes[chain[n]])
        x = n
        while x and t.get(t.classes[x], "destroy_method") == C(0): x = chain[x]
        if x: t.put(t.classes[n], "destroy_method", t.get(t.classes[x], "destroy_method"))

def run(ck):
    ck.rule = ("The functions that register the texts of a class and build the runtime's description of classes (check_asts, add_constant_string, build_runtime) are evaluated from the IR of the current source on sets of compiled classes, in one or more "
               "compilations; every member of the resulting description is compared with the compiled class, allocation sizes with the elements. Lookups by name and position are evaluated on the result. The getters of the reflection API are compared with a specification.")
    srcs = [build.BUILDER + "/src/" + f for f in SRC]
    prog = fspec.merged(build.compile_bc(srcs), "reflection", keep=None)
    b = Build(prog)
    SIZE = struct_sizes(prog)
    bad = Bad()
    for what, rounds in cases():
        ck.count("sets of classes")
        t = Image(b.w, prog); b.t = t; t.wanted = {}; b.it.memo.clear()
        try:
            sts = [t.st]; base = 0
            for k, mk in enumerate(rounds):
                assert len(sts) == 1
                t.st = sts[0]; mk(t)
                sts = evaluate(b, t, sts, base, t.wanted); base = len(t.all)
                t.st = sts[0]
                for st in sts:
                    w = judge(b, t, st, SIZE)
                    if w: raise Failed(BUILD if "constant" not in w else "SPVM_BASIC_TYPE_add_constant_string", w)
                if len(sts) != 1: raise absint.GiveUp("several outcomes")
            if " methods, " in what or "class variables" in what:
                for fn, w in lookups(b, t, sts[0]): bad.add(fn, w)
                ck.count("descriptions searched")
        except Failed as e: bad.add(e.args[0], "%s: %s" % (what, e.args[1]))
        except absint.GiveUp as e: ck.notes.append("%s not decided: %s" % (what, e)); ck.count("sets of classes not decided")
    for n in b.it.fns: ck.functions.add(n)
    for fn, l in bad.items():
        ck.violation("function:" + fn, "%s (%s) does not describe the compiled classes: %s" % (fn, prog.fn(fn).loc, "; ".join(l[:5])))
    ck.need("sets of classes", 100); ck.need("descriptions searched", 10)
    fspec.check(ck, ("reflection",), 60, lib="core")
    ck.sample("class C extends P, C compiled before P, DESTROY in P: the description of C calls P's DESTROY")

def struct_sizes(prog):
    """sizes of the structures, from their members"""
    BYTES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}
    out = {"ptr": 8}
    for k in ("spvm_runtime_basic_type", "spvm_runtime_string", "spvm_runtime_class_var", "spvm_runtime_field", "spvm_runtime_method", "spvm_runtime_arg", "spvm_opcode"):
        m = prog.structs.get("struct." + k)
        if not m: raise AnalysisBroken("no structure " + k)
        al = max(BYTES.get(x[2], 8) for x in m); end = m[-1][1] + BYTES.get(m[-1][2], 8)
        out[k] = (end + al - 1) // al * al
    return out
