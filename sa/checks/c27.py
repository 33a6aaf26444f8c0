"""C27: compilations: a failed one leaves the compiler as it was, a successful one went through every pass."""
from .. import absint, build, fspec, ir
from ..absint import C, P, S
from ..build import AnalysisBroken
from ..ir import cint

LEVEL = "other"
SRC = ("spvm_compiler.c", "spvm_class_file.c", "spvm_string.c", "spvm_basic_type.c", "spvm_string_buffer.c", "spvm_check.c", "spvm_list.c", "spvm_runtime.c", "spvm_api_compiler.c", "spvm_api_class_file.c")
COMMON, CHECK = "SPVM_COMPILER_compile_common", "SPVM_CHECK_check"
ST = "struct.spvm_compiler"
DEFAULT = ("Byte", "Short", "Int", "Long", "Float", "Double", "Bool", "Error", "Error::System", "Error::NotSupported", "CommandInfo", "Address", "Error::Compile")
NAMES = ("unknown", "undef", "void", "byte", "short", "int", "long", "float", "double", "string", "object") + DEFAULT
AST = ("SPVM_CHECK_check_ast_op_types", "SPVM_CHECK_check_ast_syntax", "SPVM_CHECK_check_ast_assign_unassigned_op_to_var", "SPVM_CHECK_check_ast_if_block_need_leave_scope", "SPVM_CHECK_check_ast_typed_var_indexs")
PASSES = ("SPVM_CHECK_check_op_types", "SPVM_CHECK_check_basic_types_relation", "SPVM_CHECK_check_class_vars", "SPVM_CHECK_check_fields", "SPVM_CHECK_check_methods")

class Dead(absint.Null): pass
class Wrong(Exception): pass

class Interp(absint.Interp):
    """memory blocks have an owner and end with it"""
    def alive(s, st, o):
        if (o, ("#dead",)) in st.mem:
            s.dead = st.mem[(o, ("#dead",))][1]; raise Dead()
    def load(s, st, ty, a):
        if a[0] == "p":
            s.alive(st, a[1])
            if a[2] == ("name",) and (a[1], a[2]) not in st.mem and (a[1], ("value",)) in st.mem: return st.mem[(a[1], ("value",))]   # first member of a string, read as that of a class
            t = st.mem.get((a[1], ("text",)))
            if ty == "i8" and t is not None and len(a[2]) <= 1:
                k = 0 if not a[2] else a[2][0][1][1] if a[2][0][0] == "[]" and a[2][0][1][0] == "c" else None
                if k is not None and 0 <= k <= len(t[1]): return C(ord((t[1] + "\0")[k]))
        return absint.Interp.load(s, st, ty, a)
    def store(s, st, a, v):
        if a[0] == "p": s.alive(st, a[1])
        absint.Interp.store(s, st, a, v)
    def docall(s, i, fr, st):
        n = i.callee or ""
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            d, e, k = (s.val(i.ops[j], fr, st) for j in (1, 2, 3))
            t = s.world.text(st, e)
            if d[0] == "p" and not d[2] and t is not None and k[0] == "c":
                s.alive(st, d[1])
                if k[1] > len(t) + 1: raise absint.Null()
                m = st.mem.get((d[1], ("#size",)))
                if m is not None and k[1] > m[1]: s.dead = "a block of %d bytes, written with %d" % (m[1], k[1]); raise Dead()
                if m is not None and k[1] == m[1] and "\0" not in (t + "\0")[:k[1]]: s.dead = "a text without its end"; raise Dead()
                st.mem[(d[1], ("text",))] = ("str", (t + "\0")[:k[1]]); return None
            if d[0] == e[0] == "p" and d[1] == e[1] and k[0] == "c" and k[1] % 8 == 0:
                at = lambda p, j: p[2][:-1] + ((("[]", C(p[2][-1][1][1] + j)),) if p[2][-1][1][1] + j else ()) if p[2] and p[2][-1][0] == "[]" else p[2] + ((("[]", C(j)),) if j else ())
                v = [st.mem.get((e[1], at(e, j)), C(0)) for j in range(k[1] // 8)]
                for j, x in enumerate(v): st.mem[(d[1], at(d, j))] = x
                return None
        return absint.Interp.docall(s, i, fr, st)

class World:
    """a compiler and what happens to it in compilations"""
    def __init__(s, prog, lex):
        s.prog, s.lex = prog, lex
        s.it = Interp(prog, oracle=s.oracle, budget=10**9, maxvisit=100000); s.it.world = s; s.it.dead = None
        s.err = prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS"]
    # memory --------------------------------------------------------------
    def text(s, st, v):
        if v[0] == "str": return v[1].split("\0")[0] if "\0" in v[1] and False else v[1]
        if v[0] == "p" and (v[1], ("text",)) in st.mem:
            s.it.alive(st, v[1])
            k = 0 if not v[2] else v[2][0][1][1] if v[2][0][0] == "[]" and v[2][0][1][0] == "c" else None
            return st.mem[(v[1], ("text",))][1][k:] if k is not None else None
        return None
    def cstr(s, st, v):
        if v == C(0): raise absint.Null()
        t = s.text(st, v)
        if t is None and v[0] == "p" and v[1] in st.zero: s.it.alive(st, v[1]); t = ""
        if t is None: raise absint.GiveUp("an unknown text")
        return t.split("\0")[0]
    def new(s, st, kind, owner=None, **f):
        st.n += 1; o = P(("obj", kind, st.n)); st.zero = st.zero | {o[1]}
        if owner is not None: st.mem[(o[1], ("#owner",))] = owner
        for k, v in f.items(): st.mem[(o[1], (k,))] = v
        return o
    def get(s, st, o, f): return st.mem.get((o[1], o[2] + (f,)), C(0))
    def put(s, st, o, f, v): st.mem[(o[1], o[2] + (f,))] = v
    def string(s, st, text, owner): return s.new(st, "block", owner, text=("str", text + "\0"))
    def items(s, st, l):
        n = s.get(st, l, "length")[1]; v = s.get(st, l, "values")
        return [st.mem.get((v[1], v[2] + ((("[]", C(i)),) if i else ())), C(0)) for i in range(n)]
    def push(s, st, l, x):
        n = s.get(st, l, "length")[1]; v = s.get(st, l, "values")
        st.mem[(v[1], v[2] + ((("[]", C(n)),) if n else ()))] = x; s.put(st, l, "length", C(n + 1))
    def lst(s, st, owner):
        return s.new(st, "list", owner, length=C(0), values=s.new(st, "values", owner), allocator=owner or C(0))
    def one(s, st, fn, *args):
        r = s.it.call(fn, args, st)
        if len(r) != 1: raise absint.GiveUp("%s has several outcomes" % fn)
        if r[0][0] is not None and r[0][0][0] == "abort": raise Wrong("%s aborts (%s)" % (fn, r[0][0][1] if len(r[0][0]) > 1 else "an assertion"))
        assert r[0][1] is st
        return r[0][0]
    # what functions outside the analysed files do ---------------------------
    def oracle(s, it, n, a, st):
        g = s.get
        def ev(*e): st.trace += (e,)
        def ok(v=C(0)): return [(v, st)]
        if n in ("SPVM_ALLOCATOR_alloc_memory_block_permanent", "SPVM_ALLOCATOR_alloc_memory_block_tmp", "SPVM_ALLOCATOR_alloc_memory_block_unmanaged"):
            owner = None if n.endswith("unmanaged") else a[0]
            if owner is not None:
                if owner[0] != "p": return [(("abort", "memory of no allocator"), st)]
                it.alive(st, owner[1])
                if n.endswith("tmp"): s.put(st, owner, "memory_blocks_count_tmp", C(g(st, owner, "memory_blocks_count_tmp")[1] + 1))
            return ok(s.new(st, "block", owner, **({"#tmp": C(1)} if n.endswith("tmp") else {}), **({"#size": a[-1]} if a[-1][0] == "c" else {})))
        if n == "SPVM_ALLOCATOR_new": return ok(s.new(st, "allocator"))
        if n == "SPVM_ALLOCATOR_free":
            it.alive(st, a[0][1])
            if any(v == a[0] and p == ("#owner",) and st.mem.get((o, ("#tmp",))) == C(1) and (o, ("#dead",)) not in st.mem for (o, p), v in st.mem.items()): return [(("abort", "an allocator is released before its temporary memory"), st)]
            for (o, p), v in list(st.mem.items()):
                if p == ("#owner",) and v == a[0]: st.mem[(o, ("#dead",))] = ("why", "memory of the allocator that was released")
            st.mem[(a[0][1], ("#dead",))] = ("why", "a released allocator"); return ok()
        if n in ("SPVM_ALLOCATOR_free_memory_block_tmp", "SPVM_ALLOCATOR_free_memory_block_unmanaged"):
            b = a[-1]
            if b == C(0): return ok()
            if b[0] != "p": return [(("abort", "releasing what is not memory"), st)]
            it.alive(st, b[1])
            if n.endswith("tmp"):
                if g(st, b, "#tmp") != C(1): return [(("abort", "memory that its allocator releases later is released"), st)]
                if g(st, b, "#owner") != a[0] and b[1][1] != "op": return [(("abort", "memory is released to another allocator"), st)]
                s.put(st, a[0], "memory_blocks_count_tmp", C(g(st, a[0], "memory_blocks_count_tmp")[1] - 1))
            st.mem[(b[1], ("#dead",))] = ("why", "released memory"); return ok()
        if n in ("SPVM_LIST_new", "SPVM_LIST_new_list_permanent"): return ok(s.lst(st, a[0]))
        if n in ("SPVM_HASH_new", "SPVM_HASH_new_hash_permanent"): return ok(s.new(st, "symtable", a[0]))
        if n in ("SPVM_HASH_free", "SPVM_LIST_free"): it.alive(st, a[0][1]); st.mem[(a[0][1], ("#dead",))] = ("why", "a released table"); return ok()
        if n in ("SPVM_LIST_get", "SPVM_LIST_set", "SPVM_LIST_push", "SPVM_LIST_pop", "SPVM_LIST_shift", "SPVM_LIST_unshift", "SPVM_LIST_clear", "SPVM_LIST_remove"):
            if a[0][0] != "p": raise absint.Null()
            it.alive(st, a[0][1]); l = s.items(st, a[0])
            if n == "SPVM_LIST_push": s.push(st, a[0], a[1]); return ok()
            if n == "SPVM_LIST_clear": s.put(st, a[0], "length", C(0)); return ok()
            if n == "SPVM_LIST_unshift":
                s.put(st, a[0], "length", C(0))
                for x in [a[1]] + l: s.push(st, a[0], x)
                return ok()
            if n in ("SPVM_LIST_pop", "SPVM_LIST_shift", "SPVM_LIST_remove"): raise absint.GiveUp("a list is taken from")
            if a[1][0] != "c" or not 0 <= a[1][1] < len(l): return [(("abort", "list read out of range"), st)]
            if n == "SPVM_LIST_set": v = g(st, a[0], "values"); st.mem[(v[1], v[2] + ((("[]", a[1]),) if a[1][1] else ()))] = a[2]; return ok()
            return ok(l[a[1][1]])
        if n in ("SPVM_HASH_set", "SPVM_HASH_get"):
            if a[0][0] != "p": raise absint.Null()
            it.alive(st, a[0][1]); k = s.text(st, a[1])
            if k is None or a[2][0] != "c": raise absint.GiveUp("name not known")
            if a[2][1] > len(k): return [(("abort", "a name is read past its end"), st)]
            k = k[:a[2][1]]
            if n == "SPVM_HASH_get": return ok(st.mem.get((a[0][1], ("key:" + k,)), C(0)))
            st.mem[(a[0][1], ("key:" + k,))] = a[3]; return ok()
        if n == "SPVM_BASIC_TYPE_get_basic_type_name":
            if a[1][0] != "c" or not 0 <= a[1][1] < len(NAMES): return [(("abort", "a class without a name"), st)]
            return ok(("str", NAMES[a[1][1]]))
        if n == "strlen": return ok(C(len(s.cstr(st, a[0]))))
        if n == "strcmp":
            x, y = s.cstr(st, a[0]), s.cstr(st, a[1]); return ok(C((x > y) - (x < y)))
        if n == "sprintf":
            out = ""; vals = iter(a[2:]); f = a[1][1]; i = 0
            while i < len(f):
                if f[i] != "%": out += f[i]; i += 1; continue
                v = next(vals)
                if f[i + 1] == "d" and v[0] == "c": out += str(v[1])
                elif f[i + 1] == "s": out += s.cstr(st, v)
                else: raise absint.GiveUp("sprintf")
                i += 2
            it.alive(st, a[0][1]); m = st.mem.get((a[0][1], ("#size",)))
            if m is not None and len(out) >= m[1]: s.it.dead = "a block of %d bytes, written with %d" % (m[1], len(out) + 1); raise Dead()
            st.mem[(a[0][1], ("text",))] = ("str", out + "\0"); return ok(C(len(out)))
        if n in ("SPVM_MUTEX_lock", "SPVM_MUTEX_unlock", "SPVM_MUTEX_reader_lock", "SPVM_MUTEX_reader_unlock"): ev(n, a[0]); return ok()
        if n in ("SPVM_MUTEX_init", "SPVM_MUTEX_destroy", "fprintf"): return ok()
        if n == "SPVM_MUTEX_size": return ok(C(56))
        if n == "SPVM_RUNTIME_new": return ok(s.new(st, "runtime", basic_types_length=C(0)))
        if n == "SPVM_RUNTIME_free": it.alive(st, a[0][1]); st.mem[(a[0][1], ("#dead",))] = ("why", "a released runtime"); return ok()
        if n in ("SPVM_STRING_BUFFER_new",): return ok(s.new(st, "pool", a[0]))
        if n == "SPVM_COMPILER_error": s.error(st); ev("error", a[1][1] if a[1][0] == "str" else "?"); return ok()
        if n == "SPVM_COMPILER_use":
            ev("use", s.cstr(st, a[1])); o = s.op(st); s.push(st, g(st, s.comp, "op_use_stack"), o); return ok()
        if n == "SPVM_yyparse": return ok(C(s.parse(st)))
        if n in s.passes:
            who = tuple(s.label.get(x, "?") for x in a[1:]); ev("pass", n, who)
            if s.fail and s.fail[:2] == (n, who): s.error(st)
            return ok()
        if n == "SPVM_OPCODE_BUILDER_build_opcodes": ev("opcodes"); return ok()
        if n == "SPVM_COMPILER_build_runtime":
            if g(st, s.comp, "runtime") == C(0): s.put(st, s.comp, "runtime", s.new(st, "runtime"))
            ev("runtime", len(s.items(st, g(st, s.comp, "basic_types")))); return ok(g(st, s.comp, "runtime"))
        if n == "SPVM_BASIC_TYPE_add_constant_string" or n.startswith("SPVM_STRING_BUFFER_add"): return ok()
        return None
    passes = (CHECK,); fail = None; label = {}
    def error(s, st):
        g = s.get(st, s.comp, "error_message_allocator")
        s.push(st, s.get(st, s.comp, "error_messages"), s.oracle(s.it, "SPVM_ALLOCATOR_alloc_memory_block_tmp", (g, C(8)), st)[0][0])
    def op(s, st):
        al = s.get(st, s.comp, "current_each_compile_allocator")
        o = s.oracle(s.it, "SPVM_ALLOCATOR_alloc_memory_block_tmp", (al, C(64)), st)[0][0]
        s.put(st, o, "id", C(s.prog.enums["SPVM_OP_C_ID_DO_NOTHING"])); s.push(st, s.get(st, s.comp, "ops"), o)
        return o
    # compilations ----------------------------------------------------------
    def start(s):
        st = absint.St(); s.comp = C(0)
        s.comp = s.one(st, "SPVM_COMPILER_new"); return st
    def parse(s, st):
        """stands for the parser: registers the classes of the round, leaves the tokenizer anywhere if it fails"""
        s.lexed = {f: s.get(st, s.comp, f) for f in s.lex}
        al = s.get(st, s.comp, "current_each_compile_allocator")
        if al[0] != "p": raise Wrong("%s parses without memory of its own" % COMMON)
        for kind, name in s.todo:
            t = s.string(st, name, al); st.trace += (("parsed", name),)
            if kind in ("class", "file"):
                if s.one(st, "SPVM_COMPILER_get_class_file", s.comp, t) == C(0):
                    s.one(st, "SPVM_COMPILER_add_class_file", s.comp, t)
                    cf = s.one(st, "SPVM_COMPILER_get_class_file", s.comp, t)
                    for k in ("file", "rel_file", "dir", "content"): s.one(st, "SPVM_CLASS_FILE_set_" + k, s.comp, cf, s.string(st, k + " of " + name, al))
                    s.one(st, "SPVM_CLASS_FILE_set_content_length", s.comp, cf, C(len("content of " + name)))
            if kind in ("class", "anon"):
                s.one(st, "SPVM_COMPILER_add_basic_type", s.comp, t)
                s.one(st, "SPVM_STRING_new", s.comp, s.string(st, "constant of " + name, al), C(len("constant of " + name)))
                s.op(st); s.push(st, s.get(st, s.comp, "op_types"), s.op(st))
            if kind == "constant": s.one(st, "SPVM_STRING_new", s.comp, t, C(len(name)))
        if s.outcome in ("syntax", "load"):
            for f in s.lex: s.put(st, s.comp, f, s.new(st, "left over", al) if f.endswith("ptr") or f == "current_class_content" else C(7))
            s.push(st, s.get(st, s.comp, "op_use_stack"), s.op(st))
            s.error(st)
            return 1 if s.outcome == "syntax" else 0
        s.put(st, s.comp, "current_class_content", C(0))
        if s.outcome == "messages": s.error(st)
        return 0
    def snapshot(s, st):
        g = s.get; c = s.comp
        names = {}
        for f, o in (("basic_type_symtable", 0),):
            t = g(st, c, f)
            for (x, p), v in st.mem.items():
                if x == t[1] and len(p) == 1 and p[0].startswith("key:") and v != C(0): names[p[0][4:]] = v
        files = {}
        for n, f in zip(s.items(st, g(st, c, "class_file_class_names")), s.items(st, g(st, c, "class_files"))):
            files[s.cstr(st, n)] = tuple(s.cstr(st, g(st, f, k)) if g(st, f, k) != C(0) else None for k in ("class_name", "file", "dir", "rel_file", "content")) + (g(st, f, "content_length"),)
        return {"classes": s.items(st, g(st, c, "basic_types")), "names of classes": names, "constants": s.items(st, g(st, c, "constant_strings")), "class files": files,
                "number of anon classes": g(st, c, "eval_anon_classes_length"), "memory of compilations": s.items(st, g(st, c, "each_compile_allocators")), "runtime": g(st, c, "runtime"),
                "include directories": s.items(st, g(st, c, "include_dirs"))}
    SKIP = ("current_each_compile_allocator", "if_require_not_found_basic_type_name_symtable", "current_anon_op_types", "current_file", "current_class_dir", "current_class_rel_file", "current_outmost_class_name", "token_begin_ch_ptr", "line_begin_ch_ptr", "ch_ptr",
            "next_string_literal_ch_ptr", "line_begin_after_shebang_line_ch_ptr", "current_class_content")
    def stale(s, st):
        """a chain of members from the compiler to memory that is gone"""
        by = {}
        for (o, p), v in st.mem.items():
            if v.__class__ is tuple and v and v[0] == "p" and p[:1] not in (("#owner",), ("#dead",)): by.setdefault(o, []).append((p, v[1]))
        seen = {s.comp[1]}; todo = [(s.comp[1], "compiler")]
        lengths = {}
        while todo:
            o, way = todo.pop()
            n = st.mem.get((o, ("length",)), C(0))[1] if o[1] == "list" else None
            for p, q in by.get(o, ()):
                if o == s.comp[1] and p[0] in s.SKIP: continue
                if o[1] == "symtable" or o[1] == "list" or True:
                    lim = lengths.get(o)
                    if lim is not None and (p[0][1][1] if p else 0) >= lim: continue
                    if n is not None and p == ("values",): lengths[q] = n
                w = "%s->%s" % (way, p[0] if p and p[0].__class__ is str else "[%s]" % (p[0][1][1] if p else 0))
                if (q, ("#dead",)) in st.mem: return w
                if q not in seen: seen.add(q); todo.append((q, w))
        return None

def judge(w, st, before, r, rnd, first):
    """what is wrong after a compilation; r: value returned"""
    g = w.get; kind, name, todo, outcome = rnd
    tr = st.trace
    locks = [e[0] for e in tr if e[0].startswith("SPVM_MUTEX")]
    if locks != ["SPVM_MUTEX_lock", "SPVM_MUTEX_unlock"] or tr[0][0] != "SPVM_MUTEX_lock" or tr[-1][0] != "SPVM_MUTEX_unlock": return "the compilation does not run under the lock of the compiler from begin to end"
    if g(st, w.comp, "current_each_compile_allocator") != C(0): return "the memory of the compilation is still in use"
    passes = [e[0] if e[0] != "pass" else e[1] for e in tr if e[0] in ("pass", "opcodes", "runtime")]
    used = [e[1] for e in tr if e[0] == "use"]
    for d in DEFAULT:
        if d not in used: return "the class %s is not loaded" % d
    target = used[-1]
    if kind == "name" and target != name: return "the class %s is not loaded" % name
    if first is not None:
        for f, v in w.lexed.items():
            if v != first.get(f): return "parsing starts with %s left over by the failed compilation" % f
    after = w.snapshot(st)
    d = w.stale(st)
    if d: return "%s refers to memory that is released" % d
    if w.items(st, g(st, w.comp, "ops")) or w.items(st, g(st, w.comp, "op_types")) or w.items(st, g(st, w.comp, "op_use_stack")): return "operators of the compilation are still listed"
    if outcome != "ok":
        if r == C(0): return "a compilation with errors (%s) reports success" % outcome
        if not w.items(st, g(st, w.comp, "error_messages")): return "the messages of a failed compilation are lost"
        want = [CHECK] if outcome == "check" else []
        if passes != want: return "after errors (%s) the compilation goes on with %s" % (outcome, ", ".join(passes[len(want):]) or "nothing, without the checks")
        for k in before:
            if k == "class files":
                loaded = {n for kd, n in todo if kd in ("class", "anon")}
                x = {n: v for n, v in before[k].items() if n not in loaded}; y = {n: v for n, v in after[k].items() if n not in loaded}
                if any(n in after[k] and after[k][n] != v for n, v in before[k].items()) or x != y or not set(after[k]) <= set(before[k]):
                    return "the class files differ after a failed compilation (%s)" % ", ".join(sorted(set(after[k]) ^ set(before[k])) or ["contents"])
                continue
            if after[k] != before[k]:
                more = ""
                if k == "names of classes": more = " (%s)" % ", ".join(sorted(n for n in set(after[k]) | set(before[k]) if after[k].get(n) != before[k].get(n))[:3])
                return "the %s differ after a failed compilation%s" % (k, more)
        for (o, p), v in st.mem.items():
            if p == ("#owner",) and (v[1], ("#dead",)) in st.mem and (o, ("#dead",)) not in st.mem: return "memory of a failed compilation is not released"
        if any(o[1] == "allocator" and (o, ("#dead",)) not in st.mem for o in st.zero if o[0] == "obj") and len([o for o in st.zero if o[0] == "obj" and o[1] == "allocator" and (o, ("#dead",)) not in st.mem]) > w.allocators: return "memory of a failed compilation is not released"
    else:
        if r != C(0): return "a compilation without errors reports a failure"
        if w.items(st, g(st, w.comp, "error_messages")): return "messages of an earlier compilation are left"
        if passes[:2] != [CHECK, "opcodes"] or passes[2:] != ["runtime"]: return "a successful compilation runs %s instead of checks, code generation and building of the runtime" % (", ".join(passes) or "nothing")
        if next(e[1] for e in tr if e[0] == "runtime") != len(after["classes"]): return "the runtime is not built from all classes"
        if after["classes"][:len(before["classes"])] != before["classes"]: return "classes of earlier compilations are lost"
        for n, v in before["class files"].items():
            if after["class files"].get(n) != v: return "the class file of %s differs after the compilation of another class" % n
        for kd, n in todo:
            if kd == "class" and n not in after["names of classes"]: return "the compiled class %s is not found" % n
            if kd == "class" and n not in DEFAULT and after["class files"].get(n) != (n, "file of " + n, "dir of " + n, "rel_file of " + n, "content of " + n, C(len("content of " + n))): return "the class file of %s is %s" % (n, after["class files"].get(n))
        if len(after["memory of compilations"]) != len(before["memory of compilations"]) + 1: return "the memory of the compilation is not kept"
        w.allocators += 1
    if kind == "source":
        if any(x == target for x in before["names of classes"]): return "the anon class has the name of an earlier one (%s)" % target
        if w.seenfile != name: return "the source of the anon class is %r, given %r" % (w.seenfile, name)
        if outcome == "ok":
            v = st.mem.get((w.out[1], ()), C(0))
            if v == C(0) or w.cstr(st, v) != target: return "the name of the anon class is not given back"
    return None

class Watch(World):
    def parse(s, st):
        u = [e[1] for e in st.trace if e[0] == "use"][-1]
        s.seenfile = None
        if s.kind == "source":
            cf = s.one(st, "SPVM_COMPILER_get_class_file", s.comp, s.string(st, u, None))
            if cf != C(0):
                t = s.get(st, cf, "content"); l = s.get(st, cf, "content_length")
                s.seenfile = s.cstr(st, t) if l == C(len(s.cstr(st, t))) else "a content of another length"
            s.todo = [(k, u if k == "anon" else n) for k, n in s.todo]
        return World.parse(s, st)

def rounds():
    """histories: each a list of (how, name or source, what the parser loads, outcome)"""
    D = [("class", n) for n in DEFAULT]
    ok = lambda n: ("name", n, [("class", n)], "ok")
    fails = ("syntax", "load", "messages", "check")
    for o in fails:
        for first in (True, False):
            pre = [] if first else [("name", "Base", D + [("class", "Base")], "ok")]
            d = D if first else []
            for what in ([("class", "A")], [("class", "A"), ("class", "B::C")], [("file", "A")], [("class", "B"), ("file", "A")], [], [("constant", "x\0y"), ("constant", "x"), ("class", "A")]):
                if o in ("messages", "check") and any(k == "file" for k, _ in what): continue
                yield pre + [("name", "A", d + what, o), ("name", "A", (d if first else []) + [("class", "A")], "ok"), ok("B")]
                yield pre + [("name", "A", d + what, o), ("name", "A", d + what, o), ("name", "A", d + [("class", "A"), ("class", "B")], "ok")]
            for what in ([("anon", "")], [("class", "U"), ("anon", "")], []):
                yield pre + [("source", "class { 1 }", d + what, o), ("source", "class { 2 }", d + [("anon", "")], "ok"), ("source", "class { 3 }", [("anon", "")], "ok")]
    yield [("name", "A", D + [("class", "A")], "ok"), ok("B"), ("source", "class { 3 }", [("anon", "")], "ok"), ("source", "class { 4 }", [("anon", "")], "syntax"), ("source", "class { 5 }", [("anon", ""), ("class", "U")], "ok"), ("name", "A", [], "ok"), ("name", "C", [("class", "C")], "messages"), ("name", "C", [("class", "C")], "ok")]

def run_history(w, hist):
    st = w.start(); w.allocators = len([o for o in st.zero if o[0] == "obj" and o[1] == "allocator"])
    first = None; done = []
    for rnd in hist:
        kind, name, todo, outcome = rnd
        done.append("%s %s" % (name, outcome))
        w.kind, w.todo, w.outcome = kind, todo, outcome
        w.fail = (CHECK, ()) if outcome == "check" else None
        st.trace = (); before = w.snapshot(st)
        w.out = w.new(st, "out"); caller = w.string(st, name, None)
        args = (w.comp, caller if kind == "name" else C(0), caller if kind == "source" else C(0), w.out)
        w.it.dead = None
        try: r = w.it.call(COMMON, args, st)
        except Dead: raise Wrong("history %s: %s is read" % (", ".join(done), w.it.dead))
        if len(r) != 1: raise absint.GiveUp("several outcomes")
        v, z = r[0]
        if v is not None and v[0] == "abort":
            raise Wrong("history %s: the compilation aborts (%s)" % (", ".join(done), ("uses %s" % w.it.dead) if w.it.dead else v[1] if len(v) > 1 else "an assertion"))
        assert z is st
        # the caller's memory does not outlive the call
        st.mem[(caller[1], ("#dead",))] = ("why", "memory of the caller")
        bad = judge(w, st, before, v, rnd, first)
        if bad: raise Wrong("history %s: %s" % (", ".join(done), bad))
        if first is None: first = dict(w.lexed)
    end(w, st, done)
    return st

def end(w, st, done):
    """the compiler is released after its compilations"""
    w.it.dead = None
    try: w.one(st, "SPVM_API_COMPILER_free_instance", w.comp)
    except Dead: raise Wrong("history %s, release: %s is used" % (", ".join(done), w.it.dead))
    left = [o for o in st.zero if o[0] == "obj" and o[1] in ("block", "allocator", "runtime") and (o, ("#dead",)) not in st.mem and ((o, ("#owner",)) in st.mem or o[1] != "block")]
    if left: raise Wrong("history %s, release: %s is not released" % (", ".join(done), {"block": "memory of the compiler", "allocator": "an allocator", "runtime": "the runtime"}[left[0][1]]))

def lexical(prog):
    """members of the compiler that parsing writes and loading a class does not set: the state of the tokenizer"""
    reach = set(); todo = ["SPVM_yyparse"]
    while todo:
        n = todo.pop()
        if n in reach or n not in prog.fns: continue
        reach.add(n); todo += [i.callee for i in prog.fns[n].all() if i.op == "call" and i.callee]
    if "SPVM_yylex" not in reach or "SPVM_TOKE_load_class_file" not in reach: raise AnalysisBroken("the parser does not reach the tokenizer")
    mod, load = {}, set()
    for n in reach:
        f = prog.fns[n]
        for i in f.all():
            if i.op != "store": continue
            g = f.d(i.ops[1])
            if g is not None and g.op == "getelementptr" and g.x == ST and len(g.ops) > 2:
                x = prog.field(ST, cint(g.ops[2])); mod.setdefault(x, (n, i.loc))
                if n == "SPVM_TOKE_load_class_file": load.add(x)
    return {x: w for x, w in mod.items() if x not in load or x == "current_class_content"}

def passes(ck, w, bad):
    """check runs every pass on everything unless an earlier one found errors"""
    w.passes = PASSES + AST
    def classes(st):
        al = w.new(st, "allocator"); w.put(st, w.comp, "current_each_compile_allocator", al); w.label = {}
        exp = [(p, ()) for p in PASSES]
        for c in ("old", "A", "B", "C"):
            k = w.one(st, "SPVM_COMPILER_add_basic_type", w.comp, w.string(st, c, None)); w.label[k] = c
            for f in ("file", "class_dir", "class_rel_file", "version_string"): w.put(st, k, f, w.string(st, f, None) if c != "B" else C(0))
            w.put(st, k, "fields", w.lst(st, al))
            for i, body in enumerate({"old": [1], "A": [1, 0, 1], "B": [], "C": [0, 1]}[c]):
                m = w.new(st, "method", name=w.string(st, "m%d" % i, None), op_block=w.new(st, "op") if body else C(0)); w.push(st, w.get(st, k, "methods"), m); w.label[m] = "%s::m%d" % (c, i)
                if body and c != "old": exp += [(p, (c, "%s::m%d" % (c, i))) for p in AST]
        w.put(st, w.comp, "basic_types_base_id", C(1))
        return exp
    exp = classes(w.start())
    for k in [None] + [i for i, (p, who) in enumerate(exp) if p not in AST[2:]]:
        st = w.start(); classes(st); w.fail = exp[k] if k is not None else None; st.trace = ()
        ck.count("orders of passes")
        try:
            r = w.it.call(CHECK, (w.comp,), st)
        except absint.GiveUp as e: ck.notes.append("the order of passes is not decided: %s" % e); return
        what = "without errors" if k is None else "with an error of %s%s" % (exp[k][0], " in %s" % exp[k][1][1] if exp[k][1] else "")
        if len(r) != 1 or r[0][0] is not None and r[0][0][0] == "abort": bad.setdefault(CHECK, []).append("%s it does not come to its end" % what); continue
        got = [(e[1], e[2]) for e in r[0][1].trace if e[0] == "pass"]
        miss = [x for x in (exp if k is None else exp[:k + 1]) if x not in got]
        if miss: bad.setdefault(CHECK, []).append("%s it leaves out %s%s" % (what, miss[0][0], " of %s" % miss[0][1][1] if miss[0][1] else "")); continue
        if k is not None and got[-1] != exp[k]: bad.setdefault(CHECK, []).append("%s it goes on with %s" % (what, got[-1][0])); continue
        if got != (exp if k is None else exp[:k + 1]):
            # classes and methods are independent; passes over one of them are not
            for who in {x[1] for x in got}:
                if [x for x in got if x[1] == who] != [x for x in exp if x[1] == who][:len([x for x in got if x[1] == who])]: bad.setdefault(CHECK, []).append("%s the passes over %s come in another order" % (what, who[-1] if who else "the classes")); break
    w.passes = (CHECK,); w.fail = None

KINDS = ("file", "dir", "rel_file", "content")
def tables(ck, w, bad):
    """the class files, the directories and the start position are what was set, whatever was set before and whatever becomes of the caller's memory"""
    ops = [("add_class_file", "A"), ("add_class_file", "B::C"), ("add_class_file", ""), ("delete_class_file", "A"), ("delete_class_file", "B::C"), ("set_file", "A", "a file"), ("set_content", "B::C", "class"), ("set_content", "B::C", None),
           ("set_dir", "A", ""), ("set_rel_file", "A", "A.spvm"), ("set_content_length", "B::C", 7), ("add_include_dir", "x"), ("prepend_include_dir", "yy"), ("clear_include_dirs",), ("set_start_file", "main.pl"), ("set_start_file", None), ("set_start_line", 12)]
    hist = [()]
    for n in range(2): hist += [h + (o,) for h in hist if len(h) == n for o in ops]
    cf = [o for o in ops if "class_file" in o[0]]; inc = [o for o in ops if "include" in o[0]]; of = [o for o in ops if o[0].startswith("set_") and "start" not in o[0]]
    for pool, n in ((cf, 4), (inc, 4)):
        h = [()]
        for k in range(n): h = [x + (o,) for x in h for o in pool]
        hist += h
    for o in of:
        for q in of:
            for k in (("delete_class_file", "A"), ("delete_class_file", "B::C"), o): hist.append((cf[0], cf[1], o, q, k, cf[0], cf[1]))
    for h in hist:
        ck.count("histories of settings")
        st = w.start(); files, dirs, sf, sl = {}, [], None, 0; g = w.get
        deflt = {"SPVM_API_COMPILER_" + o: 0 for o in ()}
        try:
            for o in h:
                n = o[0]; last = "SPVM_API_CLASS_FILE_" + n if n in ["set_" + k for k in KINDS + ("content_length",)] else "SPVM_API_COMPILER_" + n
                mem = [w.string(st, x, None) for x in o[1:] if x.__class__ is str]
                if last.startswith("SPVM_API_CLASS"):
                    f = w.one(st, "SPVM_API_COMPILER_get_class_file", w.comp, mem[0])
                    if (f == C(0)) != (o[1] not in files): raise Wrong("get_class_file %s the class file of %s after %s" % ("does not find" if f == C(0) else "still finds", o[1], show(h)))
                    if f == C(0): continue
                    v = C(o[2]) if o[2].__class__ is int else C(0) if o[2] is None else mem[1]
                    w.one(st, last, w.comp, f, v); files[o[1]][n[4:]] = o[2]
                else:
                    w.one(st, last, w.comp, *([C(0) if x is None else C(x) if x.__class__ is int else mem[0] for x in o[1:]]))
                    if n == "add_class_file": files.setdefault(o[1], {"class_name": o[1], "content_length": 0, **{k: None for k in KINDS}})
                    elif n == "delete_class_file": files.pop(o[1], None)
                    elif n == "add_include_dir": dirs.append(o[1])
                    elif n == "prepend_include_dir": dirs.insert(0, o[1])
                    elif n == "clear_include_dirs": dirs = []
                    elif n == "set_start_file": sf = o[1]
                    elif n == "set_start_line": sl = o[1]
                for m in mem: st.mem[(m[1], ("#dead",))] = ("why", "memory of the caller")
            val = lambda v: None if v == C(0) else w.cstr(st, v)
            for n in ("A", "B::C", ""):
                f = w.one(st, "SPVM_API_COMPILER_get_class_file", w.comp, w.string(st, n, None))
                last = "SPVM_API_COMPILER_get_class_file"
                if (f == C(0)) != (n not in files): raise Wrong("%s the class file of %r after %s" % ("does not find" if f == C(0) else "still finds", n, show(h)))
                if f == C(0): continue
                for k, x in files[n].items():
                    last = "SPVM_API_CLASS_FILE_get_" + k
                    v = w.one(st, last, w.comp, f)
                    if (v[1] if k == "content_length" else val(v)) != x: raise Wrong("gives %r instead of %r after %s" % (val(v) if k != "content_length" else v[1], x, show(h)))
            last = "SPVM_API_COMPILER_get_include_dir"
            k = w.one(st, "SPVM_API_COMPILER_get_include_dirs_length", w.comp)
            got = [val(w.one(st, last, w.comp, C(i))) for i in range(k[1])]
            if got != dirs: raise Wrong("gives the directories %s instead of %s after %s" % (got, dirs, show(h)))
            last = "SPVM_API_COMPILER_get_start_file"
            if val(w.one(st, last, w.comp)) != sf: raise Wrong("does not give %r after %s" % (sf, show(h)))
            last = "SPVM_API_COMPILER_get_start_line"
            if w.one(st, last, w.comp) != C(sl): raise Wrong("does not give %d after %s" % (sl, show(h)))
            last = "SPVM_API_COMPILER_free_instance"
            end(w, st, [show(h)])
        except Wrong as e: bad.setdefault(last, []).append(e.args[0])
        except Dead: bad.setdefault(last, []).append("%s is read after %s" % (w.it.dead, show(h)))
        except absint.Null: bad.setdefault(last, []).append("NULL is followed after %s" % show(h))
        except absint.GiveUp as e: ck.notes.append("%s not decided: %s" % (show(h), e)); ck.count("histories of settings not decided")
def show(h): return ", ".join("%s(%s)" % (o[0], ", ".join(str(x) for x in o[1:])) for o in h) or "nothing"

def run(ck):
    ck.rule = ("compile_common is evaluated from the IR of the current source on histories of compilations in which the parser, the checks or the loading of a class fail or succeed; memory blocks carry their allocator and end with it. After a failed compilation the classes, names, "
               "constants, class files and counters of the compiler are those before it, nothing reachable from the compiler is released memory, and every member of the compiler that parsing writes (found by a reachability analysis of the stores) has at the start of the next parse the value of a new "
               "compiler. A successful one ran the checks, generated code and built the runtime; check runs every pass on every class and method with a body, and none after an error.")
    full = fspec.merged(build.compile_bc(build.builder_sources()), "compilation-all", passes=build.PASSES_SSA_LIGHT)
    lex = lexical(full)
    for x in lex: ck.count("members of the tokenizer's state")
    prog = fspec.merged(build.compile_bc([build.BUILDER + "/src/" + f for f in SRC]), "compilation", keep=None)
    for n in (COMMON, CHECK, "SPVM_COMPILER_new"): prog.fn(n)
    w = Watch(prog, sorted(lex)); bad = {}
    for hist in rounds():
        ck.count("histories of compilations")
        try: run_history(w, hist)
        except Wrong as e: bad.setdefault(COMMON, []).append(e.args[0])
        except absint.GiveUp as e: ck.notes.append("history %s not decided: %s" % ([(x[1], x[3]) for x in hist], e)); ck.count("histories not decided")
        except Dead: bad.setdefault(COMMON, []).append("history %s: %s is read" % ([(x[1], x[3]) for x in hist], w.it.dead))
        except absint.Null: bad.setdefault(COMMON, []).append("history %s: NULL is followed" % ([(x[1], x[3]) for x in hist],))
    passes(ck, w, bad)
    tables(ck, w, bad)
    for n in w.it.fns: ck.functions.add(n)
    for fn, l in bad.items(): ck.violation("function:" + fn, "%s (%s): %s" % (fn, prog.fn(fn).loc, "; ".join(l[:4])))
    ck.need("histories of compilations", 30); ck.need("members of the tokenizer's state", 5); ck.need("orders of passes", 5)
    ck.sample("a syntax error in the middle of an enumeration, then a compilation of another class: parsing starts with current_enum_value 0 and no content")
