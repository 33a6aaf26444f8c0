"""The two executors of an opcode: the cases of the interpreter's dispatch switch, and the C text the
precompiler emits for the same opcode.  The emitted text is reconstructed from the emitting code
(string atoms + operand expressions), turned into a second dispatch function, compiled to IR next to
the interpreter, and both are summarised by the same region walker."""
import os, re
from collections import Counter
from . import build, ir, sym
from .build import AnalysisBroken

B = build.BUILDER + "/src/"
API = {"struct.spvm_api_runtime": "SPVM_API_RUNTIME_", "struct.spvm_api_basic_type": "SPVM_API_BASIC_TYPE_",
       "struct.spvm_api_method": "SPVM_API_METHOD_", "struct.spvm_api_field": "SPVM_API_FIELD_",
       "struct.spvm_api_class_var": "SPVM_API_CLASS_VAR_", "struct.spvm_api_type": "SPVM_API_TYPE_", "struct.spvm_api_arg": "SPVM_API_ARG_"}
IMMUT_STRUCT = ("struct.spvm_env", "struct.spvm_api", "struct.spvm_opcode", "struct.spvm_runtime", "struct.spvm_api_", "struct.spvm_runtime_",
                "struct.spvm_precompile")

def immut(a):
    return a[0] == "gep" and a[1].startswith(IMMUT_STRUCT)

class W(sym.Walker):
    """Walker with the API-table slots read as the functions they are named after"""
    def __init__(s, fn, **kw):
        kw.setdefault("immut", (immut,))
        super().__init__(fn, **kw)
        s.prog = fn.prog
    def pointee(s, e):
        """struct type an environment pointer points to"""
        if e[0] == "arg" and len(e) > 2 and re.match(r"env(~\d+)?$", str(e[2])): return "struct.spvm_env"
        if e[0] == "load" and e[2][0] == "gep" and e[2][1] in ("struct.spvm_env", "struct.spvm_env_api") and len(e[2][3]) == 2:
            t = "struct." + s.prog.structs[e[2][1]][e[2][3][1][1]][3].rstrip("*").lower()
            return t if t in s.prog.structs else None
    def place(s, a):
        """the first member of an environment table, when its address computation was dropped"""
        if a[0] in ("arg", "load"):
            t = s.pointee(a)
            if t: return ("gep", t, a, (("c", 0), ("c", 0)))
        return a
    def inst(s, i, st):
        if i.op == "call" and i.callee is None:
            c = s.val(i.ops[0], st)
            n = slot_name(s.prog, c)
            if n:
                if n.startswith(s.pure):
                    st.v[i.ref] = ("pure", n) + tuple(s.val(o, st) for o in i.ops[1:]); return
        super().inst(i, st)

def slot_name(prog, c):
    """load of a table slot -> canonical callee name"""
    if c[0] == "load" and c[2][0] == "gep" and len(c[2][3]) == 2 and c[2][3][1][0] == "c":
        sty, k = c[2][1], c[2][3][1][1]
        if sty in API: return API[sty] + prog.field(sty, k)
        if sty in ("struct.spvm_env", "struct.spvm_api_internal"): return None
    return None

def cases_of(sw):
    r = {}
    for k in range(2, len(sw.ops), 2): r[ir.cint(sw.ops[k])] = int(sw.ops[k + 1][1:])
    return r

def big_switch(f, minimum):
    sw = [i for i in f.all() if i.op == "switch" and len(i.ops) // 2 - 1 >= minimum]
    if not sw: raise AnalysisBroken("no dispatch switch with at least %d cases in %s" % (minimum, f.name))
    return max(sw, key=lambda i: len(i.ops))

# ---------------------------------------------------------------------------- emission -> C text
class Emit:
    def __init__(s, prog):
        s.p = prog; s.f = prog.fn("SPVM_PRECOMPILE_build_method_source")
        s.tokens = {}
        s.problems = []
    CT = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "float": "float", "double": "double", "ptr": "void*"}
    def c(s, e):
        """emission-time expression -> C expression over the executed method"""
        k = e[0]
        if k == "c": return "(%d)" % e[1] if -2**31 < e[1] < 2**31 else "(%dLL)" % e[1]
        if k == "arg":
            if e[1] == 2: return "(M_->current_basic_type)"
            if e[1] == 3: return "M_"
            raise AnalysisBroken("emission uses argument %s" % e[2])
        if k == "load":
            a = e[2]
            if a[0] == "gep" and a[1] == "struct.spvm_precompile" and s.p.field(a[1], a[3][1][1]) == "runtime": return "((SPVM_RUNTIME*)env->runtime)"
            if a[0] == "gep" and len(a[3]) == 2 and a[1].startswith("struct."):
                return "(*(%s*)&%s)" % (s.CT[e[1]], s.addr(a))
            if a[0] == "gep": return "(*(%s*)%s)" % (s.CT[e[1]], s.addr(a))
            if a[0] in ("pure", "load", "arg"):      # offset 0 of a struct
                return "(*(%s*)%s)" % (s.CT[e[1]], s.c(a))
        if k == "gep": return "((void*)&%s)" % s.addr(e) if len(e[3]) == 2 else "((void*)%s)" % s.addr(e)
        if k == "cast":
            if e[1].startswith("bitcast"): s.unknown(e)
            op, f, t = e[1].split(":")
            u = {"i8": "uint8_t", "i16": "uint16_t", "i32": "uint32_t", "i64": "uint64_t"}
            if op == "zext": return "((%s)(%s)%s)" % (s.CT[t], u[f], s.c(e[2]))
            if op in ("sext", "trunc"): return "((%s)(%s)%s)" % (s.CT[t], s.CT[f], s.c(e[2]))
        if k == "op":
            o = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "ashr": ">>", "sdiv": "/", "srem": "%"}.get(e[1])
            if o: return "(%s %s %s)" % (s.c(e[2]), o, s.c(e[3]))
        if k == "cmp":
            o = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}.get(e[1])
            if o: return "(%s %s %s)" % (s.c(e[2]), o, s.c(e[3]))
        if k == "not": return "(!%s)" % s.c(e[1])
        if k == "pure": return "%s(%s)" % (e[1], ", ".join("(void*)" + s.c(x) if s.isptr(x) else s.c(x) for x in e[2:]))
        if k == "var" and e[2] == 0:
            if e[1] == s.idxvar: return "opcode_rel_index"
            return s.unknown(e)
        if k == "lv": return "__LV_%s__" % e[1]
        return s.unknown(e)
    def unknown(s, e):
        raise AnalysisBroken("cannot translate emission expression %s  %r" % (sym.show(e), e))
    def isptr(s, e):
        return e[0] in ("arg", "gep") or (e[0] == "load" and e[1] == "ptr") or (e[0] == "pure" and e[1].split("_get_")[-1] in
              ("basic_type_by_id", "method_by_index", "field_by_index", "class_var_by_index"))
    def addr(s, a):
        sty = a[1]
        if len(a[3]) == 2:
            return "((struct %s*)%s)->%s" % (sty.replace("struct.", ""), s.c(a[2]), s.p.field(sty, a[3][1][1]))
        t = "struct " + sty.replace("struct.", "") if sty.startswith("struct.") else s.CT[sty]
        return "(((%s*)%s) + %s)" % (t, s.c(a[2]), s.c(a[3][0]))
    @staticmethod
    def entity(name):
        """expression of an entity's name -> the entity (name is a field of the runtime structures)"""
        if name[0] == "load": 
            a = name[2]
            if a[0] == "gep" and len(a[3]) == 2: return a[2], (a[1], a[3][1][1])
            return a, ("struct.spvm_runtime_basic_type", 0)
        if name[0] == "pure" and name[1].endswith("_get_name"): return name[-1], None
        return None, None
    def is_name(s, name, want):
        e, fld = s.entity(name)
        if e is None: return None
        if fld and not (fld[0].endswith(want) and s.p.field(*fld) == "name"): return None
        return e
    def pieces(s, effs):
        out = []
        for e in effs:
            if e[0] != "call" or not isinstance(e[1], str):
                continue      # stores to emission-time state
            n, a = e[1], e[2]
            if n == "SPVM_STRING_BUFFER_add":
                v = a[1]
                if v[0] == "str": out.append(("txt", v[1]))
                else: out.append(("name", v))
            elif n in ("SPVM_STRING_BUFFER_add_int", "SPVM_STRING_BUFFER_add_long", "SPVM_STRING_BUFFER_add_byte", "SPVM_STRING_BUFFER_add_short"):
                out.append(("int", n.rsplit("_", 1)[1], a[1]))
            elif n == "SPVM_STRING_BUFFER_add_hex_char": out.append(("hex", a[1]))
            elif n == "SPVM_STRING_BUFFER_add_len": raise AnalysisBroken("add_len emission")
            elif n.startswith("SPVM_PRECOMPILE_add_"): out.append(("tok", n[len("SPVM_PRECOMPILE_add_"):], a[2:]))
            elif n.startswith("SPVM_PRECOMPILE_build_") or n in ("SPVM_STRING_BUFFER_replace_colon",): out.append(("misc", n, a))
            else: out.append(("misc", n, a))
        return out
    def text(s, effs, op):
        o = ""
        for p in s.pieces(effs):
            if p[0] == "txt": o += unesc(p[1])
            elif p[0] == "int":
                ct = {"int": "int32_t", "long": "int64_t", "byte": "int8_t", "short": "int16_t"}[p[1]]
                o += "((%s)%s)" % (ct, s.c(p[2]))
            elif p[0] == "name":
                v = s.c(p[1]); k = len(s.tokens); s.tokens["@N%d@" % k] = v; o += "@N%d@" % k
            elif p[0] == "hex":
                v = p[1]      # load i8 (base + i)
                if not (v[0] == "load" and v[2][0] == "gep" and v[2][1] == "i8" and v[2][3][0][0] == "lv"): s.unknown(v)
                k = len(s.tokens); s.tokens["@N%d@" % k] = s.c(v[2][2]); o += "@N%d@" % k
            elif p[0] == "tok":
                o += s.token(p, op)
            else: o += ""
        return o
    def token(s, p, op):
        kind, a = p[1], p[2]
        ent = s.is_name(a[0], "basic_type")
        if ent is None: s.unknown(a[0])
        if kind == "basic_type": return "((void*)%s)" % s.c(ent)
        m = s.is_name(a[1], {"method": "method", "class_var": "class_var", "field": "field", "field_offset": "field"}[kind])
        if m is None:
            # fields: name is the first member
            if a[1][0] == "load": m = a[1][2]
            else: s.unknown(a[1])
        if m[0] != "pure" or m[3] != ent:
            s.problems.append((op, "the emitted %s token names type and member of different types" % kind)); 
        if kind == "field_offset": return "(((SPVM_RUNTIME_FIELD*)%s)->offset)" % s.c(m)
        return "((void*)%s)" % s.c(m)
    def code(s, tree, op):
        """emission decision tree -> C statement"""
        if tree[0] == "leaf": return "{\n" + s.text(tree[1], op) + "\n}"
        if tree[0] == "br":
            # a loop of the emitter shows as a 'back' leaf
            bt, bf = isback(tree[2]), isback(tree[3])
            if bt or bf:
                back, out = (tree[2], tree[3]) if bt else (tree[3], tree[2])
                return s.loop(tree[1], back, out, op)
            return "if (%s) %s else %s" % (s.c(tree[1]), s.code(tree[2], op), s.code(tree[3], op))
        raise AnalysisBroken("emission of %s branches on a switch" % op)
    def loop(s, cond, back, out, op):
        bp, op_ = s.pieces(back[1]), s.pieces(out[1]) if out[0] == "leaf" else None
        if op_ is None: raise AnalysisBroken("loop in the emission of %s" % op)
        # common prefix
        n = 0
        while n < len(bp) and n < len(op_) and bp[n] == op_[n]: n += 1
        rep = bp[n:]
        if len(rep) == 1 and rep[0][0] == "hex":
            v = rep[0][1]
            base = s.c(v[2][2])
            # loop runs i < length of the same string
            s.loops.append((op, cond, v))
            pre = s.text_p(op_[:n], op); post = s.text_p(op_[n:], op)
            k = len(s.tokens); s.tokens["@N%d@" % k] = base
            return "{\n" + pre + "@N%d@" % k + post + "\n}"
        s.loops.append((op, cond, rep))
        return "{ /*loop*/ }"
    def text_p(s, ps, op):
        keep = s.pieces; s.pieces = lambda x: x
        try: return s.text(ps, op)
        finally: s.pieces = keep
    def finish(s, txt):
        """quoted tokens -> expressions; labels -> program-counter updates"""
        txt = re.sub(r'"(@N\d+@)"', r'((char*)\1)', txt)
        txt = re.sub(r'\bgoto\s+L(\(\(int32_t\).*?\))\s*;', r'{ opcode_rel_index = \1; goto CONT_; }', txt)
        for k, v in s.tokens.items(): txt = txt.replace(k, v)
        return txt

def isback(t): return t[0] == "leaf" and t[3] == "back"
def unesc(x):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), x)

class Templates:
    """all templates of the precompiler, as one C file"""
    def __init__(s):
        bc = build.compile_bc([B + "spvm_precompile.c"])
        s.p = build.export(bc[0], build.PASSES_RAW, inline=["SPVM_PRECOMPILE_add_operand", "SPVM_PRECOMPILE_add_operand_address"], tag="tmpl")
        s.opcodes = s.p.enum_family("SPVM_OPCODE_C_ID_"); s.byv = {v: k[len("SPVM_OPCODE_C_ID_"):] for k, v in s.opcodes.items()}
        f = s.p.fn("SPVM_PRECOMPILE_build_method_source")
        s.f = f
        sw = big_switch(f, 250); s.cases = cases_of(sw)
        s.default = int(sw.ops[1][1:])
        # header of the emission loop: the nearest dominating block that has a back edge
        h = sw.bb
        while not any(f.dominates(h, p) for p in f.preds[h]): 
            if h == 0: raise AnalysisBroken("the emission switch is not in a loop")
            h = f.idom[h]
        s.header = h
        w0 = W(f)
        st0 = w0.prestate(sw.bb)
        # the operand of the switch inside its own block
        for i in f.blocks[sw.bb]:
            if i.op in ("switch", "br"): break
            w0.inst(i, st0)
        s.label_effects = list(st0.eff); st0.eff = []
        sel = w0.val(sw.ops[0], st0)
        e = s.e = Emit(s.p); e.loops = []
        # the variable holding the opcode index = index of opcode within opcodes
        oid = sel
        while oid[0] == "cast": oid = oid[2]
        if not (oid[0] == "load" and ((oid[2][0] == "gep" and oid[2][1] == "struct.spvm_opcode"))): raise AnalysisBroken("emission switch does not select on opcode->id: %s" % sym.show(sel))
        s.oid = oid
        a = oid[2][2] if len(oid[2][3]) == 2 else oid[2]
        if a[0] != "gep": raise AnalysisBroken("emission loop does not index the opcodes: %s" % sym.show(a))
        ix = a[3][0]
        while ix[0] == "cast": ix = ix[2]
        if ix[0] not in ("var", "lv"): raise AnalysisBroken("emission loop index: %s" % sym.show(ix))
        e.idxvar = ix[1]
        s.body = {}
        s.trees = {}
        for v, b in sorted(s.cases.items()):
            t = s.walk_case(b, st0, v)
            s.trees[v] = t
            if len([l for l in sym.leaves(t)]) >= 1 and s.is_loop_table(t): s.body[v] = None
            else: s.body[v] = e.code(t, s.byv[v])
        s.st0 = st0
        s.prefix_and_tail(sw)
    def walk_case(s, b, st0, v):
        st = st0.copy(); 
        # every read of the opcode id is the case's id
        w = CaseW(s.f, s.oid, v, stop={s.header: "next"}, live=(s.e.idxvar,))
        for n, (t, x) in list(st.mem.items()):
            if strip(x) == s.oid: st.mem[n] = (None, ("c", v))
        return w.walk(b, st, nocheck=True)
    def is_loop_table(s, t):
        for c, l in sym.leaves(t):
            if l[3] == "back":
                txt = [x for x in l[1] if x[0] == "call"]
                if any("add_int" in str(x[1]) and "lv" in repr(x[2]) for x in txt): return True
        return False
    def prefix_and_tail(s, sw):
        f = s.f
        # prefix: everything emitted before the first loop over the opcodes; the loops are straight-line skipped
        w = W(f, stop={})
        heads = sorted(b for b in range(len(f.blocks)) if any(f.dominates(b, p) for p in f.preds[b]) and f.dominates(b, s.header) or b == s.header)
        loops = w.loopinfo()
        top = [h for h in loops if not any(h in body and h != h2 for h2, body in loops.items())]
        order = [b for b in f.rpo() if b in top]
        if not order: raise AnalysisBroken("no opcode loops in the emitter")
        first = order[0]
        s.optional = []
        def positive(c):
            if c[0] != "cmp": return None
            r = {("slt", True): True, ("eq", False): False, ("eq", True): False}
            if c[1] == "slt" and c[2] == ("c", 0): x, tr = c[3], True
            elif c[1] == "slt" and c[3] == ("c", 1): x, tr = c[2], False
            elif c[1] == "eq" and ("c", 0) in c[2:]: x, tr = (c[3] if c[2] == ("c", 0) else c[2]), False
            else: return None
            s.optional.append(x); return tr
        w = W(f, stop={first: "loop"}, assume=positive)
        s.prefix_tree = w.walk(0, sym.State())
        s.first_loops = [h for h in order if h != s.header and f.dominates(h, s.header)]
        body = loops[s.header]
        exits = [q for b in body for q in f.succs[b] if q not in body]
        exits = [q for q in exits if not s.is_dead_exit(q)]
        if len(set(exits)) != 1: raise AnalysisBroken("emission loop has %d exits" % len(set(exits)))
        q = exits[0]
        w = W(f); st = w.prestate(q); st.eff = []
        s.tail_tree = w.walk(q, st, nocheck=True)
    def declared(s, h, v):
        """tokens whose declaration the pre-pass with loop header h emits for opcode id v"""
        f = s.f; loops = f._loopinfo
        st = W(f).prestate(h)
        # the loop's own variables are unknown on entry of an iteration
        for b in loops[h]:
            for i in f.blocks[b]:
                if i.op == "store": 
                    n = W(f).alloca.get(i.ops[1])
                    if n: st.mem.pop(n, None)
        outside = {q: "out" for b in loops[h] for q in f.succs[b] if q not in loops[h]}
        class PW(W):
            def inst(w, i, st):
                super().inst(i, st)
                e = st.v.get(i.ref)
                if i.op == "load" and e is not None and e[0] == "load" and e[2][0] == "gep" and e[2][1] == "struct.spvm_opcode" and w.prog.field(e[2][1], e[2][3][1][1]) == "id": st.v[i.ref] = ("c", v)
        w = PW(f, stop=outside, live=True)
        t = w.walk(h, st, path=(h,), nocheck=True)
        return [l for l in sym.leaves(t) if l[1][3] != "out"]
    def is_dead_exit(s, q):
        return s.f.blocks[q][-1].op == "unreachable" 
    def prefix_text(s):
        t = s.prefix_tree
        if t[0] != "leaf": raise AnalysisBroken("the emitted prologue is not a simple sequence")
        return s.e.text(t[1], "prologue")
    def c_source(s):
        e = s.e
        pre = s.prefix_text()
        pre = e.finish(pre)
        i = pre.find("{")
        pre = pre[i + 1:]
        s.arrays = []
        def arr(m):
            s.arrays.append((m.group(2), m.group(1), m.group(3), bool(m.group(4))))
            return "  %s* %s;\n" % (m.group(1), m.group(2))
        pre = re.sub(r"^[ \t]*((?:\w+)(?:\s*\*+)?)\s*\b(\w+)\[(.*)\](\s*=\s*\{\s*0\s*\})?;\s*$", arr, pre, flags=re.M)
        out = ["#include \"spvm_native.h\"", "#include \"spvm_implement.h\"", "#include <stdlib.h>", "#include <string.h>", "#include <stdio.h>", "#include <assert.h>"]
        for h in sorted(os.listdir(build.BUILDER + "/include")):
            if re.match(r"spvm_(typedecl|opcode|runtime.*|api_runtime|api_basic_type|api_method|api_field|api_class_var|api_type|api_arg)\.h$", h): out.append('#include "%s"' % h)
        out = [out[-1] if False else x for x in out]
        out.append("int32_t T_(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHOD* M_, int32_t args_width_) {")
        out.append("SPVM_OPCODE* opcodes = M_->opcodes; register int32_t opcode_rel_index = 0;")
        out.append(pre)
        out.append("while (1) { SPVM_OPCODE* opcode = &(opcodes[opcode_rel_index]); switch (opcode->id) {")
        for v, b in sorted(s.body.items()):
            if b is None: continue
            n = s.byv[v]
            # the last opcode falls through into the epilogue
            out.append("case %d: { /*%s*/" % (v, n))
            out.append(e.finish(b))
            out.append("goto END_OF_METHOD; }" if n == "END_METHOD" else "break; }")
        out.append("} opcode_rel_index++; CONT_: ; }")
        tail = e.code(s.tail_tree, "epilogue") if s.tail_tree[0] == "leaf" else s.tail_code()
        tail = e.finish(tail).strip()
        out.append(tail)
        return "\n".join(out)
    def tail_code(s):
        # emission branches around text fragments: rebuild with the fragment under the condition
        t = s.tail_tree
        if t[0] != "br" or t[2][0] != "leaf" or t[3][0] != "leaf": raise AnalysisBroken("the emitted epilogue has an unexpected shape")
        A, Bq = s.e.pieces(t[2][1]), s.e.pieces(t[3][1])
        ta, tb = s.e.text_p(A, "epilogue"), s.e.text_p(Bq, "epilogue")
        n = 0
        while n < min(len(ta), len(tb)) and ta[n] == tb[n]: n += 1
        m = 0
        while m < min(len(ta), len(tb)) - n and ta[-1 - m] == tb[-1 - m]: m += 1
        fa, fb = ta[n:len(ta) - m], tb[n:len(tb) - m]
        # widen to statement boundaries
        def wid(full, n, m):
            a = n
            while a > 0 and full[a - 1] not in ";{}\n": a -= 1
            return a
        a = wid(ta, n, m)
        k = n - a
        z = len(ta) - m
        pre, post = ta[:a], ta[z:] 
        fa, fb = ta[a:z], tb[a:len(tb) - m]
        # shift trailing '}' that the fragments share with the suffix
        def bal(x): return x.count("{") - x.count("}")
        while bal(fa) > 0:
            j = post.index("}") + 1; fa += post[:j]; fb += post[:j]; post = post[j:]
        return pre + "\nif (%s) { %s } else { %s }\n" % (s.e.c(t[1]), fa, fb) + post

def strip(x):
    while x[0] == "cast": x = x[2]
    return x

class CaseW(W):
    """inside one case the opcode id is a known constant"""
    def __init__(s, fn, oid, v, **kw):
        super().__init__(fn, **kw); s.oid, s.ov = oid, v
    def inst(s, i, st):
        super().inst(i, st)
        if i.op in ("load", "zext", "sext") and i.ref in st.v and strip(st.v[i.ref]) == s.oid: st.v[i.ref] = ("c", s.ov)

# ---------------------------------------------------------------------------- comparison
class Exec:
    """dispatch function of one executor: prestate of the dispatch and a summary tree per opcode"""
    def __init__(s, prog, fname, extra_ignore=(), inline_all=False):
        s.p = prog; s.f = f = prog.fn(fname)
        sw = big_switch(f, 250); s.sw = sw
        s.cases = cases_of(sw)
        h = sw.bb
        while not any(f.dominates(h, p) for p in f.preds[h]):
            if h == 0: raise AnalysisBroken("dispatch switch of %s is not in a loop" % fname)
            h = f.idom[h]
        s.header = h
        s.ign = tuple(extra_ignore)
        w = W(f); st = w.prestate(sw.bb)
        for i in f.blocks[sw.bb]:
            if i.op in ("switch", "br"): break
            w.inst(i, st)
        st.eff = []
        sel = strip(w.val(sw.ops[0], st)); s.oid = sel
        s.st0 = st
        if not (sel[0] == "load" and sel[2][0] == "gep" and "spvm_opcode" in sel[2][1]): raise AnalysisBroken("%s does not dispatch on opcode->id" % fname)
        s.trees = {}
    def tree(s, v, limit=4000):
        if v not in s.trees:
            st = s.st0.copy()
            w = W(s.f, stop={s.header: "next"}, live=True, ignore_calls=s.ign, limit=limit)
            s.trees[v] = w.walk(s.cases[v], st, nocheck=True)
        return s.trees[v]

GETTER = re.compile(r"SPVM_API_(BASIC_TYPE|METHOD|FIELD|CLASS_VAR)_get_(\w+)$")
PROG = None
def normal(e, memo):
    """canonical form of an expression"""
    if not isinstance(e, tuple): return e
    k = id(e)
    r = memo.get(e)
    if r is not None: return r
    t = tuple(normal(x, memo) for x in e)
    r = simp(t)
    memo[e] = r
    return r

def simp(t):
    if not t: return t
    if t[0] == "arg": return t[:2]
    if t[0] == "cast":
        op = t[1].split(":")
        if op[0] == "sext" and nonneg(t[2]): t = ("cast", "zext:" + ":".join(op[1:]), t[2]); op = t[1].split(":")
        if op[0] in ("zext", "sext") and t[2][0] == "cast" and t[2][1].startswith(op[0] + ":"):
            return ("cast", "%s:%s:%s" % (op[0], t[2][1].split(":")[1], op[2]), t[2][2])
        if op[0] == "trunc" and t[2][0] == "cast" and t[2][1].split(":")[0] in ("zext", "sext"):
            i = t[2][1].split(":")
            if i[1] == op[2]: return t[2][2]
    if t[0] == "pure":
        n = t[1]
        # looking an entity up by its own name yields the entity
        if n.endswith("get_basic_type_by_name") and len(t) == 4:
            x = t[3]
            if x[0] == "load" and x[2][0] == "gep" and x[2][1] == "struct.spvm_runtime_basic_type": return x[2][2]
        if n.endswith("get_method_by_name") and len(t) == 5:
            x = t[4]
            if x[0] == "load" and x[2][0] == "gep" and x[2][1] == "struct.spvm_runtime_method": return x[2][2]
        m = GETTER.match(n)
        if m and len(t) == 4 and PROG is not None:
            sty = "struct.spvm_runtime_" + m.group(1).lower()
            for k, fld in enumerate(PROG.structs.get(sty, ())):
                if fld[0] == m.group(2): return simp(("load", fld[2], ("gep", sty, t[3], (("c", 0), ("c", k))), 0))
    if t[0] == "load" and t[2][0] == "gep" and t[2][1].startswith("struct.spvm_runtime_") and len(t[2][3]) == 2 and t[2][2][0] == "pure" and PROG is not None:
        f = PROG.field(t[2][1], t[2][3][1][1]); g = t[2][2]
        # entities fetched by their place: methods of B belong to B, the type with id X has id X
        if f == "current_basic_type" and len(g) == 5 and g[1].endswith("_by_index"): return g[3]
        if f == "id" and g[1].endswith("get_basic_type_by_id"): return g[3]
    return t

def nonneg(x):
    """opcode operands (indices, lengths, type ids) and unsigned extensions are not negative"""
    if x[0] == "load" and x[2][0] == "gep" and x[2][1] == "struct.spvm_opcode": return True
    if x[0] == "load" and x[1] == "i32" and x[2][0] == "gep" and len(x[2][3]) == 1 and "spvm_opcode" in x[2][1]: return True
    if x[0] == "cast" and x[1].startswith("zext"): return True
    if x[0] == "op" and x[1] == "and": return nonneg(x[2]) or nonneg(x[3])
    return x[0] == "c" and x[1] >= 0

class Cmp:
    def __init__(s, names_a, names_b):
        s.na, s.nb = set(names_a), set(names_b); s.map = {}; s.rev = {}
        s.memo = {}
    def same_name(s, a, b):
        if a == b: return True
        if a in s.nb or b in s.na: return s.map.get(a) == b
        if a in s.map or b in s.rev: return s.map.get(a) == b
        s.map[a] = b; s.rev[b] = a; return True
    def eq(s, a, b):
        if not isinstance(a, tuple) or not isinstance(b, tuple): return a == b
        if a == b: return True
        if len(a) != len(b) or (a and a[0] != b[0]): return False
        if a and a[0] in ("var", "lv"): return a[2:] == b[2:] and s.same_name(a[1], b[1])
        if a and a[0] == "addr": return s.same_name(a[1], b[1])
        return all(s.eq(x, y) for x, y in zip(a, b))
    def leaves(s, t):
        out = []
        for c, l in sym.leaves(t):
            cc = tuple((normal(x, s.memo), tr) for x, tr in c)
            out.append((cc, tuple(normal(e, s.memo) for e in l[1] if e[0] != "loop"), {n: normal(x, s.memo) for n, x in l[2]}, normal(l[3], s.memo) if isinstance(l[3], tuple) else l[3]))
        return out
    def contradict(s, ca, cb):
        for x, tx in ca:
            for y, ty in cb:
                if tx != ty and s.eq(x, y): return True
        return False
    def trees(s, ta, tb, live, accept=None):
        """None or (text) first difference between two summaries"""
        A, B_ = s.leaves(ta), s.leaves(tb)
        for ca, ea, la, xa in A:
            hit = False
            for cb, eb, lb, xb in B_:
                if s.contradict(ca, cb): continue
                hit = True
                if accept and accept(ca, cb): continue
                if len(ea) != len(eb): return "effects differ:\n" + s.diff(ea, eb)
                for p, q in zip(ea, eb):
                    if not s.eq(p, q): return "effects differ:\n" + s.diff(ea, eb)
                if xa != xb and not s.eq(xa, xb): return "exits differ: %s / %s" % (sym.show(xa) if isinstance(xa, tuple) else xa, sym.show(xb) if isinstance(xb, tuple) else xb)
                for n in live:
                    m = s.map.get(n, n)
                    va, vb = la.get(n, ("var", n, 0)), lb.get(m, ("var", m, 0))
                    if not s.eq(va, vb): return "value of %s afterwards differs: %s / %s" % (n, sym.show(va), sym.show(vb))
            if not hit: return "no corresponding path"
        return None
    def diff(s, ea, eb):
        o = []
        for k in range(max(len(ea), len(eb))):
            a = ea[k] if k < len(ea) else None; b = eb[k] if k < len(eb) else None
            if a is None or b is None or not s.eq(a, b):
                o.append("  interpreter: %s\n  precompiled: %s" % (sym.show(a) if a else "-", sym.show(b) if b else "-"))
                break
        return "\n".join(o)

def reads(tree, acc):
    def g(e):
        if isinstance(e, tuple):
            if len(e) == 3 and e[0] == "var" and e[2] == 0 and isinstance(e[1], str): acc.add(e[1])
            else:
                for x in e: g(x)
    for c, l in sym.leaves(tree):
        for x, _ in c: g(x)
        for x in l[1]: g(x)
        g(l[3])
        for n, x in l[2]: pass
