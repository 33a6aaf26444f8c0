"""Opcode semantics: interpreter case (helpers expanded) against sa/spec.py, per group."""
import os, re
from . import build, ir, sym, vmtab, spec, equiv
from .build import AnalysisBroken

ENVSLOT = {}
def canon(prog):
    """message texts are not part of the meaning; pointer sums are element addresses"""
    memo = {}
    nolen = [k for k, f in enumerate(prog.structs.get("struct.spvm_env", ())) if f[0] in ("new_string_nolen_no_mortal", "new_string_nolen")]
    def slot(c): return c[0] == "load" and c[2][0] == "gep" and c[2][1] == "struct.spvm_env" and c[2][3][1][0] == "c" and c[2][3][1][1] in nolen
    def go(e):
        if not isinstance(e, tuple) or not e: return e
        r = memo.get(e)
        if r is not None: return r
        t = tuple(go(x) for x in e)
        if t[0] == "load" and "SPVM_IMPLEMENT_STRING_LITERALS" in repr(t[2])[:200]: t = ("msg",)
        if t[0] == "gep" and t[1] == "i8" and len(t[3]) == 1:      # byte address
            t = ("op", "add", t[2], t[3][0])
        if t[0] == "call":
            if not isinstance(t[1], str) and slot(t[1]) and len(t[2]) == 3 and (t[2][2][0] in ("str",)): t = t[:2] + ((t[2][0], t[2][1], ("msg",)),) + t[3:]
            if t[1] == "snprintf" and len(t[2]) >= 3 and t[2][2][0] == "str" and t[2][2][1] == "message": t = t[:2] + (t[2][:2] + (("msg",),) + t[2][3:],) + t[3:]
        if t[0] == "gep" and len(t[3]) == 1 and t[2][0] == "gep" and t[2][1] == t[1] and len(t[2][3]) == 1:      # (p + i)[j] is p[i + j]
            i, j = t[2][3][0], t[3][0]
            if i[0] == "cast" and j[0] == "cast" and i[1] == j[1]: k = ("cast", i[1], ("op", "add", i[2], j[2]))
            elif i[0] == "c" and j[0] == "cast": k = ("cast", j[1], ("op", "add", i, j[2]))
            elif j[0] == "c" and i[0] == "cast": k = ("cast", i[1], ("op", "add", j, i[2]))
            else: k = ("op", "add", i, j)
            t = ("gep", t[1], t[2][2], (k,))
        # truth values: !!x is x
        if t[0] == "op" and t[1] == "xor" and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a == ("c", 1) and equiv.boolean(b): t = ("not", b); break
        if t[0] == "not" and t[1][0] == "not": t = t[1][1]
        memo[e] = t
        return t
    return go

RULE = ("For each opcode of the group, the decision tree of its interpreter case (spvm_vm.c with the SPVM_IMPLEMENT_* helpers expanded) and of the C "
        "text the precompiler emits for it are compared with the tree of an independent specification of the opcode (sa/spec.py, written from the "
        "language documents): paths whose conditions do not contradict each other must have the same ordered effects (stores, calls with their "
        "arguments), the same next opcode and the same error ids and mortal-stack top.")
STATE = ("mortal_stack", "object_vars", "ref_vars", "byte_vars", "short_vars", "int_vars", "long_vars", "float_vars", "double_vars", "mortal_stack_top", "eval_error_id", "error_id", "opcode_rel_index")
_S = None
class Setup:
    def __init__(s):
        bv, = build.compile_bc([vmtab.B + "spvm_vm.c"])
        inl = sorted(f for f in open(build.known_file()).read().split() if f.startswith("SPVM_IMPLEMENT_"))
        s.pv = build.export(bv, build.PASSES_RAW, inline=inl, tag="spec_vm")
        fam = s.pv.enum_family("SPVM_OPCODE_C_ID_")
        s.ids = {k[len("SPVM_OPCODE_C_ID_"):]: v for k, v in fam.items()}
        hs = [h for h in sorted(os.listdir(build.BUILDER + "/include")) if re.match(r"spvm_(typedecl|opcode|runtime.*|api_runtime|api_basic_type|api_method|api_field|api_class_var|api_type|api_arg)\.h$", h)]
        src = spec.c_source(s.ids, hs)
        fn = os.path.join(build.tmpdir(), "SPEC_.c"); open(fn, "w").write(src)
        bs, = build.compile_bc([fn])
        s.ps = build.export(bs, build.PASSES_RAW, tag="spec")
        for k, v in s.ps.structs.items(): s.pv.structs.setdefault(k, v)
        vmtab.PROG = s.pv
        ign = ["SPVM_API_free_memory_block"]
        s.V, s.X = vmtab.Exec(s.pv, "SPVM_VM_call_method", ign), vmtab.Exec(s.ps, "SPEC_", ign)
        s.live = s.state(s.V)
        s.P = None; s.why = ""
        try:
            T = vmtab.Templates(); fn = os.path.join(build.tmpdir(), "TS_.c"); open(fn, "w").write(T.c_source())
            bt, = build.compile_bc([fn])
            s.pt = build.export(bt, build.PASSES_RAW, inline=inl, tag="spec_t")
            for k, v in s.ps.structs.items(): s.pt.structs.setdefault(k, v)
            s.P = vmtab.Exec(s.pt, "T_")
            s.cmpt = s.comparer(s.P, {n for n in s.state(s.P)})
        except AnalysisBroken as e: s.why = str(e)[:300]
        s.cmp = s.comparer(s.V, s.live)
    def comparer(s, V, live):
        c = equiv.Eq(sym.local_vars(V.f)[2], sym.local_vars(s.X.f)[2], nonneg=s.nonneg, canon=canon(V.p))
        names = {n: n for n in STATE if n != "opcode_rel_index"}; names["opcode_rel_index"] = "pc"
        for n in sorted(live):
            t = names[n.split("~")[0]]
            if t not in c.rev: c.map[n] = t; c.rev[t] = n
        c.map0, c.rev0, c.live = dict(c.map), dict(c.rev), live
        return c
    def pair(s):
        """comparer of interpreter cases with precompiled text"""
        c = equiv.Eq(sym.local_vars(s.V.f)[2], sym.local_vars(s.P.f)[2], nonneg=s.nonneg, canon=canon(s.pv))
        other = {n.split("~")[0]: n for n in s.cmpt.live}
        for n in sorted(s.live):
            t = other.get(n.split("~")[0])
            if t and t not in c.rev: c.map[n] = t; c.rev[t] = n
        c.map0, c.rev0, c.live = dict(c.map), dict(c.rev), s.live
        return c
    def state(s, V):
        live = set()
        for v in V.cases:
            try: vmtab.reads(V.tree(v), live)
            except sym.TooBig: pass
        return {n for n in live if n.split("~")[0] in STATE}
    def nonneg(s, e):
        if vmtab.nonneg(e): return True
        # the length of an array or string
        return e[0] == "load" and e[1] == "i32" and "get_object_length_offset" in repr(e)

def setup():
    global _S
    if _S is None: _S = Setup()
    return _S

def check(ck, groups, minimum, extra=()):
    S = setup()
    names = [n for n in spec.BODY if spec.GROUPS[n] in groups or (extra(n) if callable(extra) else n in extra)]
    ck.functions.add("SPVM_VM_call_method")
    for n in names:
        v = S.ids.get(n)
        if v is None: raise AnalysisBroken("no opcode id for " + n)
        if v not in S.V.cases:
            ck.violation("no-case:" + n, "SPVM_VM_call_method has no case for opcode %s" % n); continue
        if len(ck.samples) < 6 and len(names) and names.index(n) % max(1, len(names) // 6) == 0:
            ck.sample("%s: %s" % (n, re.sub(r"\s+", " ", spec.BODY[n])[:240]))
        for E, c, who in ((S.V, S.cmp, "interpreter"), (S.P, S.P and S.cmpt, "precompiled code")):
            if E is None: continue
            if v not in E.cases: 
                ck.violation("no-text:" + n, "the precompiler emits nothing for opcode %s" % n); continue
            try: d = differs(S, E, c, n, v, who)
            except (sym.TooBig, equiv.Unknown) as e:
                ck.notes.append("opcode %s not decided for the %s: %s" % (n, who, e)); ck.count("opcodes not decided"); continue
            ck.count("opcodes compared with their specification (%s)" % who); ck.count("path pairs compared", c.pairs)
            if d:
                i = E.f.blocks[E.cases[v]][0]
                ck.violation("opcode:%s:%s" % (n, who), "opcode %s (%s) does not do what the language defines: %s" % (n, "SPVM_VM_call_method, " + i.loc if E is S.V else "text emitted by SPVM_PRECOMPILE_build_method_source", shorten(d)))
    if S.P is None: ck.notes.append("precompiled text not analysed: " + S.why)
    ck.need("opcodes compared with their specification (interpreter)", minimum)
    ck.extra.update(programs=len(names), disagreements_checked=ck.counts["path pairs compared"])

def differs(S, E, c, n, v, who="interpreter"):
    c.map, c.rev = dict(c.map0), dict(c.rev0)
    return c.trees(E.tree(v), S.X.tree(v), c.live, names=(who, "specification"), accept=empty_scope(E.p) if n == "LEAVE_SCOPE" and E is S.P else None)

def empty_scope(prog):
    from .checks import c04
    for k, fld in enumerate(prog.structs.get("struct.spvm_runtime_method", ())):
        if fld[0] == "mortal_stack_length": c04.MORTAL[0] = repr((("c", 0), ("c", k)))
    return c04.empty_scope_either

def shorten(d):
    ops = {"0": "id", "1": "operand3", "2": "operand0", "3": "operand1", "4": "operand2"}
    d = re.sub(r"\*spvm_opcode\[0,(\d)\]\(spvm_opcode\[(?:opcode_rel_index|pc)\]\(\*spvm_runtime_method\[0,\d+\]\(arg2\)\)\)", lambda m: ops.get(m.group(1), "?"), d)
    d = re.sub(r"\*spvm_env\[0,(\d+)\]\(arg0\)(?=\()", lambda m: "env->" + (vmtab.PROG.field("struct.spvm_env", int(m.group(1))) or "?"), d)
    d = re.sub(r"\*\w+\[(operand\d)\]\((\w+?)(~\d+)?\)", r"\2[\1]", d)
    d = d.replace("*spvm_env[0,0](arg0)", "runtime").replace("arg0, arg1", "env, stack")
    return d[:900]
