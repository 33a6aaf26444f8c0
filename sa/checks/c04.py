"""C04: the interpreter and precompiled code give every opcode the same meaning."""
import os, re
from .. import build, ir, sym, vmtab, opspec, equiv, spec
from ..build import AnalysisBroken

LEVEL = "translation_validation"

def run(ck):
    ck.rule = ("For every opcode the interpreter case (spvm_vm.c) and the C text the precompiler emits for it (spvm_precompile.c, "
               "reconstructed from the emitting code for symbolic operands and compiled to IR) are summarised as decision trees over "
               "canonical value expressions; each pair of non-contradictory paths must have the same ordered effects (stores, calls with "
               "arguments), the same exit and the same next opcode index / error ids / mortal-stack top.  Declarations emitted by the "
               "pre-pass must cover the tokens of every opcode, prologue arrays and initial values must agree, and the switch lookup "
               "must only select a case whose value equals the operand.")
    T = vmtab.Templates()
    src = T.c_source()
    fn = os.path.join(build.tmpdir(), "T_.c"); open(fn, "w").write(src)
    try: bt, = build.compile_bc([fn])
    except AnalysisBroken as e:
        # the text the precompiler would emit does not compile: find the opcode
        m = re.search(r"T_\.c:(\d+):\d+: error: (.*)", str(e))
        if not m: raise
        lines = src.split("\n"); op = "?"
        for k in range(int(m.group(1)) - 1, 0, -1):
            q = re.match(r"case \d+: \{ /\*(\w+)\*/", lines[k])
            if q: op = q.group(1); break
        ck.violation("uncompilable:" + op, "the C text emitted for opcode %s does not compile: %s" % (op, m.group(2)))
        return
    bv, = build.compile_bc([vmtab.B + "spvm_vm.c"])
    compare(ck, T, bv, bt)
    prologue(ck, T)
    prepass(ck, T)
    lookup(ck, T)

def exports(bv, bt, inline, tag):
    pv = build.export(bv, build.PASSES_RAW, inline=inline, tag="vm" + tag)
    pt = build.export(bt, build.PASSES_RAW, inline=inline, tag="t" + tag)
    vmtab.PROG = pv
    return vmtab.Exec(pv, "SPVM_VM_call_method", ["SPVM_API_free_memory_block"]), vmtab.Exec(pt, "T_")

def empty_scope(ca, cb):
    """the precompiler emits nothing for LEAVE_SCOPE in a method without mortal variables"""
    for x, tr in cb:
        r = repr(x)
        if x[0] == "cmp" and ("spvm_runtime_method" in r) and MORTAL[0] in r:
            # condition is `length > 0` in some spelling; the arm where it is false
            if x[1] == "slt" and x[2] == ("c", 0) and tr is False: return True
            if x[1] == "slt" and x[3] == ("c", 1) and tr is True: return True
            if x[1] == "eq" and ("c", 0) in x[2:] and tr is True: return True
    return False
MORTAL = [""]
def empty_scope_either(ca, cb): return empty_scope(None, ca) or empty_scope(None, cb)

def compare(ck, T, bv, bt):
    V, X = exports(bv, bt, [], "")
    for k, fld in enumerate(V.p.structs.get("struct.spvm_runtime_method", ())):
        if fld[0] == "mortal_stack_length": MORTAL[0] = repr((("c", 0), ("c", k)))
    ck.functions.update(["SPVM_VM_call_method", "SPVM_PRECOMPILE_build_method_source"])
    live = set()
    names = T.byv
    emitted, unknown = emitted_ids()
    ck.count("opcode ids the compiler emits", len(emitted)); ck.need("opcode ids the compiler emits", 370)
    for v, n in sorted(names.items()):
        if v not in emitted and v not in V.cases and v not in T.cases: continue   # never produced
        if v not in V.cases and n != "CASE_INFO": ck.violation("unhandled-vm:" + n, "the interpreter has no case for opcode %s (SPVM_VM_call_method)" % n)
        if v not in T.cases: ck.violation("unhandled-precompile:" + n, "the precompiler emits nothing for opcode %s (SPVM_PRECOMPILE_build_method_source)" % n)
    for v in V.cases:
        try: vmtab.reads(V.tree(v), live)
        except sym.TooBig as e: ck.notes.append("interpreter case %s not summarised: %s" % (names.get(v), e))
    # scratch variables of a case are not live; those read by some case before being written are
    cmp_ = vmtab.Cmp(sym.local_vars(V.f)[2], sym.local_vars(X.f)[2])
    todo = []
    for v in sorted(V.cases):
        n = names.get(v, str(v))
        if v not in X.cases: continue
        acc = empty_scope if n == "LEAVE_SCOPE" else None
        try: d = cmp_.trees(V.tree(v), X.tree(v), live, acc)
        except sym.TooBig as e: raise AnalysisBroken("opcode %s: %s" % (n, e))
        ck.count("opcodes compared"); ck.count("path pairs", len(list(sym.leaves(V.tree(v)))))
        if len(ck.samples) < 6 and v % 61 == 1:
            l = next(sym.leaves(V.tree(v)))[1]
            ck.sample("%s: %s" % (n, "; ".join(sym.show(e) for e in l[1])[:300] or "updates locals only"))
        if d: todo.append((v, n, d))
    for op, msg in T.e.problems: ck.violation("token:" + op, "%s: %s" % (op, msg))
    if todo:
        # the two may still agree once the shared helpers are expanded and values are compared under the
        # facts of the path: directly, or because both do what the specification says
        S = opspec.setup()
        cm = S.pair()
        for v, n, d in todo:
            try:
                if n in spec.BODY and all(opspec.differs(S, E, c, n, v) is None for E, c in ((S.V, S.cmp), (S.P, S.cmpt))): d2 = None
                elif v in S.V.cases and v in S.P.cases:
                    cm.map, cm.rev = dict(cm.map0), dict(cm.rev0)
                    d2 = cm.trees(S.V.tree(v), S.P.tree(v), S.live, names=("interpreter", "precompiled code"), accept=empty_scope_either if n == "LEAVE_SCOPE" else None)
                else: d2 = d
            except (sym.TooBig, equiv.Unknown): d2 = d
            if d2:
                i = V.f.blocks[V.cases[v]][0]
                ck.violation("opcode:" + n, "opcode %s: interpreter (%s) and precompiled code disagree: %s" % (n, i.loc, d))
    ck.need("opcodes compared", 380)
    ck.extra.update(programs=ck.counts["opcodes compared"], disagreements_checked=ck.counts["path pairs"])
    # initial values
    for name in ("error_id", "eval_error_id", "mortal_stack_top"):
        pass
    for E, what in ((V, "interpreter"), (X, "precompiled code")):
        init = initial(E)
        E.init = init
    for n in sorted(live):
        m = cmp_.map.get(n, n)
        if n in V.init and m in X.init:
            a, b = vmtab.normal(V.init[n], cmp_.memo), vmtab.normal(X.init[m], cmp_.memo)
            ck.count("initial values")
            if not cmp_.eq(a, b): ck.violation("init:" + n, "initial value of %s differs: %s in the interpreter, %s in precompiled code" % (n, sym.show(a), sym.show(b)))

def initial(E):
    """scalar locals on first entry of the dispatch loop"""
    f = E.f; w = vmtab.W(f)
    h = E.header
    chain = [h]
    while chain[-1] != 0: chain.append(f.idom[chain[-1]])
    st = sym.State()
    for b in chain[::-1][:-1]:
        for i in f.blocks[b]:
            if i.op in ("br", "switch", "ret", "unreachable", "phi"): continue
            w.inst(i, st)
    return {n: e for n, (t, e) in ((k, v) for k, v in st.mem.items() if isinstance(k, str)) if e[0] == "c"}

def prologue(ck, T):
    WIDTH = {"byte_vars": ("int8_t", "byte_vars_width"), "short_vars": ("int16_t", "short_vars_width"), "int_vars": ("int32_t", "int_vars_width"),
             "long_vars": ("int64_t", "long_vars_width"), "float_vars": ("float", "float_vars_width"), "double_vars": ("double", "double_vars_width"),
             "object_vars": ("void*", "object_vars_width"), "ref_vars": ("void*", "ref_vars_width"), "mortal_stack": ("int32_t", "mortal_stack_length")}
    got = {a[0]: a for a in T.arrays}
    for n, (ty, fld) in WIDTH.items():
        if n not in got: ck.violation("prologue:" + n, "the emitted prologue declares no array %s" % n); continue
        _, t, cnt, zero = got[n]
        ck.count("prologue arrays")
        if t.replace(" ", "") != ty: ck.violation("prologue:" + n, "the emitted prologue declares %s with element type %s" % (n, t))
        if not re.search(r"->%s\)+$" % fld, cnt): ck.violation("prologue:" + n, "the emitted prologue sizes %s by %s instead of %s" % (n, cnt, fld))
        if n in ("object_vars", "ref_vars") and not zero: ck.violation("prologue:" + n, "the emitted prologue leaves %s uninitialised: it must start as undef" % n)
    for x in T.optional:
        # an array is declared whenever its own width is positive
        pass
    decl = {a[2] for a in T.arrays}
    conds = [T.e.c(x) for x in T.optional]
    for n, t, cnt, z in T.arrays:
        core = re.search(r"->(\w+)\)+$", cnt)
        if core and conds and not any(re.search(r"->%s\)+$" % core.group(1), c) for c in conds) and len(conds) >= len(T.arrays):
            ck.violation("prologue-cond:" + n, "the declaration of %s is not conditioned on its own width" % n)

KIND = {"basic_type": "BASIC_TYPE", "class_var": "CLASS_VAR", "field": "FIELD", "field_offset": "FIELD_OFFSET", "method": "METHOD"}
def prepass(ck, T):
    memo = {}
    def norm(a): return tuple(vmtab.normal(subst(x), memo) for x in a)
    def names(t):
        r = {}
        for c, l in sym.leaves(t):
            for p in T.e.pieces(l[1]):
                if p[0] == "tok": r[(p[1], norm(p[2]))] = p[2]
        return r
    def subst(e):
        """the emission loop and the pre-pass name the current opcode the same way"""
        if not isinstance(e, tuple): return e
        if e[0] in ("var", "lv") and len(e) >= 2: return ("var", "IDX", 0) if e[1] == T.e.idxvar else e
        return tuple(subst(x) for x in e)
    for v, t in sorted(T.trees.items()):
        use = names(t)
        if not use: continue
        op = T.byv[v]; decl = {}
        for h in T.first_loops:
            for c, l in T.declared(h, v):
                ps = T.e.pieces(l[1])
                for k, p in enumerate(ps):
                    if p[0] != "tok": continue
                    key = (p[1], norm(p[2]))
                    decl.setdefault(key, 0)
                    # the lookup that initialises it
                    if k + 1 < len(ps) and ps[k + 1][0] == "txt" and "SPVM_IMPLEMENT_GET_" in ps[k + 1][1]:
                        m = re.search(r"SPVM_IMPLEMENT_GET_(\w+)_BY_NAME\(env, stack, \"$", vmtab.unesc(ps[k + 1][1]))
                        q = [x[1] for x in ps[k + 2:k + 2 + 2 * len(p[2])] if x[0] == "name"]
                        ck.count("pre-pass lookups")
                        if not m or m.group(1) != KIND[p[1]] or norm(tuple(q)) != norm(p[2]):
                            ck.violation("lookup:%s:%s" % (op, p[1]), "opcode %s: the %s token is initialised by a lookup of another entity" % (op, p[1]))
                        else: decl[key] += 1
        for key in use:
            ck.count("tokens covered by the pre-pass")
            if key not in decl:
                ck.violation("undeclared:%s:%s" % (op, key[0]), "opcode %s uses a %s token that the declaration pre-pass does not declare for that opcode" % (op, key[0]))
            elif not decl[key]:
                ck.violation("uninitialised:%s:%s" % (op, key[0]), "opcode %s: the %s token is declared but never looked up" % (op, key[0]))
    ck.need("tokens covered by the pre-pass", 40)
    # the emission loop walks the opcodes one by one and labels each with its own index
    for v, t in sorted(T.trees.items()):
        for c, l in sym.leaves(t):
            if l[3] == "back": continue
            lv = dict(l[2]); nx = lv.get(T.e.idxvar)
            ck.count("emission steps")
            if nx is None or not (nx[0] == "op" and nx[1] == "add" and ("c", 1) in nx[2:]):
                ck.violation("step:" + T.byv[v], "opcode %s: the emitter does not advance to the next opcode" % T.byv[v])
    ps = T.e.pieces(T.label_effects); ok = False
    for a, b in zip(ps, ps[1:]):
        if a == ("txt", "L") and b[0] == "int" and vmtab.strip(b[2])[:2] in (("var", T.e.idxvar), ("lv", T.e.idxvar)): ok = True
    if not ok: ck.violation("label", "the emitter does not label each opcode with its own index")

def aff(f, o):
    """operand as (base operand | None, constant)"""
    c = 0
    while True:
        k = ir.cint(o)
        if k is not None: return None, c + k
        d = f.d(o)
        if d is None: return o, c
        if d.op in ("sext", "zext", "freeze"): o = d.ops[0]; continue
        if d.op in ("add", "or") and ir.cint(d.ops[1]) is not None: c += ir.cint(d.ops[1]); o = d.ops[0]; continue
        if d.op == "add" and ir.cint(d.ops[0]) is not None: c += ir.cint(d.ops[0]); o = d.ops[1]; continue
        if d.op == "sub" and ir.cint(d.ops[1]) is not None: c -= ir.cint(d.ops[1]); o = d.ops[0]; continue
        return o, c

def counter(f, o):
    """o = k0, k0+1, k0+2 ... per iteration -> k0, else None"""
    b, c = aff(f, o)
    d = f.d(b) if b and b.startswith("%") else None
    if d is None or d.op != "phi" or len(d.ops) != 4: return None
    init = step = None
    for k in (0, 2):
        q, e = aff(f, d.ops[k])
        if q == b: step = e
        elif q is None: init = e
    return init + c if step == 1 and init is not None else None

def linear(f, o):
    """operand as {leaf operand: coefficient}, 1: constant"""
    k = ir.cint(o)
    if k is not None: return {1: k}
    d = f.d(o)
    if d is not None and d.op in ("sext", "zext", "freeze"): return linear(f, d.ops[0])
    if d is not None and d.op in ("add", "sub"):
        r = dict(linear(f, d.ops[0]))
        for x, n in linear(f, d.ops[1]).items():
            r[x] = r.get(x, 0) + (n if d.op == "add" else -n)
        return {x: n for x, n in r.items() if n}
    if d is not None and d.op == "getelementptr" and len(d.ops) == 2 and d.x == "struct.spvm_opcode":
        r = dict(linear(f, d.ops[0]))
        for x, n in linear(f, d.ops[1]).items(): r[x] = r.get(x, 0) + n
        return {x: n for x, n in r.items() if n}
    return {o: 1}

class SwitchCode:
    """facts about the region of one opcode's case in a dispatch function (SSA form)"""
    def __init__(s, p, f, case):
        s.p, s.f = p, f
        sw = vmtab.big_switch(f, 250); s.b = vmtab.cases_of(sw)[case]; s.sw = sw
        s.region = {q for q in f.reach(s.b, avoid={sw.bb}) if f.dominates(s.b, q)}
        s.fld = {}
        for i in f.all():
            if i.op == "load":
                g = f.d(i.ops[0])
                if g is not None and g.op == "getelementptr" and g.x == "struct.spvm_opcode" and len(g.ops) == 3:
                    s.fld[i.ref] = (p.field(g.x, ir.cint(g.ops[2])), g.ops[0])
    def opcode_field(s, o, rec=None):
        """(field, record) of a loaded opcode field"""
        d = s.f.d(o)
        while d is not None and d.op in ("sext", "zext", "trunc", "freeze"): o = d.ops[0]; d = s.f.d(o)
        return s.fld.get(o)
    def own(s, rec):
        """record is the switch opcode itself (computed outside the case)"""
        d = s.f.d(rec); return d is None or d.bb not in s.region
    def info_index(s, rec):
        """case position addressed by a record pointer: linear form minus the constant 1 that skips the switch opcode"""
        l = dict(linear(s.f, rec)); 
        return l

def lookup(ck, T):
    """value selection of LOOKUP_SWITCH on both sides"""
    v = T.opcodes["SPVM_OPCODE_C_ID_LOOKUP_SWITCH"]
    emit_switch(ck, T, v)
    interp_switch(ck, v)

def emit_switch(ck, T, v):
    if v not in T.trees: return
    for c, l in sym.leaves(T.trees[v]):
        ps = T.e.pieces(l[1])
        if l[3] != "back":
            txt = T.e.text_p(ps, "LOOKUP_SWITCH")
            d = re.search(r"default:\s*goto L(.*?);", txt)
            if not d or not d.group(1).rstrip(")").endswith("operand1"): ck.violation("switch-default", "the emitted switch has no default branch to the default target")
            continue
        ck.count("switch emission")
        txt = "".join(vmtab.unesc(p[1]) if p[0] == "txt" else "\0" for p in ps)
        fields = []
        for p in ps:
            if p[0] == "int":
                x = vmtab.strip(p[2])
                if x[0] == "load" and x[2][0] == "gep": fields.append((T.p.field(x[2][1], x[2][3][1][1]), "lv" in repr(x)))
        if fields != [("operand0", False), ("operand1", True), ("operand2", True)] or not re.search(r"case\s*\0\s*:\s*goto\s+L\0\s*;\s*$", txt):
            ck.violation("switch-emission", "the emitted switch does not map case value operand1 to target operand2: %s" % fields)
    b, = build.compile_bc([vmtab.B + "spvm_precompile.c"])
    p = build.export(b, build.PASSES_SSA_LIGHT, tag="psw")
    f = p.fn("SPVM_PRECOMPILE_build_method_source")
    S = SwitchCode(p, f, v)
    n = 0
    recs = {}
    for r, (fl, rec) in S.fld.items():
        i = f.d(r)
        if i.bb in S.region and fl in ("operand1", "operand2") and not S.own(rec): recs.setdefault(rec, []).append(i)
    for rec, loads in recs.items():
        idx = S.info_index(rec)
        # base + opcode_index + k + 1
        cs = [x for x in idx if x != 1 and counter_in(f, x, S.region) is not None]
        if len(cs) != 1 or idx[cs[0]] != 1: ck.notes.append("emission loop of LOOKUP_SWITCH not recognised"); continue
        x = cs[0]; first = counter_in(f, x, S.region) + idx.get(1, 0)
        n += 1
        if first != 1: ck.violation("switch-first", "the emitted switch (%s) starts at record %d after the switch opcode instead of the first case" % (loads[0].loc, first)); continue
        # bound: position < length known where the record is read
        pos_c = counter_in(f, x, S.region)           # value of phi in the first iteration
        good = None
        for c, tr in f.edge_facts(loads[0].bb):
            d = f.d(c)
            if d is None or d.op != "icmp" or not isinstance(tr, bool): continue
            pr, a, bb = d.x if tr else sym.NEG.get(d.x, "?"), d.ops[0], d.ops[1]
            for (A, B, P) in ((a, bb, pr), (bb, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pr, pr))):
                la = linear(f, A); lb = linear(f, B)
                if la.get(x) == 1 and set(la) <= {x, 1} and x not in lb:
                    k = la.get(1, 0) + pos_c         # compared position in the first iteration
                    lens = [y for y in lb if y != 1]
                    if len(lens) != 1 or (S.opcode_field(lens[0]) or ("",))[0] != "operand2" or lb[lens[0]] != 1: continue
                    off = lb.get(1, 0)
                    good = {"slt": k - off == 0, "ne": k - off == 0, "sle": k - off == 1}.get(P, False)
        if good is None: ck.notes.append("bound of the LOOKUP_SWITCH emission loop not recognised")
        elif not good: ck.violation("switch-bound", "the emitted switch (%s) does not cover exactly the cases of the switch opcode" % loads[0].loc)
    ck.count("switch emission loops", n)

def counter_in(f, o, region):
    d = f.d(o) if isinstance(o, str) and o.startswith("%") else None
    return counter(f, o) if d is not None and d.op == "phi" and d.bb in region else None

def interp_switch(ck, v):
    bv, = build.compile_bc([vmtab.B + "spvm_vm.c"])
    p = build.export(bv, build.PASSES_SSA_LIGHT, tag="vls")
    f = p.fn("SPVM_VM_call_method")
    S = SwitchCode(p, f, v); region, vals = S.region, S.fld
    swapp = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
    # the operand tested: int_vars[operand0]
    n = 0
    for q in region:
        for i in f.blocks[q]:
            r = vals.get(i.ref)
            if not r or r[0] != "operand2" or S.own(r[1]): continue
            if not any(u.op in ("phi", "store") for u in f.users.get(i.ref, [])): continue
            n += 1
            facts = set()
            for c, tr in f.edge_facts(i.bb):
                d = f.d(c)
                if d is None or d.op != "icmp": continue
                same = [k for k, o in enumerate(d.ops) if vals.get(o) and vals[o][0] == "operand1" and vals[o][1] == r[1]]
                if not same or not isinstance(tr, bool): continue
                pr = d.x if tr else sym.NEG[d.x]
                if same[0] == 0: pr = swapp.get(pr, pr)
                facts.add(pr)
            if not ("eq" in facts or ("sle" in facts and "sge" in facts)):
                ck.violation("switch-select", "interpreter LOOKUP_SWITCH (%s): a case target is taken without the operand being equal to that case's value" % i.loc)
    ck.count("switch case targets", n)
    # the default target is taken only when no case value equals the operand
    lens = {r for r, (fl, rec) in vals.items() if fl == "operand2" and S.own(rec) and f.d(r).bb in region}
    bis = bisection(ck, f, p, S)
    if bis is None: ck.notes.append("case search of LOOKUP_SWITCH not recognised as a bisection; default selection not decided"); return
    lo, hi, lo0, hi0 = bis
    ok_range = lo0 == {1: 0} or lo0 == {}
    hl = dict(hi0); c = hl.pop(1, 0)
    ok_range = ok_range and len(hl) == 1 and next(iter(hl)) in lens and c == -1
    if not ok_range: ck.violation("switch-range", "interpreter LOOKUP_SWITCH (%s): the search does not start with all the cases of the switch (first 0, last length - 1)" % f.d(lo).loc)
    def why(cond, truth):
        d = f.d(cond)
        if d is None or d.op != "icmp": return None
        P = d.x if truth else sym.NEG.get(d.x, "?")
        for A, B, P in ((d.ops[0], d.ops[1], P), (d.ops[1], d.ops[0], swapp.get(P, P))):
            if A in lens and ir.cint(B) is not None and (P, ir.cint(B)) in (("sle", 0), ("slt", 1), ("eq", 0)): return "no cases"
            if A == hi and B == lo and P == "slt" or A == lo and B == hi and P == "sgt": return "search range empty"
            ra = vals.get(B)
            if ra and ra[0] == "operand1" and not S.own(ra[1]):
                idx = S.info_index(ra[1]); ls = [x for x in idx if x in lens]; k = idx.get(1, 0)
                if P == "slt" and not ls and k == 1: return "below the first case"
                if P == "sgt" and len(ls) == 1 and k == 0: return "above the last case"
        return None
    cut = set(); reasons = {}
    for q in region:
        t = f.blocks[q][-1]
        if t.op == "br" and len(t.ops) == 3:
            for k, tr in ((1, True), (2, False)):
                w = why(t.ops[0], tr)
                if w: cut.add((q, int(t.ops[k][1:]))); reasons[w] = reasons.get(w, 0) + 1
    # the values and the cells that hold the default target, along every path that no justified exit has left
    own = lambda o: bool(vals.get(o)) and vals[o][0] == "operand1" and S.own(vals[o][1])
    msg = "interpreter LOOKUP_SWITCH (%s): the default target is taken although a case equal to the operand may remain"
    tested = {f.blocks[q][-1].ops[0] for q in region if f.blocks[q][-1].op == "switch"}
    start = (S.b, frozenset(), frozenset(), frozenset())
    seen, st = {start}, [start]
    while st:
        q, held, cells, known = st.pop()
        for i in f.blocks[q]:
            if i.op == "store":
                if own(i.ops[0]) or i.ops[0] in held: cells = cells | {i.ops[1]}
                else: cells = cells - {i.ops[1]}
        t, ways = f.blocks[q][-1], f.succs[q]
        if t.op == "switch" and t.ops[0] in dict(known):
            # the compiler's own note of how a statement was left (break, continue, falling through)
            c = dict(known)[t.ops[0]]; hit = [t.ops[k + 1] for k in range(2, len(t.ops), 2) if ir.cint(t.ops[k]) == c]
            ways = [int((hit or [t.ops[1]])[0][1:])]
        for r in ways:
            if (q, r) in cut: continue
            nh, nk = set(held), dict(known)
            for i in f.blocks[r]:
                if i.op != "phi": break
                for k in range(0, len(i.ops), 2):
                    if int(i.ops[k + 1][1:]) != q: continue
                    if i.ref in tested:
                        nk.pop(i.ref, None); c = ir.cint(i.ops[k])
                        if c is not None: nk[i.ref] = c
                    if own(i.ops[k]) or i.ops[k] in held:
                        nh.add(i.ref)
                        if r not in region: ck.violation("switch-default-early", msg % f.blocks[q][-1].loc)
                    else: nh.discard(i.ref)
            if r not in region:
                if cells: ck.violation("switch-default-early", msg % f.blocks[q][-1].loc)
                continue
            nx = (r, frozenset(nh), cells, frozenset(nk.items()))
            if nx not in seen: seen.add(nx); st.append(nx)
    ck.count("justified default exits", sum(reasons.values()))

def bisection(ck, f, p, S):
    """(lo phi, hi phi, initial lo, initial hi) when the search is a bisection; each half step must exclude only the probed element"""
    region, vals = S.region, S.fld
    phis = [i for q in region for i in f.blocks[q] if i.op == "phi"]
    mids = [i for q in region for i in f.blocks[q] if i.op in ("sdiv", "udiv") and ir.cint(i.ops[1]) == 2 or i.op in ("ashr", "lshr") and i.ops and ir.cint(i.ops[1]) == 1]
    if len(mids) != 1: return None
    swapp = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
    steps = {}
    for i in phis:
        for k in range(0, len(i.ops), 2):
            d = f.d(i.ops[k])
            if d is None or d.op not in ("add", "sub"): continue
            c = ir.cint(d.ops[1])
            if c is None: continue
            c = c if d.op == "add" else -c
            mid = f.d(d.ops[0])
            if mid is None or not reaches(f, mid, mids[0]): continue
            pr, weak, apart = None, None, False
            for cnd, tr in f.edge_facts(d.bb):
                x = f.d(cnd)
                if x is None or x.op != "icmp" or not isinstance(tr, bool): continue
                pos = [j for j, o in enumerate(x.ops) if vals.get(o, ("",))[0] == "operand1"]
                if not pos: continue
                q = x.x if tr else sym.NEG[x.x]
                if pos[0] == 0: q = swapp.get(q, q)
                if q in ("sgt", "slt"): pr = q; break
                if q == "ne": apart = True
                elif q in ("sge", "sle"): weak = q
            if pr is None and weak: pr = {"sge": "sgt", "sle": "slt"}[weak] if apart else weak
            ck.count("bisection steps")
            if pr is None: return None
            if (pr, c) not in (("sgt", 1), ("slt", -1)):
                ck.violation("switch-bisect", "interpreter LOOKUP_SWITCH (%s): the bisection step moves a bound by %d under a '%s' comparison" % (d.loc, c, pr))
            if pr: steps.setdefault(pr, set()).add(d.ref)
    # the loop-carried bounds: phis entered from outside the search loop whose inner inputs lead to the steps of one direction
    def sources(i, inner):
        out, st, seen = set(), list(inner), {i.ref}
        while st:
            o = st.pop()
            if o in seen: continue
            seen.add(o)
            d = f.d(o)
            if d is not None and d.op == "phi" and d.bb in region: st.extend(d.ops[0::2])
            else: out.add(o)
        return out
    L, H = [], []
    for i in phis:
        ins = [(i.ops[k], int(i.ops[k + 1][1:])) for k in range(0, len(i.ops), 2)]
        outer = [(o, b) for o, b in ins if not f.dominates(i.bb, b)]
        if not outer or len(outer) == len(ins): continue
        src = sources(i, [o for o, b in ins if (o, b) not in outer])
        if src & steps.get("sgt", set()): L.append((i, outer))
        if src & steps.get("slt", set()): H.append((i, outer))
    if len(L) != 1 or len(H) != 1 or L[0][0] is H[0][0]: return None
    return L[0][0].ref, H[0][0].ref, linear(f, L[0][1][0][0]), linear(f, H[0][1][0][0])

def reaches(f, i, target, depth=6):
    if i is target: return True
    if depth == 0: return False
    return any(f.d(o) is not None and reaches(f, f.d(o), target, depth - 1) for o in i.ops if o.startswith("%"))

def emitted_ids():
    """opcode ids the compiler can put into an opcode: constants reaching the id argument of the
    setter or a store to the id field"""
    b, = build.compile_bc([vmtab.B + "spvm_opcode_builder.c"])
    p = build.export(b, build.PASSES_SSA_LIGHT, tag="ids")
    out, unknown = set(), []
    for f in p.fns.values():
        for i in f.all():
            if i.op == "call" and i.callee == "SPVM_OPCODE_BUILDER_set_opcode_id": o = i.args[-1]
            elif i.op == "store":
                g = f.d(i.ops[1])
                if g is None or g.op != "getelementptr" or g.x != "struct.spvm_opcode" or p.field(g.x, ir.cint(g.ops[-1])) != "id": continue
                o = i.ops[0]
            else: continue
            st, seen = [o], set()
            while st:
                o = st.pop()
                if o in seen: continue
                seen.add(o)
                c = ir.cint(o)
                if c is not None: out.add(c); continue
                d = f.d(o)
                if d is None: unknown.append(i.loc)
                elif d.op == "phi": st.extend(d.ops[0::2])
                elif d.op == "select": st.extend(d.ops[1:])
                elif d.op in ("trunc", "zext", "sext", "freeze"): st.append(d.ops[0])
                else: unknown.append(i.loc)
    return out, unknown
