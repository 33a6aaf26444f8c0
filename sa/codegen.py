"""Abstract syntax trees given to the opcode builder: the builder is evaluated by the abstract interpreter on each of a set of
trees whose leaves stand for every variable, field, method and constant; the emitted opcodes are compared with the meaning of the operator."""
from . import absint, kinds, spec
from .absint import C, S, P, St
from .build import AnalysisBroken

BASE = 1000000      # the id of the class under compilation; the kinds of types have smaller ones
NUM = ("byte", "short", "int", "long", "float", "double")

class Tree:
    """builds the abstract memory of one tree"""
    def __init__(s, w, prog):
        s.w, s.prog, s.e = w, prog, prog.enums
        s.st = kinds.state(prog); s.n = 0
        for t in "12":       # Bool is a kind of its own
            for n in ("class", "interface", "mulnum"): s.st.rng[n + t] = (s.e["SPVM_NATIVE_C_BASIC_TYPE_ID_BOOL_CLASS"] + 1, BASE - 1)
        s.type = {}; s.lists = {}; s.opid = {}
        s.elem = "int"
    def obj(s, kind, **f):
        s.n += 1
        o = ("obj", kind, s.n)
        s.st.zero = s.st.zero | {o}
        for k, v in f.items(): s.st.mem[(o, tuple(k.split("__")))] = v
        return P(o)
    def raw(s, kind, **f):
        """an object whose fields are unknown"""
        o = s.obj(kind, **f); s.st.zero = s.st.zero - {o[1]}
        return o
    def put(s, p, f, v): s.st.mem[(p[1], (f,))] = v
    def get(s, p, f): return s.st.mem.get((p[1], (f,)), C(0))
    def rng(s, name, lo, hi): s.st.rng[name] = (lo, hi); return S(name)
    def list(s, items, length=None):
        l = s.obj("list", length=length or C(len(items)))
        s.st.mem[(l[1], ("items",))] = ("items", tuple(items)); s.st.mem[(l[1], ("values",))] = P(("obj", "values", l[1][2]))
        for i, x in enumerate(items): s.st.mem[(("obj", "values", l[1][2]), (("[]", C(i)),) if i else ())] = x
        return l
    def ty(s, k): return s.obj("type", basic_type=P(("obj", "bt", k.bid)), dimension=k.dim, flag=C(k.flag))
    def op(s, name, kids=(), type=None, uv=None, flag=0, line=None):
        o = s.obj("op", id=C(s.e["SPVM_OP_C_ID_" + name]), flag=C(flag), line=S("line") if line is None else line)
        s.opid[o] = name
        if kids:
            s.put(o, "first", kids[0]); s.put(o, "last", kids[-1])
            for i, k in enumerate(kids):
                s.put(k, "moresib", C(1 if i + 1 < len(kids) else 0))
                s.put(k, "sibparent", kids[i + 1] if i + 1 < len(kids) else o)
        if uv is not None: s.put(o, "uv", uv)
        if type is not None: s.type[o[1]] = s.ty(type)
        return o
    def var(s, name, type, declared=0, initialized=0, arg=0):
        d = s.obj("var_decl", typed_var_index=s.rng("idx:" + name, 0, 65535), is_arg=C(arg))
        s.put(d, "type", s.ty(type))
        v = s.obj("var", var_decl=d, is_declaration=C(declared), is_initialized=C(initialized))
        o = s.op("VAR", type=type, uv=v)
        dop = s.op("VAR_DECL", type=type, uv=d); s.put(d, "op_var_decl", dop)
        return o
    def field(s, type=None, index=None):
        return s.obj("field", index=index or s.rng("field.index", 0, 254), current_basic_type=s.obj("owner", id=s.rng("owner.id", 0, 65535)), type=s.ty(type) if type else C(0))
    def method(s, root, rtype=None, args=(), native=0):
        s.opcodes = s.obj("opcodes", length=C(0), values=P(("obj", "opvals", 0)))
        s.bt = s.obj("class", id=S("cur.id"), file=s.obj("str"), constant_string_symtable=s.obj("symtable"))
        m = s.obj("method", opcode_list=s.opcodes, op_name=s.obj("op"), return_type=rtype or s.ty(s.kind("int")), current_basic_type=s.bt, args_length=C(len(args)), var_decls=s.list(list(args)),
                  is_native=C(native), op_block=root, index=S("method.index"))
        s.put(m, "op_method", s.op("METHOD", uv=m))
        s.put(s.bt, "methods", s.list([m])); s.m = m
        s.btlist = s.obj("list", length=C(BASE + 1))
        return s.obj("compiler", basic_types_base_id=C(BASE), basic_types=s.btlist)
    def kind(s, name): return s.w.byname[name]

class Interp(absint.Interp):
    """comparisons of linear combinations of bounded symbols are decided by their ranges"""
    lin = None
    def cmp(s, st, p, a, b):
        r = absint.Interp.cmp(s, st, p, a, b)
        if r is not None: return r
        if p in ("eq", "ne"):
            # different variables have different indexes
            x, y = s.lin.lin0(st, a), s.lin.lin0(st, b)
            one = lambda z: z and len(z[0]) == 1 and not z[1] and z[0][0][1] == 1 and isinstance(z[0][0][0], str) and z[0][0][0].startswith("idx:")
            if one(x) and one(y): return (x == y) == (p == "eq")
            return None
        if p[0] != "s": return None
        x, y = s.lin.range(st, s.lin.lin0(st, a)), s.lin.range(st, s.lin.lin0(st, b))
        if x is None or y is None: return None
        if p in ("sgt", "sge"): x, y, p = y, x, "slt" if p == "sgt" else "sle"
        if p == "slt": return True if x[1] < y[0] else False if x[0] >= y[1] else None
        return True if x[1] <= y[0] else False if x[0] > y[1] else None

class Build:
    def __init__(s, prog):
        s.prog = prog
        s.w = kinds.World(prog)
        s.w.byname = {k.name: k for k in kinds.kinds(prog)}
        bid = C(prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_BOOL_CLASS"])
        s.w.byname["Bool"] = kinds.Kind("Bool", bid, C(0), 0, "Bool", "CLASS"); s.w.catof[bid] = s.w.cat["CLASS"]
        s.w2 = {k.name: k for k in kinds.kinds(prog, True)}
        s.opname = {v: k[len("SPVM_OPCODE_C_ID_"):] for k, v in prog.enums.items() if k.startswith("SPVM_OPCODE_C_ID_")}
        s.cache = {}
        s.it = Interp(prog, oracle=s.oracle, field=s.field, differ=kinds.differ, budget=10**9, maxvisit=2000, cached=("SPVM_TYPE_is_", "SPVM_BASIC_TYPE_is_", "SPVM_TYPE_get_type_width"))
        s.it.lin = s
        spec.build()
    # oracles ---------------------------------------------------------------
    def items(s, st, l): return st.mem[(l[1], ("items",))][1]
    def setitems(s, st, l, it):
        st.mem[(l[1], ("items",))] = ("items", tuple(it)); st.mem[(l[1], ("length",))] = C(len(it))
    def oracle(s, it, n, a, st):
        if n == "SPVM_LIST_new":
            st.n += 1
            l = P(("obj", "list", "new%d" % st.n)); s.setitems(st, l, ())
            return [(l, st)]
        if n == "SPVM_LIST_get" and a[0] == s.t.btlist:
            if a[1] == C(BASE): return [(s.t.bt, st)]
            return s.w.oracle(it, n, a, st)
        if n in ("SPVM_LIST_get", "SPVM_LIST_pop", "SPVM_LIST_push", "SPVM_LIST_set") and a[0][0] == "p" and (a[0][1], ("items",)) in st.mem:
            l = s.items(st, a[0])
            if n == "SPVM_LIST_push": s.setitems(st, a[0], l + (a[1],)); return [(C(0), st)]
            if n == "SPVM_LIST_pop":
                if not l: return [(("abort", "empty list popped"), st)]
                s.setitems(st, a[0], l[:-1]); return [(l[-1], st)]
            if a[1][0] != "c" or not 0 <= a[1][1] < len(l): return [(("abort", "list read out of range"), st)]
            if n == "SPVM_LIST_set": s.setitems(st, a[0], l[:a[1][1]] + (a[2],) + l[a[1][1] + 1:]); return [(C(0), st)]
            return [(l[a[1][1]], st)]
        if n == "SPVM_LIST_get" and a[0][0] == "p" and a[0][1][:2] == ("obj", "fields"): return [(P(("obj", "mfield")), st)]
        if n == "SPVM_LIST_free": return [(C(0), st)]
        if n == "SPVM_CHECK_get_type":
            t = s.t.type.get(a[1][1]) if a[1][0] == "p" else None
            if t is None: raise absint.GiveUp("type of %s asked" % (a[1],))
            return [(t, st)]
        if n == "SPVM_OPCODE_LIST_push_opcode":
            l, o = a[1], a[2]
            c = st.mem[(l[1], ("length",))][1]
            pre = (("[]", C(c)),) if c else ()
            for f in ("id", "operand0", "operand1", "operand2", "operand3"):
                v = st.mem.get((o[1], o[2] + (f,)))
                if v is None: v = C(0) if o[1] in st.zero else ("u", 0, "uninitialised")
                st.mem[(("obj", "opvals", 0), pre + (f,))] = v
            st.mem[(l[1], ("length",))] = C(c + 1)
            return [(C(0), st)]
        if n == "SPVM_HASH_get":
            if a[0][0] == "p" and a[0][1][:2] == ("obj", "symtable"): return [(P(("obj", "conststr", a[1])), st)]
            if a[0][0] == "p" and a[0][1][:2] == ("obj", "methods"): return [(s.t.callee, st)]
        if n == "strlen": return [(("s", ("strlen", a[0])), st)]
        if n == "SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion": return [(C(s.assignable), st)]
        return s.w.oracle(it, n, a, st)
    def field(s, it, o, path, ty, st):
        if isinstance(o, tuple) and path:
            if o[:2] == ("obj", "conststr") and path[-1] == "index":
                st.rng["conststr.index"] = (0, 65535); return S("conststr.index")
            if o[:2] == ("obj", "mfield") and path[-1] == "type": return s.t.elemtype
            if o[:2] == ("obj", "mfield") and path[-1] == "index": return C(0)
            if o[:2] == ("obj", "constant") and path[0] == "value": return S("const:" + ty)
        return s.w.field(it, o, path, ty, st)
    # running -----------------------------------------------------------------
    def tree(s, elem="int"):
        t = Tree(s.w, s.prog); t.elemtype = t.ty(s.w.byname[elem]); s.t = t; s.assignable = 0
        return t
    def run(s, comp):
        """[opcodes or 'abort' or None] for every way through the builder"""
        try: r = s.it.call("SPVM_OPCODE_BUILDER_build_opcodes", (comp,), s.t.st)
        except absint.GiveUp as e: return [("give up", str(e))]
        out = []
        for v, st in r:
            if v is not None and v[0] == "abort": out.append("abort"); continue
            n = st.mem.get((s.t.opcodes[1], ("length",)))
            if n is None or n[0] != "c": out.append(None); continue
            ops = []
            s.final = st
            for i in range(n[1]):
                g = lambda f: st.mem.get((("obj", "opvals", 0), ((("[]", C(i)),) if i else ()) + (f,)))
                ops.append((s.opname.get(g("id")[1], "?") if g("id") and g("id")[0] == "c" else "?",) + tuple(s.lin(st, g("operand%d" % k)) for k in range(4)))
            out.append(ops)
        return out
    def capacity(s):
        """how many object variables a call of the method can keep"""
        v = s.final.mem.get((s.t.m[1], ("mortal_stack_length",)))
        return v[1] if v and v[0] == "c" else None
    def lin(s, st, v):
        """normal form of an operand: a linear combination of symbols"""
        r = s.lin0(st, v)
        return r if r is not None else ("?", str(v))
    def lin0(s, st, v):
        if v is None: return None
        if v[0] == "c": return ((), v[1])
        if v[0] == "s": return (((v[1], 1),), 0)
        if v[0] == "+":
            a = s.lin0(st, v[1]); return a and (a[0], a[1] + v[2])
        if v[0] == "p": return (((v[1:], 1),), 0)
        if v[0] == "u2":
            if v[1] == "trunc":
                a = s.lin0(st, v[3]); r = s.range(st, a); bits = {"i16": 16, "i32": 32, "i8": 8}.get(v[2], 64)
                return a if r and 0 <= r[0] and r[1] < (1 << bits) else None
            a, b = s.lin0(st, v[2]), s.lin0(st, v[3])
            if a is None or b is None: return None
            if v[1] == "shl" and not b[0]: return (tuple((k, c << b[1]) for k, c in a[0]), a[1] << b[1])
            if v[1] == "mul" and not b[0]: return (tuple((k, c * b[1]) for k, c in a[0]), a[1] * b[1])
            if v[1] == "and" and not b[0] and b[1] & (b[1] + 1) == 0:
                r = s.range(st, a)
                return a if r and 0 <= r[0] and r[1] <= b[1] else None
            if v[1] == "or":
                ra, rb = s.range(st, a), s.range(st, b)
                low = lambda x: min([abs(c) & -abs(c) for k, c in x[0]] + ([abs(x[1]) & -abs(x[1])] if x[1] else []) + [1 << 40])
                if ra and rb and (0 <= rb[0] and rb[1] < low(a) and ra[0] >= 0 or 0 <= ra[0] and ra[1] < low(b) and rb[0] >= 0): return s.plus(a, b, 1)
                return None
            if v[1] in ("add", "sub"): return s.plus(a, b, 1 if v[1] == "add" else -1)
        return None
    def plus(s, a, b, k):
        d = dict(a[0])
        for n, c in b[0]: d[n] = d.get(n, 0) + k * c
        return (tuple(sorted(((n, c) for n, c in d.items() if c), key=str)), a[1] + k * b[1])
    def range(s, st, a):
        if a is None: return None
        lo = hi = a[1]
        for n, c in a[0]:
            r = st.rng.get(n)
            if r is None: return None
            lo += min(c * r[0], c * r[1]); hi += max(c * r[0], c * r[1])
        return lo, hi

def sym(n, k=0, mul=1): return (((n, mul),), k)
def con(n): return ((), n)
def used(name): return [k for k in range(4) if "opcode->operand%d" % k in spec.BODY[name]]
def throws(name): return name not in ("GOTO_END_OF_EVAL_ON_EXCEPTION", "GOTO_END_OF_METHOD_ON_EXCEPTION", "CLEAR_EVAL_ERROR_ID") and ("THROW_" in spec.BODY[name] or "error_id =" in spec.BODY[name].replace("eval_error_id =", ""))
def showv(v):
    if v[0] == "?": return v[1][:60]
    t = ["%s%s" % ("" if c == 1 else "%d*" % c, k if isinstance(k, str) else str(k)) for k, c in v[0]]
    if v[1] or not t: t.append(str(v[1]))
    return "+".join(t)
def show(op):
    if isinstance(op, str): return op
    return "%s(%s)" % (op[0], ", ".join("%d: %s" % (k, showv(op[1 + k])) for k in (used(op[0]) if op[0] in spec.BODY else range(4))))
