"""Region summaries: the ordered effects (stores, calls, exits) of a single-entry code region as a
decision tree over canonical value expressions.  This is value numbering over the CFG region; no
path is handed to a solver and nothing is executed."""
import sys
from .ir import cint, cstr
sys.setrecursionlimit(20000)

class Loop(Exception): pass
class TooBig(Exception): pass

PURE_PREFIX = ("SPVM_API_RUNTIME_get_", "SPVM_API_BASIC_TYPE_get_", "SPVM_API_METHOD_get_", "SPVM_API_FIELD_get_",
               "SPVM_API_CLASS_VAR_get_", "SPVM_API_TYPE_", "SPVM_OPCODE_get_", "SPVM_OPCODE_C_ID_NAMES")
COMM = ("add", "mul", "and", "or", "xor", "fadd", "fmul")

SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}
def retype(e, t, ty):
    """value stored with type t, read back with type ty"""
    if SIZE.get(t) == SIZE.get(ty):
        if e[0] == "load": return ("load", ty) + e[2:]
        if e[0] == "cast" and e[1].startswith("bitcast:"): return retype(e[2], None, ty) if e[2][0] == "load" else ("cast", "bitcast:" + ty, e[2])
    return ("cast", "bitcast:" + ty, e)

def fold(op, a, b, bits):
    if a[0] != "c" or b[0] != "c": return None
    x, y = a[1], b[1]; m = (1 << bits) - 1
    ux, uy = x & m, y & m
    r = {"add": x + y, "sub": x - y, "mul": x * y, "and": ux & uy, "or": ux | uy, "xor": ux ^ uy,
         "shl": ux << uy if uy < 64 else 0, "lshr": ux >> uy, "ashr": x >> uy}.get(op)
    if r is None and op in ("sdiv", "srem") and y:
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); r = q if op == "sdiv" else x - q * y
    if r is None and op in ("udiv", "urem") and uy: r = ux // uy if op == "udiv" else ux % uy
    if r is None: return None
    r &= m
    if r >> (bits - 1): r -= 1 << bits
    return ("c", r)

PRED = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
        "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
        "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b, "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b}
SWAP = {"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule", "ogt": "olt", "oge": "ole"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult"}

def local_vars(fn):
    alloca, escaped, cnt = {}, set(), {}
    for i in fn.all():
        if i.op == "alloca":
            n = i.x.split("|")[1] or "t%d" % i.id
            cnt[n] = cnt.get(n, 0) + 1
            alloca[i.ref] = n if cnt[n] == 1 else "%s~%d" % (n, cnt[n])
    for i in fn.all():
        for k, o in enumerate(i.ops):
            if o in alloca:
                if i.op == "load" or (i.op == "store" and k == 1): continue
                if i.op in ("getelementptr", "bitcast"): continue   # handled by field
                escaped.add(o)
    return alloca, escaped, {n: r for r, n in alloca.items()}

def split(a):
    """address -> (base, steps)"""
    o = ()
    while a[0] == "gep": o = ((a[1], a[3]),) + o; a = a[2]
    return a, o

def disjoint(a, b, ta=None, tb=None):
    """two addresses certainly name different places"""
    (x, o), (y, q) = split(a), split(b)
    if x[0] == "var" and y[0] == "var" and x[1] != y[1]: return True      # different arrays of the frame
    if o and q:
        for (p, i), (r, j) in ((o[-1], q[-1]), (o[0], q[0])):
            if p.startswith("struct.") and r.startswith("struct.") and len(i) == len(j) == 2:
                if p != r and (len(o) == len(q) == 1): return True
                if p == r and i[1] != j[1] and i[1][0] == j[1][0] == "c": return True
    if x == y and len(o) == len(q) and o and o[:-1] == q[:-1]:
        (p, i), (r, j) = o[-1], q[-1]
        if p == r and len(i) == len(j) and i[:-1] == j[:-1] and i[-1][0] == j[-1][0] == "c" and i[-1] != j[-1]: return True
    if len(o) == len(q) == 1 and {o[0][0].split(".")[0], q[0][0].split(".")[0]} == {"struct", "union"}: return True
    if x == y and not o and len(q) == 1 and q[0][0].startswith("union.") and q[0][1][0][0] == "c" and q[0][1][0][1] != 0: return True
    if x == y and not q and len(o) == 1 and o[0][0].startswith("union.") and o[0][1][0][0] == "c" and o[0][1][0][1] != 0: return True
    return False

class State:
    __slots__ = ("v", "mem", "ver", "eff", "conds", "hist")
    def __init__(s): s.v, s.mem, s.ver, s.eff, s.conds, s.hist = {}, {}, {}, [], [], ()
    def clobber(s, c):
        s.ver[c] = s.ver.get(c, 0) + 1
        if s.hist: s.hist = tuple(h for h in s.hist if h[0] != c)
    def copy(s):
        n = State(); n.v, n.mem, n.ver, n.hist = dict(s.v), dict(s.mem), dict(s.ver), s.hist
        n.eff, n.conds = list(s.eff), list(s.conds); return n

class Walker:
    only = None     # headers of the loops walked like that
    unroll = 0      # rounds of every loop walked one after the other instead of any round at once
    def __init__(s, fn, stop=(), pure=PURE_PREFIX, ignore_calls=(), limit=4000, live=(), resolve_args=True, onexit=None, rename=None, immut=(), assume=None):
        s.assume = assume
        s.fn, s.stop, s.pure, s.ign = fn, dict(stop) if isinstance(stop, dict) else {b: "stop" for b in stop}, tuple(pure), ignore_calls
        s.n = 0; s.limit = limit; s.live = live if live is True else tuple(live); s.rename = rename or {}
        s.immut = immut
        if not hasattr(fn, "_vars"): fn._vars = local_vars(fn)
        s.alloca, s.escaped, s.by_name = fn._vars
    def aside(s, name): return False     # calls that only change what this function never reads
    # loops ---------------------------------------------------------------
    def leads(s, p, x, via):
        """control can pass from p through x to via: where x ends the scope of a variable, the compiler notes how the scope is left"""
        B = s.fn.blocks; t = B[x][-1]
        if t.op != "switch" or B[p][-1].op != "br" or len(B[p][-1].ops) != 1: return True
        d = s.fn.d(t.ops[0])
        if d is None or d.op != "load" or d.bb != x or d.ops[0] not in s.alloca: return True
        a = d.ops[0]
        if any(i.op == "store" and i.ops[1] == a for i in B[x]): return True
        c = [cint(i.ops[0]) for i in B[p] if i.op == "store" and i.ops[1] == a]
        if not c or c[-1] is None: return True
        hit = [t.ops[k + 1] for k in range(2, len(t.ops), 2) if cint(t.ops[k]) == c[-1]]
        return int((hit or [t.ops[1]])[0][1:]) == via
    def loopinfo(s):
        f = s.fn
        if hasattr(f, "_loopinfo"): return f._loopinfo
        if True:
            s._loops = f._loopinfo = {}
            for b in range(len(f.blocks)):
                for q in f.succs[b]:
                    if f.dominates(q, b):
                        body = {q}; st = [(b, q)]; seen = set()
                        while st:
                            x, via = st.pop()
                            if x == q or (x, via) in seen: continue
                            seen.add((x, via)); body.add(x)
                            st.extend((p, x) for p in f.preds[x] if s.leads(p, x, via))
                        s._loops.setdefault(q, set()).update(body)
        return s._loops
    # values --------------------------------------------------------------
    def val(s, o, st):
        if o.startswith("%"):
            if o in s.alloca: return ("addr", s.nm(o))
            e = st.v.get(o)
            return e if e is not None else ("ext", o)
        if o.startswith("$"): return ("arg", int(o[1:]), s.fn.params[int(o[1:])][0])
        c = cint(o)
        if c is not None: return ("c", c)
        if o == "null": return ("c", 0)
        if o.startswith('"'): return ("str", o[1:])
        return ("k", o)
    def nm(s, o):
        n = s.alloca[o]; return s.rename.get(n, n)
    def root(s, a):
        while True:
            if a[0] == "gep": a = a[2]
            elif a[0] in ("cast",): a = a[2]
            elif a[0] == "op" and a[1] == "add": a = a[2] if a[2][0] != "c" else a[3]
            elif a[0] == "load": 
                r = s.root(a[2])
                return r
            else: return a
    def cls(s, a):
        """memory class of an address"""
        # direct element of a local array variable (pointer held in variable X)
        b = a
        while b[0] in ("gep",): b = b[2]
        if b[0] == "addr": return ("local", b[1])
        if b[0] == "var": return ("via", b[1])
        return ("heap",)
    def place(s, a): return a
    forward = True
    def read(s, st, ty, a):
        """value found at an address: the last store to it, or memory as of the last store that may touch it"""
        c = s.cls(a); n = 0
        for k in range(len(st.hist) - 1, -1, -1):
            hc, ha, ht, hv = st.hist[k]
            if hc != c: continue
            if ha == a and n == 0 and s.forward and (ht == ty or (SIZE.get(ht) == SIZE.get(ty) and {ht, ty} == {"ptr", "i64"})): return hv
            if not disjoint(ha, a): n += 1
        b = st.ver.get(c, 0) + 1000 * st.ver.get("loop", 0)
        return ("load", ty, a, b if not n else (b, n))
    def inst(s, i, st):
        op = i.op; v = lambda k: s.val(i.ops[k], st)
        if op == "alloca": return
        if op == "load":
            p = i.ops[0]
            a = s.place(v(0))
            if a[0] == "addr":
                key = a[1]
                if key in st.mem:
                    t, e = st.mem[key]
                    st.v[i.ref] = e if t == i.ty or t is None else retype(e, t, i.ty)
                else: st.v[i.ref] = ("var", key, 0); st.mem[key] = (i.ty, ("var", key, 0))
                return
            if a[0] == "gep" and a[2][0] == "addr" and ("fld", a) in st.mem:
                t, e = st.mem[("fld", a)]
                st.v[i.ref] = e if t == i.ty or t is None else retype(e, t, i.ty); return
            if any(x(a) for x in s.immut): st.v[i.ref] = ("load", i.ty, a, 0)
            else: st.v[i.ref] = s.read(st, i.ty, a)
            return
        if op == "store":
            a = s.place(v(1)); x = v(0)
            if a[0] == "addr":
                st.mem[a[1]] = (i.x, x); return
            if a[0] == "gep" and a[2][0] == "addr": st.mem[("fld", a)] = (i.x, x)
            s.write(st, i.x, a, x); return
        if op == "getelementptr":
            base = v(0); idx = tuple(s.val(o, st) for o in i.ops[1:])
            if all(q == ("c", 0) for q in idx) and not (len(idx) == 2 and i.x.startswith("struct.")): st.v[i.ref] = base if not (base[0] == "gep") else base; return
            if i.x in ("i8", "i16", "i32", "i64", "ptr", "float", "double") and base[0] == "gep" and base[1] == i.x and len(idx) == 1 and len(base[3]) == 1:
                f = fold("add", base[3][0], idx[0], 64)
                if f: base, idx = base[2], (f,)
            st.v[i.ref] = ("gep", i.x, base, idx); return
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            a = v(0)
            if op in ("ptrtoint", "inttoptr", "bitcast") and i.ty in ("i64", "ptr"): st.v[i.ref] = a; return
            if a[0] == "c" and op in ("sext", "zext", "trunc"):
                x = a[1]; sb = int(i.x[1:]); db = int(i.ty[1:])
                if op == "zext": x &= (1 << sb) - 1
                x &= (1 << db) - 1
                if x >> (db - 1) and db > 1: x -= 1 << db
                st.v[i.ref] = ("c", x); return
            if op == "zext" and i.x == "i1" and False: pass
            st.v[i.ref] = ("cast", "%s:%s:%s" % (op, i.x, i.ty), a); return
        if op == "icmp" or op == "fcmp":
            a, b, p = v(0), v(1), i.x
            if a[0] == "c" and b[0] == "c" and p in PRED: st.v[i.ref] = ("c", 1 if PRED[p](a[1], b[1]) else 0); return
            if (p == "ult" and a == ("c", -1)) or (p == "ugt" and b == ("c", -1)): st.v[i.ref] = ("c", 0); return
            # icmp ne (zext i1 x), 0 -> x
            if p in ("ne", "eq") and b == ("c", 0):
                z = a
                while z[0] == "cast" and z[1].startswith(("zext:", "sext:")): z = z[2]
                if z[0] in ("cmp",) :
                    st.v[i.ref] = z if p == "ne" else s.neg(z); return
            if p in SWAP: p, a, b = SWAP[p], b, a
            if p in ("eq", "ne") and a > b if False else False: pass
            if p in ("eq", "ne", "oeq", "une") and repr(a) > repr(b): a, b = b, a
            st.v[i.ref] = ("cmp", p, a, b); return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = v(0), v(1)
            if op == "xor" and i.ty == "i1" and b == ("c", 1) or op == "xor" and i.ty == "i1" and b == ("c", -1):
                if a[0] == "cmp": st.v[i.ref] = s.neg(a); return
            if i.ty.startswith("i"):
                r = fold(op, a, b, int(i.ty[1:]))
                if r: st.v[i.ref] = r; return
                if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and b == ("c", 0): st.v[i.ref] = a; return
                if op == "add" and a == ("c", 0): st.v[i.ref] = b; return
            if op in COMM and repr(a) > repr(b): a, b = b, a
            st.v[i.ref] = ("op", op, a, b); return
        if op == "fneg": st.v[i.ref] = ("op", "fneg", v(0)); return
        if op == "select":
            c = v(0)
            if c[0] == "c": st.v[i.ref] = v(1) if c[1] else v(2); return
            st.v[i.ref] = ("sel", c, v(1), v(2)); return
        if op == "call":
            n = i.callee
            if n and n.startswith("llvm."):
                if n.startswith("llvm.expect"): st.v[i.ref] = v(1); return
                if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")): return
                if n.startswith("llvm.fabs") or n.startswith("llvm.fmuladd") or n.startswith("llvm.s") or n.startswith("llvm.u") or n.startswith("llvm.bswap"):
                    st.v[i.ref] = ("pure", n) + tuple(s.val(o, st) for o in i.ops[1:]); return
            cal = n if n else s.val(i.ops[0], st)
            args = tuple(s.val(o, st) for o in i.ops[1:])
            if n and n.startswith(s.pure):
                st.v[i.ref] = ("pure", n) + args; return
            if n in s.ign:
                st.v[i.ref] = ("ignored", n); return
            for a in args:
                b = a
                while b[0] == "gep": b = b[2]
                if b[0] == "addr":
                    # value observed by the callee is part of the call
                    pass
            seen = tuple((a[1], st.mem[a[1]][1] if a[1] in st.mem else ("var", a[1], 0)) for a in args if a[0] == "addr")
            k = sum(e[0] not in ("store", "loop") for e in st.eff)
            st.eff.append(("call", cal, args, seen) if seen else ("call", cal, args))
            st.v[i.ref] = ("ret", k, i.ty)
            for a in args:
                b = a
                while b[0] == "gep": b = b[2]
                if b[0] == "addr":
                    st.mem[b[1]] = (None, ("var", b[1], ("after", k)))
                    for kk in [q for q in st.mem if isinstance(q, tuple) and q[1][2] == b]: del st.mem[kk]
                    st.clobber(("local", b[1]))
                elif b[0] == "var": st.clobber(("via", b[1]))
            st.clobber(("heap",))
            return
        if op == "extractvalue":
            st.v[i.ref] = ("ev", i.x, v(0)); return
        if op in ("atomicrmw", "cmpxchg", "fence", "insertvalue", "freeze", "va_arg"):
            k = sum(e[0] not in ("store", "loop") for e in st.eff); st.eff.append((op, i.x) + tuple(s.val(o, st) for o in i.ops)); st.v[i.ref] = ("ret", k, i.ty); return
        raise TooBig("unsupported instruction %r" % i)
    def neg(s, c):
        if c[0] == "cmp" and c[1] in NEG:
            p, a, b = NEG[c[1]], c[2], c[3]
            if p in SWAP: p, a, b = SWAP[p], b, a
            return ("cmp", p, a, b)
        return ("not", c)
    def write(s, st, ty, a, x):
        st.hist = st.hist + ((s.cls(a), a, ty, x),)
        st.eff.append(("store", ty, a, x))
    # control ---------------------------------------------------------------
    def walk(s, b, st, prev=None, path=(), nocheck=False):
        """-> tree: ('leaf', effects, exit) | ('br', effects, cond, t, f) | ('sw', effects, cond, {case: tree})"""
        s.n += 1
        if s.n > s.limit: raise TooBig("region too large")
        if b in s.stop and not nocheck: return s.leaf(st, s.stop[b])
        loops = s.loopinfo()
        if s.unroll and b in loops and (s.only is None or b in s.only):
            if path.count(b) > s.unroll: return s.leaf(st, "cut")
            path = path + (b,)
        elif b in path and not nocheck: return s.leaf(st, "back")
        elif b in loops and not nocheck:
            # havoc what the loop changes
            body = loops[b]
            entry = {}; touch = set(); stores = []
            for x in body:
                for i in s.fn.blocks[x]:
                    if i.op == "store" and i.ops[1] in s.alloca:
                        n = s.nm(i.ops[1])
                        if n not in entry: entry[n] = st.mem[n][1] if n in st.mem else ("var", n, 0)
                        st.mem[n] = (None, ("lv", n))
                    elif i.op == "store": stores.append(i)
                    elif i.op == "call" and not i.ops[0].startswith(("@llvm.dbg", "@llvm.lifetime", "@llvm.expect")) and not s.aside(i.callee): touch.add("all")
            for i in stores:
                d = i.ops[1]
                while d.startswith("%") and d not in s.alloca and s.fn.d(d).op in ("getelementptr", "bitcast"): d = s.fn.d(d).ops[0]
                x = s.fn.d(d) if d.startswith("%") and d not in s.alloca else None
                if x is not None and x.op == "load" and x.ops[0] in s.alloca and s.nm(x.ops[0]) not in entry:
                    n = s.nm(x.ops[0]); e = st.mem[n][1] if n in st.mem else ("var", n, 0)
                    touch.add(s.cls(("gep", "?", e, ())))
                elif d in s.alloca: touch.add(("local", s.nm(d)))
                else: touch.add(("heap",))
            st.eff.append(("loop", tuple(sorted(entry.items()))))
            if "all" in touch: st.hist = (); st.ver["loop"] = st.ver.get("loop", 0) + 1
            else:
                for c in touch: st.clobber(c)
            path = path + (b,)
            for i in s.fn.blocks[b]:
                if i.op == "phi": st.v[i.ref] = ("lvphi", i.id)
        for i in s.fn.blocks[b]:
            if i.op == "phi":
                if i.ref in st.v and st.v[i.ref][0] == "lvphi": continue
                for k in range(0, len(i.ops), 2):
                    if int(i.ops[k + 1][1:]) == prev: st.v[i.ref] = s.val(i.ops[k], st)
                continue
            if i.op == "br":
                if len(i.ops) == 1: return s.walk(int(i.ops[0][1:]), st, b, path)
                c = s.val(i.ops[0], st)
                t, f = int(i.ops[1][1:]), int(i.ops[2][1:])
                if c[0] == "c": return s.walk(t if c[1] else f, st, b, path)
                neg = False
                if c[0] == "not": c = c[1]; t, f = f, t
                if c[0] == "cmp" and c[1] in ("ne", "sle", "ule"): c = s.neg(c); t, f = f, t
                if s.assume:
                    a = s.assume(c)
                    if a is not None: return s.walk(t if a else f, st, b, path)
                for cc, tr in st.conds:
                    if cc == c: return s.walk(t if tr else f, st, b, path)
                eff = tuple(st.eff)
                s1, s2 = st.copy(), st.copy()
                s1.conds.append((c, True)); s2.conds.append((c, False))
                T, F = s.walk(t, s1, b, path), s.walk(f, s2, b, path)
                return ("br", c, T, F)
            if i.op == "switch":
                c = s.val(i.ops[0], st); cs = i.ops[2:]
                if c[0] == "c":
                    for k in range(0, len(cs), 2):
                        if cint(cs[k]) == c[1]: return s.walk(int(cs[k + 1][1:]), st, b, path)
                    return s.walk(int(i.ops[1][1:]), st, b, path)
                d = []
                for k in range(0, len(cs), 2): d.append((cint(cs[k]), s.walk(int(cs[k + 1][1:]), st.copy(), b, path)))
                d.append(("default", s.walk(int(i.ops[1][1:]), st.copy(), b, path)))
                return ("sw", c, tuple(d))
            if i.op == "ret":
                return s.leaf(st, ("ret", s.val(i.ops[0], st) if i.ops else None))
            if i.op == "unreachable": return s.leaf(st, "unreachable")
            s.inst(i, st)
        raise TooBig("no terminator")
    def prestate(s, target):
        """State on entry of block `target`: the dominating blocks are evaluated in order and every
        local that can be written between two of them is havoced."""
        f = s.fn; chain = [target]
        while chain[-1] != 0: chain.append(f.idom[chain[-1]])
        chain = chain[::-1]
        st = State(); calls = []
        for p in range(len(f.params)): pass
        for k, b in enumerate(chain):
            if k:
                d = chain[k - 1]
                seen, todo = set(), [p for p in f.preds[b] if p != d]
                while todo:
                    x = todo.pop()
                    if x in seen or x == d: continue
                    seen.add(x); todo.extend(f.preds[x])
                for x in seen:
                    for i in f.blocks[x]:
                        if i.op == "store" and i.ops[1] in s.alloca: st.mem.pop(s.nm(i.ops[1]), None)
            if b == target: break
            for i in f.blocks[b]:
                if i.op in ("br", "switch", "ret", "unreachable", "phi"): continue
                n0 = len(st.eff)
                s.inst(i, st)
                if len(st.eff) > n0:
                    e = st.eff[-1]
                    if i.ref in st.v and st.v[i.ref][0] == "ret": st.v[i.ref] = ("entry", i.line) if e[0] != "call" else ("entry",) + e[1:3]
        for r in s.escaped: st.mem.pop(s.nm(r), None)
        st.eff = []; st.ver = {}
        for kk in [q for q in st.mem if isinstance(q, tuple)]: del st.mem[kk]
        for n, (t, e) in list(st.mem.items()):
            if e[0] == "var": del st.mem[n]
        return st
    def leaf(s, st, ex):
        names = s.by_name if s.live is True else s.live
        lv = tuple((n, st.mem[n][1]) for n in names if n in st.mem and st.mem[n][1] != ("var", n, 0))
        return ("leaf", tuple(st.eff), lv, ex)

def leaves(t, conds=()):
    if t[0] == "leaf": yield conds, t
    elif t[0] == "br":
        yield from leaves(t[2], conds + ((t[1], True),)); yield from leaves(t[3], conds + ((t[1], False),))
    else:
        for k, x in t[2]: yield from leaves(x, conds + ((t[1], ("case", k)),))

def show(e, d=0):
    """readable form of an expression"""
    if not isinstance(e, tuple) or not e: return str(e)
    k = e[0]
    if k == "c": return str(e[1])
    if k in ("var",): return e[1] + ("" if e[2] == 0 else "'")
    if k == "arg": return e[2] if len(e) > 2 else "arg%d" % e[1]
    if k == "addr": return "&" + e[1]
    if k == "str": return '"%s"' % e[1]
    if k == "k": return e[1].lstrip("@")
    if k == "gep": return "%s[%s](%s)" % (e[1].replace("struct.", ""), ",".join(show(x) for x in e[3]), show(e[2]))
    if k == "load": return "*" + show(e[2])
    if k == "cast": return show(e[2])
    if k == "cmp": return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
    if k == "op": return "(%s %s)" % (e[1], " ".join(show(x) for x in e[2:]))
    if k in ("call",): return "%s(%s)" % (show(e[1]), ", ".join(show(x) for x in e[2]))
    if k == "pure": return "%s(%s)" % (e[1], ", ".join(show(x) for x in e[2:]))
    if k == "ret": return "ret#%s" % (e[1],)
    if k == "store": return "store %s <- %s" % (show(e[2]), show(e[3]))
    return "(" + " ".join(show(x) for x in e) + ")"
