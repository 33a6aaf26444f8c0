"""Abstract interpreter over the exported IR.  Values are constants, symbols with an interval and equality facts, pointers
into abstract objects (an object stands for every concrete object of its description), and unknowns.  Conditions the
facts decide are followed one way, all others both ways; callees are entered, or answered by a table of oracles that
describes them.  Nothing is executed and no path is handed to a solver."""
from .ir import cint
from .sym import PRED, fold

BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
class Budget(Exception): pass
class GiveUp(Exception): pass
class Null(Exception): pass
class Bad(Exception): pass
NULL = ("c", 0)

class St:
    """one abstract state: memory, facts, trace"""
    __slots__ = ("mem", "rng", "facts", "trace", "zero", "n")
    def __init__(s): s.mem, s.rng, s.facts, s.trace, s.zero, s.n = {}, {}, {}, (), frozenset(), 0
    def copy(s):
        t = St(); t.mem, t.rng, t.facts, t.trace, t.zero, t.n = dict(s.mem), dict(s.rng), dict(s.facts), s.trace, s.zero, s.n
        return t

def C(n): return ("c", n)
def P(obj, *path): return ("p", obj, tuple(path))
def S(name): return ("s", name)

class Interp:
    def __init__(s, prog, oracle=None, field=None, differ=None, enter=None, budget=200000, maxvisit=3, cached=()):
        """oracle(interp, name, args, state) -> None or [(value, state)]; field(interp, obj, struct, name, ty, state) -> value or None;
        differ(a, b): the two symbols are known to differ; enter(name): callee is entered (default: every defined function)"""
        s.prog, s.oracle, s.field, s.differ, s.budget, s.maxvisit = prog, oracle, field, differ or (lambda a, b: False), budget, maxvisit
        s.enter = enter or (lambda n: True)
        s.cached, s.memo = tuple(cached), {}
        s.steps = 0; s.stop = None; s.fns = set(); s.lost = 0; s.types = {}
    # values --------------------------------------------------------------
    def rng(s, st, v):
        if v[0] == "c": return v[1], v[1]
        if v[0] == "s": return st.rng.get(v[1], (-(1 << 63), (1 << 63) - 1))
        if v[0] == "+":
            a, b = s.rng(st, v[1]); return a + v[2], b + v[2]
        return -(1 << 63), (1 << 63) - 1
    def cmp(s, st, p, a, b):
        """truth of a comparison, or None"""
        if a == b and a[0] in ("c", "s", "p", "+", "fn", "str"): return p in ("eq", "sle", "sge", "ule", "uge")
        if p in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if x[0] in ("p", "fn", "str") and y == ("c", 0): return p == "ne"
                if x[0] in ("fn", "str") and y[0] in ("fn", "str", "p"): return p == "ne"
            if a[0] == b[0] == "p": return (p == "ne") if (a[1] != b[1] or a[2] != b[2]) and s.solid(a[1]) and s.solid(b[1]) else None
            if a[0] == b[0] == "s" and (s.differ(a[1], b[1]) or s.differ(b[1], a[1])): return p == "ne"
            if a[0] == "+" and b[0] == "+" and a[2] == b[2] and a[1][0] == b[1][0] == "s" and (s.differ(a[1][1], b[1][1]) or s.differ(b[1][1], a[1][1])): return p == "ne"
            k = ("eq", a, b) if repr(a) < repr(b) else ("eq", b, a)
            if k in st.facts: return st.facts[k] == (p == "eq")
        if a[0] in ("c", "s", "+") and b[0] in ("c", "s", "+"):
            (la, ha), (lb, hb) = s.rng(st, a), s.rng(st, b)
            if p[0] == "u":
                if la < 0 or lb < 0: return None
                p = "s" + p[1:]
            if p == "eq": return None if not (ha < lb or hb < la) else False
            if p == "ne": return None if not (ha < lb or hb < la) else True
            if p == "slt": return True if ha < lb else False if la >= hb else None
            if p == "sle": return True if ha <= lb else False if la > hb else None
            if p == "sgt": return True if la > hb else False if ha <= lb else None
            if p == "sge": return True if la >= hb else False if ha < lb else None
        k = (p, a, b)
        return st.facts.get(k)
    def solid(s, o): return isinstance(o, tuple) and o and o[0] in ("alloca", "obj")
    NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
    def learn(s, st, p, a, b, t):
        """record the outcome of a comparison; False when it contradicts what is known"""
        if not t and p in s.NEG: p, t = s.NEG[p], True
        if p in ("eq", "ne"):
            k = ("eq", a, b) if repr(a) < repr(b) else ("eq", b, a)
            st.facts[k] = (p == "eq") == t
        else:
            st.facts[(p, a, b)] = t
            if p in s.NEG: st.facts[(s.NEG[p], a, b)] = not t
        for x, y, q in ((a, b, p), (b, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p))):
            if x[0] == "+" and x[1][0] == "s" and y[0] == "c": x, y = x[1], ("c", y[1] - x[2])
            if x[0] == "s" and y[0] == "c":
                lo, hi = s.rng(st, x); n = y[1]
                if q == "eq": lo, hi = max(lo, n), min(hi, n)
                elif q == "ne":
                    if lo == n: lo += 1
                    if hi == n: hi -= 1
                elif q == "slt": hi = min(hi, n - 1)
                elif q == "sle": hi = min(hi, n)
                elif q == "sgt": lo = max(lo, n + 1)
                elif q == "sge": lo = max(lo, n)
                if lo > hi: return False
                st.rng[x[1]] = (lo, hi)
        return True
    def fresh(s, st, why):
        st.n += 1
        return ("u", st.n, why)
    # memory --------------------------------------------------------------
    def load(s, st, ty, a):
        if a[0] == "str" and ty == "i8": return ("c", ord(a[1][0]) if a[1] else 0)
        if a[0] != "p": return s.fresh(st, "load")
        k = (a[1], a[2])
        if k in st.mem: return s.fit(st.mem[k], ty)
        if a[1] in st.zero: return ("c", 0)
        if s.field and a[2]:
            v = s.field(s, a[1], a[2], ty, st)
            if v is not None: return v
        if s.field and not a[2]:
            v = s.field(s, a[1], (), ty, st)
            if v is not None: return v
        if ty == "ptr": v = ("q", (a[1],) + a[2])       # points to something, or is NULL
        else: v = ("s", ("at", a[1]) + a[2]); 
        st.mem[k] = v
        if ty in BITS and v[0] == "s" and BITS[ty] < 64: st.rng.setdefault(v[1], (-(1 << (BITS[ty] - 1)), (1 << (BITS[ty] - 1)) - 1 if ty != "i8" and ty != "i1" else 255))
        return v
    def fit(s, v, ty): return v
    def store(s, st, a, v):
        if a[0] == "p":
            # a store through a union or a narrower view replaces what overlaps
            k = (a[1], a[2]); st.mem[k] = v
        elif a[0] == "q": st.mem[(a[1], ())] = v
    def gep(s, st, i, base, idx):
        if base[0] == "q": base = ("p", base[1], ())
        if base[0] == "str" and len(idx) == 1 and idx[0][0] == "c":
            # a pointer into a string: what is left of it, and the whole of it
            full = base[2] if len(base) > 2 else base[1]
            k = len(full) - len(base[1]) + idx[0][1]
            if 0 <= k <= len(full): return ("str", full[k:], full) if k else ("str", full)
        if base == NULL and any(x != ("c", 0) for x in idx) and i.x.startswith("struct."): return ("null",)
        if base[0] != "p": return s.fresh(st, "gep") if base[0] != "c" or any(x != ("c", 0) for x in idx) else base
        path = base[2]
        t = i.x
        if t.startswith("union."):
            if all(x == ("c", 0) for x in idx): return base
            if len(idx) != 1: return s.fresh(st, "gep")
        if idx[0] != ("c", 0):
            if path and path[-1][0] == "[]" and path[-1][1][0] == "c" and idx[0][0] == "c":
                k = path[-1][1][1] + idx[0][1]; path = path[:-1] + ((("[]", ("c", k)),) if k else ())
            else: path = path + (("[]", idx[0]),)
        for x in idx[1:]:
            if t is not None and t.startswith("struct.") and x[0] == "c":
                path = path + (s.prog.field(t, x[1]),); t = None
            elif x == ("c", 0) and t is None: pass
            else: path = path + (("[]", x),); t = None
        return ("p", base[1], path)
    # instructions ----------------------------------------------------------
    def val(s, o, fr, st):
        c0 = o[0]
        if c0 == "%":
            v = fr["v"].get(o)
            return v if v is not None else s.missing(o, fr, st)
        if c0 == "$": return fr["args"][int(o[1:])]
        c = cint(o)
        if c is not None: return ("c", c)
        if o == "null" or o == "#zero": return ("c", 0)
        if c0 == '"': return ("str", o[1:])
        if c0 == "@": return ("fn", o[1:]) if o[1:] in s.prog.fns else ("p", ("obj", o), ())
        return ("k", o)
    def missing(s, o, fr, st):
        d = fr["fn"].d(o)
        if d.op == "alloca": v = ("p", ("alloca", fr["id"], d.x.split("|")[1] or "t%d" % d.id, d.id), ())
        else: v = s.fresh(st, "missing")
        fr["v"][o] = v
        return v
    def call(s, name, args, st, depth=0):
        """[(value, state)] for a call of a defined function"""
        f = s.prog.fns[name]; s.fns.add(name)
        key = None
        if name.startswith(s.cached) and s.cached:
            key = (name,) + tuple(args)
            if key in s.memo: return [(s.memo[key], st)]
        if depth > 40: raise Budget("call depth")
        st.n += 1
        fr = {"fn": f, "v": {}, "args": tuple(args), "id": (name, st.n), "depth": depth, "seen": {}}
        out = s.block(0, None, fr, st)
        if key is not None and len(out) == 1 and out[0][0] is not None and out[0][0][0] == "c": s.memo[key] = out[0][0]
        return out
    def block(s, b, prev, fr, st):
        """run from block b; [(value, state)] for every way out"""
        out = []
        work = [(b, prev, fr, st)]
        while work:
            b, prev, fr, st = work.pop()
            while True:
                if s.stop is not None and fr["depth"] == 0 and b in s.stop:
                    out.append((("stop", b), st)); break
                seen = fr["seen"]; seen[b] = seen.get(b, 0) + 1
                if seen[b] > s.maxvisit: s.lost += 1; break
                nxt = s.run(b, prev, fr, st, out, work)
                if nxt is None: break
                prev, b = b, nxt
        return out
    def fork(s, fr): return {"fn": fr["fn"], "v": dict(fr["v"]), "args": fr["args"], "id": fr["id"], "depth": fr["depth"], "seen": dict(fr["seen"])}
    def run(s, b, prev, fr, st, out, work, start=0):
        f = fr["fn"]; v = fr["v"]
        ins = f.blocks[b]
        if start == 0:
            ph = []
            for i in ins:
                if i.op != "phi": break
                for k in range(0, len(i.ops), 2):
                    if int(i.ops[k + 1][1:]) == prev: ph.append((i.ref, s.val(i.ops[k], fr, st)))
            for r, x in ph: v[r] = x
        for k in range(start, len(ins)):
            i = ins[k]; op = i.op
            s.steps += 1
            if s.steps > s.budget: raise Budget("steps")
            if op == "phi": continue
            if op == "br":
                if len(i.ops) == 1: return int(i.ops[0][1:])
                c = s.val(i.ops[0], fr, st); T, F = int(i.ops[1][1:]), int(i.ops[2][1:])
                if c[0] == "c": return T if c[1] else F
                neg = False
                while c[0] == "not": neg, c = not neg, c[1]
                if neg: T, F = F, T
                if c[0] == "cmp": p, a, bb = c[1:]
                else: p, a, bb = "ne", c, ("c", 0)
                t = s.cmp(st, p, a, bb)
                if t is not None: return T if t else F
                s2 = st.copy()
                ok1, ok2 = s.learn(st, p, a, bb, True), s.learn(s2, p, a, bb, False)
                if ok1 and ok2:
                    work.append((F, b, s.fork(fr), s2)); return T
                return T if ok1 else F if ok2 else None
            if op == "switch":
                c = s.val(i.ops[0], fr, st); cs = i.ops[2:]; d = int(i.ops[1][1:])
                if c[0] == "c":
                    for q in range(0, len(cs), 2):
                        if cint(cs[q]) == c[1]: return int(cs[q + 1][1:])
                    return d
                alive = True; cases = []
                for q in range(0, len(cs), 2):
                    n = ("c", cint(cs[q])); t = s.cmp(st, "eq", c, n)
                    if t is False: continue
                    if t: return int(cs[q + 1][1:])
                    cases.append((n, int(cs[q + 1][1:])))
                for n, tb in cases:
                    s2 = st.copy()
                    if s.learn(s2, "eq", c, n, True): work.append((tb, b, s.fork(fr), s2))
                for n, tb in cases:
                    if not s.learn(st, "eq", c, n, False): return None
                return d
            if op == "ret":
                out.append((s.val(i.ops[0], fr, st) if i.ops else None, st)); return None
            if op == "unreachable": out.append((("abort",), st)); return None
            if op == "call":
                r = s.docall(i, fr, st)
                if r is None: continue
                first = True; cont = None
                for val, z in r:
                    if val is not None and val[0] == "abort": out.append((val, z)); continue
                    if cont is None and z is st: cont = (val, z)
                    else:
                        # continue the rest of this block for the other outcomes
                        g = s.fork(fr); g["v"][i.ref] = val if val is not None else ("c", 0)
                        work2 = []
                        n = s.run(b, prev, g, z, out, work, k + 1)
                        if n is not None: work.append((n, b, g, z))
                if cont is None: return None
                v[i.ref] = cont[0] if cont[0] is not None else ("c", 0)
                continue
            try: s.inst(i, fr, st)
            except Bad as e: out.append((("abort", "%s in %s" % (e, f.name)), st)); return None
            except Null: out.append((("abort", "follows NULL in %s" % (i.loc or fr["f"].name if hasattr(i, "loc") else "a function")), st)); return None
        raise GiveUp("no terminator")
    def docall(s, i, fr, st):
        n = i.callee
        if n and n.startswith("llvm."):
            if n.startswith("llvm.expect"): fr["v"][i.ref] = s.val(i.ops[1], fr, st)
            elif n.startswith("llvm.memset"):
                d = s.val(i.ops[1], fr, st)
                if d[0] == "p" and s.val(i.ops[2], fr, st) == ("c", 0) and not d[2]:
                    st.zero = st.zero | {d[1]}
                    for q in [q for q in st.mem if q[0] == d[1]]: del st.mem[q]
            elif n.startswith("llvm.memcpy"):
                d, e = s.val(i.ops[1], fr, st), s.val(i.ops[2], fr, st)
                if d[0] == "p" and e[0] == "str":
                    k = s.val(i.ops[3], fr, st)
                    if k[0] == "c": st.mem[(d[1], ("text",) + d[2])] = ("str", (e[1] + "\0")[:k[1]])
                if d[0] == e[0] == "p":
                    for q in [q for q in st.mem if q[0] == d[1] and q[1][:len(d[2])] == d[2]]: del st.mem[q]
                    for q, x in [(q, x) for q, x in st.mem.items() if q[0] == e[1] and q[1][:len(e[2])] == e[2]]: st.mem[(d[1], d[2] + q[1][len(e[2]):])] = x
                    if e[1] in st.zero: st.zero = st.zero | {d[1]}
                    g = s.prog.globals.get(e[1][1][1:]) if isinstance(e[1], tuple) and e[1][0] == "obj" and isinstance(e[1][1], str) and e[1][1].startswith("@") else None
                    if g and g["const"] and not e[2] and isinstance(g.get("init"), list):
                        # an initialiser kept as a constant
                        for k, x in enumerate(g["init"]):
                            if not isinstance(x, str): raise GiveUp("an initialiser in parts")
                            st.mem[(d[1], d[2] + ((s.prog.field(g["type"], k),) if g["type"].startswith("struct.") else (("[]", ("c", k)),)))] = s.val(x, fr, st)
            elif not n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")): fr["v"][i.ref] = s.fresh(st, n)
            return None
        args = tuple(s.val(o, fr, st) for o in i.ops[1:])
        if n is None:
            c = s.val(i.ops[0], fr, st)
            n = c[1] if c[0] == "fn" else ("?", c)
        if s.oracle:
            r = s.oracle(s, n, args, st)
            if r is not None: return r
        if isinstance(n, str) and n in s.prog.fns and s.enter(n):
            return s.call(n, args, st, fr["depth"] + 1)
        if n in ("__assert_fail", "abort", "exit"): return [(("abort",), st)]
        st.n += 1
        fr["v"][i.ref] = ("q", ("ret", n, st.n)) if i.ty == "ptr" else ("s", ("ret", n, st.n))
        if i.ty in BITS and BITS[i.ty] < 64: st.rng[("ret", n, st.n)] = (-(1 << (BITS[i.ty] - 1)), (1 << (BITS[i.ty] - 1)) - 1)
        for a in args:
            if a[0] == "p" and isinstance(a[1], tuple) and a[1][0] == "alloca":
                for q in [q for q in st.mem if q[0] == a[1]]: st.mem[q] = s.fresh(st, "written by " + str(n))
        return None
    def inst(s, i, fr, st):
        op = i.op; v = fr["v"]
        if op == "alloca": s.missing(i.ref, fr, st); return
        if op == "load": 
            a = s.val(i.ops[0], fr, st)
            if a[0] == "q": a = ("p", a[1], ())
            if a == NULL or a[0] == "null": raise Null()
            v[i.ref] = s.load(st, i.ty, a); return
        if op == "store":
            a = s.val(i.ops[1], fr, st)
            if a[0] == "q": a = ("p", a[1], ())
            if a == NULL or a[0] == "null": raise Null()
            s.store(st, a, s.val(i.ops[0], fr, st)); return
        if op == "getelementptr":
            v[i.ref] = s.gep(st, i, s.val(i.ops[0], fr, st), [s.val(o, fr, st) for o in i.ops[1:]]); return
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            a = s.val(i.ops[0], fr, st)
            if a[0] == "c" and op in ("zext", "trunc") and i.ty in BITS:
                x = a[1]
                if op == "zext" and i.x in BITS: x &= (1 << BITS[i.x]) - 1
                m = BITS[i.ty]
                x &= (1 << m) - 1
                if x >> (m - 1) and m > 1: x -= 1 << m
                a = ("c", x)
            elif a[0] in ("s", "+") and op == "trunc":
                lo, hi = s.rng(st, a); m = BITS.get(i.ty, 64)
                if not (-(1 << (m - 1)) <= lo and hi < (1 << m)): a = ("u2", "trunc", i.ty, a)
            v[i.ref] = a; return
        if op in ("icmp", "fcmp"):
            a, b, p = s.val(i.ops[0], fr, st), s.val(i.ops[1], fr, st), i.x
            if op == "fcmp": v[i.ref] = s.fresh(st, "fcmp"); return
            if a[0] in ("cmp", "not") and b == ("c", 0) and p in ("ne", "eq"):
                v[i.ref] = a if p == "ne" else ("not", a); return
            t = s.cmp(st, p, a, b)
            v[i.ref] = ("c", int(t)) if t is not None else ("cmp", p, a, b); return
        if op == "select":
            c = s.val(i.ops[0], fr, st)
            v[i.ref] = s.val(i.ops[1] if c[1] else i.ops[2], fr, st) if c[0] == "c" else s.fresh(st, "select"); return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "srem", "udiv", "urem"):
            a, b = s.val(i.ops[0], fr, st), s.val(i.ops[1], fr, st)
            if op == "xor" and i.ty == "i1" and b in (("c", 1), ("c", -1)): v[i.ref] = ("not", a) if a[0] != "c" else ("c", 1 - (a[1] & 1)); return
            r = fold(op, a, b, BITS.get(i.ty, 64))
            if op == "sub" and a[0] == b[0] == "str" and a[-1] == b[-1]: r = ("c", len(b[1]) - len(a[1]))
            if r is None and op in ("add", "sub") and b[0] == "c" and a[0] in ("s", "+"):
                k = b[1] if op == "add" else -b[1]
                if a[0] == "+": a, k = a[1], k + a[2]
                r = a if k == 0 else ("+", a, k)
            if r is None and op == "add" and a[0] == "c" and b[0] in ("s", "+"):
                k = a[1]; 
                if b[0] == "+": b, k = b[1], k + b[2]
                r = b if k == 0 else ("+", b, k)
            if r is None and op == "and" and ("c", 0) in (a, b): r = ("c", 0)
            v[i.ref] = r if r is not None else ("u2", op, a, b); return
        if op == "insertvalue" or op == "extractvalue": v[i.ref] = s.fresh(st, op); return
        v[i.ref] = s.fresh(st, op)

def run(it, name, args, st=None):
    return it.call(name, args, st or St())
