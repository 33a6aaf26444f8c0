"""Which function each slot of the native API tables holds: the memory built by a table constructor is
evaluated over its IR (constant initialisers, stores, block copies); nothing is executed."""
import re
from . import build, ir
from .build import AnalysisBroken
from .ir import cint

SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "float": 4, "double": 8}

class Mem:
    """contents of the memory regions a function writes: region -> {byte offset: value operand}"""
    def __init__(s, prog, fn):
        s.p, s.f, s.r, s.v, s.loc = prog, fn, {}, {}, {}
        for b in fn.rpo():
            for i in fn.blocks[b]: s.inst(i)
    def addr(s, o):
        """operand -> (region, offset) or None"""
        if o.startswith("%"):
            return s.v.get(o)
        if o.startswith("@"): return (o, 0)
        return None
    def off(s, ty, idx):
        """byte offset of a getelementptr with constant indices"""
        k = [cint(x) for x in idx]
        if any(x is None for x in k): return None
        sz = s.size(ty)
        if sz is None: return None
        o = k[0] * sz
        t = ty
        for x in k[1:]:
            m = re.match(r"\[(\d+) x (.+)\]$", t)
            if m: t = m.group(2); q = s.size(t); o += x * (q if q else 0)
            elif t in s.p.structs: o += s.p.structs[t][x][1]; t = s.p.structs[t][x][2]
            else: return None
        return o
    def size(s, t):
        if t in SIZES: return SIZES[t]
        m = re.match(r"\[(\d+) x (.+)\]$", t)
        if m:
            q = s.size(m.group(2)); return int(m.group(1)) * q if q else None
        if t in s.p.structs:
            st = s.p.structs[t]
            if not st: return 0
            q = s.size(st[-1][2])
            return None if q is None else (st[-1][1] + q + 7) // 8 * 8
        return None
    def inst(s, i):
        if i.op == "alloca": s.v[i.ref] = (i.ref, 0); return
        if i.op == "store":
            a = s.addr(i.ops[1])
            if a:
                v = i.ops[0]
                if v.startswith("%") and s.v.get(v) is not None: v = s.v[v]
                if v == "null" and isinstance(s.r.get(a[0], {}).get(a[1]), tuple): return      # result of a failure exit
                s.r.setdefault(a[0], {})[a[1]] = v; s.loc[(a[0], a[1])] = i
            return
        if i.op == "load":
            a = s.addr(i.ops[0])
            if a:
                x = s.r.get(a[0], {}).get(a[1])
                if isinstance(x, tuple): s.v[i.ref] = x
                elif isinstance(x, str) and x.startswith("@"): s.v[i.ref] = (x, 0)
            return
        if i.op in ("getelementptr", "bitcast"):
            a = s.addr(i.ops[0])
            if a:
                o = s.off(i.x, i.ops[1:]) if i.op == "getelementptr" else 0
                if o is not None: s.v[i.ref] = (a[0], a[1] + o)
            return
        if i.op == "call":
            n = i.callee or ""
            if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                d, q, k = s.addr(i.ops[1]), s.addr(i.ops[2]), cint(i.ops[3])
                if d and q and k is not None:
                    src = s.region(q[0])
                    for o, x in list(src.items()):
                        if q[1] <= o < q[1] + k: s.r.setdefault(d[0], {})[o - q[1] + d[1]] = x; s.loc[(d[0], o - q[1] + d[1])] = s.loc.get((q[0], o), i)
                return
            if n.startswith("llvm."): return
            s.v[i.ref] = (("call", n, i.ref), 0)
    def region(s, r):
        if r in s.r: return s.r[r]
        out = {}
        if isinstance(r, str) and r.startswith("@"):
            g = s.p.globals.get(r[1:])
            if g and isinstance(g.get("init"), list):
                for k, x in enumerate(g["init"]):
                    if isinstance(x, str): out[8 * k] = x
        s.r[r] = out
        return out
    def returned(s):
        for b in s.f.blocks:
            for i in b:
                if i.op == "ret" and i.ops:
                    a = s.addr(i.ops[0])
                    if a and a[0] in s.r: return a[0]
        return None

def table(prog, fn, struct):
    """{member: (function name | ('call', f) | None, location)}"""
    f = prog.fn(fn); m = Mem(prog, f)
    r = m.returned()
    if r is None: raise AnalysisBroken("%s: the table it returns was not recognised" % fn)
    return members(prog, m, r, struct)
def members(prog, m, r, struct):
    out = {}
    for n, o, di in prog.distructs[struct]:
        x = m.r.get(r, {}).get(o)
        i = m.loc.get((r, o))
        out[n] = (x, i.loc if i is not None else m.f.loc, di)
    return out
