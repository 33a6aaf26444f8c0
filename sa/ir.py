"""In-memory form of the exported IR: CFG, dominators, call sites, struct field names."""
from .build import AnalysisBroken

class Inst:
    __slots__ = ("id", "op", "ty", "ops", "x", "fi", "line", "fn", "bb", "idx")
    def __init__(s, r, fn, bb, idx):
        s.id, s.op, s.ty, s.ops, s.x, s.fi = r[:6]
        s.line = r[6]
        s.fn, s.bb, s.idx = fn, bb, idx
    @property
    def ref(s): return "%%%d" % s.id
    @property
    def file(s): return s.fn.prog.files[s.fi] if s.fi >= 0 else s.fn.file
    @property
    def loc(s):
        f = s.file
        f = f.split("/repo/")[-1] if "/repo/" in f else f
        i = f.find("lib/SPVM")
        if i > 0: f = f[i:]
        return "%s:%d" % (f, s.line)
    @property
    def callee(s):
        """direct callee name or None"""
        return s.ops[0][1:] if s.op == "call" and s.ops[0].startswith("@") else None
    @property
    def args(s): return s.ops[1:]
    def __repr__(s): return "%%%d=%s %s %s [%s] @%s" % (s.id, s.op, s.ty, s.ops, s.x, s.loc)

class Fn:
    def __init__(s, r, prog):
        s.prog = prog
        s.name, s.file, s.line, s.local, s.ret = r["name"], r["file"], r["line"], r["local"], r["ret"]
        s.params = r["params"]
        s.blocks = [[Inst(i, s, b, k) for k, i in enumerate(bl)] for b, bl in enumerate(r["blocks"])]
        s.insts = {}
        for bl in s.blocks:
            for i in bl: s.insts[i.id] = i
        n = len(s.blocks)
        s.succs = [[] for _ in range(n)]; s.preds = [[] for _ in range(n)]
        for b, bl in enumerate(s.blocks):
            t = bl[-1]
            ss = [int(o[1:]) for o in t.ops if o.startswith("!")] if t.op in ("br", "switch", "indirectbr") else []
            for q in ss:
                if q not in s.succs[b]:
                    s.succs[b].append(q); s.preds[q].append(b)
        s._idom = s._users = None
    def __repr__(s): return "<Fn %s>" % s.name
    @property
    def loc(s):
        f = s.file; i = f.find("lib/SPVM")
        return "%s:%d" % (f[i:] if i >= 0 else f, s.line)
    def all(s):
        for bl in s.blocks:
            yield from bl
    def d(s, v):
        """defining instruction of an operand string, or None"""
        return s.insts[int(v[1:])] if v.startswith("%") else None
    def param_index(s, name):
        for i, p in enumerate(s.params):
            if p[0] == name: return i
        return None
    @property
    def users(s):
        if s._users is None:
            u = {}
            for i in s.all():
                for o in i.ops: u.setdefault(o, []).append(i)
            s._users = u
        return s._users
    def rpo(s):
        seen, out = set(), []
        st = [(0, iter(s.succs[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); st.append((q, iter(s.succs[q]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    @property
    def idom(s):
        if s._idom is None:
            order = s.rpo(); num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in s.preds[b]:
                        if p in idom:
                            if new is None: new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while num[a] > num[c]: a = idom[a]
                                    while num[c] > num[a]: c = idom[c]
                                new = a
                    if idom.get(b) != new: idom[b] = new; ch = True
            s._idom = idom
        return s._idom
    def dominates(s, a, b):
        """block a dominates block b"""
        i = s.idom
        if b not in i: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = i[b]
    def idominates(s, i, j):
        """instruction i strictly before j on every path"""
        if i.bb == j.bb: return i.idx < j.idx
        return s.dominates(i.bb, j.bb)
    def reach(s, b, avoid=()):
        """blocks reachable from block b (b included) without entering avoid"""
        seen, st = {b}, [b]
        while st:
            for q in s.succs[st.pop()]:
                if q not in seen and q not in avoid: seen.add(q); st.append(q)
        return seen
    def edge_facts(s, b):
        """[(cond operand, truth | ('case', value) | ('notcase', values))] known on entry of b"""
        out = []
        i = s.idom
        if b not in i: return out
        while b != 0:
            d = i[b]
            t = s.blocks[d][-1]
            if t.op == "br" and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
                for k, truth in ((1, True), (2, False)):
                    q = int(t.ops[k][1:])
                    if s.dominates(q, b) and all(p == d or s.dominates(q, p) for p in s.preds[q]):
                        out.append((t.ops[0], truth))
            elif t.op == "switch":
                by = {}
                cs = t.ops[2:]
                for k in range(0, len(cs), 2): by.setdefault(int(cs[k + 1][1:]), []).append(cs[k])
                dflt = int(t.ops[1][1:])
                for q, vals in by.items():
                    if q != dflt and s.dominates(q, b) and all(p == d or s.dominates(q, p) for p in s.preds[q]):
                        out.append((t.ops[0], ("case", vals)))
                if dflt not in by and s.dominates(dflt, b) and all(p == d or s.dominates(dflt, p) for p in s.preds[dflt]):
                    out.append((t.ops[0], ("notcase", cs[0::2])))
            b = d
        return out
    def calls(s, name=None):
        for i in s.all():
            if i.op == "call" and not i.ops[0].startswith("@llvm.") and (name is None or i.callee == name or (not isinstance(name, str) and i.callee in name)):
                yield i

class Program:
    def __init__(s, j):
        s.structs, s.distructs, s.enums, s.globals, s.files = j["structs"], j["distructs"], j["enums"], j["globals"], j["files"]
        s.sigs, s.fnsigs = j.get("sigs", {}), j.get("fnsigs", {})
        s.fns = {}
        for f in j["funcs"]:
            s.fns[f["name"]] = Fn(f, s)
    def fn(s, name):
        f = s.fns.get(name)
        if f is None: raise AnalysisBroken("function %s is not in the analysed program" % name)
        return f
    def enum(s, name):
        if name not in s.enums: raise AnalysisBroken("enumerator %s not found" % name)
        return s.enums[name]
    def enum_family(s, prefix):
        r = {k: v for k, v in s.enums.items() if k.startswith(prefix)}
        if not r: raise AnalysisBroken("no enumerators %s*" % prefix)
        return r
    def field(s, sty, idx):
        st = s.structs.get(sty)
        if st is None or idx >= len(st): return "f%d" % idx
        return st[idx][0]

def cint(o):
    """integer constant operand -> int or None"""
    if o.startswith("#") and not o.startswith("#f") and o != "#zero": return int(o[1:].split(":")[0])
    return None
def cstr(o):
    return o[1:] if o.startswith('"') else None
