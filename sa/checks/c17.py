"""C17: assignment and cast requirements between types."""
import itertools
from .. import build, absint, kinds, fspec
from ..absint import C, P
from ..build import AnalysisBroken

LEVEL = "other"

def super_of(a, b, rel): return bool(rel.get(("is_super_class", a.bid, b.bid), 0))
def has(src, dst, rel): return bool(rel.get(("has_interface", src.bid, dst.bid), 0))
def same(a, b): return a.bid == b.bid and a.dim == b.dim and a.flag == b.flag

def assign(d, s, rel, narrowing, exact):
    """(allowed, needs a data conversion): the tables of "Assignment Requirement" in SPVM::Document::Language::Types"""
    no = (0, 0); yes = (1, 0); conv = (1, 1)
    if d.void(): return yes if s.void() else no
    if d.undef(): return no
    if d.numeric():
        if s.numeric():
            if d.numidx() == s.numidx(): return yes
            if d.numidx() > s.numidx(): return conv
            return conv if narrowing else no
        if s.numobj(): return conv if s.numidx() == d.numidx() else no
        return conv if s.any_object() else no
    if d.mulnum() or d.ref: return yes if same(d, s) else no
    if s.undef(): return yes
    if s.void() or s.ref or s.mulnum(): return no
    if d.string():
        if s.string(): return no if d.flag and not s.flag else yes
        return conv if s.numeric() else no
    if d.any_object(): return conv if s.numeric() else yes if s.object() else no
    if d.numobj():
        if s.numeric(): return conv if s.numidx() == d.numidx() else no
        return yes if same(d, s) else no
    if d.base == "object" and d.d == 1: return yes if s.elem_object() else no
    if d.dim != s.dim: return no
    if same(d, s): return yes
    if d.cat == "CLASS": return yes if s.cat == "CLASS" and super_of(d, s, rel) else no
    if d.cat == "INTERFACE":
        if exact and d.d == 0: return no
        return yes if s.cat in ("CLASS", "INTERFACE") and has(s, d, rel) else no
    return no

def cast(d, s, rel):
    """the tables of "Cast Requirement"; interfaces must be satisfied in one direction"""
    if d.numeric(): return s.numeric() or (s.numobj() and s.numidx() == d.numidx()) or s.any_object() or s.string()
    if d.mulnum() or d.ref: return same(d, s)
    if s.undef(): return True
    if s.void() or s.ref or s.mulnum(): return False
    if d.string(): return s.string() or s.numeric() or s.any_object() or (s.base == "byte" and s.d == 1)
    if d.any_object(): return s.numeric() or s.object()
    if s.any_object(): return True
    if d.numobj(): return same(d, s) or (s.numeric() and s.numidx() == d.numidx())
    if d.base == "byte" and d.d == 1: return s.string() or same(d, s)
    if d.base == "object" and d.d == 1: return s.elem_object()
    if s.base == "object" and s.d == 1: return d.elem_object()
    if d.dim != s.dim: return False
    if same(d, s): return True
    if d.cat == "CLASS" and s.cat == "CLASS": return super_of(d, s, rel) or super_of(s, d, rel)
    if d.cat == "CLASS" and s.cat == "INTERFACE": return d.d <= 1 and has(d, s, rel)
    if d.cat == "INTERFACE" and s.cat in ("CLASS", "INTERFACE"): return has(s, d, rel)
    return False

def pairs(prog):
    """(destination, source) for every pair of kinds; types of one kind are the same or different types, dimensions equal or different"""
    A, B = kinds.kinds(prog), kinds.kinds(prog, True)
    for i, d in enumerate(A):
        for j, s in enumerate(B):
            bids = [s.bid] + ([d.bid] if d.bid[0] == "s" and d.cat == s.cat and s.bid[0] == "s" else [])
            dims = [s.dim] + ([d.dim] if d.dim[0] == "s" and s.dim[0] == "s" else [])
            for b in bids:
                for m in dims:
                    yield d, kinds.Kind(s.name, b, m, s.flag, s.base, s.cat)

def relations(d, s):
    if d.cat not in ("CLASS", "INTERFACE") or s.cat not in ("CLASS", "INTERFACE"): return [{}]
    if d.bid == s.bid: return [{("has_interface", s.bid, d.bid): 1} if d.cat == "INTERFACE" else {}]
    ks = [("is_super_class", d.bid, s.bid), ("is_super_class", s.bid, d.bid), ("has_interface", s.bid, d.bid), ("has_interface", d.bid, s.bid)]
    out = []
    for bits in itertools.product((0, 1), repeat=4):
        r = dict(zip(ks, bits))
        if r[ks[0]] and r[ks[1]]: continue
        if d.cat != "INTERFACE" and r[ks[2]] or s.cat != "INTERFACE" and r[ks[3]]: continue
        if (d.cat != "CLASS" or s.cat != "CLASS") and (r[ks[0]] or r[ks[1]]): continue
        out.append(r)
    return out

def describe(d, s, rel):
    t = []
    for (n, a, b), v in rel.items():
        who = lambda x: "destination" if x == d.bid else "source"
        if v: t.append("%s is a super class of %s" % (who(a), who(b)) if n == "is_super_class" else "%s satisfies %s" % (who(a), who(b)))
    if d.bid[0] == "s" and d.cat == s.cat: t.append("same type" if d.bid == s.bid else "different types")
    if d.dim[0] == "s" and s.dim[0] == "s": t.append("equal dimensions" if d.dim == s.dim else "different dimensions")
    return "%s <- %s%s" % (d, s, " (%s)" % ", ".join(t) if t else "")

SRC = ("spvm_type.c", "spvm_basic_type.c", "spvm_api_type.c")
def program():
    bc = build.compile_bc([build.BUILDER + "/src/" + f for f in SRC])
    return build.export(build.link(bc, "types"), build.PASSES_RAW, tag="types")

def classify(ck, prog, it, comp, bad):
    """every predicate over every kind"""
    TP, BP = kinds.predicates()
    rt = P(("obj", "runtime"))
    for fn, k, want, args in [("SPVM_TYPE_is_" + n, k, p(k), (comp, k.bid, k.dim, C(k.flag))) for n, p in TP.items() for k in kinds.kinds(prog)] + \
            [("SPVM_BASIC_TYPE_is_" + n, k, p(k), (comp, k.bid)) for n, p in BP.items() for k in kinds.kinds(prog)] + \
            [("SPVM_API_TYPE_is_" + n, k, TP[n](k), (rt, P(("obj", "bt", k.bid)), k.dim, C(k.flag))) for n in TP for k in kinds.kinds(prog) if "SPVM_API_TYPE_is_" + n in prog.fns]:
        if fn not in prog.fns: continue
        got = set(None if v is None or v[0] != "c" else bool(v[1]) for v, z in it.call(fn, args, kinds.state(prog)))
        if None in got or len(got) != 1: ck.count("undecided"); ck.notes.append("%s: %s not decided" % (fn, k)); continue
        ck.count("classifications")
        if got != {bool(want)}: bad.setdefault(fn, []).append("%s: %s, documented: %s" % (k, bool(got.pop()), bool(want)))
    for k in kinds.kinds(prog):
        for fn, args in (("SPVM_TYPE_get_type_width", (comp, k.bid, k.dim, C(k.flag))), ("SPVM_API_TYPE_get_type_width", (rt, P(("obj", "bt", k.bid)), k.dim, C(k.flag)))):
            if fn not in prog.fns: continue
            got = set(v for v, z in it.call(fn, args, kinds.state(prog)))
            want = ("s", "nfields") if k.mulnum() else C(1)
            if any(v is None or v[0] not in ("c", "s") for v in got): ck.count("undecided"); ck.notes.append("%s: %s not decided" % (fn, k)); continue
            ck.count("classifications")
            if got != {want}: bad.setdefault(fn, []).append("%s: width %s, documented: %s" % (k, sorted(map(str, got)), "the number of fields" if k.mulnum() else 1))

def at_runtime(ck, prog, w, it, bad):
    """the assignability of an object's type, with its cache empty, filled with yes, filled with no"""
    fn = "SPVM_API_TYPE_can_assign"
    if fn not in prog.fns: raise AnalysisBroken("no function " + fn)
    cached, sets, keys = [0], [], []
    def oracle(i, n, a, st):
        if n == "SPVM_HASH_get": return [(C(cached[0]), st)]
        if n == "SPVM_HASH_set": sets.append(a[3]); return [(C(0), st)]
        if n in ("snprintf", "sprintf"): keys.append(a)
        if n == "strlen" or n.startswith("SPVM_MUTEX_"): return [(C(0), st)]
        return w.oracle(i, n, a, st)
    rt = absint.Interp(prog, oracle=oracle, field=w.field, differ=kinds.differ, budget=10**8, cached=("SPVM_TYPE_is_", "SPVM_BASIC_TYPE_is_"))
    for d, s in pairs(prog):
        if d.flag or s.flag or not (d.object() and s.object()) or s.iface() or s.any_object(): continue
        for rel in relations(d, s):
            w.rel = rel
            a, c = assign(d, s, rel, 0, 0)
            for f in (0, prog.enums["SPVM_NATIVE_C_TYPE_FLAG_MUTABLE"]):
                for cached[0] in (0, 1, -1):
                    del sets[:], keys[:]
                    r = rt.call(fn, (P(("obj", "runtime")), P(("obj", "bt", d.bid)), d.dim, C(f), P(("obj", "bt", s.bid)), s.dim, C(f)), kinds.state(prog))
                    got = set(None if v is None or v[0] != "c" else int(v[1] != 0) for v, z in r)
                    if None in got or len(got) != 1: ck.count("undecided"); ck.notes.append("%s: %s not decided" % (fn, describe(d, s, rel))); continue
                    ck.count("decisions at run time")
                    want = int(a and not c) if not cached[0] else int(cached[0] > 0)
                    if got != {want}: bad.setdefault(fn, []).append("%s%s: %s, documented: %s" % (describe(d, s, rel), (" (answer kept from before: %d)" % cached[0]) if cached[0] else "", got, want))
                    for v in sets if not cached[0] else ():
                        if v[0] == "c" and (v[1] == 0 or (v[1] > 0) != bool(want)): bad.setdefault(fn, []).append("%s: keeps the answer %d" % (describe(d, s, rel), v[1]))
                    for k in keys:
                        if not all(x in k for x in (d.bid, d.dim, s.bid, s.dim)): bad.setdefault(fn, []).append("%s: the key of the kept answer does not contain both types" % describe(d, s, rel))

def run(ck):
    ck.rule = ("The functions that decide the assignment and cast requirement (spvm_type.c, spvm_basic_type.c) are evaluated by an abstract interpreter over the intermediate representation of the current source for every pair "
               "of a destination and a source kind: kinds partition all types, symbols stand for every class, interface, multi-numeric type and dimension of a kind, and the relations between two types (super class, interface) are "
               "enumerated. The result and the need for a data conversion must be those of the tables of the language documents. "
               "The functions that compute the relations themselves are compared with specifications: " + fspec.RULE)
    prog = program()
    w = kinds.World(prog)
    it = absint.Interp(prog, oracle=w.oracle, field=w.field, differ=kinds.differ, budget=10**8, cached=("SPVM_TYPE_is_", "SPVM_BASIC_TYPE_is_"))
    comp = P(("obj", "compiler"))
    errs = C(0)
    A = "SPVM_TYPE_satisfy_assignment_requirement"
    bad = {}
    def outcome(fn, args, cell=None):
        st = kinds.state(prog)
        if cell: st.mem[(cell[1], ())] = C(0)
        r = it.call(fn, args, st)
        out = set()
        for v, z in r:
            if v == ("abort",): out.add("aborts"); continue
            if v is None or v[0] != "c": return None
            n = z.mem[(cell[1], ())] if cell else C(0)
            out.add((int(v[1] != 0), int(n != C(0)) if v[1] else 0))
        return out.pop() if len(out) == 1 else None
    def report(fn, d, s, rel, got, want):
        if got is None: ck.count("undecided"); ck.notes.append("%s: %s not decided" % (fn, describe(d, s, rel))); return
        ck.count("decisions")
        if got != want: bad.setdefault(fn, []).append("%s: %s, documented: %s" % (describe(d, s, rel), *(("aborts" if x == "aborts" else ("allowed" if x[0] else "not allowed") + (" with a conversion" if x[1] else "")) for x in (got, want))))
    for d, s in pairs(prog):
        ck.count("type pairs")
        T = (d.bid, d.dim, C(d.flag)); U = (s.bid, s.dim, C(s.flag))
        for rel in relations(d, s):
            w.rel = rel
            for nar, exact in ((0, 0), (1, 0), (0, 1)):
                cell = P(("obj", "need"))
                report(A, d, s, rel, outcome(A, (comp,) + T + U + (cell, C(nar), C(exact), errs), cell), assign(d, s, rel, nar, exact))
            for nm, exact in (("_without_data_conversion", 0), ("_without_data_conversion_with_interface_match", 1)):
                a, c = assign(d, s, rel, 0, exact)
                report(A + nm, d, s, rel, outcome(A + nm, (comp,) + T + U + (errs,)), (int(a and not c), 0))
            if not d.void() and not d.undef():
                f = "SPVM_TYPE_satisfy_cast_requirement"
                report(f, d, s, rel, outcome(f, (comp,) + T + U + (errs,)), (int(cast(d, s, rel)), 0))
    classify(ck, prog, it, comp, bad)
    at_runtime(ck, prog, w, it, bad)
    for fn, l in bad.items():
        ck.violation("function:" + fn, "%s (%s) decides %d case%s otherwise than documented: %s" % (fn, prog.fn(fn).loc, len(l), "s" if len(l) > 1 else "", "; ".join(l[:6])))
    for n in it.fns: ck.functions.add(n)
    for t in ("int <- long", "mutable string <- string", "Class <- Class"): ck.sample(t)
    fspec.check(ck, ("type_relation",), 4, lib="core")
    ck.need("classifications", 1500); ck.need("decisions at run time", 2000)
    ck.need("type pairs", 1500); ck.need("decisions", 5000)
