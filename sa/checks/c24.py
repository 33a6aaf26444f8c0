"""C24: class definitions: inheritance, interfaces, fields and their layout, class variables, methods and their arguments."""
import itertools
from .. import classes
from ..absint import C, P
from .c22 import program

LEVEL = "other"
PASS = {"relation": "SPVM_CHECK_check_basic_types_relation", "class_vars": "SPVM_CHECK_check_class_vars", "fields": "SPVM_CHECK_check_fields", "methods": "SPVM_CHECK_check_methods"}

class Bad(dict):
    """what is wrong, by the pass that does it"""
    def add(s, fn, m): s.setdefault(fn, []).append(m)
    endless = 0
    def full(s, fn): return len(s.get(fn, ())) >= 10 or s.endless > 1

def go(ck, b, bad, fn, label, mk, want, earlier=0, extra=None):
    """want: 'error' or a function of the state left that says what is wrong with it"""
    fn = PASS.get(fn, fn)
    if bad.full(fn): return
    t = b.tree(earlier); t.bad = None
    mk(t)
    res = b.run(fn, extra(t) if extra else ())
    if not res or any(r[0] == "give up" for r in res):
        ck.count("undecided"); ck.notes.append("%s: not decided (%s)" % (label, res[:1])); return
    ck.count("sets of definitions")
    for r in res:
        if isinstance(r, str): bad.endless += r == "endless"; bad.add(fn, "%s: the compiler %s" % (label, "does not come to an end" if r == "endless" else "stops (%s)" % r[7:])); return
        errs, ev, st = r
        if want == "error":
            if not errs: bad.add(fn, "%s: accepted, documented: a compilation error" % label); return
        elif errs: bad.add(fn, "%s: rejected (%s), documented: accepted" % (label, str(errs[0]).split("\n")[0])); return
        else:
            m = want(t, st, ev)
            if m: bad.add(fn, "%s: %s" % (label, m)); return

ABC = ("A", "B", "D")
def chain(parents, n):
    """super classes of n, nearest first, or None for a cycle"""
    out = []; p = parents.get(n)
    while p:
        if p in out or p == n: return None
        out.append(p); p = parents.get(p)
    return out

# relations -------------------------------------------------------------------
def relations(ck, b, bad):
    # every parent function of three classes
    for ps in itertools.product((None,) + ABC, repeat=3):
        parents = dict(zip(ABC, ps))
        cyc = any(chain(parents, n) is None for n in ABC)
        label = "classes " + ", ".join("%s%s" % (n, " extends " + p if p else "") for n, p in parents.items())
        def mk(t):
            for n in ABC: t.cls(n, parents[n])
        def want(t, st, ev):
            for n in ABC:
                p = b.get(st, t.classes[n], "parent")
                if p != (t.classes[parents[n]] if parents[n] else C(0)): return "the parent of %s is %s" % (n, t.names.get(p, "none"))
        go(ck, b, bad, "relation", label, mk, "error" if cyc else want)
    # a class that inherits must be a class and inherit from a class
    for c1, c2 in itertools.product(("CLASS", "INTERFACE", "MULNUM"), repeat=2):
        for swap in (0, 1):
            def mk(t):
                for n in ("BA", "AB")[swap]: t.cls(n, "A" if n == "B" else None, cat=c1 if n == "A" else c2)
            go(ck, b, bad, "relation", "%s B extends %s A" % (c2.lower(), c1.lower()), mk, (lambda t, st, ev: None) if c1 == c2 == "CLASS" else "error")
    # interface statements
    for cat in ("CLASS", "INTERFACE", "MULNUM"):
        def mk(t): t.cls("I", cat=cat); t.cls("A", interfaces=("I",))
        go(ck, b, bad, "relation", "class A with the statement interface %s" % cat.lower(), mk, (lambda t, st, ev: None) if cat == "INTERFACE" else "error")
    subsets = ((), ("I",), ("J",), ("I", "J"))
    for order in itertools.permutations(ABC):
        for own in itertools.product(subsets, repeat=3):
            if order != ABC and sum(map(len, own)) > 3: continue
            parents = {"A": None, "B": "A", "D": "B"}; decl = dict(zip(ABC, own))
            def mk(t):
                t.cls("I", cat="INTERFACE"); t.cls("J", cat="INTERFACE")
                for n in order: t.cls(n, parents[n], interfaces=decl[n])
            def want(t, st, ev):
                for n in ABC:
                    exp = set(decl[n]).union(*[decl[p] for p in chain(parents, n)])
                    got = {t.names[x] for x in b.lst(st, t.classes[n], "interface_basic_types")}
                    if got != exp: return "%s has the interfaces %s, documented: %s" % (n, sorted(got), sorted(exp))
                    tab = b.sym(st, t.classes[n], "interface_basic")
                    if {k for k in tab if tab[k] != C(0)} != exp or any(tab[k] != t.classes[k] for k in exp): return "%s finds by name the interfaces %s, documented: %s" % (n, sorted(tab), sorted(exp))
            go(ck, b, bad, "relation", "A, B extends A, D extends B in the order %s with the interfaces %s" % ("".join(order), decl), mk, want)
    # destructors
    for order in itertools.permutations(ABC):
        for has in itertools.product((0, 1), repeat=3):
            parents = {"A": None, "B": "A", "D": "B"}; h = dict(zip(ABC, has))
            def mk(t):
                for n in order: t.cls(n, parents[n], methods=("DESTROY",) if h[n] else ("other",))
            def want(t, st, ev):
                for n in ABC:
                    exp = next((x + "::DESTROY" for x in [n] + chain(parents, n) if h[x]), None)
                    got = t.names.get(b.get(st, t.classes[n], "destroy_method"))
                    if got != exp: return "the destructor of %s is %s, documented: %s" % (n, got, exp)
            go(ck, b, bad, "relation", "A, B extends A, D extends B in the order %s, destructors in %s" % ("".join(order), [n for n in ABC if h[n]]), mk, want)
    # the outmost class of an anon method class
    for name, out in (("A::anon_method::3::5", "A"), ("A::B::anon_method::12::1", "A::B")):
        def mk(t): t.cls("A"); t.cls("A::B"); t.cls(name, anon=True, methods=("",)); t.cls("Z", methods=("m",))
        def want(t, st, ev):
            for n in t.classes:
                exp = t.classes[out] if n == name else C(0)
                if b.get(st, t.classes[n], "outmost") != exp: return "the outmost class of %s is %s, documented: %s" % (n, t.names.get(b.get(st, t.classes[n], "outmost")), t.names.get(exp))
        go(ck, b, bad, "relation", "the anon method class " + name, mk, want)

# fields ------------------------------------------------------------------------
def fields(ck, b, bad):
    K = b.w.byname
    # members of a hierarchy: every set of fields
    FS = [()] + [((n, k),) for n in "xy" for k in ("int", "string")] + [(("x", "int"), ("y", "string")), (("y", "int"), ("x", "byte"))]
    parents = {"A": None, "B": "A", "D": "B"}
    for order in (ABC, ("D", "B", "A"), ("B", "A", "D")):
        for sets in itertools.product(FS, repeat=3):
            if order != ABC and (len(sets[0]) == 2 or len(sets[2]) == 2): continue
            decl = dict(zip(ABC, sets))
            err = False
            for n in ABC:
                up = {}
                for p in chain(parents, n):
                    for f, k in decl[p]: up.setdefault(f, k)
                if any(f in up and up[f] != k for f, k in decl[n]): err = True
            def mk(t):
                for n in order:
                    c = t.cls(n)
                for n in ABC:
                    if parents[n]: t.put(t.classes[n], "parent", t.classes[parents[n]])
                    for f, k in decl[n]: t.field_of(n, f, t.ty(K[k]))
            def want(t, st, ev):
                lay = {}
                for n in ABC:
                    exp = []
                    for p in reversed([n] + chain(parents, n)):
                        for f, k in decl[p]:
                            if f not in [e[0] for e in exp]: exp.append((f, k, p))
                    got = b.lst(st, t.classes[n], "fields"); names = [b.get(st, f, "name")[1] for f in got]
                    if sorted(names) != sorted(e[0] for e in exp): return "%s has the fields %s, documented: %s" % (n, names, [e[0] for e in exp])
                    tab = b.sym(st, t.classes[n], "field")
                    for i, f in enumerate(got):
                        nm = b.get(st, f, "name")[1]; k = next(e[1] for e in exp if e[0] == nm)
                        if b.get(st, f, "index") != C(i): return "field %s of %s at position %d has index %s" % (nm, n, i, b.get(st, f, "index")[1])
                        if tab.get(nm) != f: return "the field %s of %s is not found by its name" % (nm, n)
                        if b.get(st, f, "current_basic_type") != t.classes[n]: return "field %s of %s says it is of class %s" % (nm, n, t.names.get(b.get(st, f, "current_basic_type")))
                        ty = b.get(st, f, "type")
                        if ty[0] != "p" or b.typename(st, ty)[0] != K[k].bid: return "field %s of %s has another type than declared" % (nm, n)
                        if b.get(st, f, "access_control_type") != C(t.e["SPVM_ATTRIBUTE_C_ID_PUBLIC"]): return "field %s of %s lost its access control" % (nm, n)
                    if set(tab) != set(names): return "%s finds by name the fields %s" % (n, sorted(tab))
                    lay[n] = [(b.get(st, f, "name")[1], b.get(st, f, "offset")) for f in got]
                    p = parents[n]
                    if p and lay[n][:len(lay[p])] != lay[p]: return "the fields of %s are laid out as %s, those of its parent %s as %s" % (n, lay[n], p, lay[p])
            go(ck, b, bad, "fields", "A, B extends A, D extends B in the order %s with the fields %s" % ("".join(order), decl), mk, "error" if err else want)
    # a field defined again, in the class that extends or in one that extends that, with every sort of type
    ty = {"int": lambda t: t.ty(K["int"]), "long": lambda t: t.ty(K["long"]), "string": lambda t: t.ty(K["string"]), "P": lambda t: t.class_ty("P"), "Q": lambda t: t.class_ty("Q"),
          "int[]": lambda t: t.obj("type", basic_type=t.get(t.ty(K["int"]), "basic_type"), dimension=C(1), flag=C(0)), "int[][]": lambda t: t.obj("type", basic_type=t.get(t.ty(K["int"]), "basic_type"), dimension=C(2), flag=C(0)),
          "P[]": lambda t: t.class_ty("P", 1), "mutable string": lambda t: t.obj("type", basic_type=t.get(t.ty(K["string"]), "basic_type"), dimension=C(0), flag=C(t.e["SPVM_NATIVE_C_TYPE_FLAG_MUTABLE"])),
          "string[]": lambda t: t.obj("type", basic_type=t.get(t.ty(K["string"]), "basic_type"), dimension=C(1), flag=C(0))}
    for k, l in itertools.product(ty, repeat=2):
        for far in (0, 1):
            def mk(t):
                for n in ("P", "Q") + ABC: t.cls(n)
                for n in ABC:
                    if parents[n]: t.put(t.classes[n], "parent", t.classes[parents[n]])
                t.field_of("A", "x", ty[k](t)); t.field_of("D" if far else "B", "x", ty[l](t))
            go(ck, b, bad, "fields", "x : %s of A and x : %s of %s" % (k, l, "D extends B extends A" if far else "B extends A"), mk, "error" if k != l else (lambda t, st, ev: None))
    # a field of a multi-numeric type
    for cat, dim, ref in itertools.product(("CLASS", "MULNUM"), (0, 1), (0,)):
        def mk(t):
            m = t.cls("M_1i", cat=cat); t.field_of("M_1i", "a", t.ty(K["int"]))
            t.cls("A"); t.field_of("A", "f", t.class_ty("M_1i", dim, ref))
        go(ck, b, bad, "fields", "a field of type %s%s" % (cat.lower(), "[]" * dim), mk, "error" if cat == "MULNUM" and dim == 0 else (lambda t, st, ev: None))
    # definitions of multi-numeric types
    L = {"byte": "b", "short": "s", "int": "i", "long": "l", "float": "f", "double": "d"}
    for k in list(L) + ["string", "object", "int[]", "Class"]:
        for n in (1, 2, 3, 12):
            good = "P_%d%s" % (n, L.get(k, "i"))
            names = [good, "P", "", "P_%d%s" % (n + 1, L.get(k, "i")), "P_%d%s" % (n, "x"), "P%d%s" % (n, L.get(k, "i")), good + "x", good[2:], "P_%d%s" % (n, {"i": "l", "l": "i"}.get(L.get(k, "i"), "i")), "Some::P_%d%s" % (n, L.get(k, "i")), good[1:] + "_" + good]
            if n > 2 and k != "int": names = names[:1]
            for nm in names:
                ok = k in L and nm.endswith("_%d%s" % (n, L[k]))
                def mk(t):
                    t.cls(nm, cat="MULNUM")
                    for i in range(n): t.field_of(nm, "f%d" % i, t.ty(K[k]))
                go(ck, b, bad, "fields", "the multi-numeric type '%s' of %d field%s of %s" % (nm, n, "s" * (n > 1), k), mk, (lambda t, st, ev: None) if ok else "error")
    for ks in itertools.product(("byte", "int", "double", "int[]", "string"), repeat=3):
        if len(set(ks)) == 1: continue
        def mk(t):
            t.cls("P_3%s" % L.get(ks[0], "i"), cat="MULNUM")
            for i, k in enumerate(ks): t.field_of(t.order[0], "f%d" % i, t.ty(K[k]))
        go(ck, b, bad, "fields", "a multi-numeric type with fields of %s" % (ks,), mk, "error")
    # class variables
    for cat, dim in itertools.product(("CLASS", "MULNUM"), (0, 1)):
        def mk(t): t.cls("M_1i", cat=cat); t.cls("A"); t.class_var_of("A", "G", t.ty(K["int"])); t.class_var_of("A", "V", t.class_ty("M_1i", dim)); t.class_var_of("A", "W", t.ty(K["string"]))
        def want(t, st, ev):
            got = [b.get(st, v, "index") for v in b.lst(st, t.classes["A"], "class_vars")]
            if got != [C(i) for i in range(3)]: return "class variables have the indexes %s" % ([g[1] for g in got],)
        go(ck, b, bad, "class_vars", "a class variable of type %s%s" % (cat.lower(), "[]" * dim), mk, "error" if cat == "MULNUM" and dim == 0 else want)

# layout ------------------------------------------------------------------------
SIZE = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8, "string": 8, "object": 8, "Class": 8, "Interface": 8, "int[]": 8, "Int": 8, "Mulnum[]": 8, "mutable string": 8}
def layout(ck, b, bad, n=4):
    fn = "SPVM_CHECK_check_field_offset"
    K = b.w.byname
    reps = ("byte", "short", "int", "long")
    seqs = [s for k in range(0, n + 1) for s in itertools.product(reps, repeat=k)]
    seqs += [(x, k, y) for k in SIZE for x in ("byte", "int") for y in ("byte", "short")] + [("byte",) * 9 + ("int", "byte", "short", "long"), ("short",) * 5 + ("byte", "double", "byte", "float", "string", "byte"), ("byte", "long") * 4, ("int", "byte") * 5]
    for s in seqs:
        def mk(t):
            t.cls("A")
            for i, k in enumerate(s): t.field_of("A", "f%d" % i, t.ty(K[k]))
            t.put(t.classes["A"], "fields", t.get(t.classes["A"], "unmerged_fields"))
        def want(t, st, ev):
            c = t.classes["A"]; end = b.get(st, c, "fields_size")
            if end[0] != "c": return "the size of the object is not known"
            used = []
            for k, f in zip(s, b.lst(st, c, "fields")):
                o = b.get(st, f, "offset")
                if o[0] != "c": return "an offset is not known"
                o = o[1]
                if o % SIZE[k]: return "the %s is at offset %d, not a multiple of its size" % (k, o)
                if o < 0 or o + SIZE[k] > end[1]: return "the %s at offset %d ends behind the object of %d bytes" % (k, o, end[1])
                for p, q in used:
                    if o < q and p < o + SIZE[k]: return "the %s at offset %d overlaps another field" % (k, o)
                used.append((o, o + SIZE[k]))
        go(ck, b, bad, fn, "a class with fields of %s" % (s,), mk, want, extra=lambda t: (t.classes["A"],))

# methods -----------------------------------------------------------------------
def methods(ck, b, bad):
    K = b.w.byname
    E = b.prog.enums
    nofail = lambda t, st, ev: None
    # arguments and their places
    def width(k): return k[1] if isinstance(k, tuple) else 1
    for args in [a for n in range(0, 4) for a in itertools.product(("int", "string", ("M", 2), ("M", 3), ("Mref", 1)), repeat=n)] + [("int",) * 255, ("int",) * 256, (("M", 2),) * 127, (("M", 2),) * 128, (("M", 2),) * 127 + ("int",), (("M", 2),) * 127 + ("int",) * 2, ("int",) * 254 + (("M", 2),)]:
        def mk(t):
            for w in (2, 3):
                t.cls("M_%di" % w, cat="MULNUM")
                for i in range(w): t.field_of("M_%di" % w, "f%d" % i, t.ty(K["int"]))
            t.cls("A")
            ty = lambda a: t.class_ty("M_%di" % a[1]) if a[0] == "M" else t.class_ty("M_2i", ref=E["SPVM_NATIVE_C_TYPE_FLAG_REF"]) if a[0] == "Mref" else t.ty(K[a])
            t.mm, t.ds = t.method_of("A", "m", [(ty(a), None) for a in args])
        w = sum(width(a) for a in args)
        def want(t, st, ev):
            at = 0
            for a, d in zip(args, t.ds):
                if b.get(st, d, "stack_index") != C(at): return "the argument of type %s after %d values is passed at %s" % (a, at, b.get(st, d, "stack_index")[1])
                if b.get(st, d, "is_optional_arg") != C(0): return "an argument without a default is optional"
                at += width(a)
        go(ck, b, bad, "methods", "a method of %s" % (args if len(args) < 5 else "%d arguments, %d values" % (len(args), w),), mk, want if w <= 255 else "error")
    # optional arguments
    for pat in [p for n in range(1, 4) for p in itertools.product((0, 1), repeat=n)]:
        def mk(t):
            t.cls("A")
            t.mm, t.ds = t.method_of("A", "m", [(t.ty(K["int"]), t.const(K["int"], C(7 + i)) if o else None) for i, o in enumerate(pat)])
        def want(t, st, ev):
            for i, (o, d) in enumerate(zip(pat, t.ds)):
                if b.get(st, d, "is_optional_arg") != C(o): return "argument %d is %soptional" % (i, "" if not o else "not ")
                if o and st.mem.get((d[1], ("arg_default_value",))) != C(7 + i): return "the default of argument %d is %s" % (i, st.mem.get((d[1], ("arg_default_value",))))
        bad_order = any(a and not c for a, c in zip(pat, pat[1:]))
        go(ck, b, bad, "methods", "a method with arguments %s" % ("".join("or"[not o] for o in pat)), mk, "error" if bad_order else want)
    num = ("byte", "short", "int", "long", "float", "double")
    vals = {"int": 200, "byte": -3, "short": 300, "long": -70000}
    trunc = {"byte": 8, "short": 16, "int": 32, "long": 64}
    def wrap(v, bits): v &= (1 << bits) - 1; return v - (1 << bits) if v >> (bits - 1) else v
    for a, c in itertools.product(num, num):
        for okay in (1, 0):
            v = vals.get(c)
            def mk(t):
                t.cls("A"); b.assignable = (okay, 0); b.narrow = 1
                t.mm, t.ds = t.method_of("A", "m", [(t.ty(K[a]), t.const(K[c], C(v) if v is not None else ("const", c)))])
            def want(t, st, ev):
                q = [e for e in ev if e[0] == "assign"]
                if q != [("assign", K[a].bid, C(0), C(0), K[c].bid, C(0), C(0), C(1))]: return "assignment of %s to %s is not what is asked" % (c, a)
                got = st.mem.get((t.ds[0][1], ("arg_default_value",)))
                if v is not None and a in trunc:
                    if got is None or got[0] != "c" or wrap(got[1], trunc[a]) != wrap(v, trunc[a]): return "the default %d becomes %s" % (v, got)
                elif v is None and a == c:
                    if got != ("const", c): return "the default becomes %s" % (got,)
                elif got is None or got[0] == "c" and got[1] == 0: return "the default is lost"
            go(ck, b, bad, "methods", "an optional argument of type %s with a default of type %s%s" % (a, c, "" if okay else " that cannot be assigned"), mk, want if okay else "error")
    for a in ("int", "double", "string", "object", "Class", "int[]", "Mulnum", "int*", "Mulnum*", "Interface", "Mulnum[]", "Int"):
        for d in ("UNDEF", "CONSTANT", "VAR"):
            def mk(t):
                t.cls("A"); b.assignable = (1, 0); b.narrow = 1
                op = t.const(K["int"], C(1)) if d == "CONSTANT" else t.op(d, uv=t.obj("var") if d == "VAR" else None)
                t.method_of("A", "m", [(t.ty(K[a]), op)])
            k = K[a]
            ok = d == "CONSTANT" if a in num else d == "UNDEF" and k.object()
            go(ck, b, bad, "methods", "an optional argument of type %s with the default %s" % (a, d.lower()), mk, nofail if ok else "error")
    # return types
    for r in ("void", "int", "string", "Class", "Mulnum", "int*", "Mulnum*", "int[]"):
        def mk(t): t.cls("A"); t.method_of("A", "m", rtype=t.ty(K[r]))
        go(ck, b, bad, "methods", "a method that returns %s" % r, mk, "error" if K[r].ref else nofail)
    # interface requirements are asked for every super class and every interface
    for fail in (None, "A", "B", "I", "J"):
        def mk(t):
            t.cls("I", cat="INTERFACE"); t.cls("J", cat="INTERFACE"); t.cls("A"); t.cls("B"); t.cls("D", methods=("m",))
            t.put(t.classes["B"], "parent", t.classes["A"]); t.put(t.classes["D"], "parent", t.classes["B"])
            t.put(t.classes["D"], "interface_basic_types", t.list([t.classes["I"], t.classes["J"]]))
            if fail: b.iface[(t.get(t.classes["D"], "id"), t.get(t.classes[fail], "id"))] = 0
        def want(t, st, ev):
            q = {(e[1], e[2]) for e in ev if e[0] == "requirement"}
            for x in "ABIJ":
                if (t.get(t.classes["D"], "id"), t.get(t.classes[x], "id")) not in q: return "whether D satisfies the interface requirement of %s is not asked" % x
        go(ck, b, bad, "methods", "D extends B extends A with the interfaces I and J%s" % (", the interface requirement to %s not satisfied" % fail if fail else ""), mk, "error" if fail else want)
    # indexes of methods
    for names in itertools.permutations(("b", "a", "ab", "")):
        def mk(t): t.cls("A", methods=names); t.cls("B", methods=names[:2])
        def want(t, st, ev):
            for n, ns in (("A", names), ("B", names[:2])):
                got = [(b.get(st, m, "name")[1], b.get(st, m, "index")) for m in b.lst(st, t.classes[n], "methods")]
                if sorted(g[0] for g in got) != sorted(ns): return "%s has the methods %s" % (n, [g[0] for g in got])
                if [g[1] for g in got] != [C(i) for i in range(len(ns))]: return "the methods have the indexes %s" % ([g[1] for g in got],)
                if [g[0] for g in got] != sorted(ns): return "the methods are in the order %s" % ([g[0] for g in got],)
        go(ck, b, bad, "methods", "a class with the methods %s" % (names,), mk, want)
    # what is precompiled
    for pre, block, init, enum, anon, opre in itertools.product((0, 1), repeat=6):
        if anon and init: continue
        def mk(t):
            t.cls("Out", precompile=opre)
            t.cls("A", precompile=pre, anon=anon)
            f = {"outmost_basic_type_name": ("str", "Out")} if anon else {}
            t.mm, _ = t.method_of("A", "m", block=block, is_init_method=C(init), is_enum=C(enum), **f)
        def want(t, st, ev):
            p = opre if anon else pre
            exp = int(bool(p and block and not init and not enum)); got = b.get(st, t.mm, "is_precompile")
            if got != C(exp): return "is %sprecompiled" % ("" if exp == 0 else "not ")
        go(ck, b, bad, "methods", "a method (body: %d, INIT: %d, enumeration: %d, of an anon method class: %d) of a class with precompile %d, outmost class %d" % (block, init, enum, anon, pre, opre), mk, want)
    # INIT methods call those of the parent and of the used classes first
    cats = {"U1": "CLASS", "U2": "CLASS", "UI": "INTERFACE", "UM_1i": "MULNUM", "None": None}
    for parent in (0, 1):
        for uses in [()] + [u for n in (1, 2, 3) for u in itertools.permutations(cats, n)]:
            def mk(t):
                for n, c in cats.items():
                    if c: t.cls(n, cat=c)
                t.cls("P"); t.field_of("UM_1i", "x", t.ty(K["int"]))
                t.cls("A", parent="P" if parent else None, uses=uses)
                if parent: t.put(t.classes["A"], "parent", t.classes["P"])
                m, _ = t.method_of("A", "INIT", is_init_method=C(1)); blk = t.block([t.op("NOOP") if "SPVM_OP_C_ID_NOOP" in E else t.op("UNDEF")])
                t.put(m, "op_block", blk); t.put(t.classes["A"], "init_method", m); t.blk = blk
            def want(t, st, ev):
                exp = (["P"] if parent else []) + [u for u in uses if cats[u] == "CLASS"]
                lst = b.get(st, t.blk, "first"); kids = b.kids(st, lst)
                if any(isinstance(k, str) for k in kids): return "the statements are linked wrongly: %s" % next(k for k in kids if isinstance(k, str))
                if b.opname_of(st, kids[0]) != "PUSHMARK": return "the list of statements does not begin with a mark"
                got = []
                for k in kids[1:-1]:
                    if b.opname_of(st, k) != "CALL_METHOD": return "%s is inserted" % b.opname_of(st, k)
                    cm = b.get(st, k, "uv")
                    nm = st.mem.get((b.get(st, cm, "op_name")[1], ("uv",)))
                    if nm != ("str", "INIT"): return "the method %s is called" % (nm,)
                    if b.get(st, cm, "is_class_method") == C(0): return "INIT is called as an instance method"
                    ub = b.get(st, cm, "basic_type_name"); got.append(ub[1] if ub[0] == "str" else str(ub))
                if got != exp: return "calls the INIT methods of %s, documented: %s" % (got, exp)
            go(ck, b, bad, "methods", "the INIT method of a class that uses %s%s" % (list(uses), " and extends P" if parent else ""), mk, want)

GROUPS = (relations, fields, layout, methods)

def run(ck):
    ck.rule = ("The passes that relate classes (check_basic_types_relation, check_class_vars, check_fields with check_field_offset, check_methods) are evaluated from the IR of the current source on sets of class definitions: every inheritance "
               "relation of three classes, every assignment of interfaces, destructors and fields to a chain of three, every sequence of field sizes up to the stated length, every pattern of arguments, and so on. What they report and the tables "
               "they leave (parents, interfaces, fields with indexes and offsets, argument places and defaults, destructors, order of INIT calls) are compared with the rules of the language documents.")
    b = classes.Build(program())
    bad = Bad()
    for g in GROUPS: g(ck, b, bad, *((5,) if g is layout and ck.tier == "thorough" else ()))
    for n in b.it.fns: ck.functions.add(n)
    for fn, l in bad.items():
        ck.violation("function:" + fn, "%s (%s) treats class definitions otherwise than documented: %s" % (fn, b.prog.fn(fn).loc, "; ".join(l[:6])))
    for t in ("class D extends B, B extends D", "field x : int of A and x : string of B extends A", "byte, long, byte fields"): ck.sample(t)
    ck.need("sets of definitions", 1000)
