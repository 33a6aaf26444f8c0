"""Function-level comparison of /repo's C functions with independent specifications written in C.
Both are compiled to IR and summarised by the region walker; nothing is executed."""
import os, re
from . import build, ir, sym, vmtab, equiv, opspec
from .build import AnalysisBroken

TABLES = dict(vmtab.API)
TABLES.update({"struct.spvm_env": "SPVM_API_", "struct.spvm_api_internal": "SPVM_API_", "struct.spvm_api_mutex": "SPVM_API_MUTEX_", "struct.spvm_api_allocator": "SPVM_API_ALLOCATOR_",
               "struct.spvm_api_string_buffer": "SPVM_API_STRING_BUFFER_", "struct.spvm_api_compiler": "SPVM_API_COMPILER_", "struct.spvm_api_class_file": "SPVM_API_CLASS_FILE_"})
# functions whose result is a function of their arguments and of state no API function changes (types, names, layouts)
PURE = {"strlen", "strcmp", "memcmp", "strncmp", "strchr", "strrchr", "strstr"} | {"SPVM_API_" + n for n in
    """is_array is_string is_numeric_array is_object_array is_mulnum_array is_class is_pointer_class isa is_type elem_isa isa_by_name is_type_by_name get_elem_size
       get_basic_type get_basic_type_id get_field get_field_static get_class_var get_method get_class_method get_instance_method_static get_instance_method get_compile_type_name_length
       is_binary_compatible_object is_binary_compatible_stack spvm_stdin spvm_stdout spvm_stderr get_stack_tmp_buffer""".split()}
# straight-line accessors read as their bodies
ACCESSORS = {"SPVM_API_" + n for n in
    """length set_length get_object_basic_type get_object_basic_type_id get_object_basic_type_name get_object_type_dimension get_chars get_elems_byte get_elems_short get_elems_int get_elems_long
       get_elems_float get_elems_double get_ref_count get_object_no_weaken_address isweak_only_check_flag get_basic_type_by_id get_exception enter_scope get_pointer set_pointer
       get_class_var_byte get_class_var_short get_class_var_int get_class_var_long get_class_var_float get_class_var_double get_class_var_object get_class_var_object_ref get_class_var_string
       set_class_var_byte set_class_var_short set_class_var_int set_class_var_long set_class_var_float set_class_var_double
       get_field_byte get_field_short get_field_int get_field_long get_field_float get_field_double get_field_object get_field_object_ref get_field_string
       set_field_byte set_field_short set_field_int set_field_long set_field_float set_field_double is_read_only args_width no_free""".split()} | {"SPVM_API_RUNTIME_get_object_data_offset", "SPVM_API_RUNTIME_get_object_length_offset"}
DIE = ("SPVM_API_die",)

def callee_name(prog, c):
    if c[0] == "load" and c[2][0] == "gep" and len(c[2][3]) == 2 and c[2][3][1][0] == "c":
        t, k = c[2][1], c[2][3][1][1]
        if t in TABLES: return TABLES[t] + prog.field(t, k)
    return None

MUTABLE = {("struct.spvm_runtime_basic_type", "initialized"), ("struct.spvm_runtime_class_var", "data"), ("struct.spvm_runtime", "memory_blocks_count")}
FIXED = {("struct.spvm_object", "basic_type"), ("struct.spvm_object", "type_dimension")}
def immutable(prog):
    """members no operation changes once they are set up"""
    def f(a):
        if a[0] != "gep" or len(a[3]) < 2 or a[3][1][0] != "c": return vmtab.immut(a)
        try: m = (a[1], prog.field(a[1], a[3][1][1]))
        except Exception: return vmtab.immut(a)
        return m in FIXED or (vmtab.immut(a) and m not in MUTABLE)
    return f

class FW(vmtab.W):
    def __init__(s, fn, depth=0, accessors=ACCESSORS, **kw):
        s.depth, s.acc = depth, accessors
        s.purenames, s.quiet = fn.prog.__dict__.get("purenames", PURE), fn.prog.__dict__.get("quiet", ())
        if "pureprefix" in fn.prog.__dict__: kw.setdefault("pure", fn.prog.pureprefix)
        kw.setdefault("immut", (immutable(fn.prog),))
        super().__init__(fn, **kw)
        s.args = None
    def val(s, o, st):
        if s.args is not None and o.startswith("$"): return s.args[int(o[1:])]
        return super().val(o, st)
    def inst(s, i, st):
        if i.op == "call" and not (i.callee or "").startswith("llvm."):
            n = i.callee
            if n is None: n = callee_name(s.prog, s.val(i.ops[0], st))
            if n:
                if n in s.quiet: st.v[i.ref] = ("quiet", n); return
                a = tuple(s.val(o, st) for o in i.ops[1:])
                if (n in s.purenames or n.startswith(s.pure)) and not (getter(s.prog, n) and s.depth < 4):
                    st.v[i.ref] = ("pure", n) + a; return
                if (n in s.acc or getter(s.prog, n)) and s.depth < 4 and n in s.prog.fns and not any(has_addr(x) for x in a):
                    if s.enter(i, n, a, st): return
                if n in s.purenames or n.startswith(s.pure):
                    st.v[i.ref] = ("pure", n) + a; return
                if n in DIE:
                    s.call(_Call(i, n, a[:2]), n, a[:2], st); st.v[i.ref] = ("die", st.v[i.ref][1]); return
                i2 = _Call(i, n, a)
                return s.call(i2, n, a, st)
        if i.op == "call" and i.callee and i.callee.startswith("llvm.memset"):
            d = s.val(i.ops[1], st)
            if d[0] == "addr": st.mem.pop(d[1], None); st.clobber(("local", d[1])); st.ver[("z", d[1])] = st.ver.get(("z", d[1]), 0) + 1; return
        super().inst(i, st)
    def call(s, i, n, a, st):
        seen = tuple((x[1], st.mem[x[1]][1] if x[1] in st.mem else ("var", x[1], 0)) for x in a if x[0] == "addr")
        k = sum(e[0] not in ("store", "loop") for e in st.eff)
        st.eff.append(("call", n, a, seen) if seen else ("call", n, a))
        st.v[i.ref] = ("ret", k, i.ty)
        for x in a:
            b = x
            while b[0] == "gep": b = b[2]
            if b[0] == "addr":
                st.mem[b[1]] = (None, ("var", b[1], ("after", k)))
                for kk in [q for q in st.mem if isinstance(q, tuple) and q[1][2] == b]: del st.mem[kk]
                st.clobber(("local", b[1]))
            elif b[0] == "var": st.clobber(("via", b[1]))
        if not s.aside(n): st.clobber(("heap",))
    def aside(s, name):
        """writing the text of a dump changes none of the objects"""
        return s.fn.name in ("SPVM_API_dump_recursive", "S_dump_recursive") and (name or "").startswith(("SPVM_STRING_BUFFER_add", "snprintf", "strlen", "SPVM_HASH_set", "SPVM_UTF8_iterate"))
    def enter(s, i, n, a, st):
        """evaluate a straight-line callee in place"""
        f = s.prog.fns[n]
        w = FW(f, depth=s.depth + 1, accessors=s.acc); w.args = a
        z = sym.State(); z.ver, z.hist, z.eff = dict(st.ver), st.hist, list(st.eff)
        z.ver["loop"] = st.ver.get("loop", 0)
        out = []
        w.onleaf = out
        try: t = w.walk(0, z)
        except sym.TooBig: return False
        good = [(c, l, x) for c, l, x in w.left if l[3] != "unreachable"]
        if len(good) != 1 or not isinstance(good[0][1][3], tuple): return False
        c, l, x = good[0]
        if "loop" in [e[0] for e in l[1][len(st.eff):]]: return False
        st.ver, st.hist, st.eff = x.ver, x.hist, x.eff
        st.v[i.ref] = l[3][1]
        return True
    def leaf(s, st, ex):
        l = super().leaf(st, ex)
        if not hasattr(s, "left"): s.left = []
        s.left.append((tuple(st.conds), l, st))
        return l

_gt = {}
def getter(prog, n):
    """one block that only reads: as good as the expression"""
    r = _gt.get(n)
    if r is None:
        f = prog.fns.get(n) or (vmtab.PROG.fns.get(n) if vmtab.PROG is not None else None)
        r = _gt[n] = bool(f is not None and n.startswith("SPVM_API_") and len(f.blocks) == 1 and all(i.op in ("load", "getelementptr", "ret", "bitcast", "alloca", "sext", "zext", "trunc", "ptrtoint", "inttoptr", "add") or (i.op == "store" and i.ops[1].startswith("%") and f.d(i.ops[1]).op == "alloca") or (i.op == "call" and (i.callee or "").startswith("llvm.dbg")) for i in f.blocks[0]))
    return r

class _Call:
    def __init__(s, i, n, a): s.ref, s.ty = i.ref, i.ty

def has_addr(e):
    if not isinstance(e, tuple) or not e: return False
    return e[0] == "addr" or any(has_addr(x) for x in e)

def live_effects(eff):
    """stores overwritten before anything can see them are not effects"""
    out = []
    for k, e in enumerate(eff):
        if e[0] == "store":
            dead = False
            for f in eff[k + 1:]:
                if f[0] != "store": break
                if f[2] == e[2] and sym.SIZE.get(f[1]) == sym.SIZE.get(e[1]): dead = True; break
                if e[2] in subterms(f[3]): pass
            if dead: continue
        out.append(e)
    return tuple(out)
_tg = {}
def tagged(e):
    if not isinstance(e, tuple) or not e: return False
    r = _tg.get(e)
    if r is None:
        r = (e[0] == "op" and len(e) == 4 and e[1] == "and" and ("c", -2) in e[2:]) or any(tagged(x) for x in e)
        _tg[e] = r
    return r
def subterms(e):
    return ()

def text_len(t): return len(t.encode("utf-8", "surrogateescape"))

def fcanon(prog):
    """function level: addresses of first members, lengths of literals, messages with constant parts, source positions"""
    base = opspec.canon(prog)
    memo = {}
    def go(e):
        if not isinstance(e, tuple) or not e: return e
        r = memo.get(e)
        if r is not None: return r
        t = tuple(go(x) for x in e)
        k = t[0]
        if k == "gep" and t[3] and all(q == ("c", 0) for q in t[3]): t = t[2]
        elif k == "cast" and t[1].startswith(("trunc:i", "zext:i", "sext:i")) and t[2][0] == "op" and t[2][1] == "and" and any(q[0] == "c" and 0 <= q[1] < 127 for q in t[2][2:]): t = t[2]
        elif k == "cmp" and t[1] in ("eq", "ne") and any(x == ("c", 0) for x in t[2:]) and any(x[0] == "pure" and x[1] in ("memcmp", "strcmp", "strncmp") for x in t[2:]):
            # only equality is asked, which is symmetric
            t = t[:2] + tuple(x[:2] + tuple(sorted(x[2:4], key=repr)) + x[4:] if x[0] == "pure" else x for x in t[2:])
        elif k == "pure" and t[1] == "strlen" and t[2][0] == "str": t = ("c", text_len(t[2][1]))
        elif k == "call" and isinstance(t[1], str):
            a = t[2]
            if t[1].endswith("_by_name") and len(a) >= 6 and a[-1][0] == "c" and (a[-2][0] == "str" or "FILE_NAME" in repr(a[-2])): t = (k, t[1], a[:-3]) + t[3:]
            elif t[1] in ("sprintf", "snprintf", "fprintf"):
                n = 2 if t[1] == "snprintf" else 1
                if len(a) > n and a[n][0] == "str":
                    f, v = fmt(a[n][1], a[n + 1:])
                    t = (k, t[1], a[:n] + (("str", f),) + v) + t[3:]
        memo[e] = t
        return t
    return lambda e: go(base(e))

SPECIFIER = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXcsfeEgGaApn%])")
def fmt(f, args):
    """constant strings given for %s become part of the format"""
    out, rest, p, k = "", [], 0, 0
    for m in SPECIFIER.finditer(f):
        out += f[p:m.start()]; p = m.end()
        if m.group(5) == "%": out += m.group(0); continue
        n = 1 + (m.group(2) == "*") + (m.group(3) == "*")
        a = args[k:k + n]; k += n
        if m.group(0) == "%s" and a and a[0][0] == "str": out += a[0][1].replace("%", "%%")
        else: out += m.group(0); rest += a
    return out + f[p:], tuple(rest) + tuple(args[k:])

RELEASES = {"SPVM_API_free_memory_block"}
NULL_IS_NOTHING = {"SPVM_API_push_mortal"}      # its own specification says so
class FEq(equiv.Eq):
    def const(s, side, z, c, m, kind, bits=None):
        if z[0] == "die":      # SPVM_API_die returns the id of an error class
            return [[]] if (m == 5 and c == 0) or (kind == "s" and m & 4 and c <= 0) else [] if c == 0 and m in (2, 1, 3) else super().const(side, z, c, m, kind, bits)
        return super().const(side, z, c, m, kind, bits)
    def resolve(s, worlds, side, e):
        if isinstance(e, tuple) and e and tagged(e): e = s.untag(worlds, side, e)
        return super().resolve(worlds, side, e)
    def untag(s, worlds, side, e):
        """x & -2 is x where x & 1 is known to be 0"""
        if not tagged(e): return e
        t = tuple(s.untag(worlds, side, x) if isinstance(x, tuple) else x for x in e)
        if t[0] == "op" and t[1] == "and" and ("c", -2) in t[2:]:
            x = t[3] if t[2] == ("c", -2) else t[2]
            if s.decide(worlds, side, ("cmp", "eq", ("c", 0), ("op", "and", ("c", 1), x))): return x
        return t
    def refine(s, worlds, side, c, tr):
        if tagged(c) and worlds: c = s.untag(worlds, side, c)
        return super().refine(worlds, side, c, tr)
    def commute(s, a, b):
        if super().commute(a, b): return True
        for x, y, swap in ((a, b, False), (b, a, True)):
            if x[0] == "call" and x[1] in RELEASES and y[0] == "store":       # releasing a block and writing somewhere else
                at = y[2]
                while at[0] == "gep": at = at[2]
                if at[0] == "addr": return True
                p = (at, x[2][2]) if swap else (x[2][2], at)
                return not s.both((p[0],), (p[1],))
        return False
    def effects(s, w, ea, eb):
        return super().effects(w, s.acts(w, 0, ea), s.acts(w, 1, eb))
    def acts(s, w, side, eff):
        """calls that do nothing for NULL are left out where the facts make the argument NULL"""
        if not any(e[0] == "call" and e[1] in NULL_IS_NOTHING for e in eff): return eff
        return [e for e in eff if not (e[0] == "call" and e[1] in NULL_IS_NOTHING and s.null(w, side, e[2][2]))]
    def null(s, w, side, x):
        return x == ("c", 0) or bool(w) and s.decide(w, side, ("cmp", "eq", ("c", 0), x)) is True
    def leaves(s, t):
        return [(c, live_effects(e), l, x) for c, e, l, x in super().leaves(t)]

class UEq(FEq):
    """the first rounds of loops, one after the other: terms the conditions make constant are replaced by their value"""
    def leaves(s, t): return [x for x in super().leaves(t) if x[3] != "cut" or not s.drop]
    drop = False
    def begin(s): super().begin(); s.alias = {}
    def term(s, side, e):
        k = s.alias.get((side, e))
        if k is None: k = s.alias[(side, e)] = super().term(side, e)
        return k
    def constant(s, worlds, side, e):
        if e[0] == "c": return e[1]
        t = s.alias.get((side, e))
        if t is None: return None
        vs = {w.iv.get(t, (-1, 1)) for w in worlds}
        if len(vs) == 1:
            l, h = vs.pop()
            if l == h: return l
    def trees(s, ta, tb, live, names=("interpreter", "specification"), accept=None):
        B = s.leaves(tb); s.pairs = 0
        for ca, ea, la, xa in s.leaves(ta):
            if xa == "unreachable": continue
            hit, w0, before = False, s.worlds(ca, ()), []
            if not w0: continue
            for cb, eb, lb, xb in B:
                k = 0
                while k < len(before) and k < len(cb) and before[k][0] == cb[k]: k += 1
                del before[k:]
                w = before[-1][1] if before else w0
                for c, tr in cb[k:]:
                    if not w: break
                    w = s.refine(w, 1, c, tr); before.append(((c, tr), w))
                if not w: continue
                hit = True; s.pairs += 1
                if xb == "unreachable" or xa == xb == "cut": continue
                if "cut" in (xa, xb):       # one of the two goes round once more: it has not done more than the other in all
                    ka, kb = ([s.resolve(w, side, e) for e in x if e[0] == "call"] for side, x in ((0, ea), (1, eb)))
                    if len(ka if xa == "cut" else kb) > len(kb if xa == "cut" else ka) or not all(s.seq(w, x, y) for x, y in zip(ka, kb)): return "on the path %s: the %s goes on with its loop, the %s has left it" % (equiv.conds(ca + cb), *(names if xa == "cut" else names[::-1]))
                    continue
                p = s.effects(w, [s.resolve(w, 0, e) for e in ea], [s.resolve(w, 1, e) for e in eb])
                if p is not None: return "on the path %s: %s" % (equiv.conds(ca), p.replace("AAA", names[0]).replace("BBB", names[1]))
                if xa != xb and not s.same_exit(w, xa, xb): return "on the path %s: exits differ: %s / %s" % (equiv.conds(ca), equiv.ex(xa), equiv.ex(xb))
            if not hit and xa != "cut": return "on the path %s: no corresponding case" % equiv.conds(ca)
        return None
    def shift(s, z):
        l = lin(z)
        if l[0] == "sum" and len(l[2]) == 1 and l[2][0][1] == 1: return l[2][0][0], l[1]
        return l, 0
    def cmp(s, side, p, x, y, tr):
        (a, i), (b, j) = elem(x), elem(y)
        if a[0] == "?": a = (b[0], a[1])
        if b[0] == "?": b = (a[0], b[1])
        a, b = lin(a), lin(b)
        if a == b and (i != ("c", 0) or j != ("c", 0)): x, y, p = i, j, "s" + p[1:] if p[0] == "u" else p
        (a, i), (b, j) = s.shift(x), s.shift(y)
        if a == b and p[0] != "u": x, y = ("c", i), ("c", j)
        elif y[0] == "c" and p[0] != "u": x, y = a, ("c", y[1] - i)
        elif x[0] == "c" and p[0] != "u": x, y = ("c", x[1] - j), b
        return super().cmp(side, p, x, y, tr)
    def resolve(s, worlds, side, e):
        return s.known(worlds, side, super().resolve(worlds, side, e))
    def known(s, worlds, side, e):
        if not isinstance(e, tuple) or not e or e[0] in ("c", "str", "k", "arg") and len(e) < 3: return e
        if e[0] in ("load", "ret", "arg", "pure", "cast", "op", "sum"):
            if not (e[0] == "load" and e[1] == "ptr") and not (e[0] == "ret" and e[2] == "ptr"):
                v = s.constant(worlds, side, e)
                if v is not None: return ("c", v)
        t = tuple(s.known(worlds, side, x) if isinstance(x, tuple) else x for x in e)
        if t[0] == "op" and len(t) == 4: return sym.fold(t[1], t[2], t[3], 64) or t
        if t[0] == "cast" and t[2][0] == "c" and t[1].startswith(("sext:", "zext:", "trunc:")) and t[2][1] >= 0: return t[2]
        return t

_ln = {}
def lin(e):
    r = _ln.get(e)
    if r is None: r = _ln[e] = equiv.linear(e)
    return r
def elem(e):
    """an address as an element of an array"""
    if e[0] == "gep" and len(e[3]) == 1: return (e[1], e[2]), e[3][0]
    return ("?", e), ("c", 0)

def called(f, prog):
    r = set()
    for i in f.all():
        if i.op == "call" and not (i.callee or "").startswith("llvm."): r.add(i.callee or "?")
    return r - set(DIE) - {"__assert_fail", "abort", "exit"} - set(prog.__dict__.get("quiet", ()))

def pointer(e):
    return e[0] == "arg" or (e[0] == "load" and e[1] == "ptr") or (e[0] == "ret" and e[2] == "ptr") or (e[0] == "pure" and "is_" not in e[1]) or e[0] in ("var", "lv")

def merged(bc, tag, inline=(), keep=True, passes=None):
    """one program of several translation units; the linker would merge structures of the same layout"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: ps = list(ex.map(lambda b: build.export(b, passes or build.PASSES_RAW, tag=tag, keep=keep, inline=list(inline) or None), bc))
    p = ps[0]
    for q in ps[1:]:
        off = len(p.files); p.files = p.files + q.files
        for f in q.fns.values():
            for i in f.all():
                if i.fi >= 0: i.fi += off
        for d in ("structs", "distructs", "enums", "fns", "fnsigs", "sigs"):
            for k, v in getattr(q, d).items(): getattr(p, d).setdefault(k, v)
    for f in p.fns.values(): f.prog = p
    return p

class Pair:
    """the program under analysis and the specifications"""
    def __init__(s, sources, spec_text, prefix_headers, tag, inline=()):
        bc = build.compile_bc(sources)
        if tag == "api":
            b = build.link(bc, "impl_" + tag) if len(bc) > 1 else bc[0]
            s.p = build.export(b, build.PASSES_RAW, tag=tag, inline=list(inline) or None)
        else: s.p = merged(bc, tag, inline)
        fn = os.path.join(build.tmpdir(), "FSPEC_%s.c" % tag)
        open(fn, "w").write(prefix_headers + spec_text)
        bs, = build.compile_bc([fn])
        s.s = build.export(bs, build.PASSES_RAW, tag=tag)
        # accessor bodies are those of the implementation on both sides
        for n in s.p.fns:
            if n in ACCESSORS or getter(s.p, n): s.s.fns.setdefault(n, s.p.fns[n])
        for k, v in s.s.structs.items(): s.p.structs.setdefault(k, v)
        for k, v in s.p.structs.items(): s.s.structs.setdefault(k, v)
        vmtab.PROG = s.p
    def summary(s, prog, name, accessors, **kw):
        f = prog.fn(name)
        w = FW(f, accessors=accessors, live=True, **kw)
        return f, w.walk(0, sym.State())
    def aborts(s, c, ta, tb):
        """paths on which the function stops the process although the specification goes on; tests of pointers for NULL are preconditions"""
        A = [x for x in c.leaves(ta) if x[3] == "unreachable"]
        B = [x for x in c.leaves(tb) if x[3] != "unreachable"]
        for ca, ea, la, xa in A:
            if not ca: continue
            last, tr = ca[-1]
            if last[0] == "cmp" and last[1] == "eq" and tr and ("c", 0) in last[2:] and any(pointer(x) for x in last[2:]): continue
            for cb, eb, lb, xb in B:
                if c.worlds(ca, cb): return "on the path %s: the function aborts, the specification goes on" % equiv.conds(ca)
        return None
    def compare(s, impl, spec, canon=None, limit=4000, deep=False):
        acc = (set(s.p.fns) - {impl, *DIE} if deep else ACCESSORS - {impl})
        f, ta = s.summary(s.p, impl, acc, limit=limit)
        g, tb = s.summary(s.s, spec, acc, limit=limit)
        c = FEq(sym.local_vars(f)[2], sym.local_vars(g)[2], nonneg=None, canon=canon or fcanon(s.p))
        d = c.trees(ta, tb, (), names=("function", "specification")) or s.aborts(c, ta, tb)
        c.entries = [sorted(repr(v) for x in t for e in x[1] if e[0] == "loop" for n, v in e[1]) for t in (c.leaves(ta), c.leaves(tb))]
        return f, d, c

def unrolled(P, impl, spec, rounds=3, limit=20000, only=None):
    """functions whose loops are written in another way: the first rounds of the loops one after the other"""
    f, g = P.p.fns[impl], P.s.fns[spec]
    if not called(f, P.p) <= called(g, P.s) | ACCESSORS | {impl}: return "?"      # part of the work lies in a helper
    try:
        FW.unroll = rounds
        FW.only = only and only[0]
        f, ta = P.summary(P.p, impl, ACCESSORS - {impl}, limit=limit)
        FW.only = only and only[1]
        g, tb = P.summary(P.s, spec, ACCESSORS - {impl}, limit=limit)
    except sym.TooBig: return "?"
    finally: FW.unroll, FW.only = 0, None
    c = UEq(sym.local_vars(f)[2], sym.local_vars(g)[2], nonneg=None, canon=fcanon(P.p))
    try: d = c.trees(ta, tb, (), names=("function", "specification"))
    except equiv.Unknown: return "?"
    return d

RULE = ("Each listed C function is summarised from the compiler's intermediate representation of the current source (decision tree over its conditions; on "
        "every path the ordered calls with their arguments, the stores, and the result; helpers that are not part of the known API are expanded) and "
        "compared with an independent C specification of the function (sa/apispec.py, written from the native API documents): paths whose conditions do "
        "not contradict each other must have the same calls, stores and result. ")
_P = {}
def pair(lib="api"):
    if lib not in _P:
        mod = module(lib)
        d = build.BUILDER + "/src/"
        if lib == "api": src = [d + f for f in sorted(os.listdir(d)) if f.startswith("spvm_api") and f.endswith(".c")]
        else: src = [d + f for f in mod.SOURCES]
        P = _P[lib] = Pair(src, mod.text(), mod.headers(), lib)
        if lib != "api":
            for q in (P.p, P.s): q.purenames, q.pureprefix, q.quiet = mod.PURE, mod.PURE_PREFIX, mod.IGNORED
        for n in P.p.fns:
            if n not in P.s.fns: P.s.fns[n] = P.p.fns[n]
    vmtab.PROG = _P[lib].p
    return _P[lib]

def module(lib):
    if lib == "api": from . import apispec as m
    else: from . import corespec as m
    return m

def different(f, g):
    """the loops of two functions that are not alike, if all others are, in the order they are written"""
    a, b = loops(f, True), loops(g, True)
    if len(a) != len(b): return None
    d = [(x[1], y[1]) for x, y in zip(a, b) if x[0] != y[0]]
    return ({x for x, _ in d}, {y for _, y in d}) if len(d) < len(a) and len(d) <= 2 else None

def loops(f, where=False):
    """shape of the loops of a function: where they test and in which direction they count"""
    out = []
    w = sym.Walker(f) if False else FW(f)
    for h, body in w.loopinfo().items():
        step = set()
        for b in body:
            for i in f.blocks[b]:
                if i.op != "store" or i.ops[1] not in w.alloca or not i.ops[0].startswith("%"): continue
                d = f.d(i.ops[0])
                while d is not None and d.op in ("sext", "zext", "trunc") and d.ops[0].startswith("%"): d = f.d(d.ops[0])
                if d is None: continue
                src = [f.d(o) for o in d.ops if o.startswith("%")]
                same = any(x is not None and x.op == "load" and x.ops[0] == i.ops[1] for x in src)
                if d.op == "add" and same:
                    k = [o for o in d.ops if not o.startswith("%")]
                    step.add("?" if not k else "down" if "-" in k[0] else "up")
                elif d.op == "getelementptr" and same: step.add("ptr")
        quiet = lambda x: all(i.op != "store" and (i.op != "call" or (i.callee or "").startswith("llvm.")) for i in f.blocks[x])
        todo, seen, top = [h], set(), False
        while todo:             # does it test before it acts
            x = todo.pop()
            if x in seen or not quiet(x): continue
            seen.add(x)
            for y in f.succs[x]:
                if y not in body: top = True
                elif y != h: todo.append(y)
        out.append((("top" if top else "other", tuple(sorted(step))), h) if where else ("top" if top else "other", tuple(sorted(step))))
    return sorted(out, key=lambda x: x[1]) if where else sorted(out)

def check(ck, groups, minimum, names=(), lib="api"):
    spec = module(lib)
    prefix, whose = ("SPVM_API_", "the native API defines") if lib == "api" else ("", "is specified")
    P = pair(lib)
    done = ck.counts.get("functions compared with their specification", 0)
    todo = [n for n in spec.SPEC if spec.GROUP[n] in groups or n in names]
    for n in todo:
        impl = prefix + n
        if impl not in P.p.fns: raise AnalysisBroken("no function " + impl)
        ck.functions.add(impl)
        f = P.p.fns[impl]
        try:
            f, d, c = P.compare(impl, "S_" + n)
            if d:
                try:
                    if P.compare(impl, "S_" + n, deep=True)[1] is None: d = None
                except (sym.TooBig, equiv.Unknown): pass
            la, lb = loops(f), loops(P.s.fns["S_" + n])
            if d and la != lb and not ([t for t, _ in la] == [t for t, _ in lb] and c.entries[0] == c.entries[1]):      # same start and test, other direction: not a rewritten loop
                for rounds in (3, 2, 1):
                    d = unrolled(P, impl, "S_" + n, rounds)
                    if d != "?": break
                if d == "?" and different(f, P.s.fns["S_" + n]): d = unrolled(P, impl, "S_" + n, only=different(f, P.s.fns["S_" + n]))
                if d == "?": ck.notes.append("%s not decided: its loops have another shape than the specification's" % impl); ck.count("functions not decided"); continue
                if d: d = "in the first rounds of its loops, " + d
        except (sym.TooBig, equiv.Unknown) as e:
            ck.notes.append("%s not decided: %s" % (impl, e)); ck.count("functions not decided"); continue
        ck.count("functions compared with their specification"); ck.count("path pairs of functions compared", c.pairs)
        if len(ck.samples) < 10 and todo.index(n) % max(1, len(todo) // 5) == 0: ck.sample("%s: %s" % (impl, re.sub(r"\s+", " ", spec.SPEC[n])[:240]))
        if d: ck.violation("function:" + n, "%s (%s) does not do what %s: %s" % (impl, f.loc, whose, opspec.shorten(d)))
    ck.need("functions compared with their specification", done + minimum)
    ck.extra["programs"] = ck.extra.get("programs", 0) + ck.counts["functions compared with their specification"]
    ck.extra["disagreements_checked"] = ck.extra.get("disagreements_checked", 0) + ck.counts["path pairs of functions compared"]
