"""C20: texts made with formats: the arguments fit the format, the place stated is that of one construct, and the text fits the memory it is written to."""
import glob, re
from .. import build, fspec
from ..build import AnalysisBroken
from ..ir import cint

LEVEL = "other"
# function: (index of the format, index of the buffer, index of the size)
FORMATS = {"SPVM_COMPILER_error": (1, None, None), "SPVM_API_die": (2, None, None), "sprintf": (1, 0, None), "snprintf": (2, 0, 1), "fprintf": (1, None, None), "printf": (0, None, None)}
ALLOC = {"SPVM_ALLOCATOR_alloc_memory_block_permanent": 1, "SPVM_ALLOCATOR_alloc_memory_block_tmp": 1, "SPVM_ALLOCATOR_alloc_memory_block_unmanaged": 0, "SPVM_API_new_memory_block": 2, "malloc": 0}
CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?(.)", re.S)
BITS = {"d": 32, "i": 32, "u": 32, "x": 32, "X": 32, "o": 32, "c": 32}
DIGITS = {32: 11, 64: 20}

def unescape(s): return s

def conversions(t):
    """[(conversion, kind, longest text or None)] and the length of the rest, or a message"""
    out = []; rest = 0; i = 0
    while i < len(t):
        if t[i] != "%": rest += 1; i += 1; continue
        m = CONV.match(t, i)
        if not m: return "ends within a conversion", 0
        fl, w, pr, ln, c = m.groups(); i = m.end()
        if c == "%":
            if m.group(0) != "%%": return "the conversion %s" % m.group(0), 0
            rest += 1; continue
        if w == "*": out.append(("*", "i32", None))
        if pr == "*": out.append(("*", "i32", None))
        n = None
        if c in BITS:
            b = 64 if ln in ("l", "ll", "z", "j", "t") else 32
            n = 1 if c == "c" else {"d": DIGITS[b], "i": DIGITS[b], "u": DIGITS[b], "x": b // 4, "X": b // 4, "o": 22}[c]
            if w and w != "*": n = max(n, int(w))
            if "#" in fl: n += 2
            out.append((m.group(0), "i%d" % b, n))
        elif c == "s": out.append((m.group(0), "ptr", int(pr) if pr and pr != "*" else None))
        elif c == "p": out.append((m.group(0), "ptr", 18))
        elif c in "fgeEG": out.append((m.group(0), "double", 13 if c == "g" and not pr else None))
        else: return "the conversion %s" % m.group(0), 0
    return out, rest

def typ(f, o):
    """the type of an argument as a variadic call gets it"""
    if o.startswith('"') or o.startswith("@") or o == "null": return "ptr"
    if o.startswith("#f"): return "double"
    if o.startswith("#"): return "i" + o.split(":")[1] if ":" in o else None
    if o.startswith("$"):
        k = o[1:]
        p = f.params[int(k)] if k.isdigit() else next((x for x in f.params if x[0] == k), None)
        return p[1] if p else None
    i = f.d(o)
    return i.ty if i is not None else None

def expr(f, v, d=0):
    """an expression over parameters, fields and calls, the same for the same value"""
    i = f.d(v)
    if i is None: return v
    if d > 10: return i.ref
    if i.op == "load": return ("ld", expr(f, i.ops[0], d + 1))
    if i.op == "getelementptr":
        k = [cint(x) for x in i.ops[1:]]
        if i.x.startswith("struct.") and len(k) >= 2 and k[1] is not None and k[0] == 0: return ("at", i.x[7:] + "." + f.prog.field(i.x, k[1]), expr(f, i.ops[0], d + 1))
        return ("gep", i.x) + tuple(expr(f, x, d + 1) for x in i.ops)
    if i.op in ("sext", "zext", "trunc", "bitcast"): return expr(f, i.ops[0], d + 1)
    if i.op == "call" and i.callee == "strlen": return ("strlen", expr(f, i.args[0], d + 1))
    return (i.op, i.ref)

def field(e):
    if isinstance(e, tuple) and e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] == "at": return e[1][1], e[1][2]
    return None, None

class Lin(dict):
    """a linear expression: {atom: factor}, the constant under None"""
    def plus(s, o, k=1):
        r = Lin(s)
        for a, n in o.items():
            r[a] = r.get(a, 0) + k * n
            if r[a] == 0: del r[a]
        return r

def lin(f, v, d=0):
    n = cint(v)
    if n is not None: return Lin({None: n} if n else {})
    i = f.d(v)
    if i is None or d > 12: return Lin({v: 1})
    if i.op in ("sext", "zext", "trunc"): return lin(f, i.ops[0], d + 1)
    if i.op in ("add", "sub"): return lin(f, i.ops[0], d + 1).plus(lin(f, i.ops[1], d + 1), 1 if i.op == "add" else -1)
    if i.op == "mul":
        a, b = lin(f, i.ops[0], d + 1), lin(f, i.ops[1], d + 1)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}: return Lin({k: n * x.get(None, 0) for k, n in y.items() if n * x.get(None, 0)})
    if i.op == "call" and i.callee == "strlen":
        if i.args[0].startswith('"'): return Lin({None: len(i.args[0]) - 1})
        return Lin({("strlen", expr(f, i.args[0])): 1})
    return Lin({expr(f, v): 1})

def place(f, p, d=0):
    """(where a pointer points: ('array', length) or ('block', size), offset, text for messages) or None"""
    i = f.d(p)
    if i is None or d > 8: return None
    if i.op == "alloca":
        m = re.match(r"\[(\d+) x i8\]", i.x or i.ty or "")
        return (("array", Lin({None: int(m.group(1))})), Lin()) if m else None
    if i.op == "call" and i.callee in ALLOC and len(i.args) > ALLOC[i.callee]: return (("block", lin(f, i.args[ALLOC[i.callee]])), Lin())
    if i.op == "getelementptr":
        b = place(f, i.ops[0], d + 1)
        if b is None: return None
        if i.x == "i8" and len(i.ops) == 2: return b[0], b[1].plus(lin(f, i.ops[1]))
        if re.match(r"\[\d+ x i8\]", i.x) and len(i.ops) == 3 and cint(i.ops[1]) == 0: return b[0], b[1].plus(lin(f, i.ops[2]))
    if i.op == "bitcast": return place(f, i.ops[0], d + 1)
    return None

def short(l):
    def at(a):
        if a is None: return ""
        if isinstance(a, tuple) and a[0] == "strlen":
            n, _ = field(a[1]); return "strlen(%s)" % (n or "...")
        return "..."
    return " + ".join(("%d*%s" % (n, at(a)) if n != 1 else at(a)) if a is not None else str(n) for a, n in l.items()) or "0"

def judge(room):
    """'fits', 'does not fit' or None: what is left over after the last byte written; lengths of strings are at least 0 and can be anything"""
    unknown = [a for a in room if a is not None and not (isinstance(a, tuple) and a[0] == "strlen")]
    if unknown: return None
    if any(n < 0 for a, n in room.items()):
        return None if any(n > 0 for a, n in room.items() if a is not None) else "does not fit"          # the lengths of two strings may be related
    return "fits"

def supported(p):
    """the conversions whose arguments the length computation of SPVM_COMPILER_error knows"""
    f = p.fns.get("SPVM_COMPILER_error")
    if f is None: return None
    s = set()
    for i in f.all():
        if i.op == "icmp": s |= {cint(o) for o in i.ops if cint(o)}
        if i.op == "switch": s |= {cint(o) for o in i.ops[2::2] if cint(o)}
    s = {chr(k) for k in s if 32 < k < 127}
    return s if {"s", "d"} <= s else None

def site(ck, p, f, i, n, a, sup, extra=0):
    """one call with a format: extra is the number of arguments the function itself formats"""
    k, buf, size = FORMATS[n]
    if len(a) <= k: return
    fm = a[k]
    if not fm.startswith('"'):
        d = f.d(fm); e = expr(f, fm)
        if d is not None and d.op == "load" and any(isinstance(x, str) and "@" in x for x in flat(e)): ck.count("formats of tables"); return
        if d is not None and d.op in ("phi", "select"):
            s = [x for x in (d.ops[::2] if d.op == "phi" else d.ops[1:])]
            if s and all(x.startswith('"') for x in s):
                for x in s: one(ck, p, f, i, n, a, x[1:], sup, k, buf, size, extra)
                return
        if f.name in ("SPVM_API_die", "SPVM_COMPILER_error", "SPVM_yysyntax_error") or (fm.startswith("$") and not extra): return                    # the format is the caller's
        local = place(f, fm)
        if local is not None and local[0][0] == "array" and n == "snprintf": ck.count("formats made by the function"); return
        ck.violation("%s:format" % f.name, "%s (%s) gives %s a text that is not constant as the format: a %% in it is taken for a conversion" % (f.name, i.loc, n)); return
    one(ck, p, f, i, n, a, fm[1:], sup, k, buf, size, extra)

def flat(e):
    if isinstance(e, tuple):
        for x in e: yield from flat(x)
    else: yield e

def one(ck, p, f, i, n, a, t, sup, k, buf, size, extra):
    ck.count("calls with a format"); ck.functions.add(f.name)
    t0 = t
    if extra:
        if len(t) > 255: ck.violation("%s:long" % f.name, "%s (%s) gives a message of %d bytes, of which die only uses 255" % (f.name, i.loc, len(t)))
        t += "\n    %s at %s line %d"
    cs, rest = conversions(t)
    show = '"%s"' % t0.split("\n")[0][:60]
    if isinstance(cs, str): ck.violation("%s:%s" % (f.name, t0[:60]), "%s (%s): the format %s of %s: %s" % (f.name, i.loc, show, n, cs)); return
    args = a[k + 1:]
    if len(args) != len(cs):
        ck.violation("%s:%s" % (f.name, t0[:60]), "%s (%s): the format %s of %s has %d conversions, %d arguments are given" % (f.name, i.loc, show, n, len(cs), len(args))); return
    for x, (c, want, _) in zip(args, cs):
        got = typ(f, x)
        if got is not None and got != want and not (want == "i32" and got in ("i1", "i8", "i16")):
            ck.violation("%s:%s" % (f.name, t0[:60]), "%s (%s): the format %s of %s converts an argument of type %s with %s" % (f.name, i.loc, show, n, got, c)); return
    if n == "SPVM_COMPILER_error" and sup:
        for c, _, _ in cs:
            if c[-1] not in sup or len(c) != 2: ck.violation("%s:%s" % (f.name, t0[:60]), "%s (%s): the error %s uses the conversion %s, for which SPVM_COMPILER_error makes no room" % (f.name, i.loc, show, c)); return
    # the place
    for m in re.finditer(r"at %s line %d", t0):
        j = len(conversions(t0[:m.start()])[0])
        (fl, fb), (ll, lb) = field(expr(f, args[j])), field(expr(f, args[j + 1]))
        if fl is None or ll is None: ck.count("places not followed"); continue
        ck.count("places")
        okay = fb == lb and (fl, ll) in (("spvm_op.file", "spvm_op.line"), ("spvm_compiler.current_file", "spvm_compiler.current_line"))
        if fl.split(".")[0] != ll.split(".")[0] or fb != lb or not fl.endswith("file") or not ll.endswith("line"):
            ck.violation("%s:%s:place" % (f.name, t0[:60]), "%s (%s): the message %s states the file of one construct and the line of another (%s, %s)" % (f.name, i.loc, show, fl, ll))
    # names: Class#method and Class#field take the name of a class first
    for m in re.finditer(r"%s#%s", t0):
        j = len(conversions(t0[:m.start()])[0])
        e = [expr(f, x) for x in args[j:j + 2]]
        kind = [owner(x) for x in e]
        if kind[0] in ("spvm_method", "spvm_field") or kind[1] == "spvm_basic_type":
            ck.violation("%s:%s:names" % (f.name, t0[:60]), "%s (%s): the message %s gets the name of a %s where the class is stated" % (f.name, i.loc, show, (kind[0] or kind[1])[5:]))
    # the memory
    if buf is not None: memory(ck, f, i, n, a, cs, rest, args, buf, size, show)

def owner(e):
    """the structure whose name this is"""
    n, b = field(e)
    if n and n.endswith(".name"): return n.split(".")[0]
    # the name is the first member: ld(X) where X is a pointer loaded from a field that says what it is
    if isinstance(e, tuple) and e[0] == "ld":
        m, _ = field(e[1])
        if m and m.endswith(".current_basic_type") or m and m.endswith(".basic_type"): return "spvm_basic_type"
        if m and m.endswith(".method"): return "spvm_method"
    return None

def memory(ck, f, i, n, a, cs, rest, args, buf, size, show):
    pl = place(f, a[buf])
    if pl is None: ck.count("buffers not followed"); return
    (kind, total), off = pl
    if n == "snprintf":
        need = lin(f, a[size]); what = "is given the size %s" % short(need)
    else:
        need = Lin({None: rest + 1})
        for x, (c, t, longest) in zip(args, cs):
            if c == "%d" and re.search(r"(length|line|column|index|id)$", field(expr(f, x))[0] or ""): longest = 10          # never negative
            if longest is not None: need = need.plus(Lin({None: longest}))
            elif c == "%s" and x.startswith('"'): need = need.plus(Lin({None: len(x) - 1}))
            elif c == "%s": need = need.plus(Lin({("strlen", expr(f, x)): 1}))
            else: ck.count("buffers not followed"); return
        what = "writes up to %s bytes" % short(need)
    j = judge(total.plus(off, -1).plus(need, -1))
    ck.count("buffers" if j else "buffers not followed")
    if j == "does not fit":
        ck.violation("%s:buffer" % f.name, "%s (%s): %s with %s %s, the %s has %s" % (f.name, i.loc, n, show, what, "array" if kind == "array" else "block", short(total.plus(off, -1))))

def copies(ck, f, i):
    """memcpy into a fresh block or a local array"""
    pl = place(f, i.args[0])
    if pl is None: return
    (kind, total), off = pl
    need = lin(f, i.args[2])
    room = total.plus(off, -1).plus(need, -1)
    j = judge(room)
    if j is None: ck.count("copies not followed"); return
    ck.count("copies"); ck.functions.add(f.name)
    if j == "does not fit":
        ck.violation("%s:copy" % f.name, "%s (%s) copies %s bytes to a %s that has %s there" % (f.name, i.loc, short(need), "local array" if kind == "array" else "block", short(total.plus(off, -1)))); return
    # a copy of a string's characters without its end leaves room for the end
    if kind == "block" and room.get(None, 0) < 1 and len(room) == 0 and any(isinstance(x, tuple) and x[0] == "strlen" for x in need) and need.get(None, 0) <= 0:
        ck.violation("%s:copy" % f.name, "%s (%s) copies the characters of a string to a block without room for the end of the string" % (f.name, i.loc))

def run(ck):
    ck.rule = ("Every call of a printf-like function in the compiler, the runtime and the native classes: the format is constant, it has as many conversions as there are arguments, each of the type of its argument; errors only use conversions for which SPVM_COMPILER_error "
               "makes room; 'at %s line %d' takes the file and the line of one construct; Class#member takes the names in this order; what sprintf and memcpy write into local arrays and fresh blocks fits for every length of the strings.")
    src = [s for s in build.builder_sources() if not s.endswith("spvm_yacc.c")]
    p = fspec.merged(build.compile_bc(src), "c20", passes=build.PASSES_SSA_LIGHT, keep=None)
    nat = sorted(glob.glob(build.REPO + "/lib/SPVM/*.c") + glob.glob(build.REPO + "/lib/SPVM/*/*.c"))
    q = fspec.merged(build.compile_bc(nat), "c20n", passes=build.PASSES_SSA_LIGHT, keep=None)
    sup = supported(p)
    if sup is None: ck.notes.append("the conversions SPVM_COMPILER_error knows were not found")
    for prog in (p, q):
        for f in prog.fns.values():
            for i in f.all():
                if i.op != "call": continue
                n = i.callee
                if n in FORMATS: site(ck, prog, f, i, n, i.args, sup, extra=3 if n == "SPVM_API_die" else 0)
                elif n is None:
                    d = f.d(i.ops[0]); g = f.d(d.ops[0]) if d is not None and d.op == "load" else None
                    e = expr(f, i.ops[0]); m, _ = field(e)
                    if m in ("spvm_env.die",): site(ck, prog, f, i, "SPVM_API_die", i.args, sup, extra=3)
                elif n.startswith("llvm.memcpy") or n == "memcpy": copies(ck, f, i)
    ck.need("calls with a format", 400); ck.need("places", 150); ck.need("buffers", 15)
