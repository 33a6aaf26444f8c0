"""C16: locks: shared state is only touched under its lock, every lock is released on every way out, and locks cannot block each other for ever."""
import glob, os
from .. import build, fspec, ir
from ..build import AnalysisBroken
from ..ir import cint

LEVEL = "other"
TAKE = {"SPVM_MUTEX_lock": "w", "SPVM_MUTEX_reader_lock": "r"}
GIVE = {"SPVM_MUTEX_unlock": "w", "SPVM_MUTEX_reader_unlock": "r"}
LOCKFN = set(TAKE) | set(GIVE)
RT, AT, CM = "spvm_runtime.mutex", "spvm_runtime.mutex_atomic", "spvm_compiler.mutex_compile"
# what the primitive of a name must call, with its own argument
PRIM = {"SPVM_MUTEX_init": "pthread_rwlock_init", "SPVM_MUTEX_destroy": "pthread_rwlock_destroy", "SPVM_MUTEX_lock": "pthread_rwlock_wrlock", "SPVM_MUTEX_unlock": "pthread_rwlock_unlock",
        "SPVM_MUTEX_reader_lock": "pthread_rwlock_rdlock", "SPVM_MUTEX_reader_unlock": "pthread_rwlock_unlock", "SPVM_API_MUTEX_lock": "SPVM_MUTEX_lock", "SPVM_API_MUTEX_unlock": "SPVM_MUTEX_unlock",
        "SPVM_API_MUTEX_reader_lock": "SPVM_MUTEX_reader_lock", "SPVM_API_MUTEX_reader_unlock": "SPVM_MUTEX_reader_unlock"}
# (structure, field): (lock, what an access needs): state the documents call protected by a mutex
GUARDED = {("struct.spvm_object", "ref_count"): (AT, "store"), ("struct.spvm_runtime", "memory_blocks_count"): (AT, "both"),
           ("struct.spvm_object", "weaken_backref_head"): (RT, "both"), ("struct.spvm_weaken_backref", "ref"): (RT, "both"), ("struct.spvm_weaken_backref", "next"): (RT, "both")}
# calls that need a lock: function: (lock, exclusive)
UNDER = {"SPVM_API_unweaken_thread_unsafe": (RT, True), "SPVM_API_free_weaken_backrefs": (RT, True), "SPVM_yyparse": (CM, True), "SPVM_CHECK_check": (CM, True), "SPVM_OPCODE_BUILDER_build_opcodes": (CM, True),
         "SPVM_COMPILER_build_runtime": (CM, True)}
# program code or waiting: not while a lock of the runtime is held
FOREIGN = {"SPVM_API_call_method_no_mortal", "SPVM_API_call_method", "SPVM_API_call_destroy_method", "SPVM_VM_call_method", "SPVM_API_call_method_common", "SPVM_API_call_method_native", "dlopen", "pthread_join"}

def field_of(f, v, depth=0):
    """'struct.field' a pointer value was loaded from, ('param', i), or None"""
    i = f.d(v)
    if i is None:
        if v.startswith("%"): return None
        return ("param", v) if v.startswith("$") else None
    if i.op == "load":
        g = f.d(i.ops[0])
        if g is not None and g.op == "getelementptr": return gep_field(f, g)
    if i.op in ("bitcast",): return field_of(f, i.ops[0])
    if i.op == "phi" and depth < 4:
        r = {field_of(f, o, depth + 1) for o in i.ops[::2] if o != i.ref}
        if len(r) == 1: return r.pop()
    return None

def gep_field(f, g):
    k = [cint(x) for x in g.ops[1:]]
    if g.x.startswith("struct.") and len(k) >= 2 and k[1] is not None: return g.x[7:] + "." + f.prog.field(g.x, k[1])
    return None

def access(f, i):
    """(structure, field, base) of a load or store"""
    p = i.ops[0] if i.op == "load" else i.ops[1]
    g = f.d(p)
    if g is None or g.op != "getelementptr": return None
    k = [cint(x) for x in g.ops[1:]]
    if not g.x.startswith("struct.") or len(k) < 2 or k[1] is None: return None
    return (g.x, f.prog.field(g.x, k[1]), g.ops[0])

class Locks:
    def __init__(s, ck, prog):
        s.ck, s.p = ck, prog
        s.callers = {}; s.takers = {}; s.foreign = set()
        direct = {}
        for f in prog.fns.values():
            for i in f.all():
                if i.op == "call" and i.callee:
                    direct.setdefault(f.name, set()).add(i.callee); s.callers.setdefault(i.callee, []).append((f, i))
                    if i.callee in TAKE and f.name not in PRIM:
                        l = field_of(f, i.args[0])
                        if isinstance(l, str): s.takers.setdefault(f.name, set()).add(l)
        s.foreign = set(FOREIGN)
        ch = True
        while ch:
            ch = False
            for n, cs in direct.items():
                t = s.takers.setdefault(n, set()); m = len(t)
                for c in cs: t |= s.takers.get(c, set())
                if len(t) != m: ch = True
                if n not in s.foreign and cs & s.foreign: s.foreign.add(n); ch = True
        s.taken = s.addresses()
        s.held = {}                     # (function, instruction id) -> list of lock sets
        s.entry = {}
        s.order = {}
    def addresses(s):
        out = set()
        for f in s.p.fns.values():
            for i in f.all():
                for k, o in enumerate(i.ops):
                    if o.startswith("@") and not (i.op == "call" and k == 0): out.add(o[1:])
        for g in s.p.globals.values() if isinstance(s.p.globals, dict) else (): 
            pass
        return out
    def locked(s, f):
        return any(i.op == "call" and i.callee in LOCKFN for i in f.all())
    def walk(s, f, entry):
        """the lock sets possible at each instruction; reports what goes wrong"""
        seen = set(); todo = [(0, None, entry, frozenset())]
        while todo:
            b, prev, held, facts = todo.pop()
            if (b, held, facts) in seen: continue
            seen.add((b, held, facts))
            if len(seen) > 20000: raise AnalysisBroken("too many lock states in %s" % f.name)
            dead = False
            for i in f.blocks[b]:
                if facts: facts = frozenset(x for x in facts if x[0] != i.ref)
                s.held.setdefault((f.name, i.id), set()).add(held)
                if i.op == "call" and i.callee in LOCKFN and f.name not in PRIM:
                    l = field_of(f, i.args[0])
                    if not isinstance(l, str):
                        s.ck.notes.append("%s: the lock taken at %s is not identified" % (f.name, i.loc)); continue
                    s.ck.count("lock operations")
                    mine = [h for h in held if h[0] == l]
                    if i.callee in TAKE:
                        if mine: s.bad(f, i, "takes the lock %s while it already holds it (taken at %s)" % (l, mine[0][2]))
                        for h in held:
                            if h[0] != l: s.order.setdefault((h[0], l), "%s (%s)" % (f.name, i.loc))
                        held = held | {(l, TAKE[i.callee], i.loc)}
                    else:
                        if not mine: s.bad(f, i, "releases the lock %s without holding it" % l)
                        elif mine[0][1] != GIVE[i.callee]: s.bad(f, i, "releases the lock %s as a %s although it was taken as a %s" % (l, {"w": "writer", "r": "reader"}[GIVE[i.callee]], {"w": "writer", "r": "reader"}[mine[0][1]]))
                        held = frozenset(h for h in held if h[0] != l)
                elif i.op == "call" and i.callee:
                    n = i.callee
                    if n in ("abort", "exit", "__assert_fail"): dead = True; break
                    for l in s.takers.get(n, ()):
                        for h in held:
                            if h[0] == l: s.bad(f, i, "calls %s, which takes the lock %s, while holding it (taken at %s)" % (n, l, h[2]))
                            else: s.order.setdefault((h[0], l), "%s calls %s (%s)" % (f.name, n, i.loc))
                    if n in s.foreign and any(h[0] in (RT, AT) for h in held): s.bad(f, i, "calls %s, which can run code of the program, while holding the lock %s" % (n, sorted(h[0] for h in held)[0]))
                elif i.op == "call" and not i.callee and any(h[0] in (RT, AT) for h in held):
                    s.bad(f, i, "calls a function through a pointer while holding the lock %s" % sorted(h[0] for h in held)[0])
                if i.op == "ret":
                    lost = [h for h in held if h not in entry]
                    if lost: s.bad(f, i, "returns without releasing the lock %s taken at %s" % (lost[0][0], lost[0][2]))
                    gone = [h for h in entry if h[0] not in [x[0] for x in held]]
                    if gone: s.bad(f, i, "returns having released the lock %s of its caller" % gone[0][0])
            if dead: continue
            t = f.blocks[b][-1]
            if t.op == "br" and len(t.ops) == 3:
                c = t.ops[0]; T, F = int(t.ops[1][1:]), int(t.ops[2][1:])
                c, neg = s.cond(f, c)
                known = [x[1] for x in facts if x[0] == c]
                for q, v in ((T, not neg), (F, neg)):
                    if known and known[0] != v: continue
                    todo.append((q, b, held, facts | {(c, v)} if c in s.repeated(f) else facts))
            else:
                for q in f.succs[b]: todo.append((q, b, held, facts))
    def cond(s, f, c):
        """a branch condition as (value that stands for it, negated): comparisons of one value with zero are one condition"""
        i = f.d(c)
        if i is not None and i.op == "icmp" and i.x in ("eq", "ne"):
            k = i.ops[1]
            if k in ("null", "#zero") or cint(k) == 0:
                j = f.d(i.ops[0])
                return i.ops[0], i.x == "eq"
        return c, False
    def repeated(s, f):
        if not hasattr(f, "_rep"):
            n = {}
            for b in range(len(f.blocks)):
                t = f.blocks[b][-1]
                if t.op == "br" and len(t.ops) == 3: c = s.cond(f, t.ops[0])[0]; n[c] = n.get(c, 0) + 1
            f._rep = {c for c, k in n.items() if k > 1}
        return f._rep
    def bad(s, f, i, m): s.ck.violation("%s" % f.name, "%s (%s) %s" % (f.name, i.loc, m))
    def must(s, f, seen=()):
        """locks held at every call of a function"""
        n = f.name
        if n in s.entry: return s.entry[n]
        if n in seen or n in s.taken or not s.callers.get(n): return frozenset()
        out = None
        for g, i in s.callers[n]:
            h = s.at(g, i, seen + (n,))
            out = h if out is None else frozenset(x for x in out if any(y[:2] == x[:2] for y in h))
        s.entry[n] = out or frozenset()
        return s.entry[n]
    def at(s, f, i, seen=()):
        """locks certainly held at an instruction"""
        hs = s.held.get((f.name, i.id))
        own = None
        if hs:
            for h in hs: own = h if own is None else frozenset(x for x in own if any(y[:2] == x[:2] for y in h))
        return (own or frozenset()) | s.must(f, seen)

def fresh(f, base, depth=0):
    """memory allocated by the function itself and not yet visible to others"""
    i = f.d(base)
    if i is None: return False
    if i.op == "call": return bool(i.callee) and ("alloc" in i.callee or "new_memory_block" in i.callee or i.callee == "calloc")
    if i.op == "phi" and depth < 3: return all(o == "null" or fresh(f, o, depth + 1) for o in i.ops[::2])
    return i.op == "alloca"

def published(f, base, upto):
    """is the fresh object stored anywhere before?"""
    return any(i.op == "store" and i.ops[0] == base and (f.idominates(i, upto)) and not (f.d(i.ops[1]) is not None and f.d(i.ops[1]).op == "alloca") for i in f.users.get(base, ()))

def run(ck):
    ck.rule = ("Lock states are computed over the IR of every function of the runtime and compiler: on each path every lock taken is released before the function returns, in the mode it was taken, no lock is taken (directly or by a called function) while the "
               "same thread holds it, the order in which locks are nested has no cycle, no code of the program is called under a lock of the runtime, the state the documents call protected (reference counts, the count of memory blocks, weak references, the "
               "cache of assignments, a compilation) is accessed only where its lock is certainly held, and the primitives call the system's function of their name. " + fspec.RULE)
    bc = build.compile_bc(build.builder_sources())
    p = fspec.merged(bc, "c16", passes=build.PASSES_SSA_LIGHT)
    L = Locks(ck, p)
    for f in p.fns.values():
        if L.locked(f) and f.name not in PRIM:
            ck.functions.add(f.name); ck.count("functions that lock"); L.walk(f, frozenset())
    # callers of functions that need a lock, and the functions called with one
    # order of nesting
    edges = {}
    for a, b in L.order: edges.setdefault(a, set()).add(b)
    def reach(a, goal, seen):
        for b in edges.get(a, ()):
            if b == goal: return True
            if b not in seen:
                seen.add(b)
                if reach(b, goal, seen): return True
        return False
    for (a, b), where in sorted(L.order.items()):
        ck.count("nestings of locks")
        if reach(b, a, set()): ck.violation("order:%s:%s" % (a, b), "%s takes the lock %s while holding %s, and elsewhere (%s) they are taken in the other order: two threads can wait for each other for ever"
                                            % (where, b, a, next((w for (x, y), w in L.order.items() if x == b), "?")))
    for f in p.fns.values():
        for i in f.all():
            if i.op in ("load", "store"):
                a = access(f, i)
                if a is None or a[:2] not in GUARDED: continue
                lock, what = GUARDED[a[:2]]
                if what == "store" and i.op == "load": continue
                if fresh(f, a[2]) and not published(f, a[2], i): continue
                if f.name in ("SPVM_RUNTIME_new", "SPVM_RUNTIME_free", "SPVM_API_new_env", "SPVM_API_free_env"): continue
                ck.count("accesses to protected state"); ck.functions.add(f.name)
                h = [x for x in L.at(f, i) if x[0] == lock]
                if not h or i.op == "store" and h[0][1] != "w":
                    ck.violation("%s:%s" % (f.name, a[1]), "%s (%s) %s %s of %s %s the lock %s" % (f.name, i.loc, "reads" if i.op == "load" else "changes", a[1], a[0][7:], "without holding" if not h else "with only a reader's hold of", lock))
            if i.op == "call" and i.callee in ("SPVM_HASH_get", "SPVM_HASH_set"):
                t = field_of(f, i.args[0])
                if t != "spvm_runtime.assignment_requirement_symtable": continue
                ck.count("accesses to protected state"); ck.functions.add(f.name)
                h = [x for x in L.at(f, i) if x[0] == RT]
                if not h or i.callee.endswith("set") and h[0][1] != "w":
                    ck.violation("%s:cache" % f.name, "%s (%s) %s the cache of assignments %s the lock %s" % (f.name, i.loc, "reads" if i.callee.endswith("get") else "changes", "without holding" if not h else "with only a reader's hold of", RT))
            if i.op == "call" and i.callee in UNDER:
                lock, ex = UNDER[i.callee]
                ck.count("calls that need a lock"); ck.functions.add(f.name)
                h = [x for x in L.at(f, i) if x[0] == lock]
                if not h or ex and h[0][1] != "w": ck.violation("%s:%s" % (f.name, i.callee), "%s (%s) calls %s without holding the lock %s" % (f.name, i.loc, i.callee, lock))
    # primitives
    for n, want in PRIM.items():
        f = p.fns.get(n)
        if f is None: ck.notes.append("%s is not in the program" % n); continue
        ck.count("primitives")
        calls = [i for i in f.all() if i.op == "call" and i.callee and (i.callee.startswith("pthread_") or i.callee in LOCKFN)]
        if [i.callee for i in calls] != [want]: ck.violation("primitive:" + n, "%s (%s) calls %s instead of %s" % (n, f.loc, ", ".join(i.callee for i in calls) or "nothing", want))
        elif n.startswith("SPVM_MUTEX") and calls[0].args[0] != "$0" and calls[0].args[0] != "$%s" % f.params[0][0]: ck.notes.append("%s: argument %s" % (n, calls[0].args[0]))
    tables(ck)
    fspec.check(ck, ("weak",), 3, ("assign_object", "weaken", "unweaken", "isweak", "inc_ref_count", "dec_ref_count", "new_memory_block", "free_memory_block", "get_memory_blocks_count"))
    ck.need("functions that lock", 5); ck.need("accesses to protected state", 10); ck.need("calls that need a lock", 5)

def tables(ck):
    """the methods of Sync::Mutex call the operation of their name"""
    src = build.REPO + "/lib/SPVM/Sync/Mutex.c"
    if not os.path.exists(src): ck.notes.append("Sync/Mutex.c is not there"); return
    p = build.export(build.compile_bc([src])[0], build.PASSES_SSA_LIGHT, tag="mutex", keep=None)
    for n, slot in (("new", "new_instance"), ("DESTROY", "free_instance"), ("lock", "lock"), ("unlock", "unlock"), ("reader_lock", "reader_lock"), ("reader_unlock", "reader_unlock")):
        f = p.fns.get("SPVM__Sync__Mutex__" + n)
        if f is None: ck.notes.append("Sync::Mutex#%s is not native" % n); continue
        ck.count("methods of Sync::Mutex"); ck.functions.add(f.name)
        got = []
        for i in f.all():
            if i.op != "call" or i.callee: continue
            x = field_of(f, i.ops[0])
            if isinstance(x, str) and x.startswith("spvm_api_mutex."): got.append(x.split(".")[1])
            elif x is None:
                l = f.d(i.ops[0]); t = field_of(f, l.ops[0]) if l is not None and l.op == "load" else None      # the first slot needs no offset
                if isinstance(t, str) and t.endswith(".mutex"): got.append(f.prog.field("struct.spvm_api_mutex", 0))
        if got != [slot]: ck.violation("method:" + n, "Sync::Mutex#%s (%s) calls %s of the mutex API instead of %s" % (n, f.loc, got, slot))
