"""Control flow: statement trees, their meaning (a reference interpreter of the statements) and the meaning of emitted opcodes.
A trace is the sequence of actions, releases of variables and outcomes; both are followed under the same decisions
(condition true/false, operation raises or not, switch value)."""
from .absint import C

class Need(Exception): pass          # one more decision is needed
class Leave(Exception):
    def __init__(s, what): s.what = what

def norm(trace):
    out = []
    for e in trace:
        if e[0] == "release":
            if not e[1]: continue
        if e[0] in ("release", "clear") and out and out[-1][0] == e[0]: out[-1] = (e[0], out[-1][1] | e[1]); continue
        out.append(e)
    return out

class Ref:
    """what a statement list means"""
    def __init__(s, decisions): s.dec, s.trace, s.live = list(decisions), [], []
    def ask(s, lo=2):
        if not s.dec: raise Need(lo)
        return s.dec.pop(0)
    def method(s, body):
        try:
            s.live.append(set())
            try: s.body(body)
            except Leave as l: s.trace.append(("end", l.what if l.what[0] in ("return", "throw") else ("bad", l.what)))
            else: s.trace.append(("end", ("fall",)))
            s.trace.append(("release", frozenset(s.live.pop())))
        except Need as n: return norm(s.trace), n.args[0]
        return norm(s.trace), 0
    def scope(s, body): s.scope2(lambda _: s.body(body))
    def scope2(s, go):
        s.live.append(set())
        try: go(None)
        except Leave:
            s.trace.append(("release", frozenset(s.live.pop()))); raise
        s.trace.append(("release", frozenset(s.live.pop())))
    def body(s, stmts):
        for x in stmts: s.stmt(x)
    def cond(s, x):
        """the condition: what it declares, then its variable"""
        if isinstance(x, tuple): s.body(x[1]); x = x[2]
        return x
    def stmt(s, x):
        k = x[0]
        if k == "op": s.trace.append(("do", x[1]))
        elif k == "risk":
            s.trace.append(("do", x[1]))
            if s.ask(): raise Leave(("throw",))
        elif k == "die":
            s.trace.append(("do", x[1])); raise Leave(("throw",))
        elif k == "decl": s.trace.append(("decl", x[1])); s.live[-1].add(x[1])
        elif k == "if":
            def go(_):
                c = s.cond(x[1]); b = x[2] if s.ask() else x[3]
                s.trace.append(("cond", c))
                if b is not None: (s.body if x[4] else s.scope)(b)
            if x[4]: go(x)
            else: s.scope2(go)
        elif k == "block": s.scope(x[1])
        elif k in ("next", "last", "break"): raise Leave((k,))
        elif k == "return": raise Leave(("return", x[1]))
        elif k == "loop":
            s.live.append(set())
            try:
                s.body(x[1])
                while True:
                    c = s.cond(x[2]); t = s.ask(); s.trace.append(("cond", c))
                    if not t: break
                    try: s.scope(x[4])
                    except Leave as l:
                        if l.what == ("last",): break
                        if l.what != ("next",): raise
                    s.body(x[3])
            except Leave: s.trace.append(("release", frozenset(s.live.pop()))); raise
            s.trace.append(("release", frozenset(s.live.pop())))
        elif k == "switch":
            v = s.ask(len(x[2]) + 1); s.trace.append(("switch", x[1], v))
            s.live.append(set())
            try:
                if v < len(x[2]):
                    b = next((b for b in x[2][v:] if b is not None), None)
                    if b is not None: s.scope(b)
                elif x[3] is not None: s.scope(x[3])
            except Leave as l:
                if l.what != ("break",): s.trace.append(("release", frozenset(s.live.pop()))); raise
            s.trace.append(("release", frozenset(s.live.pop())))
        elif k == "eval":
            s.trace.append(("clear", frozenset(("$@", "eval_error_id"))))
            try: s.scope(x[1])
            except Leave as l:
                if l.what != ("throw",): raise
                s.trace.append(("caught",))
        else: raise AssertionError(k)

def caught(t):
    """the exception is caught before or after the variables are released: one order"""
    out = []
    for e in t:
        if e == ("caught",) and out and out[-1][0] == "release": out.insert(len(out) - 1, e)
        elif e[0] == "end" and out and out[-1][0] == "release": out.insert(len(out) - 1, e)
        else: out.append(e)
    return norm(out)

class Machine:
    """what the emitted opcodes do, with the meaning of the opcodes"""
    def __init__(s, ops, cases): s.ops, s.cases, s.top = ops, cases, 0
    def run(s, decisions):
        dec, tr, mortal, live, err, pc, steps = list(decisions), [], [], set(), 0, 0, 0
        def ask():
            if not dec: raise Need()
            return dec.pop(0)
        end = None
        try:
            while True:
                steps += 1
                if steps > 3000: return norm(tr + [("runs away",)])
                if not 0 <= pc < len(s.ops): return norm(tr + [("jumps out of the method", pc)])
                o = s.ops[pc]; n = o[0]; c = lambda k: o[1 + k][1] if not o[1 + k][0] else None
                name = lambda k: o[1 + k][0][0][0] if len(o[1 + k][0]) == 1 and o[1 + k][1] == 0 else str(o[1 + k])
                pc += 1
                if n == "END_ARGS": pass
                elif n == "MOVE_INT": tr.append(("do", name(0)))
                elif n == "ARRAY_LENGTH": tr.append(("do", name(0))); err = ask()
                elif n == "SET_ERROR_ID": tr.append(("do", name(0))); err = 1
                elif n == "PUSH_MORTAL": mortal.append(name(0)); s.top = max(s.top, len(mortal))
                elif n == "MOVE_OBJECT_UNDEF": tr.append(("decl", name(0))); live.add(name(0))
                elif n == "LEAVE_SCOPE":
                    t = c(0); gone = frozenset(x for x in mortal[t:] if x in live); tr.append(("release", gone)); live -= gone; del mortal[t:]
                elif n == "GOTO": pc = c(0)
                elif n in ("IF_EQ_ZERO", "IF_NE_ZERO"):
                    v = ask(); tr.append(("cond", name(1)))
                    if (v == 0) == (n == "IF_EQ_ZERO"): pc = c(0)
                elif n == "GOTO_END_OF_EVAL_ON_EXCEPTION":
                    if err: err = 0; tr.append(("caught",)); pc = c(0)
                elif n == "GOTO_END_OF_METHOD_ON_EXCEPTION":
                    if err: end = ("throw",); pc = c(0)
                elif n == "CLEAR_EVAL_ERROR_ID": tr.append(("clear", frozenset(("eval_error_id",))))
                elif n == "SET_EXCEPTION_VAR_UNDEF": tr.append(("clear", frozenset(("$@",))))
                elif n == "LOOKUP_SWITCH":
                    v = ask(); tr.append(("switch", name(0), v)); k = c(2)
                    infos = s.ops[pc:pc + k]
                    if any(i[0] != "CASE_INFO" for i in infos): return norm(tr + [("not a case",)])
                    vals = {i[2][1]: i[3][1] for i in infos}
                    want = s.cases.get(name(0), [])
                    pc = vals[want[v]] if v < len(want) and want[v] in vals else c(1)
                elif n.startswith("RETURN_"): end = ("return", name(0)) if n != "RETURN_VOID" else ("return", None); pc = c(1)
                elif n == "END_METHOD":
                    if err and end != ("throw",): end = ("lost exception",)
                    tr.append(("end", end or ("fall",))); tr.append(("release", frozenset(live & set(mortal)))); return norm(tr)
                else: return norm(tr + [("unexpected", n)])
                if pc is None: return norm(tr + [("no target",)])
        except Need: return norm(tr)

# trees ---------------------------------------------------------------------
class Make:
    def __init__(s, b, t): s.b, s.t, s.k, s.e, s.cases = b, t, b.w.byname, b.prog.enums, {}
    def has_decl(s, x):
        return isinstance(x, (tuple, list)) and (len(x) > 0 and x[0] == "decl" or any(s.has_decl(y) for y in x))
    def block(s, kind, stmts, no_scope=0):
        t = s.t
        kids = [s.stmt(x) for x in stmts]
        l = t.op("LIST", [t.op("PUSHMARK")] + kids)
        return t.op("BLOCK", [l], uv=t.obj("block", id=C(s.e["SPVM_BLOCK_C_ID_" + kind]), need_leave_scope=C(int(not no_scope and s.has_decl(stmts))), no_scope=C(no_scope)))
    def var(s, n, k="int", **kw): return s.t.var(n, s.k[k], **kw)
    def assign(s, n): return s.t.op("ASSIGN", [s.var(n + "'"), s.var(n)], type=s.k["int"])
    def cond(s, x):
        """a condition operand: a variable, or a sequence of statements and the variable"""
        return s.seq(x[1] + [x[2]]) if isinstance(x, tuple) else s.var(x)
    def seq(s, xs):
        return s.t.op("SEQUENCE", [s.var(x) if isinstance(x, str) else s.stmt(x) for x in xs], type=s.k["int"])
    def stmt(s, x):
        t, k = s.t, x[0]
        if k == "op": return s.assign(x[1])
        if k == "risk": return t.op("ASSIGN", [t.op("ARRAY_LENGTH", [s.var(x[1] + "'", "int[]")]), s.var(x[1])], type=s.k["int"])
        if k == "die": return t.op("DIE", [s.var("message", "string"), s.var(x[1])])
        if k == "decl": return s.var(x[1], "Class", declared=1)
        if k in ("next", "last", "break"): return t.op(k.upper())
        if k == "return": return t.op("RETURN", [s.var(x[1])])
        if k == "block": return s.block("NORMAL", x[1])
        if k == "if":
            c = t.op("CONDITION", [s.cond(x[1])], flag=s.e["SPVM_OP_C_FLAG_CONDITION_IF"])
            o = t.op("IF", [c, s.block("IF", x[2], x[4]), s.block("ELSE", x[3] or [], x[4])])
            # an if statement is wrapped in a block of its own; the one of && and || is not
            return o if x[4] else t.op("BLOCK", [o], uv=t.obj("block", id=C(s.e["SPVM_BLOCK_C_ID_NORMAL"]), need_leave_scope=C(int(s.has_decl(x)))))
        if k == "loop":
            c = t.op("CONDITION_NOT", [s.cond(x[2])], flag=s.e["SPVM_OP_C_FLAG_CONDITION_LOOP"])
            init = s.stmt(x[1][0]) if x[1] else t.op("DO_NOTHING")
            inc = t.op("LOOP_INCREMENT", [(s.seq(x[3]) if len(x[3]) > 1 else s.stmt(x[3][0])) if x[3] else t.op("DO_NOTHING")])
            leave = s.has_decl(x)
            return t.op("LOOP", [t.op("BLOCK", [init, s.block("LOOP_STATEMENTS", x[4]), inc, c], uv=t.obj("block", id=C(s.e["SPVM_BLOCK_C_ID_LOOP_INIT"]), need_leave_scope=C(int(leave))))])
        if k == "eval": return t.op("EVAL", [s.block("EVAL", x[1])])
        if k == "switch":
            vals = [10 * i + 7 for i in range(len(x[2]))]
            s.cases["idx:" + x[1]] = vals
            infos = [t.obj("case_info", case_value=C(v)) for v in vals]
            si = t.obj("switch_info", case_infos=t.list(infos))
            cond = t.op("DO_NOTHING", [t.op("SWITCH_CONDITION", [s.var(x[1])], uv=si)])
            cs = []
            for b, i in zip(x[2], infos):
                kids = [t.op("CONSTANT")]
                if b is not None: kids.append(s.block("NORMAL", list(b) + ([("break",)] if not b or b[-1][0] != "break" else [])))
                cs.append(t.op("CASE", kids, uv=i))
            body = [t.op("LIST", [t.op("PUSHMARK")] + cs)] + [t.op("DEFAULT", [s.block("NORMAL", x[3])] if x[3] is not None else [])]
            bl = t.op("BLOCK", body, uv=t.obj("block", id=C(s.e["SPVM_BLOCK_C_ID_SWITCH"]), need_leave_scope=C(int(s.has_decl(x)))))
            return t.op("SWITCH", [cond, bl], uv=si)
        raise AssertionError(k)
def rename(tr):
    """the names of the traced variables, as the machine sees them"""
    def r(e):
        if e[0] in ("do", "decl", "cond"): return (e[0], "idx:" + e[1])
        if e[0] == "switch": return (e[0], "idx:" + e[1], e[2])
        if e[0] == "release": return (e[0], frozenset("idx:" + x for x in e[1]))
        if e[0] == "end" and e[1][0] == "return" and e[1][1]: return ("end", ("return", "idx:" + e[1][1]))
        return e
    return [r(e) for e in tr]

def compare(body, ops, cases, capacity=None, bound=7):
    """(number of traces, None or a description of the first difference)"""
    m = Machine(ops, cases); n = 0; work = [()]
    while work:
        d = work.pop()
        want, more = Ref(d).method(body)
        if more and len(d) < bound:
            work.extend(d + (v,) for v in range(more)); continue
        n += 1
        want = caught(rename(want)); got = caught(m.run(d))
        if capacity is not None and m.top > capacity: return n, (d, ("keep at most %d variables to release" % capacity,), ("push %d" % m.top,), want, got)
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
            return n, (d, want[i] if i < len(want) else ("nothing",), got[i] if i < len(got) else ("nothing",), want, got)
    return n, None

def text(x):
    """the statements as source text"""
    if isinstance(x, list): return "{ " + " ".join(text(y) for y in x) + " }"
    k = x[0]
    if k == "op": return "$%s;" % x[1]
    if k == "risk": return "$%s = @$a;" % x[1]
    if k == "die": return "die;"
    if k == "decl": return "my $%s;" % x[1]
    if k in ("next", "last", "break"): return k + ";"
    if k == "return": return "return $%s;" % x[1]
    if k == "block": return text(x[1])
    cond = lambda c: "".join(text(y) + " " for y in c[1]) + "$" + c[2] if isinstance(c, tuple) else "$" + c
    if k == "if": return ("%s && %s;" if x[4] else "if (%s) %s") % (cond(x[1]), text(x[2])) + (" else " + text(x[3]) if x[3] else "")
    if k == "loop": return "for (%s; %s; %s) %s" % ("".join(map(text, x[1])), cond(x[2]), "".join(map(text, x[3])), text(x[4]))
    if k == "eval": return "eval " + text(x[1])
    if k == "switch": return "switch ($%s) { %s%s }" % (x[1], " ".join("case: " + (text(b) if b is not None else "") for b in x[2]), " default: " + text(x[3]) if x[3] is not None else "")

def programs(depth=3):
    """statement trees: every nesting of the statements to the depth, with declarations, an operation that can raise and each way of leaving"""
    cnt = [0]
    def n(p): cnt[0] += 1; return "%s%d" % (p, cnt[0])
    def wrap(kind, inner):
        """one statement of the kind around the statements"""
        if kind == "block": return ("block", inner)
        if kind == "if": return ("if", n("c"), inner, [], 0)
        if kind == "else": return ("if", n("c"), [("decl", n("o"))], inner, 0)
        if kind == "and": return ("if", n("c"), [("decl", n("o")), ("if", n("c"), [("op", n("v"))], [("op", n("v"))], 1)], [("op", n("v"))], 1)
        if kind == "loop": return ("loop", [("decl", n("o"))], n("c"), [("op", n("v"))], inner)
        if kind == "while": return ("loop", [], n("c"), [], inner)
        if kind == "eval": return ("eval", inner)
        if kind == "switch": return ("switch", n("s"), [None, inner, [("op", n("v"))]], [("op", n("v"))])
        if kind == "default": return ("switch", n("s"), [[("decl", n("o"))]], inner)
        # temporaries in the condition and the increment statement
        if kind == "whiled": return ("loop", [], ("with", [("decl", n("o"))], n("c")), [], inner)
        if kind == "ford": return ("loop", [("op", n("v"))], ("with", [("decl", n("o")), ("decl", n("o"))], n("c")), [("decl", n("o")), ("op", n("v"))], inner)
        if kind == "ifd": return ("if", ("with", [("decl", n("o"))], n("c")), inner, [("op", n("v"))], 0)
        if kind == "andloop": return ("loop", [], n("c"), [("if", n("c"), [("decl", n("o")), ("op", n("v"))], [("op", n("v"))], 1), ("op", n("v"))], inner)
    kinds_ = ("block", "if", "else", "loop", "while", "eval", "switch", "default")
    def leaves(path):
        out = ["op", "decl", "risk", "return", "die"]
        if any(p in path for p in ("loop", "while", "whiled", "ford", "andloop")): out += ["next", "last"]
        if "switch" in path or "default" in path: out += ["break"]
        return out
    def leaf(k):
        if k in ("op", "risk", "return", "decl", "die"): return (k, n({"decl": "o"}.get(k, "v")))
        return (k,)
    def allowed(path, k):
        # next and last inside a switch, and break inside a loop, leave the innermost of their kind
        return True
    import itertools
    out = []
    paths = [p for d in range(0, depth + 1) for p in itertools.product(kinds_, repeat=d)]
    temp = ("whiled", "ford", "ifd", "andloop")
    paths += [p for d in range(1, min(depth, 2) + 1) for p in itertools.product(kinds_ + temp, repeat=d) if any(x in temp for x in p)]
    for path in paths:
            d = len(path)
            for k in leaves(path):
                cnt[0] = 0
                inner = [leaf(k)] if k in ("op", "decl", "risk") else [("decl", n("o")), ("if", n("c"), [("decl", n("o")), leaf(k)], [], 0), ("decl", n("o"))]
                for i, w in enumerate(reversed(path)):
                    inner = [("decl", n("o"))] * (i % 2 == 0) + [("risk", n("v"))] * (d <= 2) + [wrap(w, inner)] + [("op", n("v"))]
                out.append(inner + [("return", n("r"))] if k != "op" else inner)
    # operands of && and || evaluated on one side only declare temporaries: the variables after them stay
    for w in kinds_:
        cnt[0] = 0
        out.append([("decl", n("o")), wrap("and", []), ("decl", n("o")), wrap(w, [("decl", n("o")), wrap("and", []), ("op", n("v"))]), ("op", n("v")), ("return", n("r"))])
        cnt[0] = 0
        out.append([wrap(w, [wrap("and", []), ("decl", n("o")), ("block", [("decl", n("o")), ("risk", n("v"))]), ("op", n("v"))]), ("op", n("v"))])
    return out
