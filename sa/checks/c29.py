"""C29: the tree the parser builds for a construct does what the construct is documented to do."""
import re
from .. import absint, grammar, syntax, meaning
from ..absint import C, P
from ..build import AnalysisBroken
from . import c28

LEVEL = "other"
INT = ("type", "int", 0, 0)
LEAFS = {"E": "operator", "S": "statement", "T": "type", "Q": "qualified_type", "B": "basic_type", "A": "array_type"}

class Undecided(Exception): pass

class Build(syntax.Build):
    def leafs(s, sym, name):
        t = s.t
        if sym in ("type", "qualified_type", "basic_type", "array_type"):
            return t.op("TYPE", uv=t.obj("type", basic_type=s.basic_type(0, t.st), unresolved_basic_type_name=("str", name), dimension=C(1 if sym == "array_type" else 0)))
        o = t.op("CALL_METHOD", uv=t.obj("call_method")); s.leaf[o] = name
        return o
    def lexemes(s, text):
        out = []; t = s.t
        for w in text.split():
            m = re.match(r"([A-Z])\.(.+)$", w)
            if m: out.append((LEAFS[m[1]], s.leafs(LEAFS[m[1]], m[2])))
            elif w[0] == "$" and len(w) > 1: out.append(("VAR_NAME", s.token("VAR_NAME", w)))
            elif w[0] == '"': out.append(("SYMBOL_NAME", s.token("SYMBOL_NAME", w[1:])))
            elif w.startswith("#"):
                o = t.op("CONSTANT", uv=t.obj("constant", type=s.newtype("STRING" if w[1] == "'" else "INT"), value=("str", w[2:-1]) if w[1] == "'" else C(int(w[1:]))))
                if w[1] != "'": s.leaf[o] = w
                out.append(("CONSTANT", o))
            elif len(w) == 1: out.append(("'%s'" % w, s.token("'%s'" % w)))
            elif "/" in w: k, n = w.split("/"); out.append((k, t.op(n)))
            elif w.startswith("SPECIAL_ASSIGN:"):
                o = t.op("SPECIAL_ASSIGN", flag=t.e["SPVM_OP_C_FLAG_SPECIAL_ASSIGN_" + w.split(":")[1]]); out.append(("SPECIAL_ASSIGN", o))
            elif w == "MY": out.append((w, t.op("VAR_DECL", uv=t.obj("var_decl"))))
            elif w == "UNDEF": o = t.op("UNDEF"); out.append((w, o))
            elif w in ("LAST", "NEXT", "BREAK"): out.append((w, t.op(w)))
            else: out.append((w, s.token(w)))
        return out
    def newtype(s, n):
        b = s.basic_type(s.prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_" + n], s.t.st)
        return s.t.obj("type", basic_type=b, unresolved_basic_type_name=s.t.get(b, "name"))
    def built(s, start, text):
        """(errors, meaning) for every way through the parser's actions, or a word"""
        s.begin(); s.leaf = {}; s.it.memo.clear()
        r = s.parse(s.lexemes(text), start); out = []
        for v, st in r:
            if v[0] in ("abort", "give up", "endless", "refused"): out.append(v); continue
            errs = tuple(e[1] for e in st.trace if e[0] == "error")
            if v[0] != "p" and v != C(0): out.append(("value", v)); continue
            out.append((errs, v, st))
        return out
    def means(s, v, st, start):
        """the value of a statement is not looked at"""
        return meaning.explore(lambda m: (meaning.Walk(s, st, s.leaf, m).value(v), None)[start == "statement"])

def ev(n): return lambda m: m.leaf(n)

# what the constructs mean ---------------------------------------------------------
# SPEC: (start, source, meaning(m)) or, where a compilation error is documented, (start, source, "error", fragment)
BIN = {"'+'": "ADD", "'-'": "SUBTRACT", "'*'": "MULTIPLY", "DIVIDE": "DIVIDE", "DIVIDE_UNSIGNED_INT": "DIVIDE_UNSIGNED_INT", "DIVIDE_UNSIGNED_LONG": "DIVIDE_UNSIGNED_LONG", "MODULO": "MODULO",
       "MODULO_UNSIGNED_INT": "MODULO_UNSIGNED_INT", "MODULO_UNSIGNED_LONG": "MODULO_UNSIGNED_LONG", "BIT_XOR": "BIT_XOR", "BIT_AND": "BIT_AND", "BIT_OR": "BIT_OR"}
COMPARE = ("EQ", "NE", "GT", "GE", "LT", "LE", "CMP")
SPECIAL = ("ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "MODULO", "LEFT_SHIFT", "RIGHT_ARITHMETIC_SHIFT", "RIGHT_LOGICAL_SHIFT", "BIT_XOR", "BIT_OR", "BIT_AND", "STRING_CONCAT")

def const(n): return ("constant", ("type", "int", 0, 0), n)
N = "narrowing allowed"

def operators(a):
    def binop(n): return lambda m: m.do(n, m.leaf("a"), m.leaf("b"))
    for tok, n in BIN.items(): a("operator", "E.a %s E.b" % (tok.strip("'") if tok[0] == "'" else tok), binop(n))
    for n in ("LEFT_SHIFT", "RIGHT_ARITHMETIC_SHIFT", "RIGHT_LOGICAL_SHIFT"): a("operator", "E.a SHIFT/%s E.b" % n, binop(n))
    for c in COMPARE:
        a("operator", "E.a %s E.b" % ("NUMERIC_CMP" if c == "CMP" else "NUM" + c), binop("NUMERIC_COMPARISON_" + c))
        a("operator", "E.a %s E.b" % ("STRING_CMP" if c == "CMP" else "STR" + c), binop("STRING_COMPARISON_" + c))
    a("operator", "E.a ./STRING_CONCAT E.b".replace("./", "'.'/"), binop("STRING_CONCAT"))
    un = lambda n: lambda m: m.do(n, m.leaf("a"))
    a("operator", "+ E.a", un("PLUS")); a("operator", "- E.a", un("MINUS"))
    for n in ("BIT_NOT", "TYPE_NAME", "COMPILE_TYPE_NAME", "STRING_LENGTH", "DUMP", "NEW_STRING_LEN", "COPY", "IS_READ_ONLY"): a("operator", n + " E.a", un(n))
    for t in ("@ E.a", "@ { E.a }", "SCALAR @ E.a", "SCALAR @ { E.a }"): a("operator", t, un("ARRAY_LENGTH"))
    a("operator", "DEREFERENCE $x", lambda m: m.do("get", ("referent", m.read("$x"))))
    a("operator", "REFERENCE $x", lambda m: m.do("reference to", ("storage of", "$x")))
    a("operator", "REFERENCE E.a", "must be a variable")
    for n in ("ISA", "ISA_ERROR", "IS_TYPE", "IS_ERROR", "IS_COMPILE_TYPE"): a("operator", "E.a %s T.t" % n, lambda m, n=n: m.do(n, m.leaf("a"), ("type", "t", 0, 0)))
    a("operator", "BASIC_TYPE_ID T.t", lambda m: m.do("BASIC_TYPE_ID", ("type", "t", 0, 0)))
    cast = lambda m: m.do("TYPE_CAST", m.leaf("a"), ("type", "t", 0, 0))
    a("operator", "( Q.t ) E.a", cast); a("operator", "E.a ARROW ( Q.t )", cast)
    a("operator", 'E.a CAN "m', lambda m: m.do("CAN", m.leaf("a"), ("name", "m")))
    a("operator", "E.a CAN #''", lambda m: m.do("CAN", m.leaf("a"), ("name", "")))
    a("operator", "E.a CAN #'x'", "it must be an empty string")
    a("operator", "E.a CAN #0", "it must be an empty string")
    a("operator", "TRUE", lambda m: m.do("call", "Bool", "TRUE")); a("operator", "FALSE", lambda m: m.do("call", "Bool", "FALSE"))
    for n in ("UNDEF", "EVAL_ERROR_ID", "ARGS_WIDTH", "OUTMOST_CLASS_NAME"): a("operator", n, lambda m, n=n: m.do(n))
    a("operator", "EXCEPTION_VAR", lambda m: m.read("$@")); a("operator", "$x", lambda m: m.read("$x"))
    a("operator", "( E.a )", ev("a"))
    def seq(m): m.leaf("a"); m.leaf("b"); return m.leaf("c")
    a("operator", "( E.a , E.b , E.c )", seq); a("operator", "( E.a , E.b , E.c , )", seq)

def logical(a):
    def land(m):
        t, v = m.test(m.leaf("a"))
        return m.test(m.leaf("b"))[1] if t else ("int", 0)
    def lor(m):
        t, v = m.test(m.leaf("a"))
        return v if t else m.test(m.leaf("b"))[1]
    def lnot(m):
        return const(0) if m.test(m.leaf("a"))[0] else const(1)
    a("operator", "E.a LOGICAL_AND E.b", land); a("operator", "E.a LOGICAL_OR E.b", lor); a("operator", "LOGICAL_NOT E.a", lnot)

TARGETS = ("$x", "DEREFERENCE $x", "EXCEPTION_VAR", "E.a ARROW [ E.i ]", 'E.a ARROW { "f }', 'E.a ARROW [ E.i ] { "f }', '$x ARROW { "f }', "$x ARROW [ E.i ]", 'E.a ARROW { "f } [ E.i ]', 'E.a ARROW { "g } { "f }', "E.a ARROW [ E.j ] [ E.i ]",
           '$x ARROW [ E.i ] { "f }', 'MY $y', '$x ARROW [ $i ]', '$x ARROW [ $i ] { "f }', 'DEREFERENCE $x ARROW { "f }')

def target(m, t):
    """(place, its value) where evaluation of the operands happens now"""
    if t == "$x": return "$x"
    if t == "EXCEPTION_VAR": return "$@"
    if t == "DEREFERENCE $x": return ("referent", m.read("$x"))
    if t == "E.a ARROW [ E.i ]": return ("element", m.leaf("a"), m.leaf("i"))
    if t == "$x ARROW [ E.i ]": return ("element", m.read("$x"), m.leaf("i"))
    if t == "$x ARROW [ $i ]": return ("element", m.read("$x"), m.read("$i"))
    if t == 'E.a ARROW { "f }': return ("field", m.leaf("a"), "f")
    if t == '$x ARROW { "f }': return ("field", ("storage of", "$x"), "f")
    if t == 'E.a ARROW [ E.i ] { "f }': return ("field", ("element", m.leaf("a"), m.leaf("i")), "f")
    if t == '$x ARROW [ E.i ] { "f }': return ("field", ("element", m.read("$x"), m.leaf("i")), "f")
    if t == '$x ARROW [ $i ] { "f }': return ("field", ("element", m.read("$x"), m.read("$i")), "f")
    if t == 'E.a ARROW { "f } [ E.i ]': o = m.do("get", ("field", m.leaf("a"), "f"), 0); return ("element", o, m.leaf("i"))
    if t == 'E.a ARROW { "g } { "f }': return ("field", m.do("get", ("field", m.leaf("a"), "g"), 0), "f")
    if t == "E.a ARROW [ E.j ] [ E.i ]": o = m.do("get", ("element", m.leaf("a"), m.leaf("j"))); return ("element", o, m.leaf("i"))
    if t == 'DEREFERENCE $x ARROW { "f }': return ("field", m.do("get", ("referent", m.read("$x"))), "f")

def getp(m, p):
    if p in ("$x", "$@", "$y"): return m.read(p)
    if p[0] == "field": return m.do("get", p, m.ver.get(p[1][1], 0) if p[1][:1] == ("storage of",) else 0)
    return m.do("get", p)

def assignments(a):
    for t in TARGETS:
        def f(m, t=t):
            v = m.leaf("b")
            if t == "MY $y": m.declare("$y", None); return m.write("$y", v)
            return m.write(target(m, t), v)
        a("operator", "%s ASSIGN E.b" % t, f)
        if t == "MY $y": continue
        for op in SPECIAL:
            def f(m, t=t, op=op):
                p = target(m, t); return m.write(p, m.do(op, getp(m, p), m.leaf("b"), N))
            a("operator", "%s SPECIAL_ASSIGN:%s E.b" % (t, op), f)
        for tok, op in (("INC", "ADD"), ("DEC", "SUBTRACT")):
            def pre(m, t=t, op=op):
                p = target(m, t); return m.write(p, m.do(op, getp(m, p), const(1), N))
            def post(m, t=t, op=op):
                p = target(m, t); v = getp(m, p); m.write(p, m.do(op, v, const(1), N)); return v
            a("operator", tok + " " + t, pre); a("operator", t + " " + tok, post)
        a("operator", t, lambda m, t=t: getp(m, target(m, t)))
    for t in ("E.a", "#3", "( E.a , $x )", "- $x", "UNDEF"):
        a("operator", t + " ASSIGN E.b", "must be mutable"); a("operator", t + " SPECIAL_ASSIGN:ADD E.b", "must be mutable")
        if t[0] != "-": a("operator", "INC " + t, "must be mutable"); a("operator", t + " DEC", "must be mutable")

def arrays(a):
    def init(els, kv=False):
        def f(m):
            if not els: return m.do("NEW", ("type", "object", 1, 0), const(0))
            v = m.leaf(els[0])
            if kv: v = m.do("TYPE_CAST", v, ("type", "object", 0, 0))
            arr = m.do("NEW", v, const(len(els)))
            m.write(("element", arr, const(0)), v)
            for k, e in enumerate(els[1:]): m.write(("element", arr, const(k + 1)), m.leaf(e))
            return arr
        return f
    for n in range(5):
        els = "abcd"[:n]; src = " , ".join("E." + e for e in els)
        a("operator", "[ %s ]" % src, init(els))
        if n: a("operator", "[ %s , ]" % src, init(els))
        a("operator", "{ %s }" % src, "must be an even number" if n % 2 else init(els, True))
    a("operator", "[ UNDEF ]", "must be defined"); a("operator", "[ UNDEF , E.a ]", "must be defined")
    a("operator", "{ UNDEF , E.a }", "must be defined")
    def late(m):
        v = m.leaf("a"); arr = m.do("NEW", v, const(2)); m.write(("element", arr, const(0)), v); m.write(("element", arr, const(1)), m.do("UNDEF")); return arr
    a("operator", "[ E.a , UNDEF ]", late)
    a("operator", "NEW B.t", lambda m: m.do("NEW", ("type", "t", 0, 0)))
    a("operator", "NEW B.t [ E.n ]", lambda m: order(m, 1))
    a("operator", "NEW A.t [ E.n ]", lambda m: order(m, 2))
    def order(m, d): return m.do("NEW", ("type", "t", d, 0), m.leaf("n"))

def calls(a):
    for n in range(3):
        args = "abc"[:n]; src = " , ".join("E." + x for x in args)
        L = lambda m, args=args: tuple(m.leaf(x) for x in args)
        a("operator", 'OUTMOST_CLASS "m ( %s )' % src, lambda m, L=L: m.do("call", ("the outmost class",), "m", *L(m)))
        a("operator", 'B.C ARROW "m ( %s )' % src, lambda m, L=L: m.do("call", "C", "m", *L(m)))
        a("operator", 'E.i ARROW "m ( %s )' % src, lambda m, L=L: m.do("call", None, "m", m.leaf("i"), *L(m)))
        a("operator", '$x ARROW "m ( %s )' % src, lambda m, L=L: m.do("call", None, "m", m.read("$x"), *L(m)))
        a("operator", 'E.i ARROW ( %s )' % src, lambda m, L=L: m.do("call", None, "", m.leaf("i"), *L(m)))
        a("operator", 'E.i ARROW "S::m ( %s )' % src, lambda m, L=L: m.do("call", None, "S::m", m.leaf("i"), *L(m)))
    a("operator", 'OUTMOST_CLASS "m', lambda m: m.do("call", ("the outmost class",), "m"))
    a("operator", 'B.C ARROW "m', lambda m: m.do("call", "C", "m"))
    a("operator", 'E.i ARROW "m', lambda m: m.do("call", None, "m", m.leaf("i")))
    a("operator", 'E.i ARROW "m ( E.a , )', lambda m: m.do("call", None, "m", m.leaf("i"), m.leaf("a")))
    a("operator", 'E.i ARROW "m ( ( E.a , E.b ) , E.c )', lambda m: m.do("call", None, "m", m.leaf("i"), (m.leaf("a"), m.leaf("b"))[1], m.leaf("c")))

def declarations(a):
    kinds = {"BYTE": "byte", "SHORT": "short", "INT": "int", "LONG": "long", "FLOAT": "float", "DOUBLE": "double", "STRING": "string", "OBJECT": "object", '"T': "T"}
    for tok, n in kinds.items():
        for suf, d, f in (("", 0, 0), (" [ ]", 1, 0), (" [ ] [ ]", 2, 0), (" *", 0, 1)):
            for mu, g in (("", 0), ("MUTABLE ", 2)):
                a("operator", "MY $x : " + mu + tok + suf, lambda m, n=n, d=d, f=f, g=g: (m.declare("$x", ("type", n, d, f | g)), m.read("$x"))[1])
        a("operator", "NEW %s [ E.n ]" % tok, lambda m, n=n: m.do("NEW", ("type", n, 1, 0), m.leaf("n")))
        a("operator", "NEW %s [ ] [ E.n ]" % tok, lambda m, n=n: m.do("NEW", ("type", n, 2, 0), m.leaf("n")))
        a("operator", "( %s [ ] ) E.a" % tok, lambda m, n=n: m.do("TYPE_CAST", m.leaf("a"), ("type", n, 1, 0)))
    a("operator", "MY $x", lambda m: (m.declare("$x", None), m.read("$x"))[1])
    a("operator", "MY $x : INT ASSIGN E.b", lambda m: (m.leaf("b"), m.declare("$x", INT), m.write("$x", ("value", "b", 1)))[2])
    a("operator", "MY $x : OBJECT OF INT BIT_OR STRING", lambda m: (m.declare("$x", ("type", "object", 0, 0)), m.read("$x"))[1])
    a("operator", "MY $A::x", "contain \"::\"")

def statements(a):
    S = lambda *names: lambda m: [m.leaf(n) for n in names] and None
    sc = lambda m, *names: m.scope(lambda: S(*names)(m))
    def if_(m, unless=False, els=False):
        def f():
            t = m.test(m.leaf("a"))[0]
            if t != unless: sc(m, "b")
            elif els: sc(m, "c")
        m.scope(f)
    a("statement", "IF ( E.a ) { S.b }", if_)
    a("statement", "IF ( E.a ) { S.b } ELSE { S.c }", lambda m: if_(m, False, True))
    a("statement", "UNLESS ( E.a ) { S.b }", lambda m: if_(m, True))
    a("statement", "UNLESS ( E.a ) { S.b } ELSE { S.c }", lambda m: if_(m, True, True))
    def chain(m, first=False, n=2, els=True):
        def f():
            t = m.test(m.leaf("a"))[0]
            if t != first: return sc(m, "b")
            def g(k):
                if k == n: return sc(m, "z") if els else None
                if m.test(m.leaf("c%d" % k))[0]: return sc(m, "d%d" % k)
                return m.scope(lambda: g(k + 1))
            m.scope(lambda: g(0))
        m.scope(f)
    for n in (1, 2):
        eli = " ".join("ELSIF ( E.c%d ) { S.d%d }" % (k, k) for k in range(n))
        for w, un in (("IF", False), ("UNLESS", True)):
            a("statement", "%s ( E.a ) { S.b } %s" % (w, eli), lambda m, n=n, un=un: chain(m, un, n, False))
            a("statement", "%s ( E.a ) { S.b } %s ELSE { S.z }" % (w, eli), lambda m, n=n, un=un: chain(m, un, n, True))
    a("statement", "IF ( E.a ) { }", lambda m: if0(m)); a("statement", "IF ( E.a ) { } ELSE { S.c }", lambda m: if0(m, True))
    def if0(m, els=False):
        def f():
            if not m.test(m.leaf("a"))[0] and els: sc(m, "c")
        m.scope(f)
    # loops
    def for_(m, init, step, body, cond="b"):
        def f():
            init(m); m.loop(lambda: m.leaf(cond), lambda: m.scope(lambda: body(m)), lambda: step(m))
        m.scope(f)
    no = lambda m: None
    a("statement", "FOR ( E.a ; E.b ; E.c ) { S.d }", lambda m: for_(m, ev("a"), ev("c"), ev("d")))
    a("statement", "FOR ( ; E.b ; ) { S.d }", lambda m: for_(m, no, no, ev("d")))
    a("statement", "FOR ( E.a ; E.b ; ) { S.d S.e }", lambda m: for_(m, ev("a"), no, S("d", "e")))
    a("statement", "FOR ( ; E.b ; E.c ) { }", lambda m: for_(m, no, ev("c"), no))
    a("statement", "WHILE ( E.b ) { S.d }", lambda m: for_(m, no, no, ev("d")))
    for kind, how in (("LAST", "last"), ("NEXT", "next")):
        def body(m, how=how):
            def g():
                if m.test(m.leaf("x"))[0]: m.scope(lambda: leave(how))
            m.scope(g); m.leaf("d")
        a("statement", "FOR ( E.a ; E.b ; E.c ) { IF ( E.x ) { %s ; } S.d }" % kind, lambda m, body=body: for_(m, ev("a"), ev("c"), body))
        a("statement", "WHILE ( E.b ) { IF ( E.x ) { %s ; } S.d }" % kind, lambda m, body=body: for_(m, no, no, body))
        a("statement", "FOR MY $e ( @ E.l ) { IF ( E.x ) { %s ; } S.d }" % kind, lambda m, body=body: foreach(m, body))
        a("statement", kind + " ;", lambda m, how=how: leave(how))
    def leave(how): raise meaning.Leave(how)
    def foreach(m, body, ty=None):
        def f():
            l = m.leaf("l"); n = m.do("ARRAY_LENGTH", l); i = [const(0)]
            def b():
                v = m.do("get", ("element", l, i[0]))
                m.declare("$e", ty); m.write("$e", v); body(m)
            def step(): i[0] = m.do("ADD", i[0], const(1), N)
            m.loop(lambda: m.do("NUMERIC_COMPARISON_LT", i[0], n), lambda: m.scope(b), step)
        m.scope(f)
    for src in ("@ E.l", "@ { E.l }"):
        a("statement", "FOR MY $e ( %s ) { S.d }" % src, lambda m: foreach(m, ev("d")))
        a("statement", "FOR MY $e : INT ( %s ) { S.d S.f }" % src, lambda m: foreach(m, S("d", "f"), INT))
    # switch
    def sw(labels, bodies, brk):
        """brk: which arms are left at their end"""
        def f(m):
            v = m.leaf("s")
            def body(k):
                def g():
                    if bodies[k] is None: return
                    def h():
                        for x in bodies[k]: m.leaf(x)
                        if brk[k]: leave("break")
                    m.scope(h)
                return g
            m.switch(v, labels, [body(k) for k in range(len(labels))])
        return f
    a("statement", "SWITCH ( E.s ) { CASE #1 : { S.a } CASE #2 : { S.b } DEFAULT : { S.c } }", sw(["#1", "#2", "default"], ["a", "b", "c"], [1, 1, 0]))
    a("statement", "SWITCH ( E.s ) { CASE #1 : CASE #2 : { S.b } CASE #3 : { S.c S.d } }", sw(["#1", "#2", "#3"], [None, "b", "cd"], [0, 1, 1]))
    a("statement", "SWITCH ( E.s ) { DEFAULT : { S.a } }", sw(["default"], ["a"], [0]))
    a("statement", "SWITCH ( E.s ) { CASE #1 : DEFAULT : { S.a } }", sw(["#1", "default"], [None, "a"], [0, 0]))
    a("statement", "SWITCH ( E.s ) { CASE #1 : { S.a } DEFAULT : }", sw(["#1", "default"], ["a", None], [1, 0]))
    a("statement", "SWITCH ( E.s ) { }", sw([], [], []))
    def swif(m):
        v = m.leaf("s")
        def arm():
            def h():
                def g():
                    if m.test(m.leaf("x"))[0]: m.scope(lambda: leave("break"))
                m.scope(g); m.leaf("a"); leave("break")
            m.scope(h)
        m.switch(v, ["#1"], [arm])
    a("statement", "SWITCH ( E.s ) { CASE #1 : { IF ( E.x ) { BREAK ; } S.a } }", swif)
    # others
    a("statement", "{ S.a S.b }", lambda m: sc(m, "a", "b"))
    a("statement", "{ S.a ; S.b }", lambda m: sc(m, "a", "b"))
    a("statement", "EVAL { S.a S.b }", lambda m: m.protect(lambda: sc(m, "a", "b")))
    a("statement", "EVAL { S.a DIE E.m ; S.b }", lambda m: m.protect(lambda: m.scope(lambda: (m.leaf("a"), die(m, ev("m"))))))
    def die(m, msg, ty=("type", "Error", 0, 0)):
        m.write("$@", msg(m) if callable(msg) else msg)
        t = ty(m) if callable(ty) else ty
        raise meaning.Leave("die", t)
    ERR = ("constant", ("type", "string", 0, 0), "Error")
    a("statement", "DIE ;", lambda m: die(m, ERR)); a("statement", "DIE E.m ;", lambda m: die(m, ev("m")))
    a("statement", "DIE T.t E.m ;", lambda m: die(m, ev("m"), ("type", "t", 0, 0))); a("statement", "DIE T.t ;", lambda m: die(m, ERR, ("type", "t", 0, 0)))
    a("statement", "DIE E.c , E.m ;", lambda m: die(m, ev("m"), ev("c")))
    a("statement", "WARN ;", lambda m: m.do("WARN", ("constant", ("type", "string", 0, 0), "Warning")) and None)
    for w in ("WARN", "PRINT", "SAY", "MAKE_READ_ONLY"): a("statement", w + " E.m ;", lambda m, w=w: m.do(w, m.leaf("m")) and None)
    a("statement", "RETURN ;", lambda m: leave2(m)); a("statement", "RETURN E.a ;", lambda m: leave2(m, "a"))
    def leave2(m, n=None): raise meaning.Leave("return", m.leaf(n) if n else None)
    a("statement", "E.a ;", lambda m: m.leaf("a") and None); a("statement", ";", no)
    for n in ("WEAKEN", "UNWEAKEN"):
        a("statement", n + ' $x ARROW { "f } ;', lambda m, n=n: m.do(n, ("field", ("storage of", "$x"), "f")) and None)
    a("operator", 'ISWEAK $x ARROW { "f }', lambda m: m.do("ISWEAK", ("field", ("storage of", "$x"), "f")))
    def req(m, els):
        t = m.choose(("can be loaded", ("type", "t", 0, 0)))
        if t == 0: sc(m, "b")
        elif els: sc(m, "c")
    a("statement", "IF ( REQUIRE B.t ) { S.b }", lambda m: req(m, False)); a("statement", "IF ( REQUIRE B.t ) { S.b } ELSE { S.c }", lambda m: req(m, True))

GROUPS = (operators, logical, assignments, arrays, calls, declarations, statements)

class Count:
    """the automaton's own violations are C28's"""
    def __getattr__(s, n): return lambda *a, **k: None

def run(ck):
    ck.rule = ("a source of one construct with opaque operands is reduced in the order of the documented grammar; the actions of the parser, from the IR of the current source, are evaluated on it; the tree they leave is walked as C21 "
               "defines it and what it evaluates, tests, writes, declares, calls and leaves, in which order and on which values, is compared as a decision tree with the documented meaning of the construct, or the error reported with the documented one")
    g = grammar.documented()
    p, c, tok, tb = c28.numbers(g)
    prod = c28.automaton(Count(), g, c, tok, tb)
    prog = syntax.program()
    b = Build(prog, prod, c)
    for G in GROUPS:
        L = []
        G(lambda start, text, f: L.append((start, text, f)))
        for start, text, f in L:
            ck.count("constructs: " + G.__name__)
            err = None
            try:
                for x in b.built(start, text):
                    ck.count("ways through the parser's actions")
                    if x[0] in ("abort", "give up", "endless", "refused", "value"):
                        if x[0] == "give up": ck.notes.append("%s not decided: %s" % (text, x[1])); ck.count("constructs not decided"); continue
                        err = {"abort": "the compiler %s" % (x[1:],), "endless": "the parser's actions do not end", "value": "the tree is not known: %s" % (x[1:],)}.get(x[0], "the source is refused")
                        break
                    es, v, st = x
                    if isinstance(f, str):
                        if not any(f in str(e) for e in es): err = "reports %s, documented: %s" % (list(es) or "no error", f)
                    elif es: err = "reports " + str(es[0])
                    else:
                        got = b.means(v, st, start); want = meaning.explore(lambda m: (f(m), None)[start == "statement"])
                        if got != want: err = "does " + differ(got, want)
                    if err: break
            except (absint.GiveUp, Undecided) as e:
                ck.notes.append("%s not decided: %s" % (text, e)); ck.count("constructs not decided"); continue
            if err: ck.violation("construct:%s" % text, "%s `%s`: %s (actions of the parser, %s)" % (start, text, err, prog.fn("SPVM_yyparse").loc))
    for n in b.it.fns: ck.functions.add(n)
    ck.count("productions reduced", len(b.used))
    for G in GROUPS: ck.need("constructs: " + G.__name__, 3)
    ck.need("productions reduced", 100)
    ck.sample("$x ARROW [ E.i ] SPECIAL_ASSIGN:ADD E.b: reads $x, evaluates i, gets the element, evaluates b, adds, writes the element; each operand once")

def differ(got, want):
    """where two decision trees differ first"""
    def word(e): return re.sub(r"[(),'\"]+", " ", str(e)).strip()[:160]
    def go(a, b, path):
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else ("nothing more",); y = b[i] if i < len(b) else ("nothing more",)
            if x == y: continue
            if x[0] == y[0] == "?" and x[1] == y[1] and len(x[2]) == len(y[2]):
                for k, (p, q) in enumerate(zip(x[2], y[2])):
                    if p != q: return go(p, q, path + ["%s: way %d" % (word(x[1]), k)])
            return "`%s`, documented: `%s`%s" % (word(x), word(y), " (%s)" % ", ".join(path) if path else "")
        return "the same"
    return go(got, want, [])
