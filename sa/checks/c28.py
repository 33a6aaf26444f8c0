"""C28: the parser's automaton is that of the documented grammar, and every production applies its own action."""
import os, re
from .. import build, grammar
from ..build import AnalysisBroken

LEVEL = "translation_validation"
CHARS = re.compile(r"'(.)'$")

def numbers(g):
    """compile-time constants of the generated parser"""
    names = ["YYFINAL", "YYLAST", "YYNTOKENS", "YYNNTS", "YYNRULES", "YYNSTATES", "YYPACT_NINF", "YYTABLE_NINF", "YYMAXUTOK", "YYUNDEFTOK", "YYINITDEPTH", "YYMAXDEPTH"]
    toks = [t for t in g.terminals if not CHARS.match(t)]
    src = os.path.join(build.tmpdir(), "yaccconst.c")
    # names of tokens the document lists and the parser does not define are reported by the comparison
    hdr = open(os.path.join(build.BUILDER, "include/spvm_yacc.h"), errors="replace").read()
    have = [t for t in toks if re.search(r"\b%s\b" % t, hdr)]
    open(src, "w").write('#include "%s/src/spvm_yacc.c"\n' % build.BUILDER + "".join("const int sa_%s = %s;\n" % (n, n) for n in names) + "".join("const int sa_tok_%s = %s;\n" % (t, t) for t in have))
    p = build.export(build.compile_bc([src], incs=[build.BUILDER + "/src"])[0], build.PASSES_RAW, keep=None, tag="y")
    G = p.globals
    def num(n):
        x = G[n]["init"]
        while isinstance(x, list): x = x[0]
        return int(str(x).lstrip("#").split(":")[0])
    c = {n: num("sa_" + n) for n in names}
    tok = {t: num("sa_tok_" + t) for t in have}
    tb = {}
    for n in ("yypact", "yydefact", "yypgoto", "yydefgoto", "yytable", "yycheck", "yyr1", "yyr2", "yytranslate"):
        x = G.get(n) or next((G[k] for k in G if k.split(".")[0] == n), None)
        if x is None or not x.get("init"): raise AnalysisBroken("the parser has no table " + n)
        v = x["init"]
        if isinstance(v, list) and len(v) == 1 and str(v[0]).startswith('"'): v = v[0]
        tb[n] = [ord(ch) for ch in v[1:]] if isinstance(v, str) else [int(str(e).lstrip("#").split(":")[0]) for e in v]
    return p, c, tok, tb

class Table:
    """what the skeleton does with the tables, for one state and one symbol"""
    def __init__(s, c, tb):
        s.c, s.t = c, tb
    def at(s, n, k): return s.t[n][k] if 0 <= k < len(s.t[n]) else 0
    def action(s, q, x):
        """x: number of a terminal, or None for the action that does not look at it"""
        d = s.at("yydefact", q); default = ("reduce", d, "default") if d else ("error",)
        n = s.at("yypact", q)
        if n == s.c["YYPACT_NINF"]: return default
        n += x
        if n < 0 or s.c["YYLAST"] < n or s.at("yycheck", n) != x: return default
        n = s.at("yytable", n)
        if n <= 0: return ("error", "explicit") if n == s.c["YYTABLE_NINF"] or n == 0 else ("reduce", -n)
        return ("shift", n)
    def goto(s, q, lhs):
        """lhs: value of yyr1"""
        k = lhs - s.c["YYNTOKENS"]; n = s.at("yypgoto", k) + q
        if 0 <= n <= s.c["YYLAST"] and s.at("yycheck", n) == q: return s.at("yytable", n)
        return s.at("yydefgoto", k)

def automaton(ck, g, c, tok, tb):
    """the automaton in the tables does what the grammar's does: the states are paired along every transition; in each pair every token is
    shifted, reduced by the corresponding production, or refused alike.  Returns production of the parser -> production of the document"""
    T = Table(c, tb)
    num = {}
    for t in g.terminals + ["$end"]:
        m = CHARS.match(t); k = 0 if t == "$end" else ord(m.group(1)) if m else tok.get(t)
        if k is None: ck.violation("token:" + t, "the parser knows no token %s, which the documented grammar uses" % t); continue
        x = T.at("yytranslate", k) if 0 <= k <= c["YYMAXUTOK"] else c["YYUNDEFTOK"]
        num[t] = x
    used = {x for r in g.rules for x in r[1] if x not in g.nt}
    inv = {}
    for t, x in num.items():
        if t not in used: continue
        if x in inv or x == c["YYUNDEFTOK"]: ck.violation("token:" + t, "the token %s is the parser's symbol %d, %s" % (t, x, "like " + inv[x] if x in inv else "the undefined one"))
        inv[x] = t
    ck.count("tokens", len(inv))
    where = g.sentence_to()
    show = lambda q: " ".join(where[q]) or "the beginning"
    rule = lambda k: "%s: %s" % (g.rules[k][0], " ".join(g.rules[k][1]) or "(empty)")
    prod, nonterm, pair = {}, {}, {0: 0}
    work = [0]; bad = 0
    def reduces(q, k, r, x):
        """the parser's production r is the documented production k"""
        if k in prod and prod[k] != r: return "reduces %s by its production %d and elsewhere by %d" % (rule(k), r, prod[k])
        if r in inverse and inverse[r] != k: return "reduces by %s instead of %s" % (rule(inverse[r]), rule(k))
        l, rhs, _ = g.rules[k]
        if T.at("yyr2", r) != len(rhs): return "reduces %s by a production of %d symbols" % (rule(k), T.at("yyr2", r))
        if nonterm.setdefault(l, T.at("yyr1", r)) != T.at("yyr1", r): return "reduces %s to another symbol" % rule(k)
        prod[k] = r; inverse[r] = k
        return None
    inverse = {}; need = set(); todo = []
    i = 0
    while i < len(work):
        q = work[i]; i += 1; z = pair[q]
        acts = g.action[q]
        for t in sorted(inv.values()) + ["$end"]:
            want = acts.get(t, ("error",)); have = T.action(z, num[t]); ck.count("state and token pairs")
            err = None
            if want[0] == "accept":
                # the accepting state is entered by shifting the end
                if have[0] != "shift" or have[1] != c["YYFINAL"]: err = "does not accept at the end of the source"
            elif want[0] == "shift":
                if have[0] != "shift": err = "does not shift %s" % t
                elif pair.setdefault(want[1], have[1]) != have[1]: err = "is led by %s into another state" % t
                elif want[1] not in work: work.append(want[1])
            elif want[0] == "reduce":
                err = "does not reduce %s before %s" % (rule(want[1]), t) if have[0] != "reduce" else reduces(q, want[1], have[1], t)
                if err is None: need.add((q, want[1]))
            elif want[0] == "nonassoc":
                if have[0] != "error": err = "accepts %s, which the documented operator precedence does not associate" % t
            else:
                # an error may be noticed after reductions that the state would do anyway
                if have[0] == "shift": err = "shifts %s, which the grammar does not allow" % t
                elif have[0] == "reduce":
                    ok = {a[1] for a in acts.values() if a[0] == "reduce"}
                    if not any(reduces(q, k, have[1], t) is None for k in ok): err = "reduces before %s, where the grammar allows no reduction" % t
            if err: ck.violation("state:%s" % show(q), "after %s the parser %s" % (show(q), err)); bad += 1
            if bad > 30: return prod
        for A, w in g.goto[q].items():
            if A not in g.nt: continue
            todo.append((q, A, w))
        # gotos need the number of the nonterminal, which a reduction shows
        rest = []
        for (p, A, w) in todo:
            if A not in nonterm: rest.append((p, A, w)); continue
            n = T.goto(pair[p], nonterm[A]); ck.count("transitions on nonterminals")
            if pair.setdefault(w, n) != n: ck.violation("state:%s" % show(p), "after %s the parser is led by %s into another state" % (show(p), A)); bad += 1
            elif w not in work: work.append(w)
        todo[:] = rest
    for q, A, w in todo: ck.violation("state:%s" % show(q), "no production of %s, which the grammar allows after %s, is reduced" % (A, show(q)))
    for k in range(len(g.rules)):
        if k not in prod and g.rules[k][0] != g.rules[0][0]: ck.violation("production:" + rule(k), "%s is never reduced" % rule(k))
    return prod

def run(ck):
    ck.rule = ("the LALR(1) automaton of the grammar and the operator precedence in Document::Language::SyntaxParsing is constructed; the automaton encoded in the constant tables of the parser that is compiled is decoded the way "
               "the parser's loop reads it; both are paired from the first state along every transition; for every pair and every token they shift, reduce by corresponding productions, accept or refuse alike, no two states of one "
               "are paired with one of the other unless they behave alike, and productions correspond one to one, with equal lengths and left sides")
    g = grammar.documented()
    p, c, tok, tb = numbers(g)
    ck.functions.add("SPVM_yyparse"); p.fn("SPVM_yyparse")
    prod = automaton(ck, g, c, tok, tb)
    ck.count("productions", len(prod))
    ck.need("state and token pairs", 20000); ck.need("productions", 200); ck.need("tokens", 100)
    ck.sample("after `operator + operator` the parser reduces before `-`, shifts `*`, and refuses CLASS")
