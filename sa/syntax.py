"""Sources given to the actions of the parser: the documented grammar's automaton (grammar.py) says which productions are reduced in which
order; for each the action of the generated parser is evaluated by the abstract interpreter on the values of its symbols.  Operands are opaque."""
from . import absint, checker, codegen, classes, fspec, build, grammar
from .absint import C, S, P
from .build import AnalysisBroken

SRC = ("yacc", "op", "type", "basic_type", "constant", "var", "var_decl", "block", "switch_info", "case_info", "call_method", "field_access", "array_field_access", "class_var_access",
       "class_var", "field", "method", "use", "allow", "interface", "attribute")
STEPS = 200000
# the operation a token stands for, where it is not named like the token
OPID = {"NUMEQ": "NUMERIC_COMPARISON_EQ", "NUMNE": "NUMERIC_COMPARISON_NE", "NUMGT": "NUMERIC_COMPARISON_GT", "NUMGE": "NUMERIC_COMPARISON_GE", "NUMLT": "NUMERIC_COMPARISON_LT", "NUMLE": "NUMERIC_COMPARISON_LE", "NUMERIC_CMP": "NUMERIC_COMPARISON_CMP",
        "STREQ": "STRING_COMPARISON_EQ", "STRNE": "STRING_COMPARISON_NE", "STRGT": "STRING_COMPARISON_GT", "STRGE": "STRING_COMPARISON_GE", "STRLT": "STRING_COMPARISON_LT", "STRLE": "STRING_COMPARISON_LE", "STRING_CMP": "STRING_COMPARISON_CMP",
        "SYMBOL_NAME": "NAME", "VAR_NAME": "NAME", "MY": "VAR", "METHOD": "METHOD", "OUR": "CLASS_VAR", "HAS": "FIELD", "ENUM": "ENUM", "ELSIF": "ELSIF"}

def program():
    return fspec.merged(build.compile_bc([build.BUILDER + "/src/spvm_%s.c" % f for f in SRC]), "syntax", keep=None, passes=build.PASSES_RAW)

class Lexeme:
    """a token with its value"""
    def __init__(s, tok, op=None, **kw): s.tok, s.op, s.kw = tok, op, kw

class Build(classes.Build):
    def __init__(s, prog, prod, yynumbers):
        classes.Build.__init__(s, prog)
        s.g = grammar.documented(); s.prod = prod; s.real = True
        f = prog.fns.get("SPVM_yyparse")
        if not f: raise AnalysisBroken("no parser")
        s.f = f; s.big = s.done = None
        for b, ins in enumerate(f.blocks):
            for i in ins:
                if i.op == "switch" and len(i.ops) > 100: s.big, s.done = b, int(i.ops[1][1:])
        if s.big is None: raise AnalysisBroken("the parser's actions are not found")
        # every action ends where the alternative without an action leads
        j = s.done; s.ends = {j}
        while len(f.blocks[j]) == 1 and f.blocks[j][-1].op == "br" and len(f.blocks[j][-1].ops) == 1: j = int(f.blocks[j][-1].ops[0][1:]); s.ends.add(j)
        s.loc = {}
        for ins in f.blocks:
            for i in ins:
                if i.op == "alloca": s.loc.setdefault(i.x.split("|")[1], i)
        for n in ("yyn", "yyvsp", "yyval", "compiler"):
            if n not in s.loc: raise AnalysisBroken("the parser has no variable " + n)
        s.opnames = {v: k[len("SPVM_OP_C_ID_"):] for k, v in prog.enums.items() if k.startswith("SPVM_OP_C_ID_")}
        s.btnames = {}
        for k, v in prog.enums.items():
            if k.startswith("SPVM_NATIVE_C_BASIC_TYPE_ID_"):
                n = k[len("SPVM_NATIVE_C_BASIC_TYPE_ID_"):].lower(); h = prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT"]
                s.btnames[v] = "object" if v == h else n if v < h else "::".join(w.capitalize() for w in n.replace("_class", "").split("_"))
    def begin(s):
        t = s.tree(); t.compiler()
        t.put(t.comp, "current_file", ("str", "F")); t.put(t.comp, "current_line", C(1)); t.put(t.comp, "current_outmost_class_name", ("str", "Outmost"))
        s.it.field_override = None
        return t
    def reduce(s, k, vals, st):
        """the value the action of production k gives its left side: [(value, state)]"""
        f = s.f; st.n += 1
        fr = {"fn": f, "v": {}, "args": (s.t.comp,), "id": ("SPVM_yyparse", st.n), "depth": 0, "seen": {}}
        loc = {n: P(("alloca", fr["id"], n, i.id)) for n, i in s.loc.items()}
        n = len(vals); stack = ("obj", "stack", st.n)
        for j, v in enumerate(vals): st.mem[(stack, (("[]", C(101 - n + j)),))] = v
        st.mem[(loc["yyn"][1], ())] = C(s.prod[k])
        st.mem[(loc["yyvsp"][1], ())] = P(stack, ("[]", C(100)))
        st.mem[(loc["yyval"][1], ())] = vals[0] if n else ("u", 0, "nothing")
        st.mem[(loc["compiler"][1], ())] = s.t.comp
        s.it.stop = s.ends; s.it.budget = s.it.steps + STEPS
        lost = s.it.lost
        try: r = s.it.block(s.big, None, fr, st)
        except absint.GiveUp as e: return [(("give up", str(e)), st)]
        except absint.Budget: return [(("endless",), st)]
        finally: s.it.stop = None
        if s.it.lost > lost: return [(("endless",), st)]
        return [((x if x[0] == "abort" else z.mem.get((loc["yyval"][1], ()), ("u", 0, "nothing"))), z) for x, z in r]
    def oracle(s, it, n, a, st):
        if n == "SPVM_LIST_get" and a[0] == s.t.btlist and a[1][0] == "c": return [(s.basic_type(a[1][1], st), st)]
        if n == "SPVM_TYPE_new":
            st.n += 1; o = P(("obj", "new", st.n)); st.zero = st.zero | {o[1]}
            if a[1][0] != "c": raise absint.GiveUp("a type of an unknown basic type")
            b = s.basic_type(a[1][1], st)
            st.mem[(o[1], ("basic_type",))] = b; st.mem[(o[1], ("dimension",))] = a[2]; st.mem[(o[1], ("flag",))] = a[3]
            if a[1][1] > 0: st.mem[(o[1], ("unresolved_basic_type_name",))] = st.mem[(b[1], ("name",))]
            return [(o, st)]
        return classes.Build.oracle(s, it, n, a, st)
    def basic_type(s, i, st):
        b = P(("obj", "basic type", i))
        if (b[1], ("id",)) not in st.mem:
            st.zero = st.zero | {b[1]}; st.mem[(b[1], ("id",))] = C(i); st.mem[(b[1], ("name",))] = ("str", s.btnames.get(i, "?%d" % i))
        return b
    # sources -----------------------------------------------------------------
    def token(s, tok, text=None):
        t = s.t
        if tok in ("SYMBOL_NAME", "VAR_NAME"): o = t.op("NAME"); t.put(o, "uv", ("str", text)); return o
        name = OPID.get(tok, tok)
        if "SPVM_OP_C_ID_" + name not in t.e: name = "DO_NOTHING"
        return t.op(name)
    def parse(s, lexemes, start):
        """lexemes: [(symbol, value or function of the tree)]; the value of start: [(value, state)]"""
        t = s.t; g = s.g
        q0 = s.entry(start)
        # all steps before a fork are common: the stack of states does not depend on values
        work = [([q0], [], 0, t.st)]; out = []
        toks = list(lexemes) + [(None, None)]
        while work:
            states, vals, i, st = work.pop()
            while True:
                sym, val = toks[i]
                if sym in g.nt:
                    if sym in g.goto[states[-1]]: states.append(g.goto[states[-1]][sym]); vals.append(val); i += 1; continue
                    # a reduction of something before it
                    acts = {a for x, a in g.action[states[-1]].items() if a[0] == "reduce" and s.first(sym, x)}
                    if len(acts) != 1: raise AnalysisBroken("template: %s cannot follow (%s)" % (sym, sorted(acts)))
                    act = acts.pop()
                elif sym is None:
                    if len(states) == 2 and g.goto[q0].get(start) == states[1]: out.append((vals[0], st)); break
                    end = s.follow(start)
                    acts = {a for x, a in g.action[states[-1]].items() if a[0] == "reduce" and x in end}
                    if len(acts) != 1: raise AnalysisBroken("template of %s ends at %s" % (start, sorted(acts)))
                    act = acts.pop()
                else:
                    act = g.action[states[-1]].get(sym, ("error",))
                if act[0] == "shift": states.append(act[1]); vals.append(val); i += 1; continue
                if act[0] != "reduce": out.append((("refused", i), st)); break
                k = act[1]; l, rhs, _ = g.rules[k]; n = len(rhs)
                vs = vals[len(vals) - n:]; del vals[len(vals) - n:]; del states[len(states) - n:]
                s.used.add(k)
                rs = s.reduce(k, vs, st)
                states.append(g.goto[states[-1]][l])
                bad = [x for x in rs if x[0][0] in ("abort", "give up", "endless")]
                out += bad; rs = [x for x in rs if x[0][0] not in ("abort", "give up", "endless")]
                if not rs: break
                for v, z in rs[1:]: work.append((list(states), vals + [v], i, z))
                vals.append(rs[0][0]); st = rs[0][1]
        return out
    used = set()
    def entry(s, start):
        for q, go in enumerate(s.g.goto):
            if start in go: return q
        raise AnalysisBroken("nothing begins " + start)
    def first(s, nt, x):
        c = getattr(s, "_first", None)
        if c is None:
            c = s._first = {n: set() for n in s.g.nt}; ch = True
            while ch:
                ch = False
                for l, r, p in s.g.rules:
                    for y in r:
                        add = c[y] if y in s.g.nt else {y}
                        if not add <= c[l]: c[l] |= add; ch = True
                        if y not in s.g.null: break
        return x in c[nt]
    def follow(s, start):
        out = set()
        s.first(start, "")
        q = s.g.goto[s.entry(start)][start]
        return {x for x in s.g.action[q]}
