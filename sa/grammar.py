"""The documented grammar (grammar.txt, as in the document on syntax parsing) and the automaton it stands for: LALR(1) sets computed here
from the productions, conflicts settled by the documented precedence and associativity."""
import os, re
from .build import AnalysisBroken

class Grammar:
    def __init__(s, text):
        s.prec = {}; s.rules = []; s.nts = []; lvl = 0
        head, body = [], []
        for l in text.split("\n"):
            (head if l.startswith("%") else body).append(l)
        tokens = []
        for l in head:
            w = l.split()
            if w[0] == "%token": tokens += w[2:]
            if w[0] in ("%left", "%right", "%nonassoc"):
                lvl += 1
                for x in w[2:]: s.prec[x] = (lvl, w[0][1:]); tokens.append(x)
        cur = None
        for l in body:
            l = re.sub(r"/\*.*?\*/", "", l)
            m = re.match(r"(\w+)\s*$", l)
            if m: cur = m.group(1); s.nts.append(cur) if cur not in s.nts else None; continue
            m = re.match(r"\s+([:|])(.*)$", l)
            if m:
                rhs, prec = m.group(2), None
                if "%prec" in rhs: rhs, prec = rhs.split("%prec"); prec = prec.strip()
                s.rules.append((cur, tuple(rhs.split()), prec)); continue
            if l.strip(): raise AnalysisBroken("grammar: " + l)
        s.start = s.nts[0]
        nt = set(s.nts)
        s.terminals = sorted({x for _, r, _ in s.rules for x in r if x not in nt} | {t for t in tokens})
        s.rules = [("$accept", (s.start, "$end"), None)] + s.rules
        s.by = {}
        for k, (l, r, p) in enumerate(s.rules): s.by.setdefault(l, []).append(k)
        s.nt = nt | {"$accept"}
        s.rprec = []
        for l, r, p in s.rules:
            if p is None: p = next((x for x in reversed(r) if x not in s.nt), None)
            s.rprec.append(s.prec.get(p))
        s.build()
    def build(s):
        R = s.rules
        # which symbols derive nothing
        null = set(); ch = True
        while ch:
            ch = False
            for l, r, p in R:
                if l not in null and all(x in null for x in r): null.add(l); ch = True
        s.null = null
        def closure(kernel):
            out = list(kernel); seen = set()
            for k, d in out:
                r = R[k][1]
                if d < len(r) and r[d] in s.nt and r[d] not in seen:
                    seen.add(r[d]); out += [(q, 0) for q in s.by[r[d]]]
            return out
        states = [frozenset([(0, 0)])]; idx = {states[0]: 0}; s.goto = []
        clos = []
        for K in states:
            C = closure(sorted(K)); clos.append(C)
            m = {}
            for k, d in C:
                r = R[k][1]
                if d < len(r): m.setdefault(r[d], set()).add((k, d + 1))
            g = {}
            for x, ks in m.items():
                if x == "$end": g[x] = "accept"; continue
                ks = frozenset(ks)
                if ks not in idx: idx[ks] = len(states); states.append(ks)
                g[x] = idx[ks]
            s.goto.append(g)
        s.states, s.clos = states, clos
        # lookahead sets (DeRemer and Pennello)
        trans = [(p, x) for p in range(len(states)) for x in s.goto[p] if x in s.nt]
        DR = {t: {x for x in s.goto[s.goto[t[0]][t[1]]] if x not in s.nt} for t in trans}
        reads = {t: [(s.goto[t[0]][t[1]], x) for x in s.goto[s.goto[t[0]][t[1]]] if x in null] for t in trans}
        includes = {t: [] for t in trans}; look = {}
        for p, A in trans:
            for k in s.by[A]:
                q = p; r = R[k][1]
                for d, x in enumerate(r):
                    if x in s.nt and all(y in null for y in r[d + 1:]): includes[(q, x)].append((p, A))
                    q = s.goto[q][x]
                look.setdefault((q, k), []).append((p, A))
        def digraph(rel, F):
            N = dict.fromkeys(rel, 0); st = []; out = {t: set(F[t]) for t in rel}
            import sys; sys.setrecursionlimit(100000)
            def tr(x):
                st.append(x); d = len(st); N[x] = d
                for y in rel[x]:
                    if N[y] == 0: tr(y)
                    N[x] = min(N[x], N[y]); out[x] |= out[y]
                if N[x] == d:
                    while True:
                        z = st.pop(); N[z] = 10 ** 9
                        if z == x: break
                        out[z] = set(out[x])
            for x in rel:
                if N[x] == 0: tr(x)
            return out
        Follow = digraph(includes, digraph(reads, DR))
        s.action = []; s.conflicts = []
        for q in range(len(states)):
            act = {x: ("shift", g) if g != "accept" else ("accept",) for x, g in s.goto[q].items() if x not in s.nt}
            reds = [k for k, d in clos[q] if d == len(R[k][1]) and k]
            la = {k: set().union(*[Follow[t] for t in look.get((q, k), [])]) if look.get((q, k)) else set() for k in reds}
            # shift against reduction: by precedence, otherwise the shift
            for k in sorted(reds):
                for x in list(la[k]):
                    if act.get(x, ("",))[0] in ("shift", "nonassoc"):
                        rp, tp = s.rprec[k], s.prec.get(x)
                        if act[x][0] == "nonassoc": continue
                        if rp is None or tp is None: s.conflicts.append((q, x, k)); la[k].discard(x); continue
                        if tp[0] > rp[0]: la[k].discard(x)
                        elif tp[0] < rp[0]: del act[x]
                        elif tp[1] == "right": la[k].discard(x)
                        elif tp[1] == "left": del act[x]
                        else: act[x] = ("nonassoc",); la[k].discard(x)
            for k in sorted(reds):
                for x in la[k]:
                    a = act.get(x)
                    if a is None: act[x] = ("reduce", k)
                    elif a[0] == "reduce": s.conflicts.append((q, x, k))
            s.action.append(act)
    def sentence_to(s):
        """a shortest sequence of symbols that leads to every state"""
        out = {0: ()}; work = [0]
        for q in work:
            for x, g in s.goto[q].items():
                if g != "accept" and g not in out: out[g] = out[q] + (x,); work.append(g)
        return out

def documented(): return Grammar(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "grammar.txt")).read())
