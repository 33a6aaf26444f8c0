"""Equality of two region summaries.  Paths are paired when their conditions do not contradict each
other in a small abstract domain (signed/unsigned/float order relations between term pairs, intervals
against constants, and case splits on conditions that occur inside values); paired paths must have the
same effects, exit and live values."""
from . import sym, vmtab
from .vmtab import normal

class Unknown(Exception): pass

LT, EQ, GT, UN = 1, 2, 4, 8
IP = {"eq": EQ, "ne": LT | GT, "lt": LT, "le": LT | EQ, "gt": GT, "ge": GT | EQ}
FP = {"oeq": EQ, "one": LT | GT, "olt": LT, "ole": LT | EQ, "ogt": GT, "oge": GT | EQ, "ord": LT | EQ | GT,
      "ueq": EQ | UN, "une": LT | GT | UN, "ult": LT | UN, "ule": LT | EQ | UN, "ugt": GT | UN, "uge": GT | EQ | UN, "uno": UN}
def flip(m): return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)

BIG = 1 << 70

class Dom:
    """conjunction of order facts over term numbers"""
    __slots__ = ("rel", "iv", "ne", "bad")
    def __init__(s): s.rel, s.iv, s.ne, s.bad = {}, {}, {}, False
    def copy(s):
        d = Dom(); d.rel, d.iv, d.ne, d.bad = dict(s.rel), dict(s.iv), dict(s.ne), s.bad; return d
    def pair(s, x, y, kind, m):
        if x == y:
            if not m & EQ and not (kind == "f" and m & UN): s.bad = True
            return
        if y < x: x, y, m = y, x, flip(m)
        full = 15 if kind == "f" else 7
        q = s.rel.get((x, y, kind), full) & m
        s.rel[(x, y, kind)] = q
        if q == 0: s.bad = True
        if kind != "f":
            o = "u" if kind == "s" else "s"
            if not q & EQ or q == EQ:
                r = s.rel.get((x, y, o), 7) & (EQ if q == EQ else 5)
                s.rel[(x, y, o)] = r
                if r == 0: s.bad = True
            if q == EQ:
                for a, b in ((x, y), (y, x)):
                    if a in s.iv: s.const(b, *s.iv[a])
    def const(s, x, lo, hi):
        l, h = s.iv.get(x, (-BIG, BIG))
        l, h = max(l, lo), min(h, hi)
        ne = s.ne.get(x, ())
        while l in ne: l += 1
        while h in ne: h -= 1
        s.iv[x] = (l, h)
        if l > h: s.bad = True
    def nec(s, x, c):
        s.ne[x] = s.ne.get(x, ()) + (c,)
        s.const(x, -BIG, BIG)
    def close(s):
        """constants against pair relations"""
        for (x, y, k), m in s.rel.items():
            if k == "f": continue
            if x in s.iv and y in s.iv:
                (a, b), (c, d) = s.iv[x], s.iv[y]
                if k == "s" or (a >= 0 and c >= 0):
                    poss = (LT if a < d else 0) | (GT if b > c else 0) | (EQ if a <= d and c <= b else 0)
                    if not poss & m: s.bad = True

class Eq(vmtab.Cmp):
    def __init__(s, names_a, names_b, nonneg=None, canon=None):
        super().__init__(names_a, names_b)
        s.looped = set(); s.loops = []
        s.nonneg_term = nonneg or (lambda e: False)
        s.canon = canon or (lambda e: e)
    # ------------------------------------------------------------------ structural equality
    def eq(s, a, b):
        if not isinstance(a, tuple) or not isinstance(b, tuple): return a == b
        if a == b and not has_var(a): return True
        if len(a) != len(b) or (a and isinstance(a[0], str) and a[0] != b[0]): return False
        if a and a[0] in ("var", "lv") and len(a) > 1:
            if a[0] == "lv": s.looped.add(a[1])
            return a[2:] == b[2:] and s.same_name(a[1], b[1])
        if a and a[0] == "addr": return s.same_name(a[1], b[1])
        if a and a[0] == "lvphi": return True
        if a and a[0] == "load" and len(a) == 4 and a[1] != b[1] and {a[1], b[1]} == {"ptr", "i64"}: return a[3] == b[3] and s.eq(a[2], b[2])
        if a and a[0] == "op" and a[1] in sym.COMM and a[1] == b[1]:
            return s.both(a[2:], b[2:]) or s.both(a[2:], b[:1:-1])
        if a and a[0] == "cmp" and a[1] in ("eq", "ne", "oeq", "une") and a[1] == b[1]:
            return s.both(a[2:], b[2:]) or s.both(a[2:], b[:1:-1])
        if a and a[0] == "sum": return s.sums(a, b)
        return s.both(a, b)
    def both(s, a, b):
        """all components equal; name bindings made on the way are undone on failure"""
        m, r = dict(s.map), dict(s.rev)
        if len(a) == len(b) and all(s.eq(x, y) for x, y in zip(a, b)): return True
        s.map, s.rev = m, r
        return False
    def sums(s, a, b):
        if a[1] != b[1] or len(a[2]) != len(b[2]): return False
        rest = list(b[2])
        for t, c in a[2]:
            for k, (u, d) in enumerate(rest):
                if c == d and s.both((t,), (u,)): del rest[k]; break
            else: return False
        return True
    # ------------------------------------------------------------------ terms and worlds
    def begin(s):
        s.terms = []          # (side, expr)
    def term(s, side, e):
        for k, (sd, x) in enumerate(s.terms):
            if sd == side:
                if x == e: return k
            elif sd == 0:
                if s.both((x,), (e,)): return k
            else:
                if s.both((e,), (x,)): return k
        s.terms.append((side, e))
        return len(s.terms) - 1
    def alts(s, side, c, tr):
        """condition -> list of alternatives, each a list of facts"""
        k = c[0]
        if k == "c": return [[]] if bool(c[1]) == tr else []
        if k == "not": return s.alts(side, c[1], not tr)
        if k == "op" and c[1] in ("and", "or") and boolean(c[2]) and boolean(c[3]):
            conj = (c[1] == "and") == tr
            a, b = s.alts(side, c[2], tr), s.alts(side, c[3], tr)
            if conj: return [x + y for x in a for y in b]
            na = s.alts(side, c[2], not tr)
            return a + [x + y for x in na for y in b]
        if k == "op" and c[1] == "xor" and boolean(c[2]) and boolean(c[3]):
            r = []
            for t in (True, False):
                for x in s.alts(side, c[2], t):
                    for y in s.alts(side, c[3], t != tr): r.append(x + y)
            return r
        if k == "sel":
            return [x + y for t, v in ((True, c[2]), (False, c[3])) for x in s.alts(side, c[1], t) for y in s.alts(side, v, tr)]
        if k == "cmp": return s.cmp(side, c[1], c[2], c[3], tr)
        if k == "cast" and c[1].split(":")[0] in ("zext", "sext", "trunc"): 
            if boolean(c[2]): return s.alts(side, c[2], tr)
        return s.cmp(side, "ne", c, ("c", 0), tr)
    def cmp(s, side, p, x, y, tr):
        for z, w, sw in ((x, y, False), (y, x, True)):
            if z[0] == "sel":
                r = []
                for t, v in ((True, z[2]), (False, z[3])):
                    for a in s.alts(side, z[1], t):
                        for b in (s.cmp(side, p, w, v, tr) if sw else s.cmp(side, p, v, w, tr)): r.append(a + b)
                return r
            zz = z
            while zz[0] == "cast" and zz[1].split(":")[0] in ("zext", "sext") and zz[2][0] in ("cast", "cmp", "not"): zz = zz[2]
            if zz[0] in ("cmp", "not") and p in ("eq", "ne") or (zz[0] in ("cmp", "not") and z[0] == "cast" and w[0] == "c"):
                one = -1 if z[0] == "cast" and z[1].startswith("sext") else 1
                if z is zz and w[0] != "c":      # comparison of two truth values
                    r = []
                    for t in (True, False):
                        for a in s.alts(side, zz, t):
                            for b in s.alts(side, w, t == (p == "eq") == tr if False else (t if (p == "eq") == tr else not t)): r.append(a + b)
                    return r
                r = []
                for t in (True, False):
                    v = ("c", one if t else 0)
                    for a in s.alts(side, zz, t):
                        for b in (s.cmp(side, p, w, v, tr) if sw else s.cmp(side, p, v, w, tr)): r.append(a + b)
                return r
        if p in FP and not (p in ("ult", "ule", "ugt", "uge") and not isfloat(x) and not isfloat(y)):
            m = FP[p]
            if not tr: m = 15 & ~m
            return [[("r", s.term(side, x), s.term(side, y), "f", m)]]
        kind = "u" if p[0] == "u" else "s"
        m = IP[p if p in ("eq", "ne") else p[1:]]
        if not tr: m = 7 & ~m
        # equal extensions on both sides do not matter
        if x[0] == "cast" and y[0] == "cast" and x[1] == y[1] and x[1].split(":")[0] in ("zext", "sext"):
            if x[1].startswith("zext") and kind == "s" and m not in (EQ, LT | GT): kind = "u"
            x, y = x[2], y[2]
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            if kind == "u": a, b = a & (2**64 - 1), b & (2**64 - 1)
            return [[]] if m & (LT if a < b else GT if a > b else EQ) else []
        if x[0] == "c": x, y, m = y, x, flip(m)
        if y[0] == "c":
            z, c = x, y[1]
            if z[0] == "cast" and z[1].startswith("sext"): z = z[2]
            elif z[0] == "cast" and z[1].startswith("zext"):
                if c >= 0: kind = "s"; return [a for a in s.const(side, z[2], c, m, "u", int(z[1].split(":")[1][1:]))]
                if kind == "s": return [[]] if m & GT else []
            return s.const(side, z, c, m, kind)
        # unsigned comparison against a length
        if kind == "u" and m not in (EQ, LT | GT):
            if s.nonneg_term(y): return s.uns(side, x, y, m)
            if s.nonneg_term(x): return s.uns(side, y, x, flip(m))
        return [[("r", s.term(side, x), s.term(side, y), kind, m)]]
    def uns(s, side, x, L, m):
        t, l = s.term(side, x), s.term(side, L)
        low = [("c", t, 0, BIG), ("r", t, l, "s", m & (LT | EQ | GT))]
        return [low, [("c", t, -BIG, -1)]] if m & GT else [low]
    def const(s, side, z, c, m, kind, bits=None):
        t = s.term(side, z)
        nn = [("c", t, 0, BIG)] if s.nonneg_term(z) else []
        if m == EQ: return [nn + [("c", t, c, c)]]
        if m == LT | GT: return [nn + [("n", t, c)]]
        lo, hi = {LT: (-BIG, c - 1), LT | EQ: (-BIG, c), GT: (c + 1, BIG), GT | EQ: (c, BIG)}.get(m, (-BIG, BIG))
        if m == 0: return []
        if kind == "s": return [nn + [("c", t, lo, hi)]]
        if c < 0: return [[("o", t, c, m)]]
        if m & LT: return [nn + [("c", t, 0, hi)]] if hi >= 0 else []
        return [nn + [("c", t, max(lo, 0), BIG)], [("c", t, -BIG, -1)]]
    def refine(s, worlds, side, c, tr):
        A = s.alts(side, s.res0(c), tr)
        out = []
        for d in worlds:
            for a in A:
                e = d.copy()
                for f in a:
                    if f[0] == "r": e.pair(f[1], f[2], f[3], f[4])
                    elif f[0] == "c": e.const(f[1], f[2], f[3])
                    elif f[0] == "n": e.nec(f[1], f[2])
                    if e.bad: break
                if not e.bad:
                    e.close()
                    if not e.bad: out.append(e)
        if len(out) > 256: raise Unknown("too many cases")
        return out
    def res0(s, c): return c
    # ------------------------------------------------------------------ values under facts
    def decide(s, worlds, side, c):
        t, f = s.refine(worlds, side, c, True), s.refine(worlds, side, c, False)
        if t and not f: return True
        if f and not t: return False
        return None
    def resolve(s, worlds, side, e):
        if not isinstance(e, tuple) or not e: return e
        if e[0] == "sel":
            d = s.decide(worlds, side, e[1])
            if d is not None: return s.resolve(worlds, side, e[2] if d else e[3])
        if e[0] == "cmp" or e[0] == "not":
            d = s.decide(worlds, side, e)
            if d is not None: return ("c", 1 if d else 0)
        if not has_cond(e): return e
        t = tuple(s.resolve(worlds, side, x) for x in e)
        if t[0] == "cast" and t[2][0] == "c" and boolean(e[2]):
            return ("c", -t[2][1] if t[1].startswith("sext") else t[2][1])
        if t[0] == "op" and len(t) == 4:
            r = sym.fold(t[1], t[2], t[3], 64)
            if r: return r
        return t
    def veq(s, worlds, a, b, depth=6):
        if s.both((a,), (b,)): return True
        la, lb = linear(a), linear(b)
        if (la[0] == "sum" or lb[0] == "sum") and s.both((la,), (lb,)): return True
        ra, rb = s.resolve(worlds, 0, a), s.resolve(worlds, 1, b)
        if (ra != a or rb != b) and s.both((linear(ra),), (linear(rb),)): return True
        if depth == 0: return False
        # terms the facts make equal to a constant
        for side, e in ((0, ra), (1, rb)):
            c = first_cond(e)
            if c is not None:
                for tr in (True, False):
                    w = s.refine(worlds, side, c, tr)
                    if w and not s.veq(w, ra, rb, depth - 1): return False
                return True
        ca, cb = s.constant(worlds, 0, ra), s.constant(worlds, 1, rb)
        if ca is not None and ca == cb: return True
        return False
    def constant(s, worlds, side, e):
        if e[0] == "c": return e[1]
        x = e
        t = None
        for k, (sd, y) in enumerate(s.terms):
            if (sd == side and y == x) or (sd != side and (s.both((y,), (x,)) if sd == 0 else s.both((x,), (y,)))): t = k; break
        if t is None: return None
        vs = {w.iv.get(t, (-BIG, BIG)) for w in worlds}
        if len(vs) == 1:
            l, h = vs.pop()
            if l == h: return l
        return None
    def seq(s, worlds, a, b):
        """effects, values: component-wise veq"""
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ("store", "call") and a[0] == b[0] and len(a) == len(b):
            if a[0] == "store": return (a[1] == b[1] or {a[1], b[1]} == {"ptr", "i64"}) and s.veq(worlds, a[2], b[2]) and s.veq(worlds, a[3], b[3])
            if isinstance(a[1], str) or isinstance(b[1], str):
                if a[1] != b[1]: return False
            elif not s.both((a[1],), (b[1],)): return False
            if len(a[2]) != len(b[2]): return False
            return all(s.veq(worlds, x, y) for x, y in zip(a[2], b[2])) and (len(a) < 4 or all(s.veq(worlds, x[1], y[1]) for x, y in zip(a[3], b[3])))
        return s.both((a,), (b,))
    # ------------------------------------------------------------------ trees
    def norm(s, e): return s.canon(normal(e, s.memo))
    def leaves(s, t):
        out = []
        for c, l in leaves(t):
            cc = tuple((s.norm(x), tr) for x, tr in c)
            out.append((cc, tuple(s.norm(e) for e in l[1]), {n: s.norm(x) for n, x in l[2]}, s.norm(l[3]) if isinstance(l[3], tuple) else l[3]))
        return out
    def worlds(s, ca, cb):
        s.begin()
        m, r = dict(s.map), dict(s.rev)
        w = [Dom()]
        for side, cs in ((0, ca), (1, cb)):
            for c, tr in cs:
                w = s.refine(w, side, c, tr)
                if not w: s.map, s.rev = m, r; return w       # names are not matched by paths that have nothing in common
        return w
    def trees(s, ta, tb, live, names=("interpreter", "specification"), accept=None):
        A, B = s.leaves(ta), s.leaves(tb)
        s.pairs = 0
        later = []
        for ca, ea, la, xa in A:
            if xa == "unreachable": continue
            hit = False
            for cb, eb, lb, xb in B:
                w = s.worlds(ca, cb)
                if not w: continue
                hit = True; s.pairs += 1
                if xb == "unreachable": continue
                if accept and accept(ca, cb): continue
                s.loops = []
                p = s.effects(w, ea, eb)
                for x, y in s.loops: later.append((ca, cb, dict(x[1]), dict(y[1]), "entry of the loop"))
                if xa == xb == "back": later.append((ca, cb, la, lb, "next round of the loop"))
                if p is not None: return "on the path %s: %s" % (conds(ca), p.replace("AAA", names[0]).replace("BBB", names[1]))
                if xa != xb and not s.same_exit(w, xa, xb): return "on the path %s: exits differ: %s / %s" % (conds(ca), ex(xa), ex(xb))
                for n in live:
                    m = s.map.get(n, n)
                    va, vb = la.get(n, ("var", n, 0)), lb.get(m, ("var", m, 0))
                    if not s.veq(w, va, vb): return "on the path %s: %s becomes %s in the %s, %s in the %s" % (conds(ca), n, sym.show(va), names[0], sym.show(vb), names[1])
            if not hit and s.worlds(ca, ()): return "on the path %s: no corresponding case" % conds(ca)
        for ca, cb, la, lb, what in later:
            w = s.worlds(ca, cb)
            for n, v in sorted(la.items()):
                m = s.map.get(n, n)
                if (n in s.map or n in s.nb) and m in lb and n in s.looped and not s.veq(w, v, lb[m]):
                    return "on the path %s: at the %s %s is %s in the %s, %s in the %s" % (conds(ca), what, n, sym.show(v), names[0], sym.show(lb[m]), names[1])
        return None
    def same_exit(s, w, xa, xb):
        if isinstance(xa, tuple) and isinstance(xb, tuple) and xa[0] == xb[0] == "ret" and xa[1] is not None and xb[1] is not None: return s.veq(w, xa[1], xb[1])
        return s.both((xa,), (xb,))
    def commute(s, a, b): return a[0] == "store" and b[0] == "store" and disjoint(a[2], b[2])
    def effects(s, w, ea, eb):
        rest = list(eb)
        la, lb = [e for e in ea if e[0] == "loop"], [e for e in eb if e[0] == "loop"]
        if len(la) == len(lb): s.loops += zip(la, lb)
        ea = [e for e in ea if e[0] != "loop"]; rest = [e for e in rest if e[0] != "loop"]
        for a in ea:
            ok = False
            for k, b in enumerate(rest):
                if s.seq(w, a, b):
                    del rest[k]; ok = True; break
                # only stores to distinct places may be passed over
                if not s.commute(a, b): break
            if not ok:
                return "AAA does %s, BBB does %s" % (sym.show(a), sym.show(rest[0]) if rest else "nothing")
        if rest: return "AAA does nothing more, BBB does %s" % sym.show(rest[0])
        return None

def ex(x): return sym.show(x) if isinstance(x, tuple) else x
def conds(c): return "[" + " and ".join(("" if tr else "not ") + sym.show(x) for x, tr in c) + "]" if c else "[always]"

disjoint = sym.disjoint

def boolean(e):
    return e[0] in ("cmp", "not") or (e[0] == "sel" and boolean(e[2]) and (boolean(e[3]) or e[3][0] == "c")) or (e[0] == "sel" and e[2][0] == "c" and boolean(e[3])) or (e[0] == "op" and e[1] in ("and", "or", "xor") and boolean(e[2]) and boolean(e[3])) or (e[0] == "cast" and ":i1:" in e[1])

def isfloat(e):
    if e[0] == "k": return True
    if e[0] == "load": return e[1] in ("float", "double")
    if e[0] == "cast": return e[1].endswith((":float", ":double"))
    if e[0] == "op": return e[1][0] == "f"
    if e[0] == "ret": return e[2] in ("float", "double")
    return False

_hc = {}
def has_cond(e):
    if not isinstance(e, tuple) or not e: return False
    r = _hc.get(e)
    if r is None:
        r = e[0] in ("cmp", "sel", "not") or any(has_cond(x) for x in e)
        _hc[e] = r
    return r
_hv = {}
def has_var(e):
    if not isinstance(e, tuple) or not e: return False
    r = _hv.get(e)
    if r is None:
        r = e[0] in ("var", "lv", "addr") or any(has_var(x) for x in e)
        _hv[e] = r
    return r
def first_cond(e):
    if not isinstance(e, tuple) or not e: return None
    if e[0] == "sel": return first_cond(e[1]) if e[1][0] == "sel" else e[1]
    if e[0] in ("cmp", "not"): return e
    if not has_cond(e): return None
    for x in e:
        c = first_cond(x)
        if c is not None: return c
    return None

def narrow(x):
    """truncation distributes over sums and undoes extensions"""
    if x[0] != "cast" or not x[1].startswith("trunc:"): return None
    y, t = x[2], x[1].split(":")[2]
    if y[0] == "cast" and y[1].split(":")[0] in ("sext", "zext") and y[1].split(":")[1] == t: return [y[2]]
    if y[0] == "op" and y[1] in ("add", "sub"):
        return [(z if z[0] == "c" else ("cast", x[1], z), m) for z, m in ((y[2], 1), (y[3], 1 if y[1] == "add" else -1))]
    return None

def linear(e):
    """integer sums as constant + multiset of terms (recursively)"""
    if not isinstance(e, tuple) or not e: return e
    if (e[0] == "op" and e[1] in ("add", "sub", "mul", "shl") and len(e) == 4) or (e[0] == "cast" and narrow(e)) or (e[0] == "cast" and e[1].startswith("sext:") and e[2][0] == "op" and e[2][1] in ("add", "sub") and "c" in (e[2][2][0], e[2][3][0])):
        d = {}; c = [0]
        def go(x, k):
            if x[0] == "c": c[0] += k * x[1]
            elif x[0] == "op" and x[1] == "add": go(x[2], k); go(x[3], k)
            elif x[0] == "op" and x[1] == "sub": go(x[2], k); go(x[3], -k)
            elif x[0] == "op" and x[1] == "mul" and x[2][0] == "c": go(x[3], k * x[2][1])
            elif x[0] == "op" and x[1] == "mul" and x[3][0] == "c": go(x[2], k * x[3][1])
            elif narrow(x): go(narrow(x)[0], k) if len(narrow(x)) == 1 else [go(y, k * m) for y, m in narrow(x)]
            elif x[0] == "cast" and x[1].startswith("sext:") and x[2][0] == "op" and x[2][1] in ("add", "sub") and len(x[2]) == 4 and "c" in (x[2][2][0], x[2][3][0]):      # no signed overflow
                for y, m in ((x[2][2], k), (x[2][3], k if x[2][1] == "add" else -k)): go(y if y[0] == "c" else ("cast", x[1], y), m)
            elif x[0] == "op" and x[1] == "shl" and x[3][0] == "c" and 0 <= x[3][1] < 31: go(x[2], k << x[3][1])
            else:
                y = tuple(linear(z) for z in x); d[y] = d.get(y, 0) + k
        go(e, 1)
        its = tuple((t, k) for t, k in d.items() if k)
        if not its: return ("c", c[0])
        if c[0] == 0 and len(its) == 1 and its[0][1] == 1: return its[0][0]
        return ("sum", c[0], its)
    return tuple(linear(x) for x in e)

def leaves(t, conds=()):
    if t[0] == "leaf": yield conds, t
    elif t[0] == "br":
        yield from leaves(t[2], conds + ((t[1], True),)); yield from leaves(t[3], conds + ((t[1], False),))
    else:
        ks = [k for k, _ in t[2] if k != "default"]
        for k, x in t[2]:
            if k == "default": yield from leaves(x, conds + tuple((("cmp", "eq", t[1], ("c", j)), False) for j in ks))
            else: yield from leaves(x, conds + ((("cmp", "eq", t[1], ("c", k)), True),))
