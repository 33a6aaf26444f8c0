"""The abstract interpreter over bytes.  A value is a function of one unknown byte of the analysed text, given as a table; what is known of an
unknown byte is the set of its possible values, narrowed by the branches taken.  Numbers converted from digits stay the sequence of the digits.
Every access to a text or to a block of memory made from a known size is checked against its bounds."""
import re
from functools import lru_cache
from . import absint
from .absint import C, P, St, BITS, Bad, GiveUp
from .sym import fold, PRED

ALL = (1 << 256) - 1
def mask(chars):
    m = 0
    for c in chars: m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m
ID8 = tuple(i if i < 128 else i - 256 for i in range(256))
def byte(sym): return ("b", sym, ID8)

def members(m):
    out = []
    while m:
        l = m & -m; out.append(l.bit_length() - 1); m ^= l
    return out
@lru_cache(None)
def tmap(op, tab, other, bits, left):
    o = ("c", other); out = []
    for x in tab:
        r = fold(op, o, ("c", x), bits) if left else fold(op, ("c", x), o, bits)
        if r is None: return None
        out.append(r[1])
    return tuple(out)
@lru_cache(None)
def tmap2(op, ta, tb, bits):
    out = []
    for x, y in zip(ta, tb):
        r = fold(op, ("c", x), ("c", y), bits)
        if r is None: return None
        out.append(r[1])
    return tuple(out)
@lru_cache(None)
def conv(tab, op, frm, to):
    out = []
    for x in tab:
        if op == "zext": x &= (1 << frm) - 1
        x &= (1 << to) - 1
        if to > 1 and x >> (to - 1): x -= 1 << to
        out.append(x)
    return tuple(out)
@lru_cache(None)
def holds(p, tab, n):
    """the bytes for which the comparison holds"""
    m = 0
    for i, x in enumerate(tab):
        if p[0] == "u" and (x < 0 or n < 0): x2, n2 = x & (2**64 - 1), n & (2**64 - 1)
        else: x2, n2 = x, n
        if PRED[p](x2, n2): m |= 1 << i
    return m
@lru_cache(None)
def among(tab, chars):
    """the bytes whose value, as an unsigned character, is among chars (a mask)"""
    m = 0
    for i, x in enumerate(tab):
        if chars >> (x & 255) & 1: m |= 1 << i
    return m

class Split(Exception):
    def __init__(s, sym, m): s.sym, s.m = sym, m

def dom(st, sym): return st.facts.get(("dom", sym), ALL)
class View:
    """questions about bytes in a state; one it cannot answer raises Split"""
    def __init__(s, st): s.st = st
    def among(s, v, chars):
        if isinstance(chars, str): chars = mask(chars)
        if v[0] == "c": return bool(chars >> (v[1] & 255) & 1)
        if v[0] != "b": raise GiveUp("not a byte: %s" % (v[:2],))
        m = among(v[2], chars); d = dom(s.st, v[1])
        if not d & m: return False
        if not d & ~m: return True
        raise Split(v[1], m)
def forked(st, fn):
    """fn(View) for the state, split where it has to be: [(result, state)]"""
    out, work = [], [st]
    while work:
        z = work.pop()
        try: out.append((fn(View(z)), z))
        except Split as e:
            d = dom(z, e.sym)
            y = z.copy(); y.facts[("dom", e.sym)] = d & ~e.m; z.facts[("dom", e.sym)] = d & e.m
            work += [y, z]
    return out

# the masks of glibc's table of character classes
def ctype():
    import string
    out = []
    for i in range(256):
        c = chr(i); v = 0
        if i < 128:
            up, lo, di = c in string.ascii_uppercase, c in string.ascii_lowercase, c in string.digits
            sp, pr = c in " \t\n\v\f\r", 32 <= i < 127
            bits = [up, lo, up or lo, di, c in string.hexdigits, sp, pr, pr and c != " ", c in " \t", i < 32 or i == 127, pr and c != " " and not (up or lo or di), up or lo or di]
            for k, b in enumerate(bits):
                if b: v |= (1 << k) << 8 if k < 8 else (1 << k) >> 8
        if v >> 15: v -= 1 << 16
        out.append(v)
    return tuple(out)
CTYPE = ctype()
DIGITS = {2: "01", 8: "01234567", 10: "0123456789", 16: "0123456789abcdefABCDEF"}

# sums of functions of different bytes: ("S", ((sym, table), ...))
@lru_cache(None)
def digit_table(base, weight):
    out = []
    for i in range(256):
        ch = chr(i); out.append(weight * int(ch, 36) if ch in DIGITS[base] else 0)
    return tuple(out)
def terms(v):
    """({sym: table}, constant) of a sum, or None"""
    if v[0] == "c": return {}, v[1]
    if v[0] == "b": return {v[1]: v[2]}, 0
    if v[0] == "S": return dict(v[1]), 0
    if v[0] == "n":
        d, k, w = {}, 0, v[3]
        for x in reversed(v[2]):
            if x[0] == "c": k += w * int(chr(x[1] & 255), 36)
            elif x[2] is not ID8 and x[2] != ID8: return None
            else:
                t = digit_table(v[1], w)
                d[x[1]] = t if x[1] not in d else tuple(p + q for p, q in zip(d[x[1]], t))
            w *= v[1]
        return d, k
    return None
def total(a, b, f=1):
    """a + f * b"""
    x, y = terms(a), terms(b)
    if x is None or y is None: return None
    d, k = dict(x[0]), x[1] + f * y[1]
    for sym, t in y[0].items():
        d[sym] = tuple(p + f * q for p, q in zip(d[sym], t)) if sym in d else tuple(f * q for q in t)
    return summed(d, k)
def summed(d, k):
    ks = sorted(d)
    if not ks: return C(k)
    if k: d = dict(d); d[ks[0]] = tuple(x + k for x in d[ks[0]])
    return ("b", ks[0], d[ks[0]]) if len(ks) == 1 else ("S", tuple((q, d[q]) for q in ks))
def span(st, v):
    d, k = terms(v); lo = hi = k
    for sym, t in d.items():
        xs = [t[q] for q in members(dom(st, sym))]
        lo += min(xs); hi += max(xs)
    return lo, hi
def same_sum(st, a, b):
    """whether two numbers are equal in every case; None if they are not of this kind"""
    m = 0
    if a[0] == "tr": m, a = a[1], a[2]
    if b[0] == "tr": m, b = min(m or 64, b[1]), b[2]
    z = total(a, b, -1) if terms(a) and terms(b) else None
    if z is None: return None
    d, k = terms(z); n = k
    for sym, t in d.items():
        xs = {t[q] for q in members(dom(st, sym))}
        if m: xs = {x % (1 << m) for x in xs}
        if len(xs) != 1: return False
        n += xs.pop()
    return n % (1 << m) == 0 if m else n == 0
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

class Interp(absint.Interp):
    """values besides those of absint:  ("b", sym, table);  ("n", base, digits, factor): a number written with digits, times 1 or -1;
    ("tr", bits, n): its low bits;  ("f", function, text, sign): a floating point number converted from a text;  ("off", object, k): an address as a number"""
    # questions
    def rng(s, st, v):
        if v[0] == "n":
            lo = hi = 0
            for d in v[2]:
                vals = [int(chr(x), 36) for x in ((d[1] & 255,) if d[0] == "c" else [ID8.index(y) if y < 0 else y for y in {d[2][q] for q in members(dom(st, d[1]))}]) if chr(x) in DIGITS[v[1]]]
                lo, hi = lo * v[1] + min(vals), hi * v[1] + max(vals)
            return (lo, hi) if v[3] > 0 else (-hi, -lo)
        if v[0] == "b":
            xs = [v[2][q] for q in members(dom(st, v[1]))]
            return min(xs), max(xs)
        if v[0] == "S": return span(st, v)
        return absint.Interp.rng(s, st, v)
    def nominal(s, v):
        m = v[1] ** len(v[2]) - 1
        return (0, m) if v[3] > 0 else (-m, 0)
    def cmp(s, st, p, a, b):
        if a[0] == b[0] == "c" and p[0] == "u": return PRED["s" + p[1:]](a[1] & (2**64 - 1), b[1] & (2**64 - 1))
        if a[0] == "cmp" and b[0] == "c" and p in ("eq", "ne"): return None
        if "S" in (a[0], b[0]):
            z = total(a, b, -1)
            if z is None: raise GiveUp("a sum of unknown bytes is compared")
            if p[0] == "u":
                if s.rng(st, a)[0] < 0 or s.rng(st, b)[0] < 0: raise GiveUp("a negative number compared as unsigned")
                p = "s" + p[1:]
            lo, hi = span(st, z)
            r = {"eq": (lo == hi == 0, lo > 0 or hi < 0), "ne": (lo > 0 or hi < 0, lo == hi == 0), "slt": (hi < 0, lo >= 0), "sle": (hi <= 0, lo > 0), "sgt": (lo > 0, hi <= 0), "sge": (lo >= 0, hi < 0)}[p]
            return True if r[0] else False if r[1] else None
        if a[0] == "c" and b[0] == "b": a, b, p = b, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        if a[0] == "b" and b[0] == "c":
            m = holds(p, a[2], b[1]); d = dom(st, a[1])
            return False if not d & m else True if not d & ~m else None
        if a[0] == b[0] == "b":
            if a[1] == b[1]:
                rs = {PRED[p](a[2][q], b[2][q]) for q in members(dom(st, a[1]))}
                return rs.pop() if len(rs) == 1 else None
            (la, ha), (lb, hb) = s.rng(st, a), s.rng(st, b)
            if p in ("eq", "ne") and (ha < lb or hb < la): return p == "ne"
            if la == ha == lb == hb and p in ("eq", "ne"): return p == "eq"
            raise GiveUp("two unknown bytes are compared")
        if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
            ka, kb = s.at(a), s.at(b)
            if ka is not None and kb is not None: return PRED[p](ka, kb)
        if "n" in (a[0], b[0]) and a[0] in ("n", "c") and b[0] in ("n", "c"):
            if a[0] == "c": a, b, p = b, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            if b[0] == "c":
                lo, hi = s.rng(st, a)
                n = b[1]
                if p[0] == "u":
                    if lo < 0: raise GiveUp("a negative number compared as unsigned")
                    n &= 2**64 - 1; p = "s" + p[1:]
                t = {"eq": (lo == hi == n, not lo <= n <= hi), "ne": (not lo <= n <= hi, lo == hi == n), "slt": (hi < n, lo >= n), "sle": (hi <= n, lo > n), "sgt": (lo > n, hi <= n), "sge": (lo >= n, hi < n)}[p]
                if t[0]: return True
                if t[1]: return False
            raise GiveUp("a number of unknown digits is compared with %s" % (b,))
        return absint.Interp.cmp(s, st, p, a, b)
    def learn(s, st, p, a, b, t):
        if "S" in (a[0], b[0]):
            # each byte keeps the values some choice of the others goes with; it has to be decided then
            q = "s" + p[1:] if p[0] == "u" else p
            if not t: q = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[q]
            d, k = terms(total(a, b, -1))
            for sym, tab in d.items():
                lo = hi = k
                for other, u in d.items():
                    if other == sym: continue
                    xs = [u[x] for x in members(dom(st, other))]; lo += min(xs); hi += max(xs)
                m = 0
                for x in members(dom(st, sym)):
                    l, h = lo + tab[x], hi + tab[x]
                    if {"eq": l <= 0 <= h, "ne": not l == h == 0, "slt": l < 0, "sle": l <= 0, "sgt": h > 0, "sge": h >= 0}[q]: m |= 1 << x
                st.facts[("dom", sym)] = m
                if not m: return False
            if s.cmp(st, p, a, b) is None: raise GiveUp("a sum of unknown bytes is compared")
            return True
        if a[0] == "c" and b[0] == "b": a, b, p = b, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        if a[0] == "b" and b[0] == "c":
            m = holds(p, a[2], b[1])
            d = dom(st, a[1]) & (m if t else ~m)
            st.facts[("dom", a[1])] = d
            return d != 0
        if a[0] == b[0] == "b" and a[1] == b[1]:
            d = 0
            for q in members(dom(st, a[1])):
                if PRED[p](a[2][q], b[2][q]) == t: d |= 1 << q
            st.facts[("dom", a[1])] = d
            return d != 0
        return absint.Interp.learn(s, st, p, a, b, t)
    # memory
    def at(s, p):
        """offset of a pointer into a block of bytes"""
        if not p[2]: return 0
        if len(p[2]) == 1 and p[2][0][0] == "[]" and p[2][0][1][0] == "c": return p[2][0][1][1]
        return None
    def size(s, st, o): return st.facts.get(("size", o))
    def bounds(s, st, a, n, what):
        z = s.size(st, a[1])
        if st.facts.get(("freed", a[1])): raise Bad("%s a freed block of memory" % what)
        if z is None: return
        k = s.at(a)
        if k is None:
            if a[2] and a[2][0][0] == "[]" or not a[2]: raise GiveUp("offset not known")
            return
        if k < 0 or k + n > z: raise Bad("%s %s" % (what, "past the end of the source" if a[1] == ("obj", "src") and k >= z else "before the source" if a[1] == ("obj", "src") else "outside a block of %d bytes" % z))
    def load(s, st, ty, a):
        if a[0] == "p":
            if a[1] == ("obj", "ctype"):
                x = a[2][0][1] if a[2] else C(0)
                if x[0] == "c": return C(CTYPE[x[1] & 255] if -128 <= x[1] < 256 else 0)
                if x[0] == "b":
                    return ("b", x[1], tuple(CTYPE[y & 255] if 0 <= y < 128 else 0 for y in x[2]))
                raise GiveUp("character class of %s" % (x,))
            if ty == "i8" and s.size(st, a[1]) is not None and (not a[2] or a[2][0][0] == "[]"):
                s.bounds(st, a, 1, "reads")
            v = st.mem.get((a[1], a[2]))
            if v is not None and v[0] == "b":
                d = dom(st, v[1])
                if d & (d - 1) == 0: return C(v[2][d.bit_length() - 1])
                xs = None
            if v is None and a[1] in st.zero and ty == "ptr": return C(0)
        return absint.Interp.load(s, st, ty, a)
    def store(s, st, a, v):
        if a[0] == "p":
            if s.size(st, a[1]) is not None: s.bounds(st, a, 1, "writes")
            if isinstance(v, tuple) and v[0] == "str" and False: pass
        absint.Interp.store(s, st, a, v)
    def gep(s, st, i, base, idx):
        if base[0] == "p" and base[1] == ("obj", "ctype") and len(idx) == 1: return P(base[1], ("[]", idx[0]))
        idx = [C(s.rng(st, x)[0]) if x[0] == "b" and s.rng(st, x)[0] == s.rng(st, x)[1] else x for x in idx]
        # an element's address, and the array's own
        r = absint.Interp.gep(s, st, i, base, idx)
        if r[0] == "p":
            q = tuple(x for x in r[2] if x != ("[]", C(0)))
            if q != r[2]: r = ("p", r[1], q)
        return r
    def octet(s, st, p, k):
        """the byte k of a text"""
        if p[0] == "str":
            return C(ord(p[1][k])) if k < len(p[1]) else C(0)
        if p[0] != "p": raise GiveUp("text of %s" % (p[:2],))
        o = s.at(p)
        if o is None: raise GiveUp("text at %s" % (p,))
        a = ("p", p[1], (("[]", C(o + k)),) if o + k else ())
        if s.size(st, p[1]) is None: raise GiveUp("text of an object of unknown size %s" % (p,))
        return s.load(st, "i8", a)
    def text(s, st, p, n): return tuple(s.octet(st, p, k) for k in range(n))
    # instructions
    def inst(s, i, fr, st):
        op = i.op; v = fr["v"]
        if op == "alloca":
            m = re.fullmatch(r"\[(\d+) x i8\]", i.x.split("|")[0])
            absint.Interp.inst(s, i, fr, st)
            if m: st.facts[("size", s.val(i.ref, fr, st)[1])] = int(m.group(1))
            return
        if op in ("sext", "zext", "trunc"):
            a = s.val(i.ops[0], fr, st)
            if a[0] == "b": v[i.ref] = ("b", a[1], conv(a[2], op, BITS.get(i.x, 64), BITS[i.ty])); return
            if a[0] == "n":
                if op == "trunc":
                    m = BITS[i.ty]; lo, hi = s.nominal(a)
                    if not (-(1 << (m - 1)) <= lo and hi < (1 << (m - 1))): v[i.ref] = ("tr", m, a); return
                v[i.ref] = a; return
            if a[0] == "S":
                lo, hi = s.rng(st, a); m = BITS[i.ty]
                v[i.ref] = ("tr", m, a) if op == "trunc" and not (-(1 << (m - 1)) <= lo and hi < (1 << (m - 1))) else a; return
            if a[0] in ("tr", "f"): v[i.ref] = a; return
            if a[0] == "cmp" and i.x == "i1": v[i.ref] = a; return
        if op == "ptrtoint":
            v[i.ref] = s.val(i.ops[0], fr, st); return
        if op == "fneg":
            a = s.val(i.ops[0], fr, st)
            if a[0] == "f": v[i.ref] = ("f", a[1], a[2], -a[3]); return
        if op == "select":
            c = s.val(i.ops[0], fr, st); a, b = s.val(i.ops[1], fr, st), s.val(i.ops[2], fr, st)
            if c[0] == "c": v[i.ref] = a if c[1] else b; return
            neg = False
            while c[0] == "not": neg, c = not neg, c[1]
            if neg: a, b = b, a
            if c[0] == "cmp":
                p, x, y = c[1:]
                t = s.cmp(st, p, x, y)
                if t is not None: v[i.ref] = a if t else b; return
                if x[0] == "c" and y[0] == "b": x, y, p = y, x, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
                if x[0] == "b" and y[0] == "c" and a[0] in ("c", "b") and b[0] in ("c", "b") and all(z[0] == "c" or z[1] == x[1] for z in (a, b)):
                    m = holds(p, x[2], y[1])
                    v[i.ref] = ("b", x[1], tuple((a[1] if a[0] == "c" else a[2][q]) if m >> q & 1 else (b[1] if b[0] == "c" else b[2][q]) for q in range(256))); return
            raise GiveUp("undecided choice")
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = s.val(i.ops[0], fr, st), s.val(i.ops[1], fr, st); bits = BITS.get(i.ty, 64)
            if op == "sub" and a[0] == b[0] == "p" and a[1] == b[1] and s.at(a) is not None and s.at(b) is not None: v[i.ref] = C(s.at(a) - s.at(b)); return
            t = None
            if a[0] == "b" and b[0] == "c": t = tmap(op, a[2], b[1], bits, False)
            elif a[0] == "c" and b[0] == "b": t = tmap(op, b[2], a[1], bits, True); a = b
            elif a[0] == b[0] == "b" and a[1] == b[1]: t = tmap2(op, a[2], b[2], bits)
            if t is not None: v[i.ref] = ("b", a[1], t); return
            z = s.summing(st, op, a, b)
            if z is not None and z[0] in ("S", "b"):
                lo, hi = s.rng(st, z)
                if -(1 << (bits - 1)) <= lo and hi < (1 << (bits - 1)): v[i.ref] = z; return
            if op == "sub" and a == C(0) and b[0] == "n": v[i.ref] = ("n", b[1], b[2], -b[3]); return
            if op == "sub" and a == C(0) and b[0] == "tr": v[i.ref] = ("tr", b[1], ("n", b[2][1], b[2][2], -b[2][3])); return
            if a[0] == "cmp" or b[0] == "cmp":
                if op in ("and", "or") and a[0] == b[0] == "cmp": raise GiveUp("two conditions at once")
            if op == "lshr" and a[0] == "n" and b[0] == "c" and a[3] > 0 and s.nominal(a)[1] >> b[1] == 0: v[i.ref] = C(0); return
            if op == "or":
                # halves put together again
                for x, y in ((a, b), (b, a)):
                    if x[0] == "u2" and x[1] == "shl" and x[3] == C(32) and x[2][0] == "u2" and x[2][1] == "lshr" and x[2][3] == C(32) and x[2][2] in (y, y[2] if y[0] == "tr" and y[1] == 32 else y):
                        v[i.ref] = x[2][2]; return
                if a == C(0) or b == C(0): v[i.ref] = b if a == C(0) else a; return
            if op == "xor" and i.ty == "i1" and a[0] == "b" and b in (C(1), C(-1)): pass
        return absint.Interp.inst(s, i, fr, st)
    def summing(s, st, op, a, b):
        """the sum of bytes an operation gives"""
        if not (a[0] in ("b", "S") and b[0] in ("b", "S", "c") or b[0] in ("b", "S") and a[0] == "c"): return None
        if op in ("add", "sub"): return total(a, b, 1 if op == "add" else -1)
        if op == "mul" and a[0] == "c": a, b = b, a
        if op in ("mul", "shl") and b[0] == "c":
            f = b[1] if op == "mul" else 1 << b[1]
            return summed({q: tuple(f * x for x in t) for q, t in terms(a)[0].items()}, 0)
        if op == "or":
            def bits(v):
                d, k = terms(v); out = [k] if k else []
                for q, t in d.items():
                    m = 0
                    for x in members(dom(st, q)):
                        if t[x] < 0: return None
                        m |= t[x]
                    out.append(m)
                return out
            x, y = bits(a), bits(b)
            if x is None or y is None: return None
            seen = 0
            for m in x + y:
                if seen & m: return None
                seen |= m
            return total(a, b)
        return None
    def docall(s, i, fr, st):
        n = i.callee
        if n and n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            d = s.val(i.ops[1], fr, st); k = s.val(i.ops[3], fr, st)
            if d[0] == "p" and s.size(st, d[1]) is not None and s.at(d) is not None:
                if k[0] != "c": raise GiveUp("length of a copy")
                e = s.val(i.ops[2], fr, st)
                if k[1] < 0: raise Bad("copies a negative length")
                if k[1]: s.bounds(st, d, k[1], "writes")
                if n.startswith("llvm.memset"):
                    if not d[2] and e == C(0) and k[1] == s.size(st, d[1]): return absint.Interp.docall(s, i, fr, st)
                    xs = (e,) * k[1]
                elif s.size(st, e[1]) is None and e[0] == "p": return absint.Interp.docall(s, i, fr, st)
                else: xs = s.text(st, e, k[1])
                o = s.at(d)
                for j, x in enumerate(xs): st.mem[(d[1], (("[]", C(o + j)),) if o + j else ())] = x
                return None
        return absint.Interp.docall(s, i, fr, st)

# library functions -------------------------------------------------------------
def library(it, n, a, st):
    """[(value, state)] for a function of the C library, or None"""
    if n.startswith("__isoc23_"): n = n[9:]
    if n == "strlen":
        if a[0][0] == "str": return [(C(len(a[0][1])), st)]
        def f(w):
            k = 0
            while not w.among(it.octet(w.st, a[0], k), mask([0])): k += 1
            return C(k)
        return forked(st, f)
    if n in ("strcmp", "strncmp"):
        if n == "strncmp" and a[2][0] != "c": raise GiveUp("length of a comparison")
        def f(w):
            k = 0
            while n == "strcmp" or k < a[2][1]:
                x, y = it.octet(w.st, a[0], k), it.octet(w.st, a[1], k)
                if x[0] == "c" and y[0] == "c":
                    if (x[1] & 255) != (y[1] & 255): return C(1 if (x[1] & 255) > (y[1] & 255) else -1)
                    if x[1] == 0: return C(0)
                elif y[0] == "c":
                    if not w.among(x, mask([y[1] & 255])): return C(1)
                    if y[1] == 0: return C(0)
                elif x[0] == "c":
                    if not w.among(y, mask([x[1] & 255])): return C(1)
                    if x[1] == 0: return C(0)
                else:
                    t = it.cmp(w.st, "eq", x, y)
                    if not t: return C(1)
                k += 1
            return C(0)
        return forked(st, f)
    if n == "strstr":
        if a[1][0] != "str": raise GiveUp("strstr for %s" % (a[1],))
        def f(w):
            j = 0
            while True:
                ok = True
                for q, ch in enumerate(a[1][1]):
                    x = it.octet(w.st, a[0], j + q)
                    if not w.among(x, ch):
                        ok = False; break
                if ok: return it.gep(w.st, FAKE, a[0], [C(j)]) if a[0][0] == "p" else C(1)
                if w.among(it.octet(w.st, a[0], j), mask([0])): return C(0)
                j += 1
        return forked(st, f)
    if n == "__ctype_b_loc": return [(P(("obj", "ctype ptr")), st)]
    if n == "__errno_location": return [(P(("obj", "errno")), st)]
    if n in ("strtoull", "strtoll", "strtol", "strtoul"):
        p, end, base = a[0], a[1], a[2][1]
        signed = n in ("strtoll", "strtol")
        def f(w):
            k = 0; neg = 1
            while w.among(it.octet(w.st, p, k), " \t\n\v\f\r"): k += 1
            x = it.octet(w.st, p, k)
            if w.among(x, "-"): neg = -1; k += 1
            elif w.among(x, "+"): k += 1
            if base == 16 and w.among(it.octet(w.st, p, k), "0") and w.among(it.octet(w.st, p, k + 1), "xX") and w.among(it.octet(w.st, p, k + 2), DIGITS[16]): k += 2
            ds = []
            while w.among(it.octet(w.st, p, k + len(ds)), DIGITS[base]): ds.append(it.octet(w.st, p, k + len(ds)))
            e = k + len(ds) if ds else 0
            if base == 8 and len(ds) == 3: w.among(ds[0], "0123")
            return ds, neg, e
        out = []
        for (ds, neg, e), z in forked(st, f):
            v = number(base, ds, neg)
            if v[0] == "c":
                lo, hi = (-2**63, 2**63 - 1) if signed else (0, 2**64 - 1)
                x = abs(v[1])
                if x > (2**63 if signed and neg < 0 else 2**63 - 1 if signed else 2**64 - 1):
                    z.mem[(("obj", "errno"), ())] = C(34); x = (2**63 if neg < 0 else 2**63 - 1) if signed else 2**64 - 1
                    if not signed: neg = 1
                x = x * neg & (2**64 - 1)
                v = C(x - 2**64 if x >> 63 else x)
            if end[0] == "p": z.mem[(end[1], end[2])] = it.gep(z, FAKE, p, [C(e)])
            out.append((v, z))
        return out
    if n in ("strtof", "strtod"):
        p, end = a[0], a[1]
        def f(w):
            t = []
            while not w.among(it.octet(w.st, p, len(t)), mask([0])): t.append(it.octet(w.st, p, len(t)))
            return t, floating(w, t)
        out = []
        for (t, e), z in forked(st, f):
            if end[0] == "p": z.mem[(end[1], end[2])] = it.gep(z, FAKE, p, [C(e)])
            out.append((("f", n, tuple(t[:e]), 1), z))
        return out
    return None
class FAKE: x = "i8"
def number(base, ds, factor):
    """the value of digits"""
    if all(d[0] == "c" for d in ds):
        return ("c", factor * (int("".join(chr(d[1] & 255) for d in ds), base) if ds else 0))
    return ("n", base, tuple(ds), factor)
def floating(w, t):
    """length of the longest beginning of a text strtod converts (no spaces, no sign, no inf or nan)"""
    if t and w.among(t[0], " \t\n\v\f\r+-iInN"): raise GiveUp("strtod on unusual text")
    hexa = len(t) > 2 and w.among(t[0], "0") and w.among(t[1], "xX")
    if hexa:
        k = 2; nd = 0; D = DIGITS[16]; E = "pP"
    else: k = 0; nd = 0; D = DIGITS[10]; E = "eE"
    while k < len(t) and w.among(t[k], D): k += 1; nd += 1
    if k < len(t) and w.among(t[k], "."):
        q = k + 1
        while q < len(t) and w.among(t[q], D): q += 1; nd += 1
        if nd: k = q
    if not nd: return 1 if hexa else 0
    if k < len(t) and w.among(t[k], E):
        q = k + 1
        if q < len(t) and w.among(t[q], "+-"): q += 1
        r = q
        while r < len(t) and w.among(t[r], DIGITS[10]): r += 1
        if r > q: k = r
    return k
