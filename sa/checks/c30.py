"""C30: the tokenizer makes of every source text the tokens the language documents, with their names, values and lines."""
import multiprocessing, os
from .. import absint, build, fspec, grammar, octets
from ..absint import C, P, St, Budget, GiveUp
from ..octets import mask, View, Split, dom, ALL, byte, DIGITS, number
from ..build import AnalysisBroken
from .c28 import numbers

LEVEL = "exploration"
SRC = ("toke", "op", "constant", "type", "attribute", "string", "utf8", "var", "var_decl", "use", "compiler")
FILE = "lib/SPVM/Builder/src/spvm_toke.c"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALNUM = ALPHA + "0123456789"
WORD = ALNUM + "_"
SPACE = " \t\n\r\f"
RAW = "!#%&()*+,-./:;<=>?@ABDGHKNPRSVWXZ[]^_`bdghkpsvwz{|}~"
PRINT = "".join(map(chr, range(32, 127)))

# tokens of the documented keywords: token [, operation [, attribute]]
KW = {"alias": "ALIAS", "allow": "ALLOW", "as": "AS", "basic_type_id": "BASIC_TYPE_ID", "break": "BREAK", "byte": "BYTE", "can": "CAN", "case": "CASE", "cmp": ("STRING_CMP", "STRING_COMPARISON_CMP"), "class": "CLASS",
      "compile_type_name": "COMPILE_TYPE_NAME", "copy": "COPY", "default": "DEFAULT", "die": "DIE", "div_uint": "DIVIDE_UNSIGNED_INT", "div_ulong": "DIVIDE_UNSIGNED_LONG", "double": "DOUBLE", "dump": "DUMP", "elsif": "ELSIF", "else": "ELSE",
      "enum": "ENUM", "eq": ("STREQ", "STRING_COMPARISON_EQ"), "eval": "EVAL", "eval_error_id": "EVAL_ERROR_ID", "extends": "EXTENDS", "for": "FOR", "float": "FLOAT", "false": "FALSE", "gt": ("STRGT", "STRING_COMPARISON_GT"), "ge": ("STRGE", "STRING_COMPARISON_GE"),
      "has": ("HAS", "FIELD"), "if": "IF", "interface": "INTERFACE", "int": "INT", "isa": "ISA", "isa_error": "ISA_ERROR", "isweak": "ISWEAK", "is_compile_type": "IS_COMPILE_TYPE", "is_type": "IS_TYPE", "is_error": "IS_ERROR", "is_read_only": "IS_READ_ONLY",
      "args_width": "ARGS_WIDTH", "last": "LAST", "length": "STRING_LENGTH", "lt": ("STRLT", "STRING_COMPARISON_LT"), "le": ("STRLE", "STRING_COMPARISON_LE"), "long": "LONG", "make_read_only": "MAKE_READ_ONLY", "my": ("MY", "VAR_DECL"), "method": "METHOD",
      "mod_uint": "MODULO_UNSIGNED_INT", "mod_ulong": "MODULO_UNSIGNED_LONG", "mutable": ("MUTABLE", None), "ne": ("STRNE", "STRING_COMPARISON_NE"), "next": "NEXT", "new": "NEW", "new_string_len": "NEW_STRING_LEN", "of": "OF", "our": ("OUR", "CLASS_VAR"),
      "object": "OBJECT", "print": "PRINT", "return": "RETURN", "require": "REQUIRE", "say": "SAY", "switch": "SWITCH", "string": "STRING", "short": "SHORT", "scalar": "SCALAR", "true": "TRUE", "type_name": "TYPE_NAME", "undef": "UNDEF", "unless": "UNLESS",
      "unweaken": ("UNWEAKEN", None), "use": "USE", "version": ("VERSION_DECL", "VERSION_DECL"), "void": "VOID", "warn": "WARN", "while": "WHILE", "weaken": "WEAKEN", "INIT": "INIT", "__PACKAGE__": ("OUTMOST_CLASS_NAME", "OUTMOST_CLASS_NAME")}
ATTR = "interface_t mulnum_t native private protected public precompile pointer required rw ro static wo".split()
# operators: token, operation, flag
def assigns(**k): return {o: ("SPECIAL_ASSIGN", "SPECIAL_ASSIGN", f) for f, o in k.items()}
OPS = {"!": ("LOGICAL_NOT",) * 2, "!=": ("NUMNE", "NUMERIC_COMPARISON_NE"), "%": ("MODULO",) * 2, "&": ("BIT_AND",) * 2, "&&": ("LOGICAL_AND",) * 2, "=": ("ASSIGN",) * 2, "==": ("NUMEQ", "NUMERIC_COMPARISON_EQ"), "^": ("BIT_XOR",) * 2,
       "|": ("BIT_OR",) * 2, "||": ("LOGICAL_OR",) * 2, "-": ("-", None), "--": ("DEC", None), "~": ("BIT_NOT",) * 2, "+": ("+", None), "++": ("INC", None), "*": ("*", None), "<": ("NUMLT", "NUMERIC_COMPARISON_LT"), "<=": ("NUMLE", "NUMERIC_COMPARISON_LE"),
       ">": ("NUMGT", "NUMERIC_COMPARISON_GT"), ">=": ("NUMGE", "NUMERIC_COMPARISON_GE"), "<=>": ("NUMERIC_CMP", "NUMERIC_COMPARISON_CMP"), "<<": ("SHIFT", "LEFT_SHIFT"), ">>": ("SHIFT", "RIGHT_ARITHMETIC_SHIFT"), ">>>": ("SHIFT", "RIGHT_LOGICAL_SHIFT"),
       ".": (".", "STRING_CONCAT"), "/": ("DIVIDE",) * 2, "\\": ("REFERENCE",) * 2, "->": ("ARROW", None), "=>": (",", None)}
OPS.update({c: (c, None) for c in "(){}[];:,@"})
OPS.update({"+=": "ADD", "-=": "SUBTRACT", "*=": "MULTIPLY", "/=": "DIVIDE", "%=": "MODULO", "&=": "BIT_AND", "|=": "BIT_OR", "^=": "BIT_XOR", "<<=": "LEFT_SHIFT", ">>=": "RIGHT_ARITHMETIC_SHIFT", ">>>=": "RIGHT_LOGICAL_SHIFT", ".=": "STRING_CONCAT"})
OPCHARS = sorted({o[0] for o in OPS})

class Grey(Exception):
    """the documents leave open what this text is"""
class Wrong(Exception):
    """a compilation error"""

class Model:
    """the tokens of a text, after Document::Language::Tokenization"""
    def __init__(s, src, view):
        s.s, s.w = src, view
        s.pos = 0; s.line = 1; s.linebegin = 0
        s.arrow = s.method = s.field = s.heredoc = False
        s.pending = []              # what is left to be given before reading on
        s.upto = None; s.lastfile = None; s.shebang_end = None; s.begin = 0; s.fuzzy = False
    def at(s, k=0):
        """the byte k further, or NUL at the end"""
        p = s.pos + k
        return s.s[p] if p < len(s.s) else C(0)
    def end(s, k=0): return s.pos + k >= len(s.s)
    def is_(s, chars, k=0): return not s.end(k) and s.w.among(s.at(k), chars)
    def lit(s, t, k=0): return all(s.is_(ch, k + j) for j, ch in enumerate(t))
    def newline(s):
        s.line += 1; s.linebegin = s.pos; s.fuzzy = False
        if s.line >= 2**31: raise Grey        # no file has such a line
    def token(s):
        """(token, what it carries, line); None at the end"""
        arrow, method, field = s.arrow, s.method, s.field
        s.arrow = s.method = s.field = False
        if s.pending:
            p = s.pending.pop(0)
            if p == "upto": return s.expansion()
            return p() if callable(p) else p
        if s.heredoc:
            s.heredoc = False
            if s.end(): return None
            return (";", ("op", None), s.line)
        while True:
            if s.upto is not None and s.pos >= s.upto:
                if s.pos > s.upto: raise Grey
                s.upto = None
                if s.end(): return None
                s.pending.append(lambda: s.string_part())
                return (".", ("op", "STRING_CONCAT"), s.line)
            if s.end(): return None
            if s.is_(" \t\f"): s.pos += 1; continue
            if s.is_("\n"): s.pos += 1; s.newline(); continue
            if s.is_("#"): s.sharp(); continue
            if s.is_("="):
                if (s.pos == 0 or s.w.among(s.s[s.pos - 1], "\n")) and s.is_(ALPHA, 1): s.pod(); continue
            break
        s.begin = s.pos
        if s.is_("'"): return s.character()
        if s.is_('"'): s.pos += 1; return s.string_part()
        if s.is_("$"): return s.dollar()
        if s.is_("q") and s.is_("'", 1): return s.single()
        if s.is_("-") and s.is_(DIGITS[10], 1): s.pos += 1; return s.numeric(-1)
        if s.is_(DIGITS[10]): return s.numeric(1)
        if s.lit("<<'"): return s.here()
        for o in sorted(OPS, key=len, reverse=True):
            if s.lit(o):
                if o == "&" and s.is_(ALPHA + "_", 1):
                    s.pos += 1; s.method = True
                    return ("OUTMOST_CLASS", ("op", "OUTMOST_CLASS"), s.line)
                s.pos += len(o)
                if o == "->": s.arrow = s.method = True
                if o == "{" and arrow: s.field = True
                v = OPS[o]
                if isinstance(v, str): return ("SPECIAL_ASSIGN", ("assign", v), s.line)
                return (v[0], ("op", v[1]), s.line)
        if s.is_(ALPHA + "_"): return s.symbol(method or field)
        raise Wrong
    # comments, directives
    def rest_of_line(s):
        while not s.end() and not s.is_("\n"): s.pos += 1
        if not s.end(): s.pos += 1; s.newline()
    def spaces(s):
        while s.is_(" "): s.pos += 1
    def sharp(s):
        first = s.pos == 0; bol = s.pos == s.linebegin
        if s.fuzzy and (s.lit("line ", 1) or s.lit("file ", 1) or s.lit("lib ", 1)): raise Grey
        if s.lit("line ", 1):
            if not bol: raise Wrong
            s.pos += 5; s.spaces(); ds = []
            while s.is_(DIGITS[10]): ds.append(s.at()); s.pos += 1
            if not ds: raise Wrong
            s.spaces()
            if not s.is_("\n"): raise Wrong
            v = number(10, ds, 1)
            if v[0] != "c": raise GiveUp("line number of unknown digits")
            if not 1 <= v[1] < 2**31: raise Wrong
            s.pos += 1; s.line = v[1]; s.linebegin = s.pos; return
        if s.lit("file ", 1) or s.lit("lib ", 1):
            isf = s.lit("file ", 1)
            if isf and not (first or s.pos == s.shebang_end): raise Wrong
            if not isf and not bol: raise Wrong
            s.pos += 5 if isf else 4; s.spaces()
            if not s.is_('"'): raise Wrong
            s.pos += 1; b = s.pos
            while not s.is_('"'):
                if s.end() or s.is_("\n"): raise Wrong
                s.pos += 1
            name = s.s[b:s.pos]; s.pos += 1; s.spaces()
            if not s.is_("\n") or not name: raise Wrong
            s.pos += 1
            if isf: s.lastfile = tuple(name); s.linebegin = s.pos      # the line of a file directive is not one of the file's
            else: s.newline()
            return
        sheb = first and s.is_("!", 1)
        s.rest_of_line()
        if sheb: s.shebang_end = s.pos
    def pod(s):
        s.rest_of_line()
        while not s.end():
            if s.lit("=cut") and (s.end(4) or s.is_(SPACE, 4)): s.rest_of_line(); return
            s.rest_of_line()
    # literals
    def const(s, t, v): return ("CONSTANT", (t, v), s.line)
    def octal(s):
        if s.is_("o"):
            if not s.is_("{", 1): raise Wrong
            s.pos += 2; brace = True
        else: brace = False
        ds = []
        while len(ds) < 3 and s.is_(DIGITS[8]): ds.append(s.at()); s.pos += 1
        if not ds or len(ds) == 3 and not s.w.among(ds[0], "0123"): raise Wrong
        if brace:
            if not s.is_("}"): raise Wrong
            s.pos += 1
        return low8(8, ds)
    def hexa(s):
        s.pos += 1; brace = s.is_("{")
        if brace: s.pos += 1
        ds = []
        while len(ds) < 2 and s.is_(DIGITS[16]): ds.append(s.at()); s.pos += 1
        if not ds: raise Wrong
        if brace:
            if not s.is_("}"): raise Wrong
            s.pos += 1
        return low8(16, ds)
    ESC = {"a": 7, "t": 9, "n": 10, "f": 12, "r": 13, '"': 34, "'": 39, "\\": 92}
    def character(s):
        s.pos += 1
        if s.is_("\\"):
            s.pos += 1
            for k, v in s.ESC.items():
                if s.is_(k): s.pos += 1; x = C(v); break
            else:
                if s.is_(DIGITS[8] + "o"): x = s.octal()
                elif s.is_("x"): x = s.hexa()
                else: raise Wrong
        else:
            if s.is_("'") or not s.is_(PRINT): raise Wrong
            x = s.at(); s.pos += 1
        if not s.is_("'"): raise Wrong
        s.pos += 1
        return s.const("BYTE", x)
    def string_part(s):
        """the characters up to the end of the string literal or a variable"""
        # the literal has to be closed, whatever is in it
        out = []; lines = 0
        while True:
            if s.end(): raise Wrong
            if s.is_('"'): s.pos += 1; break
            if s.is_("$") and not s.is_('"', 1):
                s.upto = s.variable()
                r = s.text(out, lines)
                s.pending += ["upto"]
                return r
            if s.is_("\\"):
                s.pos += 1
                if s.is_(DIGITS[8] + "o"):
                    out.append(s.octal()); continue
                if s.is_("x"): out.append(s.hexa()); continue
                if s.is_("$"): out.append(C(36)); s.pos += 1; continue
                for k, v in s.ESC.items():
                    if s.is_(k): out.append(C(v)); s.pos += 1; break
                else:
                    if s.lit("N{"): out += s.unicode(); continue
                    if s.is_("89"): raise Grey
                    if not s.is_(RAW): raise Wrong
                    out += [C(92), s.at()]; s.pos += 1
                continue
            if s.is_("\n"): lines += 1
            out.append(s.at()); s.pos += 1
        return s.text(out, lines)
    def text(s, out, lines):
        for _ in range(lines): s.newline(); s.fuzzy = True      # where the line begins is of no interest inside of a literal
        return s.const("STRING", tuple(out))
    def unicode(s):
        s.pos += 2
        if not s.lit("U+"): raise Wrong
        s.pos += 2; ds = []
        while s.is_(DIGITS[16]): ds.append(s.at()); s.pos += 1
        if not ds or not s.is_("}"): raise Wrong
        s.pos += 1
        v = number(16, ds, 1)
        if v[0] != "c": raise GiveUp("code point of unknown digits")
        if v[1] > 0x10ffff or 0xd800 <= v[1] <= 0xdfff: raise Wrong
        if len(ds) > 8: raise Grey
        return [C(x if x < 128 else x - 256) for x in chr(v[1]).encode("utf8")]
    def variable(s):
        """where the literal goes on after the variable expansion at the current place"""
        k = 1
        ref = s.is_("$", k)
        if ref: k += 1
        brace = s.is_("{", k)
        if brace: k += 1
        if s.is_("@", k):
            k += 1
            if brace:
                if not s.is_("}", k): raise Grey
                k += 1
            return s.pos + k
        n = k
        while True:
            if s.is_(WORD, k): k += 1
            elif s.is_(":", k) and s.is_(":", k + 1): k += 2
            else: break
        if k == n:
            if ref: raise Grey              # the parser refuses it
            raise Wrong
        if brace:
            if not s.is_("}", k): raise Wrong
            return s.pos + k + 1
        if ref: return s.pos + k
        first = True
        while True:
            if s.is_("-", k) and s.is_(">", k + 1): q = k + 2
            elif not first and s.is_("[{", k): q = k
            else: return s.pos + k
            if not s.is_("[{", q):
                if first: raise Wrong
                raise Grey
            c = "}" if s.is_("{", q) else "]"
            q += 1
            while s.is_(WORD, q): q += 1
            if not s.is_(c, q): raise Wrong
            k = q + 1; first = False
    def expansion(s):
        return (".", ("op", "STRING_CONCAT"), s.line)
    def single(s):
        s.pos += 2; out = []; lines = 0
        while True:
            if s.end(): raise Wrong
            if s.is_("'"): s.pos += 1; break
            if s.is_("\\"):
                s.pos += 1
                if not s.is_("\\'"): raise Wrong
            elif s.is_("\n"): lines += 1
            out.append(s.at()); s.pos += 1
        return s.text(out, lines)
    def here(s):
        s.pos += 3; b = s.pos
        while s.is_(WORD): s.pos += 1
        name = s.s[b:s.pos]
        if not name or s.w.among(name[0], DIGITS[10]): raise Wrong
        if any(s.w.among(x, "_") and s.w.among(y, "_") for x, y in zip(name, name[1:])): raise Wrong
        if not (s.lit("';") and s.is_("\n", 2)): raise Wrong
        s.pos += 3; s.newline(); out = []
        while True:
            if s.end(): raise Wrong
            if all(s.same(x, k) for k, x in enumerate(name)) and s.is_("\n", len(name)):
                s.pos += len(name) + 1; s.newline(); break
            while not s.end() and not s.is_("\n"): out.append(s.at()); s.pos += 1
            if s.end(): raise Wrong
            out.append(C(10)); s.pos += 1; s.newline()
        s.heredoc = True
        return s.const("STRING", tuple(out))
    def same(s, x, k):
        if s.end(k): return False
        y = s.at(k)
        if x == y: return True
        if x[0] == "c": return s.w.among(y, mask([x[1] & 255]))
        if y[0] == "c": return s.w.among(x, mask([y[1] & 255]))
        raise GiveUp("two unknown bytes are compared")
    def numeric(s, sign):
        b = s.pos
        def strip(e): return [x for x in s.s[b:e] if not s.w.among(x, "_")]
        if s.is_("0") and s.is_("xX", 1):
            s.pos += 2; D = DIGITS[16]; base = 16
        elif s.is_("0") and s.is_("bB", 1):
            s.pos += 2; D = "01"; base = 2
        elif s.is_("0") and s.is_("_" + DIGITS[10], 1): s.pos += 1; base = 8
        else: base = 10
        bad = False
        if base in (2, 8):
            while s.is_("_" + DIGITS[10]): s.pos += 1
            ds = strip(s.pos)[2 if base == 2 else 1:]
            whole = strip(s.pos)
            if base == 8 and not ds: raise Grey
            if base == 8 and (s.is_(".") or s.is_("eE")): raise Grey
            if not ds: bad = True
            fl = False
            if s.is_("fFdD"):
                if base == 2: raise Wrong
                fl = True
            elif not all(s.w.among(x, DIGITS[base]) for x in ds): bad = True
            if bad: raise Wrong
        else:
            E = "pP" if base == 16 else "eE"
            # the characters of the literal
            frac = ex = False; nint = nfrac = nexp = 0; malformed = False; after_e = False
            if base == 10: D = DIGITS[10]
            while not s.end():
                if s.is_("_"): s.pos += 1; continue
                if ex and s.is_(DIGITS[10]): nexp += 1
                elif ex and base == 16 and s.is_(D):
                    break
                elif s.is_(D):
                    if frac: nfrac += 1
                    else: nint += 1
                elif s.is_("."):
                    if frac or ex: malformed = True
                    frac = True
                elif s.is_(E):
                    if ex: malformed = True
                    ex = True; after_e = True; s.pos += 1; continue
                elif s.is_("+-") and after_e: pass
                else: break
                after_e = False; s.pos += 1
            if malformed:
                if base == 16 and ex and s.w.among(s.s[s.pos - 1], "pP._"): raise Grey
                raise Wrong
            if base == 16 and ex:
                if s.s[s.pos - 1] == C(95) or s.w.among(s.s[s.pos - 1], "_"): raise Grey
                # "f" and "d" are digits too: only one of them is the suffix
                q = 0
                while s.is_(D + "_.pP", q): q += 1
                if q > 1: raise Grey
                if not nexp:
                    # whether "p" belongs to the literal is left open: no program has a name after it
                    if s.w.among(s.s[s.pos - 1], "pP"): raise Grey
                    raise Wrong
            elif ex and not nexp: raise Wrong
            fl = frac or ex
            whole = strip(s.pos)
            ds = whole[2:] if base == 16 else whole
            if not nint:
                if nfrac: raise Grey
                raise Wrong
            if frac and not nfrac: raise Grey
            if fl and s.is_("lL"): raise Wrong
        if s.is_("lL"): t = "LONG"; s.pos += 1
        elif s.is_("fF"): t = "FLOAT"; s.pos += 1
        elif s.is_("dD"): t = "DOUBLE"; s.pos += 1
        else: t = "DOUBLE" if fl else "INT"
        if t in ("FLOAT", "DOUBLE"):
            if base == 2: raise Wrong
            return s.const(t, ("f", "strtof" if t == "FLOAT" else "strtod", tuple(whole), sign))
        v = number(base, ds, sign); bits = 32 if t == "INT" else 64
        if v[0] == "c":
            x = v[1]
            if base == 10:
                if not -2**(bits - 1) <= x < 2**(bits - 1): raise Wrong
            else:
                if abs(x) >= 2**bits: raise Wrong
                x &= 2**bits - 1
                if x >> (bits - 1): x -= 2**bits
                if sign < 0 and abs(v[1]) == 2**(bits - 1): raise Grey
            v = C(x)
        elif base ** len(ds) > 2**31: raise GiveUp("large number of unknown digits")
        return s.const(t, v)
    # names
    def dollar(s):
        if s.is_("$", 1): s.pos += 1; return ("DEREFERENCE", ("op", "DEREFERENCE"), s.line)
        if s.is_("@", 1): s.pos += 2; return ("EXCEPTION_VAR", ("op", "EXCEPTION_VAR"), s.line)
        if s.lit("{@}", 1): s.pos += 4; return ("EXCEPTION_VAR", ("op", "EXCEPTION_VAR"), s.line)
        s.pos += 1; brace = s.is_("{")
        if brace: s.pos += 1
        name = s.name()
        if not name or s.w.among(name[0], DIGITS[10]): raise Wrong
        s.check(name, True)
        if brace:
            if not s.is_("}"): raise Wrong
            s.pos += 1
        return ("VAR_NAME", ("name", (C(36),) + name), s.line)
    def name(s):
        b = s.pos
        while True:
            if s.is_(WORD): s.pos += 1
            elif s.is_(":") and s.is_(":", 1): s.pos += 2
            else: break
        return tuple(s.s[b:s.pos])
    def check(s, name, var):
        w = s.w.among
        if any(w(x, "_") and w(y, "_") for x, y in zip(name, name[1:])): raise Wrong
        colons = [w(x, ":") for x in name]
        if any(all(colons[k:k + 4]) for k in range(len(name) - 3)): raise Wrong
        if colons[0]: raise Wrong
        if len(name) >= 2 and colons[-1]:
            if var: raise Wrong
            raise Grey
        return any(colons)
    def symbol(s, plain):
        b = s.pos; column = None if s.fuzzy else s.pos - s.linebegin
        name = s.name(); s.begin = b
        q = 0
        while s.is_(SPACE, q): q += 1
        fat = s.lit("=>", q)
        if not plain and not fat:
            for k in list(KW) + ATTR + ["__END__", "__FILE__", "__LINE__"]:
                if len(k) == len(name) and all(s.w.among(x, ch) for x, ch in zip(name, k)):
                    if k == "__END__": s.pos = len(s.s); return None
                    if k == "__FILE__": return s.const("STRING", s.lastfile or (C(70),))
                    if k == "__LINE__": return s.const("INT", C(s.line))
                    if k in ATTR: return ("ATTRIBUTE", ("attr", k.upper()), s.line)
                    if k == "has": s.field = True
                    if k == "method": s.method = True
                    t = KW[k]
                    if isinstance(t, str): t = (t, t)
                    return (t[0], ("op", t[1]) + ((column,) if k == "method" else ()), s.line)
        sub = s.check(name, False)
        if fat:
            if sub: raise Wrong
            return s.const("STRING", name)
        return ("SYMBOL_NAME", ("name", name), s.line)

def low8(base, ds):
    v = number(base, ds, 1)
    if v[0] == "c": return C(v[1] - 256 if v[1] > 127 else v[1])
    return ("tr", 8, v) if base ** len(ds) - 1 > 127 else v

# the tokenizer --------------------------------------------------------------
class Lex:
    def __init__(s, prog, tok):
        s.prog = prog; s.it = octets.Interp(prog, oracle=s.oracle, budget=10**9, maxvisit=400)
        s.tok = {v: k for k, v in tok.items()}; s.e = prog.enums
        s.op = {v: k[len("SPVM_OP_C_ID_"):] for k, v in s.e.items() if k.startswith("SPVM_OP_C_ID_")}
        s.flag = {}
        for k, v in s.e.items():
            if k.startswith("SPVM_OP_C_FLAG_SPECIAL_ASSIGN_"): s.flag[v] = k[len("SPVM_OP_C_FLAG_SPECIAL_ASSIGN_"):]
        s.attr = {v: k[len("SPVM_ATTRIBUTE_C_ID_"):] for k, v in s.e.items() if k.startswith("SPVM_ATTRIBUTE_C_ID_")}
        s.bt = {v: k[len("SPVM_NATIVE_C_BASIC_TYPE_ID_"):] for k, v in s.e.items() if k.startswith("SPVM_NATIVE_C_BASIC_TYPE_ID_")}
        s.comp, s.src = P(("obj", "compiler")), ("obj", "src")
        if "SPVM_yylex" not in prog.fns: raise AnalysisBroken("no tokenizer")
        s.calls = 0
    def begin(s, src):
        st = St(); m = st.mem; c = s.comp[1]
        st.zero = frozenset([c, ("obj", "allocator"), ("obj", "errors"), ("obj", "errno"), ("obj", "yylval")])
        for k, v in enumerate(src): m[(s.src, (("[]", C(k)),) if k else ())] = v
        m[(s.src, (("[]", C(len(src))),) if src else ())] = C(0)
        st.facts[("size", s.src)] = len(src) + 1
        for f in ("ch_ptr", "current_class_content", "token_begin_ch_ptr", "line_begin_ch_ptr"): m[(c, (f,))] = P(s.src)
        m[(c, ("current_class_content_length",))] = C(len(src)); m[(c, ("current_file",))] = ("str", "F"); m[(c, ("current_line",))] = C(1)
        m[(c, ("error_messages",))] = P(("obj", "errors")); m[(c, ("current_each_compile_allocator",))] = P(("obj", "allocator")); m[(c, ("global_allocator",))] = P(("obj", "global"))
        for f in ("ops", "op_types", "constant_strings", "constant_string_symtable", "basic_types", "op_use_stack", "current_anon_op_types"): m[(c, (f,))] = P(("obj", f))
        m[(("obj", "ctype ptr"), ())] = P(("obj", "ctype"))
        return st
    def oracle(s, it, n, a, st):
        if n in ("SPVM_ALLOCATOR_alloc_memory_block_tmp", "SPVM_ALLOCATOR_alloc_memory_block_permanent"):
            if a[1][0] != "c": raise GiveUp("size of a block of memory")
            st.n += 1; o = ("obj", "block", st.n); st.zero = st.zero | {o}; st.facts[("size", o)] = a[1][1]
            if a[1][1] <= 0: return [(("abort", "allocates a block of %d bytes" % a[1][1]), st)]
            if n.endswith("tmp"): s.count(st, 1)
            return [(P(o), st)]
        if n == "SPVM_ALLOCATOR_free_memory_block_tmp":
            if a[1][0] == "p":
                if st.facts.get(("freed", a[1][1])): return [(("abort", "a block is freed twice"), st)]
                st.facts[("freed", a[1][1])] = True
            s.count(st, -1); return [(C(0), st)]
        if n == "SPVM_COMPILER_error":
            k = (("obj", "errors"), ("length",)); st.mem[k] = C(st.mem.get(k, C(0))[1] + 1)
            return [(C(0), st)]
        if n == "SPVM_LIST_push": return [(C(0), st)]
        if n == "SPVM_LIST_get" and a[0] == P(("obj", "basic_types")) and a[1][0] == "c":
            o = ("obj", "basic type", a[1][1]); st.zero = st.zero | {o}; st.mem[(o, s.path("spvm_basic_type", "id"))] = a[1]; st.mem[(o, s.path("spvm_basic_type", "name"))] = ("str", s.bt.get(a[1][1], "?").lower())
            return [(P(o), st)]
        if n == "SPVM_HASH_get": return [(C(0), st)]
        if n == "SPVM_HASH_set":
            if a[2][0] == "c": it.text(st, a[1], a[2][1])
            return [(C(0), st)]
        if n == "SPVM_TOKE_load_class_file": return [(("abort", "asks for another class"), st)]
        return octets.library(it, n, a, st)
    def count(s, st, d):
        k = (("obj", "allocator"), ("memory_blocks_count_tmp",)); st.mem[k] = C(st.mem.get(k, C(0))[1] + d)
    def errors(s, st): return st.mem.get((("obj", "errors"), ("length",)), C(0))[1]
    def next(s, st):
        """[(token or what went wrong, state)]"""
        it = s.it; s.calls += 1
        y = P(("obj", "yylval")); st.mem[(y[1], ())] = C(0)
        it.budget = it.steps + 400000; lost = it.lost
        try: rs = it.call("SPVM_yylex", (y, s.comp), st)
        except Budget: return [(("bad", "does not end"), st)]
        if it.lost > lost: return [(("bad", "does not end"), st)]
        return [(s.token(r, z), z) for r, z in rs]
    def path(s, sty, f):
        """where a member lies: the first one lies at the struct's own address"""
        k = s.prog.structs.get("struct." + sty)
        return () if not k or k[0][0] == f else (f,)
    def get(s, st, o, sty, f):
        if o[0] != "p": return ("u", 0, "nothing")
        v = st.mem.get((o[1], o[2] + s.path(sty, f)))
        return v if v is not None else C(0) if o[1] in st.zero else ("u", 0, "uninitialised")
    def token(s, r, st):
        if r[0] == "abort": return ("bad", r[1] if len(r) > 1 else "an assertion fails")
        if s.errors(st): return ("error",)
        if r[0] == "b":
            m = dom(st, r[1])
            if m & (m - 1): return ("bad", "a token that is not determined")
            r = C(r[2][m.bit_length() - 1])
        if r[0] != "c": return ("bad", "a token that is not determined")
        name = s.tok.get(r[1]) or (chr(r[1]) if 0 < r[1] < 128 else "?%d" % r[1])
        if r[1] == 0: return ("bad", "gives up without a message")
        op = st.mem.get((("obj", "yylval"), ()), C(0))
        if op[0] != "p": return (name, ("op", "none"), None)
        idn = s.op.get(s.get(st, op, "spvm_op", "id")[1], "?"); line = s.get(st, op, "spvm_op", "line")[1]; f = s.get(st, op, "spvm_op", "file")
        what = ("op", idn)
        if idn == "CONSTANT":
            c = s.get(st, op, "spvm_op", "uv"); t = s.get(st, c, "spvm_constant", "type"); b = s.bt.get(s.get(st, s.get(st, t, "spvm_type", "basic_type"), "spvm_basic_type", "id")[1], "?")
            v = s.get(st, c, "spvm_constant", "value")
            v = whole(v)
            if s.get(st, t, "spvm_type", "dimension") != C(0): b += "[]"
            if b == "STRING":
                n = s.get(st, c, "spvm_constant", "string_length")
                if n[0] != "c": return ("bad", "a string of unknown length")
                if v[0] == "str": v = tuple(C(ord(x)) for x in v[1][:n[1]])
                elif v[0] == "p":
                    z = s.it.size(st, v[1])
                    if z is None or z < n[1] + 1 or s.it.octet(st, v, n[1]) != C(0): return ("bad", "a string constant that does not end with NUL")
                    v = s.it.text(st, v, n[1])
            what = (b, v)
        elif idn == "NAME":
            v = s.get(st, op, "spvm_op", "uv")
            if v[0] == "p":
                z = s.it.size(st, v[1]); t = s.it.text(st, v, z)
                if t[-1] != C(0): return ("bad", "a name that does not end with NUL")
                v = t[:-1]
            what = ("name", v)
        elif idn == "ATTRIBUTE": what = ("attr", s.attr.get(s.get(st, s.get(st, op, "spvm_op", "uv"), "spvm_attribute", "id")[1], "?"))
        elif idn == "SPECIAL_ASSIGN": what = ("assign", s.flag.get(s.get(st, op, "spvm_op", "flag")[1], "?"))
        if idn == "METHOD": what += (s.get(st, op, "spvm_op", "column")[1],)
        return (name, what, line, f)

def whole(v):
    """a value that was split into its halves and put together again"""
    if v[0] == "u2" and v[1] == "or":
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if x[0] == "u2" and x[1] == "shl" and x[3] == C(32) and x[2][0] == "u2" and x[2][1] == "lshr" and x[2][3] == C(32) and x[2][2] == y: return y
    return v
def settled(st, v):
    """the number, when there is only one"""
    if v[0] == "c": return v[1]
    if v[0] == "tr":
        x = settled(st, v[2])
        if x is None: return None
        x &= (1 << v[1]) - 1
        return x - (1 << v[1]) if x >> (v[1] - 1) else x
    x = 0
    for d in v[2]:
        if d[0] == "b":
            q = dom(st, d[1])
            if q & (q - 1): return None
            d = C(q.bit_length() - 1)
        x = x * v[1] + int(chr(d[1]), 36)
    return x * v[3]
def equal(st, a, b):
    """the two values are the same for every byte the state allows"""
    if a == b: return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], tuple) and isinstance(b[0], tuple):
        return len(a) == len(b) and all(equal(st, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) > 1 and len(b) > 1:
        if a[0] == "b" and b[0] == "b" and a[1] == b[1]: return all(a[2][q] == b[2][q] for q in octets.members(dom(st, a[1])))
        if a[0] == "b" and b[0] == "c": return all(a[2][q] & 255 == b[1] & 255 for q in octets.members(dom(st, a[1])))
        if a[0] == "c" and b[0] == "b": return equal(st, b, a)
        if a[0] == b[0] == "c": return a[1] == b[1]
        if a[0] in ("S", "b", "n", "tr", "c") and b[0] in ("S", "b", "n", "tr", "c") and (a[0] != b[0] or a[0] == "S"):
            z = octets.same_sum(st, a, b)
            if z is not None: return z
        if a[0] == b[0] == "n":
            return a[1] == b[1] and a[3] == b[3] and equal(st, a[2], b[2])
        if a[0] == b[0] == "tr": return a[1] == b[1] and equal(st, a[2], b[2])
        if a[0] == b[0] == "f": return a[1] == b[1] and a[3] == b[3] and equal(st, a[2], b[2])
        if a[0] in ("n", "tr") and b[0] in ("n", "tr", "c") or a[0] == "c" and b[0] in ("n", "tr"):
            # digits that are single characters in this state
            x, y = settled(st, a), settled(st, b)
            return x is not None and x == y
    return False

def show(st, src):
    out = []
    for v in src:
        if v[0] == "c": ch = v[1] & 255
        else:
            d = dom(st, v[1]); ch = next((x for x in map(ord, "a1_ ") if d >> x & 1), None)
            if ch is None: ch = (d & -d).bit_length() - 1
        out.append(repr(chr(ch))[1:-1] if ch < 128 and ch != 39 else "'" if ch == 39 else "\\x%02x" % ch)
    return "".join(out)
def describe(t):
    if t is None: return "the end"
    if t[0] == "bad": return t[1]
    if t[0] == "error": return "a compilation error"
    def v(x):
        if isinstance(x, tuple) and x and isinstance(x[0], tuple): return '"' + "".join(v(y) for y in x) + '"'
        if isinstance(x, tuple) and x and x[0] == "c": return chr(x[1]) if 32 <= x[1] < 127 else str(x[1])
        if isinstance(x, tuple) and x and x[0] == "b": return "?"
        if isinstance(x, tuple) and x and x[0] in ("u2", "s", "u"): return "a computed value"
        if isinstance(x, tuple) and x and x[0] == "n": return ("-" if x[3] < 0 else "") + "base %d %s" % (x[1], v(x[2]))
        if isinstance(x, tuple) and x and x[0] == "tr": return "the low bits of " + v(x[2])
        if isinstance(x, tuple) and x and x[0] == "f": return "%s(%s)%s" % (x[1], v(x[2]), " negated" if x[3] < 0 else "")
        return str(x)
    w = t[1]
    if w[0] == "op" and w[1] in (None, "DO_NOTHING"): return "%s of line %s" % (t[0], t[2])
    n = str(w[1][1]) if isinstance(w[1], tuple) and w[1] and w[1][0] == "c" else v(w[1])
    return "%s %s of line %s" % (t[0], n if w[0] in ("op", "assign", "attr", "name") else w[0] + " " + n, t[2])

class Run:
    def __init__(s, lex): s.l = lex; s.leaves = s.grey = s.tokens = s.texts = 0; s.open = {}; s.bad = {}
    def text(s, src):
        """src: characters and masks of characters; compares every path of the tokenizer with the model"""
        s.texts += 1; work = [src]
        while work:
            src = work.pop()
            try: s.read(src)
            except GiveUp as e:
                # a number that depends on an unknown digit: one digit after another
                H = mask(DIGITS[16])
                k = next((k for k, x in enumerate(src) if not isinstance(x, str) and x & H and x & (x - 1)), None)
                if k is None: s.open[str(e)] = "".join(x if isinstance(x, str) else "?" for x in src); continue
                rest = src[k] & ~H
                if rest: work.append(src[:k] + [rest] + src[k + 1:])
                for q in octets.members(src[k] & H): work.append(src[:k] + [chr(q)] + src[k + 1:])
    def read(s, src, limit=60):
        vals = []; doms = {}
        for k, x in enumerate(src):
            if isinstance(x, str): vals.append(C(ord(x) if ord(x) < 128 else ord(x) - 256))
            else: vals.append(byte(k)); doms[("dom", k)] = x
        st = s.l.begin(vals); st.facts.update(doms)
        work = [(st, [])]
        while work:
            st, toks = work.pop()
            for t, z in s.l.next(st):
                ts = toks + [t]
                if t[0] in ("bad", "error", "END_OF_FILE") or len(ts) >= limit: s.compare(vals, z, ts)
                else: work.append((z, ts))
    def compare(s, vals, st, toks):
        """toks for the texts of the state, against the model"""
        work = [st]
        while work:
            z = work.pop()
            m = Model(vals, View(z)); s.leaves += 1
            try:
                want = []
                while len(want) < len(toks):
                    try: e = m.token()
                    except Wrong: e = ("error",)
                    want.append((e, m.lastfile))
                    if e is None or e == ("error",): break
                s.tokens += len(want)
                # a text that is wrong has to be refused, wherever it is noticed
                if want[-1][0] == ("error",) and toks[-1][0] == "error": continue
                for k, t in enumerate(toks):
                    if k >= len(want) or not s.agree(z, t, *want[k]):
                        k = min(k, len(want) - 1); s.report(z, vals, k, toks[k], want[k][0]); break
            except Grey: s.grey += 1
            except Split as e:
                s.leaves -= 1
                d = dom(z, e.sym); y = z.copy(); y.facts[("dom", e.sym)] = d & ~e.m; z.facts[("dom", e.sym)] = d & e.m
                work += [y, z]
    def agree(s, st, t, e, file):
        if t[0] == "bad": return False
        if e is None: return t[0] == "END_OF_FILE"
        if e[0] == "error" or t[0] == "error": return t[0] == e[0]
        if t[0] != e[0]: return False
        if t[2] is not None and t[2] != e[2]: return False
        if e[1][0] == "op":
            if e[1][1] is not None and t[1][:2] != e[1][:2]: return False
            return len(e[1]) < 3 or e[1][2] is None or t[1] == e[1]
        if t[1][0] != e[1][0]: return False
        f, want = t[3], file
        if want is None:
            if f != ("str", "F"): return False
        elif f[0] != "p" or not equal(st, s.l.it.text(st, f, len(want)), want): return False
        return equal(st, t[1][1], e[1][1])
    def report(s, st, vals, k, t, e):
        key = "%s:%s" % (describe(e).split(" of line")[0] if e and e[0] == "error" else (e[0] if e else "end"), t[1] if t[0] == "bad" else t[0] if t[0] != "error" else "error")
        s.bad.setdefault(key, []).append("the text `%s`: token %d is %s, documented is %s" % (show(st, vals), k + 1, describe(t), describe(e)))

A = ALL & ~1                    # NUL ends the text: no source has one
# texts; every one is also read with any one byte put in, in place of each character, and between any two, cut off anywhere, and with any one character left out
TEXTS = {
"numbers": "0 7 12 1_0 1_000L 12l 0x1f 0X1F 0x1_fL 0b101 0B1_0L 017 0_17L -5 -12L -0x1f -0b11 -017 1.5 12.25f 1.5F 1.5d 1_0.5_0 1e5 1E+5 1.5e-10f 12f 12d 5D -1.5 -1e5f 0x1p5 0x1.8p-2 0X1F.8P+2d 0x1.8p1_0 -0x1.8p1f 1..2 1.5.5 1e5e5 1.e5 1-2 1e5-1 1.5+1 0x1-1 0x1p5-1 1e+-5".split()
    + "2147483647 2147483648 -2147483648 -2147483649 4294967295 0x7fffffff 0x80000000 0xffffffff 0x100000000 -0xffffffff 037777777777 040000000000 0b11111111111111111111111111111111 0b100000000000000000000000000000000".split()
    + "9223372036854775807L 9223372036854775808L -9223372036854775808L -9223372036854775809L 0xffffffffffffffffL 0x10000000000000000L 01777777777777777777777L 02000000000000000000000L 18446744073709551615L 18446744073709551616L 99999999999999999999L".split(),
"character literals": [r"'a'", r"'\n'", r"'\''", r"'\\'", r"'\"'", r"'\x1f'", r"'\x{1f}'", r"'\xF'", r"'\0'", r"'\17'", r"'\377'", r"'\400'", r"'\o{17}'", r"'\o{7}'", r"'\o{377}'", "''", "'ab'", r"'\a' '\t' '\r' '\f'"],
"string literals": [r'""', r'"a"', r'"\n\t\\\""', r'"\x1f2"', r'"\x{1f}2"', r'"\xfg"', r'"\0"', r'"\1234"', r'"\400"', r'"\o{12}3"', r'"\N{U+3042}"', r'"\N{U+41}b"', r'"\N{U+10FFFF}"', r'"\N{U+110000}"', r'"\N{U+D7FF}"', r'"\N{U+D800}"', r'"\N{U+DFFF}"', r'"\N{U+E000}"', r'"\N{U+7F}\N{U+80}\N{U+7FF}\N{U+800}\N{U+FFFF}\N{U+10000}"', r'"\s\w\d\."', '"a\nb" c', '"a\n\n" c', r'"\$a" "\$"', '"}" "{" "[" "]"', '"a" . "b"', '"\xe3\x81\x82"'],
"variable expansions": ['"$a"', '"$ab c"', '"x${a}y"', '"$A::b"', '"${A::b}c"', '"$$a"', '"$${a}b"', '"$@"', '"${@}x"', '"$a->[0]"', '"$a->[0]x"', '"$a->{b}"', '"$a->{b}->{c}[1]"', '"$a->[$b]"', '"$a$b"', '"$a\n" b', '"a\n$b\n" c', '"$a->b"', '"$a[0]"', '"$a{b}"', '"a$"', '"$a-"', '"$a:"', '"$a->[0" b', '"$a;" . "$b"', '"$a}" c', '"$x->{if}" y', '"$a\\n$b"', '"$"', '"$a}"'],
"single-quoted strings": ["q'a'", "q''", r"q'\''", r"q'\\'", r"q'\n'", "q'a\nb' c", "q 'a'", "q'$a'", "qq'a'", "q'"],
"heredocs": ["<<'A';\nb\nA\n", "<<'A';\nA\n", "<<'AB';\nA\nABC\n AB\nAB\nc", "<<'A';\nb\n\nA\n;", "<<'A_1';\nA_1\nx", "<<'A__1';\nA__1\n", "<<'A'\nb\nA\n", "<<'A' ;\nA\n", "<<'A';\nb\nA", "<<'';\n\n", "<<'A';\n'\"$a\\n\nA\n", "<<'A';\nb\n", "a <<'A';\nb\nA\nc <<'B';\nB\nd", "<< 'A'", "<<A"],
"comments and documentation": ["#a\nb", "a#b\nc", "#", "a #", "\n=a\nb\n=cut\nc", "=a\nb\n\n=cut\nc", "=a\nb\n=cut", "=a\n=cutx\nb\n=cut \nc", "a =b", " =b", "a\n =b", "=a", "=a\n", "\n=1", "\n==b", "a\n=pod\n =cut\n=cut\nb", "=cut\na\n=cut\nb", "\n=head1 x\n#line 5\n=cut\na"],
"directives": ["#line 5\na", "#line 15 \na", "a\n#line 7\nb\nc", "#line 0\na", "#line 2147483647\na", "#line 2147483648\na", "#line 5a\n", "#line\na", "#line5\na", " #line 5\na", "#line  5\na", "a\n#line 5", "#line 5-3\na",
    '#file "a"\nb', '#file "ab/c.spvm" \nb', '#file ""\nb', '#file "a\nb', '#file a\nb', '\n#file "a"\nb', 'x #file "a"\nb', '#!x\n#file "a"\nb', '#!x\na', '#lib "a"\nb', 'a\n#lib "b" \nc', '#lib ""\n', '#lib "a', ' #lib "a"\nb', '#file "a"', '#file "a"x\nb', '#file "a"\n#line 3\n__FILE__ __LINE__', "#filea\nb", "#lib\nb", '#!/a\n#line 9\n#lib "q"\nb'],
"variables": ["$a", "$ab_1", "${a}", "$A::b", "${A::b}", "$A::B::c", "$a->", "$a b", "$1", "$a__b", "$_", "$_a", "$a::", "$::a", "$A::::b", "${a", "${a b}", "$ a", "$", "$$", "$$a", "$$$a", "$@", "${@}", "${@", "$@a", "${ a}", "$-", "$A::1b", "$A:b"],
"names": ["a", "ab", "A::b", "A::B::c", "_a", "a__b", "__a", "a_", "A::", "A:b", "A::::b", "a=>", "a =>", "a\n=>b", "A::b=>", "a=> b", "a=", "a==>b", "a >", "if=>", "if =>", "if\n => 1", "rw=>", "__FILE__=>", "__END__ =>", "&a", "&if", "&A::b", "& a", "&_a", "&1", "&&a", "&&&a", "a&b", "&"],
"names after arrows": ["->a", "->if", "-> if", "->\nif", "->A::b", "->if if", "->{a}", "->{if}", "->{ if }", "-> {if}", "->{if if}", "->[if]", "->(if)", "->{if}{if}", "->->if", "->{rw}", "->rw", "->{$a}", "->1", "->{1}", "->__FILE__", "->{__LINE__}", "-> # c\nif", "->{ # c\nif", "->\"a\" if", "{if}", "->{}if"],
"names of members": ["method if", "method if:", "method\nif", "method(if", "method : if", "method{if", "has if", "has if:", "has\nif", "has : if", "has has has", "method method", "method # c\nif", "  method a\n method b", "a; method b\tmethod c", "method a:rw", "has a:rw int", "has rw:rw", "method rw", "method", "has", "\"a\nb\" method", "<<'A';\nA\n method a"],
"operators": sorted(OPS) + [a + b for a in ("<", ">", "=", "+", "-", "*", "&", "|", ".", "/", "!", "^", "%") for b in ("a", "1", "$a", "=1", " =", ".")] + ["<=>=", ">>>=", ">>>>", "<<<", "<<=1", "1<2", "a<b>c", "a->b", "a-->b", "a->-b", "---", "+++", "===", "=~", "!==", "->=", "||=", "&&=", "...", "..", "a=>b", "a= >b", "\\a", "@a", "a?b", "`", "**", "//", "::", ":", "a:b"],
"end of the source": ["__END__", "a __END__ b", "a\n__END__\n\"", "__END__a", "__FILE__", "__LINE__", "__PACKAGE__", "\n__LINE__\n__LINE__", "__LINE__a", "__X__", "a\n\nb\tc\r\nd\fe", "\x0b", "\x00"[:0] + "\x7f"],
}
CONTEXTS = ("%s", "->%s", "->{%s}", "&%s", "method %s", "has %s", "%s=>", "%s =>", "%s::a", "a::%s", "$%s", "%s;", '"$a->{%s}"', "%s1", "%s_", "q'%s'")
ANY = [[A], [A, A]]
DIGITISH = mask("0189abefpxlLdDfFE_.+-; ")
MIX = mask("a1_ \n\"'\\$#{}[]()-><=&|+.:;")
def edits(s, ends=False):
    """a text with any one byte in it, cut off, or with a character left out"""
    seen = set()
    for k in range(len(s) + 1):
        if ends and 3 < k < len(s) - 2: continue
        yield list(s[:k]) + [A] + list(s[k:])
        if k < len(s):
            yield list(s[:k]) + [A] + list(s[k + 1:])
            for v in (s[:k], s[:k] + s[k + 1:]):
                if v not in seen: seen.add(v); yield list(v)
def texts(name):
    if name == "any bytes":
        yield []
        yield [A]
        yield [A, A]
        for f in FIRST: yield [f, MIX, MIX] if not THOROUGH else [f, A, A]
        for f in FIRST: yield [f, mask(DIGITS[10] + "_.eExXbBpPlLfFdD+-;"), DIGITISH & mask("018abefpxLdDfE_.+-;")]
    elif name == "keywords":
        for w in sorted(KW) + ATTR + ["__END__", "__FILE__", "__LINE__"]:
            for c in CONTEXTS: yield list(c % w)
            yield from edits(w)
    else:
        for s in TEXTS[name]:
            yield list(s)
            yield from edits(s, name == "numbers" and len(s) > 9 and not THOROUGH)
        if name == "numbers":
            D = mask(DIGITS[16] + "_.eExXbBpPlLfFdD+-; ")
            for b in ("0x1", "0b1", "0", "1", "1.5", "1e1", "0x1p1", "0x1.8p1", "-", "-0", "1_"):
                yield list(b) + [DIGITISH, DIGITISH]
        if name == "string literals":
            H = mask(DIGITS[16] + 'go{}"8')
            for b in ('"\\', '"\\x', '"\\0', '"\\3', '"\\4', '"\\o{', '"\\x{', '"\\N{U+'):
                yield list(b) + [H, H, mask('0789afg}"'), '"']
            yield ['"', A, A, '"']
        if name == "character literals":
            H = mask(DIGITS[16] + "go{}'8")
            for b in ("'\\", "'\\x", "'\\0", "'\\3", "'\\4", "'\\o{", "'\\x{"): yield list(b) + [H, H, mask("0789afg}'"), "'"]
            yield ["'", A, A, "'"]
        if name == "variable expansions":
            V = mask("a1_$@{}[]->:\" \n\\;")
            for b in ('"$', '"$a', '"$a-', '"$a->', '"$a->[', '"$a->{b}', '"${', '"${a', '"$$', '"x$a->[0]'): yield list(b) + [V, V, '"']
        if name == "heredocs":
            yield list("<<'A';\n") + [MIX, MIX] + list("A\n")
            yield list("<<'A';\nb\nA") + [A, MIX]
            yield list("<<'") + [MIX, MIX] + list(";\nA\n")
            for k in range(3): yield list("<<'AB';\n") + [mask("AB\n"), mask("AB\n"), mask("AB\nC"), mask("AB\n")] + list("AB\n"[:3 - k])
        if name == "comments and documentation":
            for b in ("=a\n", "=a\nb", "=cut", "=a\n=cut", "=a\n=cu", "\n="): yield list(b) + [MIX, MIX] + list("\n=cut\nx")
        if name == "directives":
            for b in ("#line ", "#line 1", "#file ", '#file "', "#lib ", '#lib "', "#", "#!\n#"): yield list(b) + [MIX, MIX] + list("\n\"\nx")
        if name == "operators":
            O = mask("".join(sorted({c for o in OPS for c in o})) + "a1$'\"_ ")
            for f in sorted({o[0] for o in OPS}): yield [f, O, O]
        if name in ("names", "variables"):
            N = mask("aZ_19:{}=> $@&\n")
            for f in "a&$_": yield [f, N, N, N]
            yield list("${a") + [N, N]
        if name in ("names after arrows", "names of members"):
            N = mask("if_ \n{}[]():#$-=>")
            for b in ("->", "->{", "has ", "method ", "&"): yield list(b) + [N, N] + list("if if")
        if name == "end of the source":
            for b in ("__END__", "a __END__", "__LINE__", "__FILE__", "__PACKAGE__"): yield list(b) + [MIX, MIX]
FIRST = [mask(c) for c in sorted({o[0] for o in OPS} | set("'\"#q$"))] + [mask("1234567"), mask("0"), mask("89"), mask(ALPHA + "_") & ~mask("q"), mask(SPACE)]
NAMES = ["any bytes", "keywords"] + list(TEXTS)

_prog = None; THOROUGH = False
def work(job):
    """one share of a family of texts, in a process of its own"""
    name, k, n, tok = job
    r = Run(Lex(_prog, tok))
    for q, s in enumerate(texts(name)):
        if q % n == k: r.text(s)
    return name, r.texts, r.leaves, r.tokens, r.grey, r.open, r.bad, sorted(r.l.it.fns)

def run(ck):
    global _prog, THOROUGH
    ck.rule = ("the tokenizer's IR is interpreted abstractly on texts of which some bytes are unknown (a byte is a set of its possible values, narrowed by the branches taken); on every path the tokens, what they carry, "
               "and their lines are those of the language's documents, or both refuse the text; no path reads outside of the text or of a block of memory, or goes on for ever")
    g = grammar.documented()
    p, c, tok, tb = numbers(g)
    _prog = fspec.merged(build.compile_bc([build.BUILDER + "/src/spvm_%s.c" % f for f in SRC]), "toke", keep=None, passes=build.PASSES_SSA_LIGHT)
    THOROUGH = ck.tier == "thorough"
    n = max(1, min(8, os.cpu_count() or 1))
    jobs = [(name, k, 8, tok) for name in NAMES for k in range(8)]
    total = {name: [0, 0, 0, 0] for name in NAMES}; bad = {}; fns = set(); stopped = False
    with multiprocessing.get_context("fork").Pool(n) as pool:
        for name, texts_, leaves, tokens, grey, open_, wrong, fs in pool.imap_unordered(work, jobs, chunksize=1):
            for k, v in enumerate((texts_, leaves, tokens, grey)): total[name][k] += v
            fns.update(fs)
            for k, v in open_.items(): ck.notes.append("%s: not decided for `%s`: %s" % (name, v, k))
            for k, v in wrong.items(): bad.setdefault(k, []).extend((name, x) for x in v)
            if len(bad) >= 40: pool.terminate(); stopped = True; break
    for name in NAMES:
        ck.count("texts with unknown bytes: " + name, total[name][0])
        if not stopped: ck.need("texts with unknown bytes: " + name, 20)
    ck.count("classes of texts decided", sum(t[1] for t in total.values()))
    ck.count("tokens compared", sum(t[2] for t in total.values())); ck.count("texts the documents leave open", sum(t[3] for t in total.values()))
    for k in sorted(bad)[:40]:
        name, x = min(bad[k], key=lambda y: (len(y[1]), y[1]))
        ck.violation("%s" % k, "%s: %s: %s (%d such)" % (FILE, name, x, len(bad[k])))
    ck.notes[:] = ck.notes[:40]
    ck.functions.update(f for f in fns if f in _prog.fns)
    for name in NAMES[2:6]: ck.sample("%s: %r and its edits" % (name, TEXTS[name][0]))
