"""Partition of the types of the language into kinds; a symbol stands for every class, interface, multi-numeric type or dimension of its kind."""
from .absint import C, S, P, St, Interp
from .build import AnalysisBroken

NUM = ("byte", "short", "int", "long", "float", "double")
CAT = {}
class Kind:
    def __init__(s, name, bid, dim, flag, base, catname):
        s.name, s.bid, s.dim, s.flag, s.base, s.cat = name, bid, dim, flag, base, catname
    def __repr__(s): return s.name
    # predicates of the language documents
    @property
    def d(s): return 2 if s.dim[0] == "s" else s.dim[1]
    @property
    def ref(s): return s.flag == 1
    def numeric(s): return s.base in NUM and s.d == 0 and not s.ref
    def numidx(s): return NUM.index(s.base) if s.base in NUM else NUM.index(s.base.lower())
    def numobj(s): return s.base in [n.capitalize() for n in NUM] and s.d == 0 and not s.ref
    def classt(s): return s.cat == "CLASS" and s.d == 0 and not s.ref
    def iface(s): return s.cat == "INTERFACE" and s.d == 0 and not s.ref
    def any_object(s): return s.base == "object" and s.d == 0
    def string(s): return s.base == "string" and s.d == 0
    def mulnum(s): return s.cat == "MULNUM" and s.d == 0 and not s.ref
    def undef(s): return s.base == "undef"
    def void(s): return s.base == "void"
    def basic_object(s): return s.classt() or s.iface() or s.any_object() or s.string()
    def array(s): return s.d >= 1
    def object(s): return s.array() or s.basic_object()
    def elem_object(s): return s.array() and (s.d >= 2 or s.cat in ("CLASS", "INTERFACE") or s.base in ("string", "object"))

def kinds(prog, second=False):
    """every kind of type; `second` gives fresh symbols for a second type"""
    e = prog.enums
    def bid(n): return C(e["SPVM_NATIVE_C_BASIC_TYPE_ID_" + n])
    t = "2" if second else "1"
    sy = {"Class": S("class" + t), "Interface": S("interface" + t), "Mulnum": S("mulnum" + t)}
    base = [(n, bid(n.upper()), "NUMERIC") for n in NUM]
    base += [("string", bid("STRING"), "STRING"), ("object", bid("ANY_OBJECT"), "ANY_OBJECT")]
    base += [(n.capitalize(), bid(n.upper() + "_CLASS"), "CLASS") for n in NUM]
    base += [("Class", sy["Class"], "CLASS"), ("Interface", sy["Interface"], "INTERFACE"), ("Mulnum", sy["Mulnum"], "MULNUM")]
    R, M = e["SPVM_NATIVE_C_TYPE_FLAG_REF"], e["SPVM_NATIVE_C_TYPE_FLAG_MUTABLE"]
    out = [Kind("void", bid("VOID"), C(0), 0, "void", "VOID"), Kind("undef", bid("UNDEF"), C(0), 0, "undef", "UNDEF")]
    for n, b, c in base:
        out.append(Kind(n, b, C(0), 0, n, c))
        if n == "string": out.append(Kind("mutable string", b, C(0), M, n, c))
        if n in NUM or n == "Mulnum": out.append(Kind(n + "*", b, C(0), R, n, c))
    for n, b, c in base: out.append(Kind(n + "[]", b, C(1), 0, n, c))
    for n, b, c in base:
        if n != "object": out.append(Kind(n + "[]..", b, S("dim" + t), 0, n, c))
    return out

def state(prog):
    st = St()
    first = prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_BOOL_CLASS"]
    for t in "12":
        for n in ("class", "interface", "mulnum"): st.rng[n + t] = (first, 1 << 20)
        st.rng["dim" + t] = (2, 200)
    st.rng["nfields"] = (1, 255)
    return st

def categories(prog):
    p = "SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_"
    return {k[len(p):]: v for k, v in prog.enums.items() if k.startswith(p)}

SAME = ("class", "interface", "mulnum", "dim")
def differ(a, b):
    return isinstance(a, str) and isinstance(b, str) and a[-1:] in "12" and b[-1:] in "12" and a != b

class World:
    """oracle and field functions over kinds: which category an id has, which relations hold"""
    def __init__(s, prog):
        s.prog, s.cat = prog, categories(prog)
        s.catof = {}; s.rel = {}
        for k in kinds(prog) + kinds(prog, True): s.catof[k.bid] = s.cat[k.cat]
        s.catof[C(prog.enums["SPVM_NATIVE_C_BASIC_TYPE_ID_UNKNOWN"])] = s.cat["UNKNOWN"]
        s.asked = set()
    def oracle(s, it, n, a, st):
        if n == "SPVM_LIST_get" and a[1] in s.catof: return [(P(("obj", "bt", a[1])), st)]
        if n in ("SPVM_BASIC_TYPE_is_super_class", "SPVM_BASIC_TYPE_has_interface"):
            k = (n[16:], a[1], a[2]); s.asked.add(k)
            return [(C(s.rel.get(k, 0)), st)]
        if n in ("snprintf", "fprintf", "sprintf"): return [(C(0), st)]
        return None
    def field(s, it, obj, path, ty, st):
        if isinstance(obj, tuple) and obj[:2] == ("obj", "bt") and path:
            if path[-1] == "category": return C(s.catof[obj[2]])
            if path[-1] == "id": return obj[2]
            if path[-1] == "fields": return P(("obj", "fields", obj[2]))
        if isinstance(obj, tuple) and obj[:2] == ("obj", "fields") and path and ty == "i32" and path[-1] in ("length", "f2", "dimension"): return S("nfields")      # the linker merges structures of the same layout
        return None

def predicates():
    """the classification of types in SPVM::Document::Language::Types, by name of the predicate"""
    z = lambda k: k.d == 0 and not k.ref
    P = {}
    for n in NUM:
        P[n + "_type"] = lambda k, n=n: k.base == n and z(k)
        P[n + "_object_type"] = lambda k, n=n: k.base == n.capitalize() and z(k)
    P.update({
        "ref_type": lambda k: k.ref, "void_type": Kind.void, "undef_type": Kind.undef, "numeric_type": Kind.numeric, "numeric_object_type": Kind.numobj,
        "numeric_ref_type": lambda k: k.ref and k.base in NUM, "mulnum_ref_type": lambda k: k.ref and k.cat == "MULNUM",
        "integer_type": lambda k: z(k) and k.base in NUM[:4], "integer_type_within_int": lambda k: z(k) and k.base in NUM[:3],
        "object_type": Kind.object, "basic_object_type": Kind.basic_object,
        "basic_object_array_type": lambda k: k.d == 1 and k.elem_object(), "object_array_type": Kind.elem_object,
        "any_object_type": Kind.any_object, "class_type": Kind.classt, "interface_type": Kind.iface, "string_type": Kind.string,
        "byte_array_type": lambda k: k.base == "byte" and k.d == 1, "string_or_byte_array_type": lambda k: k.string() or (k.base == "byte" and k.d == 1),
        "array_type": Kind.array, "string_array_type": lambda k: k.base == "string" and k.d == 1, "class_array_type": lambda k: k.cat == "CLASS" and k.d == 1,
        "interface_array_type": lambda k: k.cat == "INTERFACE" and k.d == 1, "muldim_array_type": lambda k: k.d >= 2,
        "any_object_array_type": lambda k: k.base == "object" and k.d == 1, "numeric_array_type": lambda k: k.base in NUM and k.d == 1,
        "unknown_type": lambda k: False, "mulnum_type": Kind.mulnum, "mulnum_array_type": lambda k: k.cat == "MULNUM" and k.d == 1,
        "user_defined_type": lambda k: k.classt() or k.iface() or k.mulnum()})
    B = {"void_type": Kind.void, "undef_type": Kind.undef, "unknown_type": lambda k: False, "numeric_type": lambda k: k.cat == "NUMERIC", "mulnum_type": lambda k: k.cat == "MULNUM",
         "string_type": lambda k: k.cat == "STRING", "class_type": lambda k: k.cat == "CLASS", "interface_type": lambda k: k.cat == "INTERFACE", "any_object_type": lambda k: k.cat == "ANY_OBJECT",
         "numeric_object_type": lambda k: k.base in [n.capitalize() for n in NUM], "integer_type": lambda k: k.base in NUM[:4], "integer_type_within_int": lambda k: k.base in NUM[:3]}
    return P, B
