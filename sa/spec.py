"""The meaning of every opcode, written down per family from the language definition (not from the
implementation header): a C dispatch function generated from the tables below.  It is compiled to IR
and compared with the interpreter; it is never executed."""

T = {"BYTE": ("int8_t", "byte"), "SHORT": ("int16_t", "short"), "INT": ("int32_t", "int"), "LONG": ("int64_t", "long"),
     "FLOAT": ("float", "float"), "DOUBLE": ("double", "double")}
NUM = ("BYTE", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE")
ARITH = ("INT", "LONG", "FLOAT", "DOUBLE")
INTEG = ("INT", "LONG")

O = ["opcode->operand0", "opcode->operand1", "opcode->operand2", "opcode->operand3"]
O0, O1, O2, O3 = O
def var(t, o): return "%s_vars[%s]" % (T[t][1], o)
def obj(o): return "object_vars[%s]" % o
def num(o): return "int_vars[%s]" % o

GROUPS = {}      # opcode -> group
BODY = {}        # opcode -> C text
def op(group, name, body):
    BODY[name] = body; GROUPS[name] = group

THROW = "THROW_;"
def assign(o, v): return "env->assign_object(env, stack, &%s, %s);" % (obj(o), v)
LEN = lambda a: "(*(int32_t*)((char*)(%s) + LO_))" % a
DATA = lambda ct, a: "((%s*)((char*)(%s) + DO_))" % (ct, a)
def elem(ct, a, i, good):
    """array access: defined, 0 <= index < length"""
    return "void* a = %s; int32_t i = %s; if (a == 0) { %s } else if (0 <= i && i < %s) { %s } else { %s }" % (a, i, THROW, LEN("a"), good, THROW)
TYPE = lambda o: "TYPE_((int32_t)%s)" % o
FIELD = "int32_t off = FIELD_((int32_t)%s, (int32_t)(uint16_t)%s)->offset;" % (O2, O3)
def field(o, good):
    return "void* o = %s; %s if (o == 0) { %s } else { %s }" % (obj(o), FIELD, THROW, good)
FA = lambda ct: "((%s*)((char*)o + DO_ + off))" % ct
CVAR = lambda a, b: "CVAR_((int32_t)%s, (int32_t)%s)" % (a, b)
METHOD = "void* m = METHOD_((int32_t)%s, (int32_t)%s);" % (O0, O1)
CONSTSTR = lambda o: "(&current_basic_type->constant_strings[(int32_t)%s])" % o

def loop(n, body): return "int32_t n = %s; for (int32_t k = 0; k < n; k++) { %s }" % (n, body)

def build():
    # ---- control
    g = "flow"
    op(g, "END_ARGS", "")
    op(g, "END_METHOD", "goto END_;")
    op(g, "GOTO", "pc = %s; continue;" % O0)
    op(g, "IF_EQ_ZERO", "if (%s == 0) { pc = %s; continue; }" % (num(O1), O0))
    op(g, "IF_NE_ZERO", "if (%s != 0) { pc = %s; continue; }" % (num(O1), O0))
    trace = "env->set_exception(env, stack, env->new_stack_trace_no_mortal(env, stack, env->get_exception(env, stack), current_method, (int32_t)%s));" % O2
    g = "exception"
    op(g, "GOTO_END_OF_EVAL_ON_EXCEPTION", "if (error_id) { eval_error_id = error_id; error_id = 0; %s pc = %s; continue; }" % (trace, O0))
    op(g, "GOTO_END_OF_METHOD_ON_EXCEPTION", "if (error_id) { %s pc = %s; continue; }" % (trace, O0))
    op(g, "CLEAR_EVAL_ERROR_ID", "eval_error_id = 0;")
    op(g, "GET_EVAL_ERROR_ID", "%s = eval_error_id;" % num(O0))
    op(g, "SET_ERROR_ID_BY_TYPE", "error_id = %s;" % O0)
    op(g, "SET_ERROR_ID", "error_id = %s;" % num(O0))
    op(g, "GET_EXCEPTION_VAR", assign(O0, "env->get_exception(env, stack)"))
    op(g, "SET_EXCEPTION_VAR", "env->set_exception(env, stack, %s);" % obj(O0))
    op(g, "SET_EXCEPTION_VAR_UNDEF", "env->set_exception(env, stack, 0);")
    g = "scope"
    op(g, "PUSH_MORTAL", "mortal_stack[mortal_stack_top] = %s; mortal_stack_top = mortal_stack_top + 1;" % O0)
    op(g, "LEAVE_SCOPE", "env->api->internal->leave_scope_local(env, stack, object_vars, mortal_stack, &mortal_stack_top, (int32_t)%s);" % O0)
    # ---- moves
    g = "move"
    for t in NUM:
        ct, v = T[t]
        op(g, "MOVE_" + t, "%s = %s;" % (var(t, O0), var(t, O1)))
        op(g, "MOVE_%s_ZERO" % t, "%s = 0;" % var(t, O0))
        op("mulnum", "MOVE_MULNUM_" + t, loop(O2, "(&%s)[k] = (&%s)[k];" % (var(t, O0), var(t, O1))))
        op("mulnum", "MOVE_MULNUM_%s_ZERO" % t, loop(O2, "(&%s)[k] = 0;" % var(t, O0)))
    op(g, "MOVE_CONSTANT_BYTE", "%s = (int8_t)(uint8_t)%s;" % (var("BYTE", O0), O1))
    op(g, "MOVE_CONSTANT_INT", "%s = (int32_t)%s;" % (var("INT", O0), O1))
    op(g, "MOVE_CONSTANT_LONG", "%s = *(int64_t*)&%s;" % (var("LONG", O0), O1))
    op(g, "MOVE_CONSTANT_FLOAT", "SPVM_VALUE v; v.ival = (int32_t)%s; %s = v.fval;" % (O1, var("FLOAT", O0)))
    op(g, "MOVE_CONSTANT_DOUBLE", "%s = *(double*)&%s;" % (var("DOUBLE", O0), O1))
    op(g, "MOVE_REF", "ref_vars[%s] = ref_vars[%s];" % (O0, O1))
    op("assign", "MOVE_OBJECT", assign(O0, obj(O1)))
    op("assign", "MOVE_OBJECT_UNDEF", assign(O0, "0"))
    op("types", "MOVE_OBJECT_WITH_TYPE_CHECK", "void* o = %s; if (env->isa(env, stack, o, %s, (int32_t)%s)) { %s } else { %s }" % (obj(O1), TYPE(O2), O3, assign(O0, "o"), THROW))
    op("types", "MOVE_OBJECT_CHECK_READ_ONLY_STRING", "void* o = %s; if (o && !env->is_string(env, stack, o)) { %s } else if (o && env->is_read_only(env, stack, o)) { %s } else { %s }" % (obj(O1), THROW, THROW, assign(O0, "o")))
    # ---- arithmetic
    g = "arith"
    for t in ARITH:
        d, a, b = var(t, O0), var(t, O1), var(t, O2)
        for n, o in (("ADD", "+"), ("SUBTRACT", "-"), ("MULTIPLY", "*")): op(g, "%s_%s" % (n, t), "%s = %s %s %s;" % (d, a, o, b))
        op(g, "NEGATE_" + t, "%s = -%s;" % (d, a))
        if t in ("FLOAT", "DOUBLE"): op(g, "DIVIDE_" + t, "%s = %s / %s;" % (d, a, b))
        op("compare", "CONDITION_EVALUATION_" + t, "%s = %s;" % (num(O0), a if t == "INT" else "(%s != 0)" % a))
        for n, o in (("EQ", "=="), ("NE", "!="), ("GT", ">"), ("GE", ">="), ("LT", "<"), ("LE", "<=")):
            op("compare", "NUMERIC_COMPARISON_%s_%s" % (n, t), "%s = (%s %s %s);" % (num(O0), a, o, b))
        op("compare", "NUMERIC_COMPARISON_CMP_" + t, "if (%s > %s) %s = 1; else if (%s < %s) %s = -1; else %s = 0;" % (a, b, num(O0), a, b, num(O0), num(O0)))
    for t in INTEG:
        d, a, b = var(t, O0), var(t, O1), var(t, O2)
        ct = T[t][0]; u = "u" + ct
        def div(good): return "if (%s == 0) { %s } else { %s }" % (b, THROW, good)
        op("divide", "DIVIDE_" + t, div("if (%s == -1) %s = 0 - (%s)%s; else %s = %s / %s;" % (b, d, u, a, d, a, b)))
        op("divide", "DIVIDE_UNSIGNED_" + t, div("%s = (%s)%s / (%s)%s;" % (d, u, a, u, b)))
        op("divide", "MODULO_UNSIGNED_" + t, div("%s = (%s)%s %% (%s)%s;" % (d, u, a, u, b)))
        op("divide", "MODULO_" + t, div("%s r; if (%s == -1) r = 0; else r = %s %% %s; if (r != 0 && ((%s < 0) != (%s < 0))) r += %s; %s = r;" % (ct, b, a, b, a, b, b, d)))
        s = num(O2)
        op(g, "LEFT_SHIFT_" + t, "%s = %s << %s;" % (d, a, s))
        op(g, "RIGHT_ARITHMETIC_SHIFT_" + t, "%s = %s >> %s;" % (d, a, s))
        op(g, "RIGHT_LOGICAL_SHIFT_" + t, "%s = (%s)%s >> %s;" % (d, u, a, s))
        for n, o in (("AND", "&"), ("OR", "|"), ("XOR", "^")): op(g, "BIT_%s_%s" % (n, t), "%s = %s %s %s;" % (d, a, o, b))
        op(g, "BIT_NOT_" + t, "%s = ~%s;" % (d, a))
    g = "compare"
    op(g, "CONDITION_EVALUATION_OBJECT", "%s = (%s != 0);" % (num(O0), obj(O1)))
    op(g, "CONDITION_EVALUATION_REF", "%s = (ref_vars[%s] != 0);" % (num(O0), O1))
    op(g, "CONDITION_EVALUATION_BOOL_OBJECT", "%s = (env->get_bool_object_value(env, stack, %s) != 0);" % (num(O0), obj(O1)))
    for n, o in (("EQ", "=="), ("NE", "!=")):
        op(g, "NUMERIC_COMPARISON_%s_OBJECT" % n, "%s = (%s %s %s);" % (num(O0), obj(O1), o, obj(O2)))
        op(g, "NUMERIC_COMPARISON_%s_REF" % n, "%s = (ref_vars[%s] %s ref_vars[%s]);" % (num(O0), O1, o, O2))
    op(g, "IS_UNDEF", "%s = (%s == 0);" % (num(O0), obj(O1)))
    op(g, "IS_NOT_UNDEF", "%s = (%s != 0);" % (num(O0), obj(O1)))
    g = "string"
    for n, r in (("EQ", "c == 0"), ("NE", "c != 0"), ("GT", "c > 0"), ("GE", "c >= 0"), ("LT", "c < 0"), ("LE", "c <= 0"), ("CMP", "c")):
        op(g, "STRING_COMPARISON_" + n, """void* a = %s; void* b = %s; int32_t c;
          if (a == 0) { if (b == 0) c = 0; else c = -1; } else if (b == 0) c = 1;
          else { int32_t p = %s, q = %s; const char* s = env->get_chars(env, stack, a); const char* t = env->get_chars(env, stack, b);
            int32_t m = memcmp(s, t, p < q ? p : q);
            if (m < 0) c = -1; else if (m > 0) c = 1; else if (p < q) c = -1; else if (p > q) c = 1; else c = 0; }
          %s = %s;""" % (obj(O1), obj(O2), LEN("a"), LEN("b"), num(O0), r))
    op(g, "STRING_CONCAT", "void* a = %s; void* b = %s; if (a == 0) { %s } else if (b == 0) { %s } else { void* c = env->concat_no_mortal(env, stack, a, b); %s }" % (obj(O1), obj(O2), THROW, THROW, assign(O0, "c")))
    op(g, "STRING_LENGTH", "void* a = %s; if (a) { %s = %s; } else { %s = 0; }" % (obj(O1), num(O0), LEN("a"), num(O0)))
    op(g, "IS_READ_ONLY", "%s = env->is_read_only(env, stack, %s);" % (num(O0), obj(O1)))
    op(g, "MAKE_READ_ONLY", "env->make_read_only(env, stack, %s);" % obj(O0))
    op(g, "PRINT", "env->print(env, stack, %s);" % obj(O0))
    op(g, "SAY", "env->say(env, stack, %s);" % obj(O0))
    op(g, "WARN", "env->warn(env, stack, %s, current_basic_type->name, current_method->name, current_basic_type->file, (int32_t)%s);" % (obj(O0), O1))
    # ---- creation
    g = "create"
    def made(new, extra=""): return "void* o = %s; if (o == 0) { %s } else { %s %s }" % (new, THROW, extra, assign(O0, "o"))
    def made_len(l, new): return "int32_t n = %s; if (n < 0) { %s } else { %s }" % (l, THROW, made(new))
    op(g, "NEW_OBJECT", made("env->new_object_no_mortal(env, stack, %s)" % TYPE(O1)))
    op(g, "NEW_OBJECT_ARRAY", made_len(num(O2), "env->new_object_array_no_mortal(env, stack, %s, n)" % TYPE(O1)))
    op(g, "NEW_MULNUM_ARRAY", made_len(num(O2), "env->new_mulnum_array_no_mortal(env, stack, %s, n)" % TYPE(O1)))
    op(g, "NEW_MULDIM_ARRAY", made_len(num(O2), "env->new_muldim_array_no_mortal(env, stack, %s, (int32_t)%s, n)" % (TYPE(O1), O3)))
    for t in NUM: op(g, "NEW_%s_ARRAY" % t, made_len(num(O1), "env->new_%s_array_no_mortal(env, stack, n)" % T[t][1]))
    op(g, "NEW_STRING", made("env->new_string_no_mortal(env, stack, %s->value, %s->length)" % (CONSTSTR(O1), CONSTSTR(O1)), "env->make_read_only(env, stack, o);"))
    op(g, "NEW_STRING_LEN", made_len(num(O1), "env->new_string_no_mortal(env, stack, 0, n)"))
    # ---- arrays
    g = "array"
    for t in NUM:
        ct = T[t][0]
        op(g, "GET_ARRAY_ELEMENT_" + t, elem(ct, obj(O1), num(O2), "%s = %s[i];" % (var(t, O0), DATA(ct, "a"))))
        op(g, "SET_ARRAY_ELEMENT_" + t, elem(ct, obj(O0), num(O1), "%s[i] = %s;" % (DATA(ct, "a"), var(t, O2))))
        flen, fidx = "(((int32_t)%s & 0xFF) + 1)" % O3, "((int32_t)%s >> 8)" % O3
        op(g, "GET_MULNUM_ARRAY_" + t, "int32_t n = (int32_t)%s; " % O3 + elem(ct, obj(O1), num(O2), "for (int32_t k = 0; k < n; k++) { (&%s)[k] = %s[n * i + k]; }" % (var(t, O0), DATA(ct, "a"))))
        op(g, "SET_MULNUM_ARRAY_" + t, "int32_t n = (int32_t)%s; " % O3 + elem(ct, obj(O0), num(O1), "for (int32_t k = 0; k < n; k++) { %s[n * i + k] = (&%s)[k]; }" % (DATA(ct, "a"), var(t, O2))))
        op(g, "GET_MULNUM_ARRAY_FIELD_" + t, elem(ct, obj(O1), num(O2), "%s = %s[%s * i + %s];" % (var(t, O0), DATA(ct, "a"), flen, fidx)))
        op(g, "SET_MULNUM_ARRAY_FIELD_" + t, elem(ct, obj(O0), num(O1), "%s[%s * i + %s] = %s;" % (DATA(ct, "a"), flen, fidx, var(t, O2))))
    op(g, "GET_ARRAY_ELEMENT_OBJECT", elem("void*", obj(O1), num(O2), assign(O0, DATA("void*", "a") + "[i]")))
    put = "env->assign_object(env, stack, %s + i, %%s);" % DATA("void*", "a")
    op(g, "SET_ARRAY_ELEMENT_OBJECT", elem("void*", obj(O0), num(O1), put % obj(O2)))
    op(g, "SET_ARRAY_ELEMENT_UNDEF", elem("void*", obj(O0), num(O1), put % "0"))
    op("types", "SET_ARRAY_ELEMENT_OBJECT_CHECK_TYPE", elem("void*", obj(O0), num(O1), "void* e = %s; if (env->elem_isa(env, stack, a, e)) { %s } else { %s }" % (obj(O2), put % "e", THROW)))
    op(g, "ARRAY_LENGTH", "void* a = %s; if (a == 0) { %s } else { %s = %s; }" % (obj(O1), THROW, num(O0), LEN("a")))
    # ---- fields
    g = "field"
    for t in NUM:
        ct = T[t][0]
        op(g, "GET_FIELD_" + t, field(O1, "%s = *%s;" % (var(t, O0), FA(ct))))
        op(g, "SET_FIELD_" + t, field(O0, "*%s = %s;" % (FA(ct), var(t, O1))))
        op(g, "GET_CLASS_VAR_" + t, "%s = env->get_class_var_%s(env, stack, %s);" % (var(t, O0), T[t][1], CVAR(O1, O2)))
        op(g, "SET_CLASS_VAR_" + t, "env->set_class_var_%s(env, stack, %s, %s);" % (T[t][1], CVAR(O0, O1), var(t, O2)))
        op("mulnum", "GET_MULNUM_FIELD_" + t, "%s = (&%s)[(int32_t)%s];" % (var(t, O0), var(t, O1), O2))
        op("mulnum", "SET_MULNUM_FIELD_" + t, "(&%s)[(int32_t)%s] = %s;" % (var(t, O0), O2, var(t, O1)))
        op("mulnum", "REF_" + t, "ref_vars[%s] = &%s;" % (O0, var(t, O1)))
        op("mulnum", "GET_DEREF_" + t, "%s = *(%s*)ref_vars[%s];" % (var(t, O0), ct, O1))
        op("mulnum", "SET_DEREF_" + t, "*(%s*)ref_vars[%s] = %s;" % (ct, O0, var(t, O1)))
        op("mulnum", "DEREF_MULNUM_" + t, loop(O3, "(&%s)[k] = ((%s*)ref_vars[%s])[k];" % (var(t, O0), ct, O1)))
        op("mulnum", "GET_MULNUM_FIELD_DEREF_" + t, "%s = ((%s*)ref_vars[%s])[(int32_t)%s];" % (var(t, O0), ct, O1, O2))
        op("mulnum", "SET_MULNUM_FIELD_DEREF_" + t, "((%s*)ref_vars[%s])[(int32_t)%s] = %s;" % (ct, O0, O2, var(t, O1)))
    unweak = "(void*)(*(intptr_t*)((char*)o + DO_ + off) & ~(intptr_t)1)"
    op(g, "GET_FIELD_OBJECT", field(O1, assign(O0, unweak)))
    op(g, "SET_FIELD_OBJECT", field(O0, "env->assign_object(env, stack, %s, %s);" % (FA("void*"), obj(O1))))
    op(g, "SET_FIELD_UNDEF", field(O0, "env->assign_object(env, stack, %s, 0);" % FA("void*")))
    op(g, "WEAKEN_FIELD", field(O0, "if (env->weaken(env, stack, %s) != 0) { %s }" % (FA("void*"), THROW)))
    op(g, "UNWEAKEN_FIELD", field(O0, "env->unweaken(env, stack, %s);" % FA("void*")))
    op(g, "ISWEAK_FIELD", field(O1, "%s = env->isweak(env, stack, %s);" % (num(O0), FA("void*"))))
    op(g, "GET_CLASS_VAR_OBJECT", "void* v = env->get_class_var_object(env, stack, %s); %s" % (CVAR(O1, O2), assign(O0, "v")))
    op(g, "SET_CLASS_VAR_OBJECT", "void** r = env->get_class_var_object_ref(env, stack, %s); env->assign_object(env, stack, r, %s);" % (CVAR(O0, O1), obj(O2)))
    op(g, "SET_CLASS_VAR_UNDEF", "void** r = env->get_class_var_object_ref(env, stack, %s); env->assign_object(env, stack, r, 0);" % CVAR(O0, O1))
    # ---- types
    g = "types"
    for n, f in (("ISA", "isa"), ("IS_TYPE", "is_type")):
        op(g, n, "void* o = %s; if (o == 0) { %s = 0; } else { %s = env->%s(env, stack, o, %s, (int32_t)%s); }" % (obj(O1), num(O0), num(O0), f, TYPE(O2), O3))
    op(g, "ISA_ERROR", "%s = env->api->type->can_assign(env->runtime, %s, (int32_t)%s, 0, %s, 0, 0);" % (num(O0), TYPE(O2), O3, TYPE(num(O1))))
    op(g, "IS_ERROR", "if ((int32_t)%s == 0) { %s = (%s == %s); } else { %s = 0; }" % (O3, num(O0), TYPE(num(O1)), TYPE(O2), num(O0)))
    op(g, "CAN", "%s = env->get_instance_method(env, stack, %s, %s->value) != 0;" % (num(O0), obj(O1), CONSTSTR(O2)))
    op(g, "GET_BASIC_TYPE_ID", "%s = env->api->basic_type->get_id(env->runtime, %s);" % (num(O0), TYPE(O1)))
    op(g, "TYPE_NAME", "void* o = %s; if (o == 0) { %s } else { void* s = env->get_type_name_no_mortal(env, stack, o); %s }" % (obj(O1), assign(O0, "0"), assign(O0, "s")))
    op(g, "DUMP", assign(O0, "env->dump_no_mortal(env, stack, %s)" % obj(O1)))
    op(g, "COPY", assign(O0, "env->copy_no_mortal(env, stack, %s)" % obj(O1)))
    # ---- conversions
    g = "convert"
    for s in NUM:
        for d in NUM:
            if s != d: op(g, "TYPE_CONVERSION_%s_TO_%s" % (s, d), "%s = (%s)%s;" % (var(d, O0), T[d][0], var(s, O1)))
        fmt = {"BYTE": "PRId8", "SHORT": "PRId16", "INT": "PRId32", "LONG": "PRId64"}.get(s)
        fmt = '"%%" %s' % fmt if fmt else '"%g"'
        op(g, "TYPE_CONVERSION_%s_TO_STRING" % s, """char* b = env->get_stack_tmp_buffer(env, stack); snprintf(b, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, %s, %s);
          void* s = env->new_string_no_mortal(env, stack, b, (int32_t)strlen(b)); %s""" % (fmt, var(s, O1), assign(O0, "s")))
        if s in ("FLOAT", "DOUBLE"): num_ = "v = %s(c, &endp_);" % ("strtof" if s == "FLOAT" else "strtod")
        elif s == "LONG": num_ = "v = strtoll(c, &endp_, 10);"
        else:
            m = {"BYTE": "INT8", "SHORT": "INT16", "INT": "INT32"}[s]
            num_ = "int64_t l = strtoll(c, &endp_, 10); v = l < %s_MIN ? %s_MIN : l > %s_MAX ? %s_MAX : l;" % (m, m, m, m)
        op(g, "TYPE_CONVERSION_STRING_TO_" + s, "void* s = %s; %s v = 0; if (s) { char* endp_; const char* c = env->get_chars(env, stack, s); %s } %s = v;" % (obj(O1), T[s][0], num_, var(s, O0)))
        cls = s.capitalize()
        op(g, "TYPE_CONVERSION_%s_TO_%s_OBJECT" % (s, s), "void* o = env->new_object_no_mortal(env, stack, TYPE_(SPVM_NATIVE_C_BASIC_TYPE_ID_%s_CLASS)); *%s = %s; %s" % (s, DATA(T[s][0], "o"), var(s, O1), assign(O0, "o")))
        op(g, "TYPE_CONVERSION_%s_OBJECT_TO_%s" % (s, s), 'void* o = %s; if (o == 0) { %s } else if (env->is_type_by_name(env, stack, o, "%s", 0)) { %s = *%s; } else { %s }' % (obj(O1), THROW, cls, var(s, O0), DATA(T[s][0], "o"), THROW))
    op(g, "TYPE_CONVERSION_STRING_TO_BYTE_ARRAY", """void* s = %s; if (s == 0) { %s } else { int32_t n = env->length(env, stack, s); const char* c = env->get_chars(env, stack, s);
       void* a = env->new_byte_array_no_mortal(env, stack, n); int8_t* d = env->get_elems_byte(env, stack, a); memcpy(d, c, n); %s }""" % (obj(O1), assign(O0, "0"), assign(O0, "a")))
    op(g, "TYPE_CONVERSION_BYTE_ARRAY_TO_STRING", """void* a = %s; if (a == 0) { %s } else { int32_t n = env->length(env, stack, a); int8_t* d = env->get_elems_byte(env, stack, a);
       void* s = env->new_string_no_mortal(env, stack, (const char*)d, n); %s }""" % (obj(O1), assign(O0, "0"), assign(O0, "s")))
    # ---- calls
    g = "call"
    for t in NUM:
        ct = T[t][0]
        op(g, "GET_STACK_" + t, "%s = *(%s*)&stack[%s & 0xFF];" % (var(t, O0), ct, O3))
        op(g, "SET_STACK_" + t, "*(%s*)&stack[%s] = %s;" % (ct, O3, var(t, O0)))
        op(g, "GET_STACK_MULNUM_" + t, loop("%s >> 8" % O3, "(&%s)[k] = *(%s*)&stack[((int32_t)%s & 0xFF) + k];" % (var(t, O0), ct, O3)))
        op(g, "SET_STACK_MULNUM_" + t, loop(O1, "*(%s*)&stack[(int32_t)%s + k] = (&%s)[k];" % (ct, O3, var(t, O0))))
        op(g, "RETURN_" + t, "*(%s*)&stack[0] = %s; pc = %s; continue;" % (ct, var(t, O0), O1))
        op(g, "RETURN_MULNUM_" + t, loop(O2, "*(%s*)&stack[k] = (&%s)[k];" % (ct, var(t, O0))) + " pc = %s; continue;" % O1)
    op(g, "GET_STACK_OBJECT", assign(O0, "*(void**)&stack[%s & 0xFF]" % O3))
    op(g, "GET_STACK_REF", "ref_vars[%s] = *(void**)&stack[%s & 0xFF];" % (O0, O3))
    op(g, "SET_STACK_OBJECT", "*(void**)&stack[%s] = %s;" % (O3, obj(O0)))
    op(g, "SET_STACK_REF", "*(void**)&stack[%s] = ref_vars[%s];" % (O3, O0))
    op(g, "SET_STACK_UNDEF", "*(void**)&stack[%s] = 0;" % O3)
    op(g, "RETURN_VOID", "pc = %s; continue;" % O1)
    op(g, "RETURN_UNDEF", "*(void**)&stack[0] = 0; pc = %s; continue;" % O1)
    op(g, "RETURN_OBJECT", "void* o = %s; *(void**)&stack[0] = o; if (o) env->api->internal->inc_ref_count(env, stack, o); pc = %s; continue;" % (obj(O0), O1))
    op(g, "ARGS_WIDTH", "%s = env->args_width(env, stack);" % num(O0))
    callm = METHOD + " error_id = env->call_method_no_mortal(env, stack, m, (int32_t)%s);" % O2
    op(g, "CALL_CLASS_METHOD", callm)
    op(g, "CALL_INSTANCE_METHOD_STATIC", callm)
    fmt = lambda: "snprintf(b, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, MSG_, ((SPVM_RUNTIME_METHOD*)m)->current_basic_type->name, ((SPVM_RUNTIME_METHOD*)m)->name); env->set_exception(env, stack, env->new_string_nolen_no_mortal(env, stack, b)); error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;"
    op(g, "CALL_INSTANCE_METHOD", METHOD + """ char* b = env->get_stack_tmp_buffer(env, stack); void* o = *(void**)&stack[0];
      if (o == 0) { %s } else { void* im = env->get_instance_method(env, stack, o, ((SPVM_RUNTIME_METHOD*)m)->name);
      if (im == 0) { %s } else { error_id = env->call_method_no_mortal(env, stack, im, (int32_t)%s); } }""" % (fmt(), fmt(), O2))
    return BODY

SKIP = ("LOOKUP_SWITCH",)

def c_source(ids, headers):
    """ids: opcode name -> number"""
    build()
    o = ['#include "spvm_native.h"', "#include <inttypes.h>", "#include <stdlib.h>", "#include <string.h>", "#include <stdio.h>"]
    o += ['#include "%s"' % h for h in headers]
    o.append('''
#define MSG_ "message"
#define THROW_ { env->set_exception(env, stack, env->new_string_nolen_no_mortal(env, stack, MSG_)); error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS; }
#define TYPE_(x) (env->api->runtime->get_basic_type_by_id(env->runtime, x))
#define FIELD_(t, i) ((SPVM_RUNTIME_FIELD*)env->api->basic_type->get_field_by_index(env->runtime, TYPE_(t), i))
#define CVAR_(t, i) (env->api->basic_type->get_class_var_by_index(env->runtime, TYPE_(t), i))
#define METHOD_(t, i) (env->api->basic_type->get_method_by_index(env->runtime, TYPE_(t), i))
#define DO_ object_data_offset
#define LO_ object_length_offset
int32_t SPEC_(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHOD* current_method, int32_t args_width) {
  SPVM_RUNTIME_BASIC_TYPE* current_basic_type = current_method->current_basic_type;
  SPVM_OPCODE* opcodes = current_method->opcodes; int32_t pc = 0; int32_t error_id = 0; int32_t eval_error_id = 0;
  int32_t mortal_stack_top = 0;
  int32_t* mortal_stack; void** object_vars; void** ref_vars; int8_t* byte_vars; int16_t* short_vars; int32_t* int_vars;
  int64_t* long_vars; float* float_vars; double* double_vars;
  int32_t object_data_offset = env->api->runtime->get_object_data_offset(env->runtime);
  int32_t object_length_offset = env->api->runtime->get_object_length_offset(env->runtime);
  int32_t scope_id = env->enter_scope(env, stack);
  while (1) {
    SPVM_OPCODE* opcode = &(opcodes[pc]);
    switch (opcode->id) {''')
    for n, b in BODY.items():
        if n in ids: o.append("case %d: { %s break; }" % (ids[n], b))
    o.append("""    }
    pc = pc + 1;
  }
 END_:
  if (error_id == 0 && env->api->type->is_object_type(env->runtime, current_method->return_basic_type, current_method->return_type_dimension, current_method->return_type_flag)) {
    void* r = *(void**)&stack[0]; if (r != 0) env->api->internal->dec_ref_count(env, stack, r); }
  env->leave_scope(env, stack, scope_id);
  return error_id;
}""")
    return "\n".join(o)
