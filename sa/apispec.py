"""What the native API functions of spvm_api.c do, written down independently of the implementation
(from the native API documents), as C functions S_<name>.  Compiled to IR for comparison, never run."""
SPEC, GROUP = {}, {}
NUM = (("byte", "int8_t", "bval"), ("short", "int16_t", "sval"), ("int", "int32_t", "ival"), ("long", "int64_t", "lval"), ("float", "float", "fval"), ("double", "double", "dval"))
ID = lambda t: "SPVM_NATIVE_C_BASIC_TYPE_ID_" + t.upper()
FFL = "const char* func_name, const char* file, int32_t line"

def fn(group, name, ret, args, body, stack=True):
    """specification of SPVM_API_<name>"""
    a = ("SPVM_ENV* env, SPVM_VALUE* stack" if stack else "SPVM_ENV* env") + (", " + args if args else "")
    SPEC[name] = "%s S_%s(%s) { %s }" % (ret, name, a, body); GROUP[name] = group

DIE = 'SPVM_API_die(env, stack, "")'
RT = "SPVM_RUNTIME* R = env->runtime; "

def class_vars():
    g = "class_var"
    CV = "SPVM_RUNTIME_CLASS_VAR* class_var"
    for t, ct, m in NUM:
        fn(g, "get_class_var_" + t, ct, CV, "return class_var->data.%s;" % m)
        fn(g, "set_class_var_" + t, "void", CV + ", %s value" % ct, "class_var->data.%s = value;" % m)
    fn(g, "get_class_var_object", "SPVM_OBJECT*", CV, "return (SPVM_OBJECT*)((intptr_t)class_var->data.oval & ~(intptr_t)1);")
    fn(g, "get_class_var_string", "SPVM_OBJECT*", CV, "return (SPVM_OBJECT*)((intptr_t)class_var->data.oval & ~(intptr_t)1);")
    fn(g, "get_class_var_object_ref", "SPVM_OBJECT**", CV, "return (SPVM_OBJECT**)&class_var->data.oval;")
    fn(g, "set_class_var_object", "void", CV + ", SPVM_OBJECT* value", "SPVM_API_assign_object(env, stack, (SPVM_OBJECT**)&class_var->data.oval, value);")
    fn(g, "set_class_var_string", "void", CV + ", SPVM_OBJECT* value", "SPVM_API_set_class_var_object(env, stack, class_var, value);")
    NM = "const char* basic_type_name, const char* class_var_name"
    def look(z): return """*error_id = 0; SPVM_RUNTIME* R = env->runtime;
      SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (b == 0) { *error_id = %s; return %s; }
      SPVM_RUNTIME_CLASS_VAR* v = SPVM_API_BASIC_TYPE_get_class_var_by_name(R, b, class_var_name); if (v == 0) { *error_id = %s; return %s; } """ % (DIE, z, DIE, z)
    members(g + "_by_name", "class_var", NM, look, "SPVM_API_%s_class_var_%s(env, stack, v%s)", "v")
    OT = "SPVM_API_TYPE_is_object_type(R, v->basic_type, v->type_dimension, v->type_flag)"
    fn(g + "_by_name", "get_class_var_object_by_name", "SPVM_OBJECT*", NM + ", int32_t* error_id, " + FFL, look("0") + "if (%s) return SPVM_API_get_class_var_object(env, stack, v); *error_id = %s; return 0;" % (OT, DIE))
    fn(g + "_by_name", "set_class_var_object_by_name", "void", NM + ", SPVM_OBJECT* value, int32_t* error_id, " + FFL, look("") + "if (%s) SPVM_API_set_class_var_object(env, stack, v, value); else *error_id = %s;" % (OT, DIE))
    fn(g + "_by_name", "get_class_var_string_by_name", "SPVM_OBJECT*", NM + ", int32_t* error_id, " + FFL, "return SPVM_API_get_class_var_object_by_name(env, stack, basic_type_name, class_var_name, error_id, func_name, file, line);")
    fn(g + "_by_name", "set_class_var_string_by_name", "void", NM + ", SPVM_OBJECT* value, int32_t* error_id, " + FFL, "SPVM_API_set_class_var_object_by_name(env, stack, basic_type_name, class_var_name, value, error_id, func_name, file, line);")

def members(g, kind, nm, look, call, v):
    NT = "SPVM_API_TYPE_is_numeric_type(R, %s->basic_type, %s->type_dimension, %s->type_flag)" % (v, v, v)
    for k, (t, ct, m) in enumerate(NUM):
        # a getter accepts its own type and the smaller ones, a setter its own type and the larger ones
        get = "".join("if (%s->basic_type->id == %s) return %s; " % (v, ID(u), call % ("get", u, "")) for u, _, _ in NUM[:k + 1])
        fn(g, "get_%s_%s_by_name" % (kind, t), ct, nm + ", int32_t* error_id, " + FFL, look("0") + "if (%s) { %s } *error_id = %s; return 0;" % (NT, get, DIE))
        put = "".join("if (%s->basic_type->id == %s) { %s; return; } " % (v, ID(u), call % ("set", u, ", value")) for u, _, _ in NUM[k:])
        fn(g, "set_%s_%s_by_name" % (kind, t), "void", nm + ", %s value, int32_t* error_id, " % ct + FFL, look("") + "if (%s) { %s } *error_id = %s;" % (NT, put, DIE))

def fields():
    g = "field"
    F = "SPVM_OBJECT* object, SPVM_RUNTIME_FIELD* field"
    AT = "((char*)object + SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + field->offset)"
    for t, ct, m in NUM:
        fn(g, "get_field_" + t, ct, F, "return *(%s*)%s;" % (ct, AT))
        fn(g, "set_field_" + t, "void", F + ", %s value" % ct, "*(%s*)%s = value;" % (ct, AT))
    for t in ("object", "string"):
        fn(g, "get_field_" + t, "SPVM_OBJECT*", F, "return (SPVM_OBJECT*)(*(intptr_t*)%s & ~(intptr_t)1);" % AT)
    fn(g, "set_field_object", "void", F + ", SPVM_OBJECT* value", "SPVM_API_assign_object(env, stack, (SPVM_OBJECT**)%s, value);" % AT)
    fn(g, "set_field_string", "void", F + ", SPVM_OBJECT* value", "SPVM_API_set_field_object(env, stack, object, field, value);")
    fn(g, "get_field_object_ref", "SPVM_OBJECT**", F, "return (SPVM_OBJECT**)%s;" % AT)
    NM = "SPVM_OBJECT* object, const char* field_name"
    def look(z): return """*error_id = 0; SPVM_RUNTIME* R = env->runtime;
      if (object == 0) { *error_id = %s; return %s; }
      if (!SPVM_API_TYPE_is_class_type(R, object->basic_type, object->type_dimension, 0)) { *error_id = %s; return %s; }
      SPVM_RUNTIME_FIELD* v = SPVM_API_get_field(env, stack, object, field_name); if (v == 0) { *error_id = %s; return %s; } """ % (DIE, z, DIE, z, DIE, z)
    g = "field_by_name"
    members(g, "field", NM, look, "SPVM_API_%s_field_%s(env, stack, object, v%s)", "v")
    OT = "SPVM_API_TYPE_is_object_type(R, v->basic_type, v->type_dimension, v->type_flag)"
    E = ", int32_t* error_id, " + FFL
    fn(g, "get_field_object_by_name", "SPVM_OBJECT*", NM + E, look("0") + "if (%s) return SPVM_API_get_field_object(env, stack, object, v); *error_id = %s; return 0;" % (OT, DIE))
    fn(g, "get_field_object_ref_by_name", "SPVM_OBJECT**", NM + E, look("0") + "if (%s) return SPVM_API_get_field_object_ref(env, stack, object, v); *error_id = %s; return 0;" % (OT, DIE))
    fn(g, "set_field_object_by_name", "void", NM + ", SPVM_OBJECT* value" + E, look("") + "if (%s) SPVM_API_set_field_object(env, stack, object, v, value); else *error_id = %s;" % (OT, DIE))
    fn(g, "get_field_string_by_name", "SPVM_OBJECT*", NM + E, "return SPVM_API_get_field_object_by_name(env, stack, object, field_name, error_id, func_name, file, line);")
    fn(g, "set_field_string_by_name", "void", NM + ", SPVM_OBJECT* value" + E, "SPVM_API_set_field_object_by_name(env, stack, object, field_name, value, error_id, func_name, file, line);")
    fn(g, "get_field_object_defined_and_has_pointer_by_name", "SPVM_OBJECT*", NM + E, """*error_id = 0; SPVM_OBJECT* o = SPVM_API_get_field_object_by_name(env, stack, object, field_name, error_id, func_name, file, line);
      if (*error_id) return 0; if (o == 0) { *error_id = %s; return 0; } if (SPVM_API_get_pointer(env, stack, o) == 0) *error_id = %s; return o;""" % (DIE, DIE))

E_ = ", int32_t* error_id, " + FFL
O = "SPVM_OBJECT* object"
BT = "SPVM_RUNTIME_BASIC_TYPE* basic_type"
OFF = "SPVM_API_RUNTIME_get_object_data_offset(env->runtime)"
DATA = "((char*)%s + " + OFF + ")"
OBTYPE = "SPVM_API_TYPE_is_object_type(env->runtime, %s->basic_type, %s->type_dimension, %s->type_flag)"

def wrapper(group, name, args, ret="SPVM_OBJECT*"):
    """NAME: NAME_no_mortal with the result pushed on the mortal stack"""
    names = ", ".join(a.split()[-1].strip("*") for a in args.split(", "))
    fn(group, name, ret, args, "SPVM_OBJECT* o = SPVM_API_%s_no_mortal(env, stack, %s); SPVM_API_push_mortal(env, stack, o); return o;" % (name, names))

def creation():
    g = "creation"
    for t, ct, m in NUM:
        fn(g, "new_%s_array_no_mortal" % t, "SPVM_OBJECT*", "int32_t length", """if (length < 0) return 0;
          return SPVM_API_new_object_common(env, stack, (size_t)%s + sizeof(%s) * ((size_t)length + 1), SPVM_API_get_basic_type_by_id(env, stack, %s), 1, length, 0);""" % (OFF, ct, ID(t)))
        wrapper(g, "new_%s_array" % t, "int32_t length")
    fn(g, "new_string_array_no_mortal", "SPVM_OBJECT*", "int32_t length", "return SPVM_API_new_object_array_no_mortal(env, stack, SPVM_API_get_basic_type_by_id(env, stack, %s), length);" % ID("string"))
    wrapper(g, "new_string_array", "int32_t length")
    fn(g, "new_object_no_mortal", "SPVM_OBJECT*", BT, """assert(basic_type); assert(basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS);
      return SPVM_API_new_object_common(env, stack, (size_t)%s + basic_type->fields_size + 1, basic_type, 0, basic_type->fields_length, 0);""" % OFF)
    wrapper(g, "new_object", BT)
    fn(g, "new_pointer_object_no_mortal", "SPVM_OBJECT*", BT + ", void* pointer", "SPVM_OBJECT* o = SPVM_API_new_object_no_mortal(env, stack, basic_type); if (o) o->pointer = pointer; return o;")
    wrapper(g, "new_pointer_object", BT + ", void* pointer")
    fn(g, "new_string_no_mortal", "SPVM_OBJECT*", "const char* bytes, int32_t length", """if (length < 0) return 0;
      SPVM_OBJECT* o = SPVM_API_new_object_common(env, stack, (size_t)%s + ((size_t)length + 1), SPVM_API_get_basic_type_by_id(env, stack, %s), 0, length, 0);
      if (o && bytes && length > 0) memcpy(%s, bytes, length); return o;""" % (OFF, ID("string"), DATA % "o"))
    wrapper(g, "new_string", "const char* bytes, int32_t length")
    fn(g, "new_string_nolen_no_mortal", "SPVM_OBJECT*", "const char* bytes", """int32_t length = strlen(bytes); SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, 0, length);
      if (o && bytes && length > 0) memcpy(%s, bytes, length); return o;""" % (DATA % "o"))
    wrapper(g, "new_string_nolen", "const char* bytes")
    fn(g, "new_object_array_no_mortal", "SPVM_OBJECT*", BT + ", int32_t length", """if (length < 0) return 0; if (!basic_type) return 0;
      SPVM_OBJECT probe; probe.basic_type = basic_type; probe.type_dimension = 1; if (!SPVM_API_is_object_array(env, stack, &probe)) return 0;
      return SPVM_API_new_object_common(env, stack, (size_t)%s + sizeof(void*) * ((size_t)length + 1), basic_type, 1, length, 0);""" % OFF)
    wrapper(g, "new_object_array", BT + ", int32_t length")
    fn(g, "new_muldim_array_no_mortal", "SPVM_OBJECT*", BT + ", int32_t type_dimension, int32_t length", """if (length < 0) return 0; if (type_dimension < 2) return 0; if (!basic_type) return 0;
      if (basic_type->id == %s) return 0;
      return SPVM_API_new_object_common(env, stack, (size_t)%s + sizeof(void*) * ((size_t)length + 1), basic_type, type_dimension, length, 0);""" % (ID("any_object"), OFF))
    wrapper(g, "new_muldim_array", BT + ", int32_t type_dimension, int32_t length")
    UNIT = "".join("%sif (f == %s) unit = sizeof(%s); " % ("else " if k else "", ID(t), ct) for k, (t, ct, m) in enumerate(NUM)) + "else __builtin_unreachable();"
    fn(g, "new_mulnum_array_no_mortal", "SPVM_OBJECT*", BT + ", int32_t length", """if (length < 0) return 0;
      int32_t f = SPVM_API_BASIC_TYPE_get_field_by_index(env->runtime, basic_type, 0)->basic_type->id; int32_t unit; %s
      return SPVM_API_new_object_common(env, stack, (size_t)%s + (size_t)unit * basic_type->fields_length * ((size_t)length + 1), basic_type, 1, length, 0);""" % (UNIT, OFF))
    wrapper(g, "new_mulnum_array", BT + ", int32_t length")
    fn(g, "new_array_proto_no_mortal", "SPVM_OBJECT*", "SPVM_OBJECT* array, int32_t length", """if (array == 0) return 0; if (!SPVM_API_is_array(env, stack, array)) return 0; if (length < 0) return 0;
      return SPVM_API_new_object_common(env, stack, (size_t)%s + (size_t)SPVM_API_get_elem_size(env, stack, array) * ((size_t)length + 1), array->basic_type, array->type_dimension, length, 0);""" % OFF)
    wrapper(g, "new_array_proto", "SPVM_OBJECT* array, int32_t length")
    fn(g, "new_array_proto_element_no_mortal", "SPVM_OBJECT*", "SPVM_OBJECT* element, int32_t length", """if (element == 0) return 0; if (length < 0) return 0;
      return SPVM_API_new_object_common(env, stack, (size_t)%s + sizeof(void*) * ((size_t)length + 1), element->basic_type, element->type_dimension + 1, length, 0);""" % OFF)
    wrapper(g, "new_array_proto_element", "SPVM_OBJECT* element, int32_t length")
    fn(g, "new_object_common", "SPVM_OBJECT*", "size_t alloc_size, SPVM_RUNTIME_BASIC_TYPE* basic_type, int32_t type_dimension, int32_t length, int32_t flag", """SPVM_OBJECT* o = SPVM_API_new_memory_block(env, stack, alloc_size);
      if (o) { o->basic_type = basic_type; o->type_dimension = type_dimension; o->flag = flag; SPVM_API_set_length(env, stack, o, length); } return o;""")
    fn(g, "copy_no_mortal", "SPVM_OBJECT*", O, """if (object == 0) return 0; int32_t length = SPVM_API_length(env, stack, object); SPVM_OBJECT* n;
      if (SPVM_API_is_string(env, stack, object)) { n = SPVM_API_new_string_no_mortal(env, stack, 0, length); memcpy(%s, %s, length); return n; }
      if (SPVM_API_is_numeric_array(env, stack, object) || SPVM_API_is_mulnum_array(env, stack, object)) {
        n = SPVM_API_new_array_proto_no_mortal(env, stack, object, length); memcpy(%s, %s, (size_t)SPVM_API_get_elem_size(env, stack, object) * length); return n; }
      __builtin_unreachable();""" % ((DATA % "n", DATA % "object") * 2))
    wrapper(g, "copy", O)
    g = "memory"
    fn(g, "new_memory_block", "void*", "size_t size", """void* b = SPVM_ALLOCATOR_alloc_memory_block_unmanaged(size); if (b) { SPVM_RUNTIME* R = env->runtime;
      SPVM_MUTEX_lock(R->mutex_atomic); R->memory_blocks_count++; SPVM_MUTEX_unlock(R->mutex_atomic); } return b;""")
    fn(g, "free_memory_block", "void", "void* block", """if (block) { SPVM_RUNTIME* R = env->runtime; SPVM_ALLOCATOR_free_memory_block_unmanaged(block);
      SPVM_MUTEX_lock(R->mutex_atomic); R->memory_blocks_count--; SPVM_MUTEX_unlock(R->mutex_atomic); }""")
    fn(g, "get_memory_blocks_count", "int32_t", "", """SPVM_RUNTIME* R = env->runtime; SPVM_MUTEX_reader_lock(R->mutex_atomic); int32_t n = R->memory_blocks_count; SPVM_MUTEX_reader_unlock(R->mutex_atomic); return n;""")
    g = "creation_by_name"
    def by_name(name, args, call):
        fn(g, name, "void*", "const char* basic_type_name" + args + E_, """*error_id = 0; SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name);
          if (b == 0) { *error_id = %s; return 0; } SPVM_OBJECT* o = %s; if (o == 0) { *error_id = %s; return 0; } return o;""" % (DIE, call, DIE))
    by_name("new_object_by_name", "", "SPVM_API_new_object(env, stack, b)")
    by_name("new_object_array_by_name", ", int32_t length", "SPVM_API_new_object_array(env, stack, b, length)")
    by_name("new_muldim_array_by_name", ", int32_t type_dimension, int32_t length", "SPVM_API_new_muldim_array(env, stack, b, type_dimension, length)")
    by_name("new_mulnum_array_by_name", ", int32_t length", "SPVM_API_new_mulnum_array(env, stack, b, length)")
    fn(g, "new_pointer_object_by_name", "SPVM_OBJECT*", "const char* basic_type_name, void* pointer" + E_, """SPVM_OBJECT* o = SPVM_API_new_object_by_name(env, stack, basic_type_name, error_id, func_name, file, line);
      if (o) o->pointer = pointer; return o;""")

def type_tests():
    g = "type_test"
    cat = "object->basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_"
    I = "int32_t"
    fn(g, "is_array", I, O, "return object && object->type_dimension > 0;")
    fn(g, "is_string", I, O, "return object && object->basic_type->id == %s && object->type_dimension == 0;" % ID("string"))
    fn(g, "is_numeric_array", I, O, "return object && object->type_dimension == 1 && %sNUMERIC;" % cat)
    fn(g, "is_mulnum_array", I, O, "return object && object->type_dimension == 1 && %sMULNUM;" % cat)
    fn(g, "is_class", I, O, "return object && object->type_dimension == 0 && %sCLASS;" % cat)
    fn(g, "is_pointer_class", I, O, "return object && object->type_dimension == 0 && %sCLASS && object->basic_type->is_pointer;" % cat)
    fn(g, "is_object_array", I, O, """if (!object || object->type_dimension == 0) return 0; if (object->type_dimension > 1) return 1;
      return SPVM_API_TYPE_is_object_type(env->runtime, object->basic_type, 0, 0);""")
    sz = "".join("%sif (t == %s) unit = %d; " % ("else " if k else "", ID(t), z) for k, (t, z) in enumerate((("byte", 1), ("short", 2), ("int", 4), ("float", 4), ("long", 8), ("double", 8))))
    fn(g, "get_elem_size", I, "SPVM_OBJECT* array", """if (!array) return 0; if (SPVM_API_is_string(env, stack, array)) return 1; if (SPVM_API_is_object_array(env, stack, array)) return sizeof(void*);
      int32_t unit, t; if (SPVM_API_is_numeric_array(env, stack, array)) { assert(array->type_dimension == 1); t = array->basic_type->id; %s else __builtin_unreachable(); return unit; }
      if (SPVM_API_is_mulnum_array(env, stack, array)) { assert(array->type_dimension == 1); t = SPVM_API_BASIC_TYPE_get_field_by_index(env->runtime, array->basic_type, 0)->basic_type->id; %s else __builtin_unreachable(); return unit * array->basic_type->fields_length; }
      __builtin_unreachable();""" % (sz, sz))
    fn(g, "isa", I, O + ", " + BT + ", int32_t type_dimension", """if (object == 0) return 1; if (basic_type == 0) return 0;
      return SPVM_API_TYPE_can_assign(env->runtime, basic_type, type_dimension, 0, object->basic_type, object->type_dimension, 0);""")
    fn(g, "isa_by_name", I, O + ", const char* basic_type_name, int32_t type_dimension", """SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (!b) return 0; return SPVM_API_isa(env, stack, object, b, type_dimension);""")
    fn(g, "is_type", I, O + ", " + BT + ", int32_t type_dimension", "return object->basic_type->id == basic_type->id && object->type_dimension == type_dimension;")
    fn(g, "is_type_by_name", I, O + ", const char* basic_type_name, int32_t type_dimension", """SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (!b) return 0; return SPVM_API_is_type(env, stack, object, b, type_dimension);""")
    fn(g, "elem_isa", I, "SPVM_OBJECT* array, SPVM_OBJECT* element", "assert(array->type_dimension > 0); return SPVM_API_isa(env, stack, element, array->basic_type, array->type_dimension - 1);")
    fn(g, "get_object_basic_type_id", I, O, "return object->basic_type->id;")
    fn(g, "get_object_basic_type", "SPVM_RUNTIME_BASIC_TYPE*", O, "return object->basic_type;")
    fn(g, "get_object_basic_type_name", "const char*", O, "return object->basic_type->name;")
    fn(g, "get_object_type_dimension", I, O, "return object->type_dimension;")
    fn(g, "is_binary_compatible_stack", I, "", "return stack[SPVM_API_C_STACK_INDEX_ENV].oval == env;")
    fn(g, "is_binary_compatible_object", I, O, """if (!SPVM_API_is_binary_compatible_stack(env, stack)) return 0; int32_t t = object->basic_type->id;
      if (%s) return 1; return object->basic_type->current_runtime == env->runtime;""" % " || ".join("t == " + ID(t) for t in ("byte", "short", "int", "long", "float", "double", "string")))
    g = "type_name"
    # the name's length is reserved before it is written
    fn(g, "get_type_name_no_mortal", "SPVM_OBJECT*", O, """const char* n = object->basic_type->name; int32_t d = object->type_dimension;
      SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, 0, (int32_t)strlen(n) + d * 2);
      if (o) { char* p = %s; int32_t at = 0; sprintf(p, "%%s", n); at += strlen(n); for (int32_t i = 0; i < d; i++) { sprintf(p + at, "[]"); at += 2; } } return o;""" % (DATA % "o"))
    wrapper(g, "get_type_name", O)
    A = "const char* basic_type_name, int32_t type_dimension, int32_t type_flag"
    fn(g, "get_compile_type_name_length", I, A, """int32_t n = 0; if (type_flag & SPVM_NATIVE_C_TYPE_FLAG_MUTABLE) n += 8; n += strlen(basic_type_name); n += type_dimension * 2; if (type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF) n += 1; return n;""")
    fn(g, "get_compile_type_name_no_mortal", "SPVM_OBJECT*", A, """SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, 0, SPVM_API_get_compile_type_name_length(env, stack, basic_type_name, type_dimension, type_flag));
      if (o) { char* p = %s; if (type_flag & SPVM_NATIVE_C_TYPE_FLAG_MUTABLE) { sprintf(p, "mutable "); p += 8; } sprintf(p, "%%s", basic_type_name); p += strlen(basic_type_name);
        for (int32_t i = 0; i < type_dimension; i++) { sprintf(p, "[]"); p += 2; } if (type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF) { sprintf(p, "*"); p += 1; } *p = 0; } return o;""" % (DATA % "o"))
    wrapper(g, "get_compile_type_name", A)

def lookup():
    g = "lookup"
    I = "int32_t"; N = "const char* basic_type_name"
    fn(g, "get_basic_type", "SPVM_RUNTIME_BASIC_TYPE*", N, "if (!basic_type_name) return 0; return SPVM_API_RUNTIME_get_basic_type_by_name(env->runtime, basic_type_name);")
    fn(g, "get_basic_type_id", I, N, "if (!basic_type_name) return -1; SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_RUNTIME_get_basic_type_by_name(env->runtime, basic_type_name); return b ? b->id : -1;")
    fn(g, "get_basic_type_by_id", "SPVM_RUNTIME_BASIC_TYPE*", "int32_t basic_type_id", "return SPVM_API_RUNTIME_get_basic_type_by_id(env->runtime, basic_type_id);")
    fn(g, "get_basic_type_id_by_name", I, N + E_, "*error_id = 0; int32_t id = SPVM_API_get_basic_type_id(env, stack, basic_type_name); if (id < 0) *error_id = %s; return id;" % DIE)
    fn(g, "get_basic_type_by_name", "SPVM_RUNTIME_BASIC_TYPE*", N + E_, "*error_id = 0; SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (!b) *error_id = %s; return b;" % DIE)
    fn(g, "get_field", "SPVM_RUNTIME_FIELD*", O + ", const char* field_name", """if (!object) return 0; if (object->type_dimension != 0) return 0; return SPVM_API_BASIC_TYPE_get_field_by_name(env->runtime, object->basic_type, field_name);""")
    def static(name, ty, member, arg):
        fn(g, name, ty, N + ", const char* " + arg, "SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (!b) return 0; return SPVM_API_BASIC_TYPE_get_%s_by_name(env->runtime, b, %s);" % (member, arg))
    static("get_field_static", "SPVM_RUNTIME_FIELD*", "field", "field_name")
    static("get_class_var", "SPVM_RUNTIME_CLASS_VAR*", "class_var", "class_var_name")
    static("get_method", "SPVM_RUNTIME_METHOD*", "method", "method_name")
    fn(g, "get_class_method", "SPVM_RUNTIME_METHOD*", N + ", const char* method_name", "SPVM_RUNTIME_METHOD* m = SPVM_API_get_method(env, stack, basic_type_name, method_name); return m && m->is_class_method ? m : 0;")
    fn(g, "get_instance_method_static", "SPVM_RUNTIME_METHOD*", N + ", const char* method_name", "SPVM_RUNTIME_METHOD* m = SPVM_API_get_method(env, stack, basic_type_name, method_name); return m && !m->is_class_method ? m : 0;")
    fn(g, "get_instance_method", "SPVM_RUNTIME_METHOD*", O + ", const char* method_name", """if (!object) return 0; SPVM_RUNTIME_METHOD* m = 0; SPVM_RUNTIME_BASIC_TYPE* b = object->basic_type;
      while (b) { m = SPVM_API_BASIC_TYPE_get_method_by_name(env->runtime, b, method_name); if (m) { if (m->is_class_method) m = 0; break; } b = b->parent; } return m;""")
    fn(g, "get_field_string_chars_by_name", "const char*", O + ", const char* field_name" + E_, """*error_id = 0; SPVM_OBJECT* s = SPVM_API_get_field_string_by_name(env, stack, object, field_name, error_id, func_name, file, line);
      if (*error_id) return 0; if (s == 0) return 0; return SPVM_API_get_chars(env, stack, s);""")

def calls():
    g = "call"
    AFTER = "if (*error_id) %s;" % DIE
    N = "const char* basic_type_name, const char* method_name, int32_t args_width" + E_
    def look(bad): return """*error_id = 0; SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_get_basic_type(env, stack, basic_type_name); if (!b) { *error_id = %s; return; }
      SPVM_RUNTIME_METHOD* m = SPVM_API_BASIC_TYPE_get_method_by_name(env->runtime, b, method_name); if (!m) { *error_id = %s; return; } if (%s) { *error_id = %s; return; } """ % (DIE, DIE, bad, DIE)
    fn(g, "call_class_method_by_name", "void", N, look("!m->is_class_method") + "*error_id = SPVM_API_call_method(env, stack, m, args_width); " + AFTER)
    fn(g, "call_instance_method_static_by_name", "void", N, look("m->is_class_method") + """SPVM_OBJECT* o = stack[0].oval; if (!o) { *error_id = %s; return; }
      if (!SPVM_API_isa(env, stack, o, b, 0)) { *error_id = %s; return; } *error_id = SPVM_API_call_method(env, stack, m, args_width); %s""" % (DIE, DIE, AFTER))
    fn(g, "call_instance_method_by_name", "void", "const char* method_name, int32_t args_width" + E_, """*error_id = 0; SPVM_OBJECT* o = stack[0].oval; if (!o) { *error_id = %s; return; }
      if (o->type_dimension > 0) { *error_id = %s; return; } SPVM_RUNTIME_METHOD* m = SPVM_API_get_instance_method(env, stack, o, method_name); if (!m) { *error_id = %s; return; }
      *error_id = SPVM_API_call_method(env, stack, m, args_width); %s""" % (DIE, DIE, DIE, AFTER))
    M = "SPVM_RUNTIME_METHOD* method, int32_t args_width"
    fn(g, "call_method_no_mortal", "int32_t", M, "return SPVM_API_call_method_common(env, stack, method, args_width, 0);")
    fn(g, "call_method", "int32_t", M, "return SPVM_API_call_method_common(env, stack, method, args_width, 1);")
    fn(g, "call_method_vm", "int32_t", M, "return SPVM_VM_call_method(env, stack, method, args_width);")
    fn(g, "args_width", "int32_t", "", "return stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival;")
    RET = "SPVM_API_TYPE_is_object_type(env->runtime, method->return_basic_type, method->return_type_dimension, method->return_type_flag)"
    fn(g, "call_method_native", "int32_t", M, """if (!method->native_address) return %s;
      int32_t top = SPVM_API_enter_scope(env, stack); int32_t e = ((int32_t (*)(SPVM_ENV*, SPVM_VALUE*))method->native_address)(env, stack); int32_t isobj = %s;
      if (!e && isobj && stack[0].oval) SPVM_API_inc_ref_count(env, stack, stack[0].oval);
      SPVM_API_leave_scope(env, stack, top);
      if (!e && isobj && stack[0].oval) SPVM_API_dec_ref_count(env, stack, stack[0].oval);
      if (e && SPVM_API_get_exception(env, stack) == 0) SPVM_API_set_exception(env, stack, SPVM_API_new_string_nolen_no_mortal(env, stack, "Error"));
      return e;""" % (DIE, RET))
    fn(g, "call_method_common", "int32_t", M + ", int32_t mortal", """int32_t e = 0; stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival = args_width; stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival++;
      if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 1000) { e = %s; goto END; }
      if (!method->is_class_method) for (int32_t i = 0; i < method->args_length; i++) { SPVM_RUNTIME_ARG* a = &method->args[i]; if (a->stack_index >= args_width) break;
        if (%s) { SPVM_OBJECT* o = stack[a->stack_index].oval; if (o && !SPVM_API_isa(env, stack, o, a->basic_type, a->type_dimension)) { e = %s; break; } } }
      if (e) goto END;
      if (method->is_init_method) { if (method->current_basic_type->initialized) goto END; method->current_basic_type->initialized = 1; }
      for (int32_t i = method->required_args_length; i < method->args_length; i++) { SPVM_RUNTIME_ARG* a = &method->args[i]; if (a->stack_index >= args_width) { if (!a->is_optional) __builtin_unreachable(); stack[a->stack_index] = a->default_value; } }
      if (method->is_native) e = SPVM_API_call_method_native(env, stack, method, args_width);
      else if (method->is_precompile) { if (method->precompile_address) e = ((int32_t (*)(SPVM_ENV*, SPVM_VALUE*))method->precompile_address)(env, stack); else if (method->is_precompile_fallback) e = SPVM_API_call_method_vm(env, stack, method, args_width); else e = %s; }
      else e = SPVM_API_call_method_vm(env, stack, method, args_width);
      if (!e && mortal && %s) SPVM_API_push_mortal(env, stack, stack[0].oval);
      END: stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival--; return e;""" % (DIE, OBTYPE % ("a", "a", "a"), DIE, DIE, RET))
    g = "init"
    fn(g, "call_init_methods", "int32_t", "", """SPVM_RUNTIME* R = env->runtime; int32_t e = 0; int32_t n = R->basic_types_length;
      for (int32_t i = 0; i < n; i++) { SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_RUNTIME_get_basic_type_by_id(R, i);
        if (b->init_method) { e = SPVM_API_call_method(env, stack, SPVM_API_BASIC_TYPE_get_method_by_index(R, b, b->init_method->index), 0); if (e) break; } } return e;""")
    fn(g, "set_command_info_program_name", "int32_t", "SPVM_OBJECT* s", """int32_t e = 0; if (!s) return %s; if (!(s->basic_type->id == %s && s->type_dimension == 0)) return %s;
      SPVM_API_set_class_var_object_by_name(env, stack, "CommandInfo", "$PROGRAM_NAME", s, &e, "", "", 0); return e;""" % (DIE, ID("string"), DIE))
    fn(g, "set_command_info_argv", "int32_t", "SPVM_OBJECT* s", """int32_t e = 0; if (!s) return %s; if (!(s->basic_type->id == %s && s->type_dimension == 1)) return %s;
      SPVM_API_set_class_var_object_by_name(env, stack, "CommandInfo", "$ARGV", s, &e, "", "", 0); return e;""" % (DIE, ID("string"), DIE))
    fn(g, "set_command_info_base_time", "int32_t", "int64_t v", """int32_t e = 0; SPVM_API_set_class_var_long_by_name(env, stack, "CommandInfo", "$BASE_TIME", v, &e, "", "", 0); return e;""")
    fn(g, "check_bootstrap_method", "int32_t", "const char* basic_type_name", """SPVM_RUNTIME* R = env->runtime; SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_RUNTIME_get_basic_type_by_name(R, basic_type_name);
      SPVM_RUNTIME_METHOD* m = SPVM_API_BASIC_TYPE_get_method_by_name(R, b, "main"); if (!m) return %s; if (!SPVM_API_METHOD_is_class_method(R, m)) return %s; if (m->args_length != 0) return %s;
      if (strcmp(m->return_basic_type->name, "void") != 0) return %s; return 0;""" % (DIE, DIE, DIE, DIE))
    fn(g, "destroy_class_vars", "void", "", """SPVM_RUNTIME* R = env->runtime; for (int32_t i = 0; i < R->basic_types_length; i++) { SPVM_RUNTIME_BASIC_TYPE* b = SPVM_API_RUNTIME_get_basic_type_by_id(R, i);
      for (int32_t j = 0; j < b->class_vars_length; j++) { SPVM_RUNTIME_CLASS_VAR* v = SPVM_API_BASIC_TYPE_get_class_var_by_index(R, b, j);
        if (%s) SPVM_API_assign_object(env, stack, (SPVM_OBJECT**)&v->data, 0); } }""" % (OBTYPE % ("v", "v", "v")))

def strings():
    g = "string"
    S = "SPVM_OBJECT* string"
    fn(g, "length", "int32_t", O, "return object->length;")
    fn(g, "set_length", "void", O + ", int32_t length", "object->length = length;")
    fn(g, "get_chars", "const char*", S, "return %s;" % (DATA % "string"))
    for t, ct, m in NUM: fn(g, "get_elems_" + t, ct + "*", O, "return (%s*)%s;" % (ct, DATA % "object"))
    fn(g, "get_elem_object", "SPVM_OBJECT*", "SPVM_OBJECT* array, int32_t index", "return (SPVM_OBJECT*)((intptr_t)((SPVM_OBJECT**)%s)[index] & ~(intptr_t)1);" % (DATA % "array"))
    fn(g, "set_elem_object", "void", "SPVM_OBJECT* array, int32_t index, SPVM_OBJECT* object", "SPVM_API_assign_object(env, stack, &((SPVM_OBJECT**)%s)[index], object);" % (DATA % "array"))
    fn(g, "get_elem_string", "SPVM_OBJECT*", "SPVM_OBJECT* array, int32_t index", "return SPVM_API_get_elem_object(env, stack, array, index);")
    fn(g, "set_elem_string", "void", "SPVM_OBJECT* array, int32_t index, SPVM_OBJECT* string", "SPVM_API_set_elem_object(env, stack, array, index, string);")
    fn(g, "get_pointer", "void*", O, "return object->pointer;")
    fn(g, "set_pointer", "void", O + ", void* pointer", "object->pointer = pointer;")
    for t, ct in (("bool", "int8_t"), ("byte", "int8_t"), ("short", "int16_t"), ("int", "int32_t"), ("long", "int64_t"), ("float", "float"), ("double", "double")):
        fn(g, "get_%s_object_value" % t, "int32_t" if t in ("bool", "byte", "short", "int") else ct, O, "return *(%s*)%s;" % (ct, DATA % "object"))
    fn(g, "make_read_only", "void", S, "if (string && string->basic_type->id == %s && string->type_dimension == 0) string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;" % ID("string"))
    fn(g, "is_read_only", "int32_t", S, "return string && (string->flag & SPVM_OBJECT_C_FLAG_IS_READ_ONLY);")
    fn("refcount", "no_free", "int32_t", O, "return object->flag & SPVM_OBJECT_C_FLAG_NO_FREE;")
    fn("refcount", "set_no_free", "void", O + ", int32_t no_free", "if (no_free) object->flag |= SPVM_OBJECT_C_FLAG_NO_FREE; else object->flag &= ~SPVM_OBJECT_C_FLAG_NO_FREE;")
    fn(g, "shorten", "void", S + ", int32_t new_length", """if (!string || !SPVM_API_is_string(env, stack, string) || SPVM_API_is_read_only(env, stack, string)) return; int32_t n = SPVM_API_length(env, stack, string);
      if (new_length < 0 || new_length >= n) return; assert(n - new_length > 0); SPVM_API_set_length(env, stack, string, new_length); memset(%s + new_length, 0, n - new_length);""" % (DATA % "string"))
    fn(g, "concat_no_mortal", "SPVM_OBJECT*", "SPVM_OBJECT* a, SPVM_OBJECT* b", """int32_t x = SPVM_API_length(env, stack, a), y = SPVM_API_length(env, stack, b); SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, 0, x + y);
      if (o) { char* p = %s; if (x > 0) memcpy(p, %s, x); if (y) memcpy(p + x, %s, y); } return o;""" % (DATA % "o", DATA % "a", DATA % "b"))
    wrapper(g, "concat", "SPVM_OBJECT* string1, SPVM_OBJECT* string2")
    g = "print"
    fn(g, "fprint", "void", "FILE* fh, SPVM_OBJECT* string", "if (string && SPVM_API_length(env, stack, string) > 0) fwrite(%s, 1, SPVM_API_length(env, stack, string), fh);" % (DATA % "string"))
    fn(g, "print", "void", S, "SPVM_API_fprint(env, stack, ((SPVM_RUNTIME*)env->runtime)->spvm_stdout, string);")
    fn(g, "print_stderr", "void", S, "SPVM_API_fprint(env, stack, ((SPVM_RUNTIME*)env->runtime)->spvm_stderr, string);")
    fn(g, "say", "void", S, "SPVM_API_fprint(env, stack, ((SPVM_RUNTIME*)env->runtime)->spvm_stdout, string); fputc('\\n', ((SPVM_RUNTIME*)env->runtime)->spvm_stdout);")
    for n in ("stdin", "stdout", "stderr"): fn(g, "spvm_" + n, "FILE*", "", "return ((SPVM_RUNTIME*)env->runtime)->spvm_%s;" % n)
    g = "dump"
    wrapper(g, "dump", O)
    fn(g, "dump_no_mortal", "SPVM_OBJECT*", O, """SPVM_RUNTIME* R = env->runtime; int32_t depth = 0; SPVM_STRING_BUFFER* b = SPVM_STRING_BUFFER_new(R->allocator, 255, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
      SPVM_HASH* h = SPVM_HASH_new(R->allocator, 255, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP); SPVM_API_dump_recursive(env, stack, object, &depth, b, h);
      SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, b->string, b->length); SPVM_HASH_free(h); SPVM_STRING_BUFFER_free(b); return o;""")
    import os
    SPEC["dump_recursive"] = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_dump.c")).read(); GROUP["dump_recursive"] = g
    fn(g, "dumpc", "const char*", O, "return SPVM_API_get_chars(env, stack, SPVM_API_dump(env, stack, object));")

def exceptions():
    g = "exception"
    fn(g, "set_exception", "int32_t", "SPVM_OBJECT* e", "SPVM_API_assign_object(env, stack, (SPVM_OBJECT**)&stack[SPVM_API_C_STACK_INDEX_EXCEPTION], e); return 0;")
    fn(g, "get_exception", "SPVM_OBJECT*", "", "return stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval;")
    A = "SPVM_OBJECT* exception, SPVM_RUNTIME_METHOD* method, int32_t line"
    wrapper(g, "new_stack_trace", A)
    fn(g, "new_stack_trace_no_mortal", "SPVM_OBJECT*", A, """if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) return exception;
      const char* b = method->current_basic_type->name; const char* m = method->name; const char* f = method->current_basic_type->file; char tmp[SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE];
      int32_t n = SPVM_API_length(env, stack, exception); snprintf(tmp, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "%d", line);
      SPVM_OBJECT* o = SPVM_API_new_string_no_mortal(env, stack, 0, n + 3 + (int32_t)strlen(b) + 2 + (int32_t)strlen(m) + 4 + (int32_t)strlen(f) + 6 + (int32_t)strlen(tmp));
      if (o) { memcpy((char*)o + SPVM_API_RUNTIME_get_object_data_offset(env->runtime), (char*)exception + SPVM_API_RUNTIME_get_object_data_offset(env->runtime), n); sprintf((char*)o + SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + n, "\\n  %s->%s at %s line %d", b, m, f, line); } return o;""")

def refcount():
    g = "refcount"
    fn(g, "get_ref_count", "int32_t", O, "return object->ref_count;")
    for n, op in (("inc", "++"), ("dec", "--")):
        fn(g, n + "_ref_count", "void", O, "if (object) { SPVM_RUNTIME* R = env->runtime; assert(object->ref_count %s 0); SPVM_MUTEX_lock(R->mutex_atomic); object->ref_count%s; SPVM_MUTEX_unlock(R->mutex_atomic); }" % (">=" if n == "inc" else ">", op))
    fn(g, "push_mortal", "int32_t", O, """if (object == 0) return 0; int32_t* top = &stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK_TOP].ival; int32_t* cap = &stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK_CAPACITY].ival; SPVM_OBJECT*** ms = (SPVM_OBJECT***)&stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK];
      if (*top >= *cap) { int32_t c = *cap * 2; SPVM_OBJECT** n = SPVM_API_new_memory_block(env, stack, sizeof(void*) * c); if (n == 0) return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
        memcpy(n, *ms, sizeof(void*) * *cap); *cap = c; SPVM_API_free_memory_block(env, stack, *ms); *ms = n; }
      SPVM_API_assign_object(env, stack, &(*ms)[*top], object); *top = *top + 1; return 0;""")
    fn(g, "enter_scope", "int32_t", "", "return stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK_TOP].ival;")
    fn(g, "leave_scope", "void", "int32_t top0", """int32_t* top = &stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK_TOP].ival; SPVM_OBJECT*** ms = (SPVM_OBJECT***)&stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK];
      for (int32_t i = top0; i < *top; i++) SPVM_API_assign_object(env, stack, &(*ms)[i], 0); *top = top0;""")
    fn(g, "leave_scope_local", "void", "SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* top, int32_t top0", """for (int32_t i = top0; i < *top; i++) { SPVM_OBJECT** r = &object_vars[mortal_stack[i]]; if (*r) SPVM_API_assign_object(env, stack, r, 0); } *top = top0;""")
    fn(g, "assign_object", "void", "SPVM_OBJECT** ref, SPVM_OBJECT* object", """SPVM_RUNTIME* R = env->runtime; SPVM_OBJECT* old; int32_t only = 0;
      SPVM_MUTEX_lock(R->mutex); old = (SPVM_OBJECT*)((intptr_t)*ref & ~(intptr_t)1); assert(!((intptr_t)object & 1)); SPVM_API_unweaken_thread_unsafe(env, stack, ref); if (object) SPVM_API_inc_ref_count(env, stack, object); *ref = object; SPVM_MUTEX_unlock(R->mutex);
      if (!old) return;
      SPVM_MUTEX_lock(R->mutex); assert(old->ref_count > 0); if (old->ref_count > 1) { SPVM_API_dec_ref_count(env, stack, old); only = 1; } SPVM_MUTEX_unlock(R->mutex);
      if (only) return;
      if (SPVM_API_is_object_array(env, stack, old)) { int32_t n = SPVM_API_length(env, stack, old); for (int32_t i = 0; i < n; i++) SPVM_API_assign_object(env, stack, &((SPVM_OBJECT**)((char*)old + SPVM_API_RUNTIME_get_object_data_offset(env->runtime)))[i], 0); }
      else if (old->basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS) {
        if (old->basic_type->destroy_method) {
          /* the destructor runs as an ordinary call; the return values and the exception of the running method survive it */
          SPVM_VALUE saved[256]; memcpy(saved, stack, sizeof(saved)); void* ex = stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval; stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = 0;
          stack[0].oval = old; int32_t e = SPVM_API_call_method(env, stack, old->basic_type->destroy_method, 1);
          if (e) { SPVM_OBJECT* x = SPVM_API_get_exception(env, stack); assert(x); fprintf(R->spvm_stderr, "[An exception thrown in DESTROY method is converted to a warning message]\\n%%s\\n", SPVM_API_get_chars(env, stack, x)); }
          SPVM_API_set_exception(env, stack, 0); memcpy(stack, saved, sizeof(saved)); stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = ex; }
        for (int32_t i = 0; i < old->basic_type->fields_length; i++) { SPVM_RUNTIME_FIELD* f = SPVM_API_BASIC_TYPE_get_field_by_index(R, old->basic_type, i);
          if (%s) SPVM_API_assign_object(env, stack, (SPVM_OBJECT**)((char*)old + SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + f->offset), 0); } }
      SPVM_MUTEX_lock(R->mutex); SPVM_API_dec_ref_count(env, stack, old);
      if (old->ref_count == 0) { if (old->weaken_backref_head) { SPVM_API_free_weaken_backrefs(env, stack, old->weaken_backref_head); old->weaken_backref_head = 0; } SPVM_API_free_memory_block(env, stack, old); }
      SPVM_MUTEX_unlock(R->mutex);""" % (OBTYPE % ("f", "f", "f")))
    g = "weak"
    R_ = "SPVM_OBJECT** ref"
    fn(g, "get_object_no_weaken_address", "SPVM_OBJECT*", O, "return (SPVM_OBJECT*)((intptr_t)object & ~(intptr_t)1);")
    fn(g, "isweak_only_check_flag", "int32_t", R_, "return (intptr_t)*ref & 1;")
    fn(g, "isweak", "int32_t", R_, "return *ref ? (intptr_t)*ref & 1 : 0;")
    fn(g, "weaken", "int32_t", R_, """SPVM_RUNTIME* R = env->runtime; SPVM_OBJECT* gone = 0; SPVM_MUTEX_lock(R->mutex);
      if (*ref && !((intptr_t)*ref & 1)) { SPVM_OBJECT* o = (SPVM_OBJECT*)((intptr_t)*ref & ~(intptr_t)1); assert(o->ref_count > 0);
        if (o->ref_count == 1) { gone = o; *ref = 0; }
        else { *ref = (SPVM_OBJECT*)((intptr_t)*ref | 1); SPVM_API_dec_ref_count(env, stack, o); SPVM_WEAKEN_BACKREF* b = SPVM_API_new_memory_block(env, stack, sizeof(SPVM_WEAKEN_BACKREF)); b->ref = ref;
          if (o->weaken_backref_head == 0) o->weaken_backref_head = b; else { SPVM_WEAKEN_BACKREF* n = o->weaken_backref_head; while (n->next) n = n->next; n->next = b; } } }
      SPVM_MUTEX_unlock(R->mutex); if (gone) SPVM_API_assign_object(env, stack, &gone, 0); return 0;""")
    fn(g, "unweaken_thread_unsafe", "void", R_, """if (*ref == 0) return; if (!((intptr_t)*ref & 1)) return; SPVM_OBJECT* o = (SPVM_OBJECT*)((intptr_t)*ref & ~(intptr_t)1);
      *ref = (SPVM_OBJECT*)((intptr_t)*ref & ~(intptr_t)1); SPVM_API_inc_ref_count(env, stack, o); SPVM_WEAKEN_BACKREF** p = &o->weaken_backref_head;
      while (*p) { if ((*p)->ref == ref) { SPVM_WEAKEN_BACKREF* n = (*p)->next; SPVM_API_free_memory_block(env, stack, *p); *p = n; break; } p = &((*p)->next); }""")
    fn(g, "unweaken", "void", R_, "SPVM_RUNTIME* R = env->runtime; SPVM_MUTEX_lock(R->mutex); if (*ref) SPVM_API_unweaken_thread_unsafe(env, stack, ref); SPVM_MUTEX_unlock(R->mutex);")
    fn(g, "free_weaken_backrefs", "void", "SPVM_WEAKEN_BACKREF* b", "while (b) { assert((intptr_t)*b->ref & 1); *(b->ref) = 0; SPVM_WEAKEN_BACKREF* n = b->next; SPVM_API_free_memory_block(env, stack, b); b = n; }")
    g = "stack"
    fn(g, "new_stack", "SPVM_VALUE*", "", """SPVM_VALUE* s = SPVM_API_new_memory_block(env, 0, sizeof(SPVM_VALUE) * SPVM_API_C_STACK_LENGTH); void* m = SPVM_API_new_memory_block(env, s, sizeof(SPVM_OBJECT*)); if (m == 0) return 0;
      s[SPVM_API_C_STACK_INDEX_MORTAL_STACK_CAPACITY].ival = 1; s[SPVM_API_C_STACK_INDEX_MORTAL_STACK].oval = m; s[SPVM_API_C_STACK_INDEX_ENV].oval = env; return s;""", stack=False)
    fn(g, "free_stack", "void", "", """SPVM_API_set_exception(env, stack, 0); void* m = stack[SPVM_API_C_STACK_INDEX_MORTAL_STACK].oval; if (m) SPVM_API_free_memory_block(env, stack, m); SPVM_API_free_memory_block(env, stack, stack);""")
    fn(g, "get_stack_tmp_buffer", "char*", "", "return (char*)&stack[SPVM_API_C_STACK_INDEX_TMP_BUFFER];")

HEAD = '''#include "spvm_native.h"
#include <stdlib.h>
#include <assert.h>
#include <string.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdarg.h>
'''
DECL = """void SPVM_API_unweaken_thread_unsafe(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref);
"""

def headers():
    import os, re
    from . import build
    skip = ("spvm_yacc.h", "spvm_vm.h")
    hs = [h for h in sorted(os.listdir(build.BUILDER + "/include")) if re.match(r"spvm_(typedecl|object|weaken_backref|opcode|runtime.*|api.*|implement|string_buffer|hash|mutex|strerror|allocator|utf8|vm)\.h$", h)]
    return HEAD + "".join('#include "%s"\n' % h for h in hs) + DECL

def text(groups=None):
    return "\n".join(t for n, t in SPEC.items() if groups is None or GROUP[n] in groups)

class_vars(); fields(); creation(); type_tests(); lookup(); calls(); strings(); exceptions(); refcount()
