
#include <ctype.h>
/* What SPVM_API_dump_recursive writes: undef, a quoted string, an array with its type, or an object with its fields. */
#define D_ADD(x) SPVM_STRING_BUFFER_add(b, x)
#define D_PRINT(f, x) { snprintf(t, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, f, x); D_ADD(t); }
#define D_PRINT_LEN(f, x) { snprintf(t, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, f, x); SPVM_STRING_BUFFER_add_len(b, t, strlen(t)); }
#define D_INDENT(n) for (int32_t k = 0; k < n; k++) D_ADD("  ");
#define D_SEP(i, n) if (i == n - 1) D_ADD("\n"); else D_ADD(",\n");
#define D_DATA ((char*)object + SPVM_API_RUNTIME_get_object_data_offset(env->runtime))
#define D_REAL SPVM_API_get_object_no_weaken_address(env, stack, object)
#define D_NUMBER(id, T_AT) switch (id) { \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: D_PRINT("%d", T_AT(int8_t)) break; \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: D_PRINT("%d", T_AT(int16_t)) break; \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: D_PRINT("%d", T_AT(int32_t)) break; \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG: D_PRINT("%lld", (long long int)T_AT(int64_t)) break; \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT: D_PRINT("%g", T_AT(float)) break; \
  case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE: D_PRINT("%g", T_AT(double)) break; }
#define D_ELEM(T) ((T*)D_DATA)[i]
#define D_MULNUM(T) (&((T*)D_DATA)[i * n])[j]
#define D_FIELD(T) *(T*)(D_DATA + off)
#define D_NEST(x) SPVM_OBJECT* e = SPVM_API_get_object_no_weaken_address(env, stack, x); *depth = *depth + 1; SPVM_API_dump_recursive(env, stack, e, depth, b, h); *depth = *depth - 1;

void S_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object, int32_t* depth, SPVM_STRING_BUFFER* b, SPVM_HASH* h) {
  char t[SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE] = {0};
  if (object == NULL) { D_ADD("undef"); return; }
  int32_t dims = object->type_dimension;
  if (SPVM_API_is_string(env, stack, object)) {
    const char* s = SPVM_API_get_chars(env, stack, object);
    int32_t length = SPVM_API_length(env, stack, object);
    D_ADD("\"");
    for (int32_t at = 0; at < length; ) {
      int32_t code;
      int32_t w = (int32_t)SPVM_UTF8_iterate((const uint8_t*)(s + at), length, &code);
      if (w <= 0) { D_PRINT_LEN("\\x{%02X}", s[at] & 0xFF) at += 1; }
      else {
        if (w == 1 && !isprint(s[at])) D_PRINT_LEN("\\x{%02X}", s[at] & 0xFF)
        else SPVM_STRING_BUFFER_add_len(b, (char*)(s + at), w);
        at += w;
      }
    }
    D_ADD("\"");
  }
  else if (dims > 0) {
    int32_t length = SPVM_API_length(env, stack, object);
    D_ADD("[\n");
    SPVM_RUNTIME_BASIC_TYPE* bt = SPVM_API_get_object_basic_type(env, stack, object);
    const char* name = bt->name;
    for (int32_t i = 0; i < length; i++) {
      D_INDENT(*depth + 1)
      if (SPVM_API_is_mulnum_array(env, stack, object)) {
        D_ADD("{\n");
        int32_t n = bt->fields_length;
        for (int32_t j = 0; j < n; j++) {
          D_INDENT(*depth + 2)
          SPVM_RUNTIME_FIELD* f = SPVM_API_BASIC_TYPE_get_field_by_index(env->runtime, bt, j);
          int32_t id = f->basic_type->id;
          D_ADD(f->name); D_ADD(" => ");
          D_NUMBER(id, D_MULNUM)
          D_SEP(j, n)
        }
        D_ADD("  }");
      }
      else if (SPVM_API_is_numeric_array(env, stack, object)) { D_NUMBER(bt->id, D_ELEM) }
      else { assert(SPVM_API_is_object_array(env, stack, object)); D_NEST(((SPVM_OBJECT**)D_DATA)[i]) }
      D_SEP(i, length)
    }
    D_INDENT(*depth)
    D_ADD("]"); D_ADD(" : "); D_ADD(name);
    for (int32_t k = 0; k < dims; k++) D_ADD("[]");
    D_PRINT("(%p)", D_REAL)
  }
  else {
    snprintf(t, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "%p", D_REAL);
    int32_t known = (int32_t)(intptr_t)SPVM_HASH_get(h, t, strlen(t));
    if (known) { D_PRINT("REUSE_OBJECT(%p)", D_REAL) }
    else {
      SPVM_RUNTIME_BASIC_TYPE* bt = SPVM_API_get_object_basic_type(env, stack, object);
      const char* name = bt->name;
      SPVM_HASH_set(h, t, strlen(t), (void*)(intptr_t)1);
      D_ADD(name); D_PRINT(" (%p) ", object) D_ADD("{\n");
      int32_t n = bt->fields_length;
      for (int32_t j = 0; j < n; j++) {
        D_INDENT(*depth + 1)
        SPVM_RUNTIME_FIELD* f = SPVM_API_BASIC_TYPE_get_field_by_index(env->runtime, bt, j);
        int32_t id = f->basic_type->id, dim = f->type_dimension, off = f->offset;
        D_ADD(f->name); D_ADD(" => ");
        if (dim == 0 && id >= SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE && id <= SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE) { D_NUMBER(id, D_FIELD) }
        else { D_NEST(*(SPVM_OBJECT**)(D_DATA + off)) }
        D_SEP(j, n)
      }
      D_INDENT(*depth)
      D_ADD("}");
    }
  }
}
