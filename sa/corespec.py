"""What functions of the compiler and of its containers do, written down independently of the implementation as C functions S_<name>.
Compiled to IR for comparison, never run."""
SPEC, GROUP = {}, {}
SOURCES = ["spvm_list.c", "spvm_hash.c", "spvm_string_buffer.c", "spvm_allocator.c", "spvm_opcode_list.c", "spvm_type.c", "spvm_basic_type.c", "spvm_check.c", "spvm_opcode_builder.c",
           "spvm_utf8.c", "spvm_compiler.c", "spvm_op.c", "spvm_method.c", "spvm_field.c", "spvm_class_var.c", "spvm_var_decl.c", "spvm_mutex.c",
           "spvm_class_file.c", "spvm_api_arg.c", "spvm_api_field.c", "spvm_api_class_var.c", "spvm_api_method.c", "spvm_api_basic_type.c", "spvm_api_runtime.c", "spvm_api_type.c", "spvm_api_compiler.c", "spvm_api_class_file.c"]
# results depend on arguments and on what these functions themselves do not change
PURE = {"strlen", "strcmp", "memcmp", "strncmp", "strchr", "strrchr", "strstr", "SPVM_LIST_get", "SPVM_HASH_get", "SPVM_HASH_calc_hash_value", "SPVM_CHECK_get_type", "SPVM_TYPE_get_type_width",
        "SPVM_TYPE_get_mulnum_field_basic_type_id"}
PURE_PREFIX = ("SPVM_TYPE_is_", "SPVM_BASIC_TYPE_is_", "SPVM_TYPE_satisfy_", "SPVM_BASIC_TYPE_has_")
# texts of diagnostics are not compared
IGNORED = ("snprintf", "SPVM_TYPE_new_type_name", "SPVM_TYPE_new_type_name_tmp")

def fn(group, name, ret, args, body):
    SPEC[name] = "%s S_%s(%s) { %s }" % (ret, name, args, body); GROUP[name] = group

def containers():
    TMP, PERM = "SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP", "SPVM_ALLOCATOR_C_ALLOC_TYPE_PERMANENT"
    def get(var, t, size, kind): return "if (%s == %s) %s = SPVM_ALLOCATOR_alloc_memory_block_tmp(allocator, %s); else if (%s == %s) %s = SPVM_ALLOCATOR_alloc_memory_block_permanent(allocator, %s); else abort();" % (kind, TMP, var, size, kind, PERM, var, size)
    def drop(t, what): return "if (%s->memory_block_type == %s) { %s } else if (%s->memory_block_type != %s) abort();" % (t, TMP, "".join("SPVM_ALLOCATOR_free_memory_block_tmp(allocator, %s);" % w for w in what), t, PERM)
    g = "list"
    L = "SPVM_LIST* list"
    fn(g, "SPVM_LIST_new", "SPVM_LIST*", "SPVM_ALLOCATOR* allocator, int32_t capacity, int32_t type", "assert(capacity >= 0); SPVM_LIST* l; void** v; " + get("l", L, "sizeof(SPVM_LIST)", "type") +
       "l->length = 0; l->capacity = capacity == 0 ? 1 : capacity; " + get("v", L, "l->capacity * sizeof(void*)", "type") + "l->values = v; l->allocator = allocator; l->memory_block_type = type; return l;")
    fn(g, "SPVM_LIST_maybe_extend", "void", L, "SPVM_ALLOCATOR* allocator = list->allocator; int32_t n = list->capacity; if (list->length < n) return; void** v; " + get("v", L, "(2 * n) * sizeof(void*)", "list->memory_block_type") +
       "memcpy(v, list->values, n * sizeof(void*));" + drop("list", ["list->values"]) + "list->values = v; list->capacity = 2 * n;")
    fn(g, "SPVM_LIST_push", "void", L + ", void* value", "SPVM_LIST_maybe_extend(list); list->values[list->length] = value; list->length++;")
    fn(g, "SPVM_LIST_unshift", "void", L + ", void* value", "SPVM_LIST_maybe_extend(list); memmove(list->values + 1, list->values, sizeof(void*) * list->length); list->values[0] = value; list->length++;")
    fn(g, "SPVM_LIST_get", "void*", L + ", int32_t index", "assert(index >= 0 && index < list->length); return list->values[index];")
    fn(g, "SPVM_LIST_set", "void", L + ", int32_t index, void* value", "assert(index >= 0 && index < list->length); list->values[index] = value;")
    fn(g, "SPVM_LIST_pop", "void*", L, "assert(list->length >= 0); if (list->length == 0) return 0; list->length--; return list->values[list->length];")
    fn(g, "SPVM_LIST_shift", "void*", L, "assert(list->length >= 0); if (list->length == 0) return 0; void* v = list->values[0]; for (int32_t i = 0; i < list->length - 1; i++) list->values[i] = list->values[i + 1]; list->length--; return v;")
    fn(g, "SPVM_LIST_free", "void", L, "SPVM_ALLOCATOR* allocator = list->allocator; " + drop("list", ["list->values", "list"]))
    g = "hash"
    H, K = "SPVM_HASH* hash", "const char* key, int32_t key_length"
    fn(g, "SPVM_HASH_new", "SPVM_HASH*", "SPVM_ALLOCATOR* allocator, int32_t capacity, int32_t type", "assert(capacity >= 0); SPVM_HASH* h; " + get("h", H, "sizeof(SPVM_HASH)", "type") +
       "h->table_capacity = capacity == 0 ? 1 : capacity; " + get("h->table", H, "h->table_capacity * sizeof(SPVM_HASH_ENTRY*)", "type") + "h->keys_length = 0; h->allocator = allocator; h->memory_block_type = type; return h;")
    SLOT = "SPVM_HASH_calc_hash_value(key, key_length) % {0}->table_capacity"
    SAME = "((key_length == 0 && e->key_length == 0) || (e->key_length == key_length && memcmp(key, e->key, key_length) == 0))"
    fn(g, "SPVM_HASH_get", "void*", H + ", " + K, "assert(key_length >= 0); SPVM_HASH_ENTRY* e = hash->table[%s]; while (1) { if (e == 0) return 0; if (%s) return e->value; e = e->next_entry; }" % (SLOT.format("hash"), SAME))
    fn(g, "SPVM_HASH_set", "void", H + ", " + K + ", void* value", """assert(key_length >= 0); if (hash->keys_length > hash->table_capacity * 0.75) SPVM_HASH_rehash(hash, hash->table_capacity * 2 + 1);
      int32_t slot = %s; SPVM_HASH_ENTRY* e = hash->table[slot]; if (e == 0) { hash->table[slot] = SPVM_HASH_new_hash_entry(hash, key, key_length, value); return; }
      while (1) { int32_t same = 0; if (%s) same = 1; if (same) { e->value = value; break; } if (e->next_entry == 0) { e->next_entry = SPVM_HASH_new_hash_entry(hash, key, key_length, value); break; } e = e->next_entry; }""" % (SLOT.format("hash"), SAME))
    fn(g, "SPVM_HASH_set_entry", "void", "SPVM_HASH_ENTRY** table, int32_t table_capacity, " + K + ", SPVM_HASH_ENTRY* entry", """assert(key_length >= 0); int32_t slot = SPVM_HASH_calc_hash_value(key, key_length) % table_capacity; entry->next_entry = 0;
      SPVM_HASH_ENTRY* e = table[slot]; if (e == 0) { table[slot] = entry; return; } while (1) { if (e->next_entry == 0) { e->next_entry = entry; break; } e = e->next_entry; }""")
    fn(g, "SPVM_HASH_new_hash_entry", "SPVM_HASH_ENTRY*", H + ", " + K + ", void* value", "SPVM_ALLOCATOR* allocator = hash->allocator; SPVM_HASH_ENTRY* e; char* k; if (hash->memory_block_type == " + TMP + ") { e = SPVM_ALLOCATOR_alloc_memory_block_tmp(allocator, sizeof(SPVM_HASH_ENTRY)); k = SPVM_ALLOCATOR_alloc_memory_block_tmp(allocator, key_length + 1); } else if (hash->memory_block_type == " + PERM + ") { e = SPVM_ALLOCATOR_alloc_memory_block_permanent(allocator, sizeof(SPVM_HASH_ENTRY)); k = SPVM_ALLOCATOR_alloc_memory_block_permanent(allocator, key_length + 1); } else abort(); memcpy(k, key, key_length); e->key = k; e->key_length = key_length; e->value = value; hash->keys_length++; return e;")
    fn(g, "SPVM_HASH_rehash", "void", H + ", int32_t n", "assert(n > 0); SPVM_ALLOCATOR* allocator = hash->allocator; SPVM_HASH_ENTRY** t; " + get("t", H, "sizeof(SPVM_HASH_ENTRY) * n", "hash->memory_block_type") + """
      for (int32_t i = 0; i < hash->table_capacity; i++) { SPVM_HASH_ENTRY* e = hash->table[i]; if (e) while (1) { SPVM_HASH_ENTRY* next = e->next_entry; SPVM_HASH_set_entry(t, n, e->key, e->key_length, e); if (next == 0) break; e = next; } }""" +
       drop("hash", ["hash->table"]) + "hash->table = 0; hash->table_capacity = n; hash->table = t;")
    fn(g, "SPVM_HASH_calc_hash_value", "int32_t", "const char* p, int32_t n", "assert(n >= 0); int32_t h = 5381; while (n--) h = ((h << 5) + h) + (uint8_t)*p++; return h < 0 ? ~h : h;")
    fn(g, "SPVM_HASH_free", "void", H, "SPVM_ALLOCATOR* allocator = hash->allocator; if (hash->memory_block_type == " + TMP + """) { for (int32_t i = 0; i < hash->table_capacity; i++) { SPVM_HASH_ENTRY* e = hash->table[i]; if (e) while (1) {
      SPVM_HASH_ENTRY* next = e->next_entry; SPVM_ALLOCATOR_free_memory_block_tmp(allocator, e->key); e->key = 0; SPVM_ALLOCATOR_free_memory_block_tmp(allocator, e); e = 0; if (next == 0) break; e = next; } }
      SPVM_ALLOCATOR_free_memory_block_tmp(allocator, hash->table); SPVM_ALLOCATOR_free_memory_block_tmp(allocator, hash); } else if (hash->memory_block_type != """ + PERM + ") abort();")
    g = "buffer"
    B = "SPVM_STRING_BUFFER* b"
    fn(g, "SPVM_STRING_BUFFER_new", "SPVM_STRING_BUFFER*", "SPVM_ALLOCATOR* allocator, int32_t capacity, int32_t type", "int32_t n = capacity == 0 ? 16 : capacity; SPVM_STRING_BUFFER* b; " + get("b", B, "sizeof(SPVM_STRING_BUFFER)", "type") +
       "b->capacity = n; " + get("b->string", B, "n", "type") + "b->allocator = allocator; b->memory_block_type = type; return b;")
    fn(g, "SPVM_STRING_BUFFER_maybe_extend", "void", B + ", int32_t length", "SPVM_ALLOCATOR* allocator = b->allocator; while (b->capacity < length + 1) { char* s; int32_t n = 2 * b->capacity; " + get("s", B, "n", "b->memory_block_type") +
       "memcpy(s, b->string, b->length); " + drop("b", ["b->string"]) + "b->string = s; b->capacity = n; }")
    def add(name, args, n, write, after="b->length = n;"):
        fn(g, "SPVM_STRING_BUFFER_" + name, "int32_t", B + ", " + args, "int32_t at = b->length; int32_t n = at + %s; SPVM_STRING_BUFFER_maybe_extend(b, n); %s %s return at;" % (n, write, after))
    add("add", "const char* s", "(int32_t)strlen(s)", "memcpy(b->string + b->length, s, (int32_t)strlen(s));")
    add("add_len", "char* s, int32_t l", "l", "memcpy(b->string + b->length, s, l);")
    add("add_len_nullstr", "char* s, int32_t l", "l + 1", "memcpy(b->string + b->length, s, l); *(b->string + b->length + l) = 0;")
    add("add_hex_char", "char c", "4", 'sprintf(b->string + b->length, "\\\\x%02X", c & 0xff);')
    add("add_byte", "int8_t v", "20", 'int32_t w = sprintf(b->string + b->length, "%" PRId8, v);', "b->length += w;")
    add("add_short", "int16_t v", "20", 'int32_t w = sprintf(b->string + b->length, "%" PRId16, v);', "b->length += w;")
    add("add_int", "int32_t v", "20", 'int32_t w = v == INT32_MIN ? sprintf(b->string + b->length, "INT32_MIN") : sprintf(b->string + b->length, "%" PRId32, v);', "b->length += w;")
    add("add_long", "int64_t v", "22", 'int32_t w = v == INT64_MIN ? sprintf(b->string + b->length, "INT64_MIN") : sprintf(b->string + b->length, "%" PRId64 "LL", v);', "b->length += w;")
    fn(g, "SPVM_STRING_BUFFER_free", "void", B, "SPVM_ALLOCATOR* allocator = b->allocator; " + drop("b", ["b->string", "b"]))
    g = "allocator"
    A = "SPVM_ALLOCATOR* a"
    fn(g, "SPVM_ALLOCATOR_alloc_memory_block_unmanaged", "void*", "size_t n", "if (n < 1 || n > SIZE_MAX) return 0; return calloc(1, n);")
    fn(g, "SPVM_ALLOCATOR_alloc_memory_block_tmp", "void*", A + ", size_t n", "void* b = SPVM_ALLOCATOR_alloc_memory_block_unmanaged(n); if (b) a->memory_blocks_count_tmp++; return b;")
    fn(g, "SPVM_ALLOCATOR_free_memory_block_tmp", "void", A + ", void* b", "if (b) { SPVM_ALLOCATOR_free_memory_block_unmanaged(b); a->memory_blocks_count_tmp--; }")
    fn(g, "SPVM_ALLOCATOR_alloc_memory_block_permanent", "void*", A + ", size_t n", """void* b = SPVM_ALLOCATOR_alloc_memory_block_unmanaged(n); a->memory_blocks_count_permanent++; int32_t c = a->permanent_memory_blocks_capacity;
      if (a->permanent_memory_blocks_length >= c) { void** v = SPVM_ALLOCATOR_alloc_memory_block_unmanaged(sizeof(void*) * (2 * c)); memcpy(v, a->permanent_memory_blocks, sizeof(void*) * c); SPVM_ALLOCATOR_free_memory_block_unmanaged(a->permanent_memory_blocks);
      a->permanent_memory_blocks = v; a->permanent_memory_blocks_capacity = 2 * c; } a->permanent_memory_blocks[a->permanent_memory_blocks_length] = b; a->permanent_memory_blocks_length++; return b;""")
    fn(g, "SPVM_ALLOCATOR_free_memory_block_permanent", "void", A + ", void* b", "SPVM_ALLOCATOR_free_memory_block_unmanaged(b); a->memory_blocks_count_permanent--;")
    fn(g, "SPVM_ALLOCATOR_free", "void", A, "for (int32_t i = 0; i < a->permanent_memory_blocks_length; i++) SPVM_ALLOCATOR_free_memory_block_permanent(a, a->permanent_memory_blocks[i]); SPVM_ALLOCATOR_free_memory_block_unmanaged(a->permanent_memory_blocks); assert(a->memory_blocks_count_tmp == 0); assert(a->memory_blocks_count_permanent == 0); SPVM_ALLOCATOR_free_memory_block_unmanaged(a);")
    g = "opcode_list"
    fn(g, "SPVM_OPCODE_LIST_new", "SPVM_OPCODE_LIST*", "SPVM_COMPILER* c", "SPVM_OPCODE_LIST* l = SPVM_ALLOCATOR_alloc_memory_block_permanent(c->current_each_compile_allocator, sizeof(SPVM_OPCODE_LIST)); l->capacity = 64; l->length = 0; l->values = SPVM_ALLOCATOR_alloc_memory_block_permanent(c->current_each_compile_allocator, (int64_t)l->capacity * (int64_t)sizeof(SPVM_OPCODE)); return l;")
    fn(g, "SPVM_OPCODE_LIST_push_opcode", "void", "SPVM_COMPILER* c, SPVM_OPCODE_LIST* l, SPVM_OPCODE* o", """int32_t n = l->capacity, m = l->length; if (m >= n) { SPVM_OPCODE* v = SPVM_ALLOCATOR_alloc_memory_block_permanent(c->current_each_compile_allocator, (int64_t)(2 * n) * (int64_t)sizeof(SPVM_OPCODE));
      memcpy(v, l->values, n * sizeof(SPVM_OPCODE)); l->values = v; l->capacity = 2 * n; } memcpy(&l->values[m], o, sizeof(SPVM_OPCODE)); l->length++;""")

def types():
    g = "type_relation"
    C = "SPVM_COMPILER* c"
    BT = "SPVM_BASIC_TYPE* %s = SPVM_LIST_get(c->basic_types, %s); "
    CLS, IFC = "SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS", "SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE"
    fn(g, "SPVM_BASIC_TYPE_has_interface", "int32_t", C + ", int32_t src, int32_t dst, char* why", BT % ("d", "dst") + "if (d->category != " + IFC + ") return 0; return SPVM_BASIC_TYPE_has_interface_common(c, src, dst, why);")
    fn(g, "SPVM_BASIC_TYPE_has_interface_common", "int32_t", C + ", int32_t src, int32_t dst, char* why", BT % ("s", "src") + BT % ("d", "dst") + """
      if (s->category != %s && s->category != %s) return 0; if (d->category != %s && d->category != %s) return 0;
      for (int32_t i = 0; i < d->methods->length; i++) { SPVM_METHOD* m = SPVM_LIST_get(d->methods, i); if (m->is_class_method) continue;
        SPVM_METHOD* f = 0; SPVM_BASIC_TYPE* b = s; while (1) { if (b == 0) break; f = SPVM_HASH_get(b->method_symtable, m->name, strlen(m->name)); if (f) break; b = b->parent; }
        if (m->is_required && f == 0) return 0;
        if (f && !SPVM_TYPE_satisfy_interface_method_requirement(c, m, f, why)) return 0; } return 1;""" % (CLS, IFC, CLS, IFC))
    fn(g, "SPVM_BASIC_TYPE_is_super_class", "int32_t", C + ", int32_t dst, int32_t src", BT % ("d", "dst") + BT % ("s", "src") + """if (d->category != %s || s->category != %s) return 0;
      const char* n = s->parent_name; while (1) { if (n == 0) return 0; if (strcmp(d->name, n) == 0) return 1; SPVM_BASIC_TYPE* b = SPVM_HASH_get(c->basic_type_symtable, n, strlen(n)); n = b->parent_name; }""" % (CLS, CLS))
    OK = "SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion_with_interface_match(c, %s->basic_type->id, %s->dimension, %s->flag, %s->basic_type->id, %s->dimension, %s->flag, 0)"
    ok = lambda d, s: OK % (d, d, d, s, s, s)
    fn(g, "SPVM_TYPE_satisfy_interface_method_requirement", "int32_t", C + ", SPVM_METHOD* d, SPVM_METHOD* s, char* why", """SPVM_LIST* sv = s->var_decls; SPVM_LIST* dv = d->var_decls; if (s->is_class_method || d->is_class_method) return 0; if (d->args_length < s->required_args_length) return 0;
      for (int32_t i = 1; i < d->args_length; i++) { if (i > s->args_length - 1) break; SPVM_VAR_DECL* a = SPVM_LIST_get(sv, i); SPVM_VAR_DECL* b = SPVM_LIST_get(dv, i); SPVM_TYPE* at = a->type; SPVM_TYPE* bt = b->type; if (!%s) return 0; }
      SPVM_TYPE* sr = s->return_type; SPVM_TYPE* dr = d->return_type; if (!%s) return 0; return 1;""" % (ok("bt", "at"), ok("dr", "sr")))
    fn(g, "SPVM_TYPE_get_mulnum_field_basic_type_id", "int32_t", C + ", int32_t b, int32_t n, int32_t f", "if (SPVM_TYPE_is_mulnum_type(c, b, n, f) || SPVM_TYPE_is_mulnum_ref_type(c, b, n, f)) { " + BT % ("t", "b") + " assert(t->fields->length > 0); SPVM_FIELD* x = SPVM_LIST_get(t->fields, 0); return x->type->basic_type->id; } return -1;")
    fn(g, "SPVM_TYPE_equals", "int32_t", C + ", int32_t b1, int32_t n1, int32_t f1, int32_t b2, int32_t n2, int32_t f2", "return b1 == b2 && n1 == n2 && f1 == f2;")

HEAD = '''#include <stdlib.h>
#include <assert.h>
#include <string.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdint.h>
'''
def headers():
    import os, re
    from . import build
    skip = ("spvm_yacc.h", "spvm_vm.h", "spvm_implement.h", "spvm_native.h", "spvm_public_api.h")
    hs = [h for h in sorted(os.listdir(build.BUILDER + "/include")) if h.endswith(".h") and h not in skip and not h.startswith("spvm_api")]
    return '#include "spvm_native.h"\n' + HEAD + "".join('#include "%s"\n' % h for h in hs)  + "void SPVM_ALLOCATOR_free_memory_block_permanent(SPVM_ALLOCATOR* allocator, void* block);\n"

def reflection():
    """each question of the reflection API answers with the member of its name"""
    g = "reflection"
    R = "SPVM_RUNTIME* runtime, "
    def get(kind, struct, members, rename={}, ret={}):
        for m in members.split():
            ty, mem = ("int32_t", m) if ":" not in m else m.split(":")
            ty = {"s": "const char*", "b": "SPVM_RUNTIME_BASIC_TYPE*", "m": "SPVM_RUNTIME_METHOD*", "p": "void*", "r": "SPVM_RUNTIME*", "v": "SPVM_VALUE", "i": "int32_t"}.get(ty, ty)
            fn(g, "SPVM_API_%s_%s" % (kind, mem if mem.startswith("is_") else "get_" + mem), ty, R + "%s* x" % struct, "return x->%s;" % mem)
    get("ARG", "SPVM_RUNTIME_ARG", "s:name index b:basic_type type_dimension type_flag stack_index m:current_method is_optional v:default_value")
    get("FIELD", "SPVM_RUNTIME_FIELD", "s:name index offset b:basic_type type_dimension type_flag b:current_basic_type")
    get("CLASS_VAR", "SPVM_RUNTIME_CLASS_VAR", "s:name index b:basic_type type_dimension type_flag b:current_basic_type")
    get("METHOD", "SPVM_RUNTIME_METHOD", """s:name index b:return_basic_type return_type_dimension return_type_flag args_length required_args_length b:current_basic_type opcodes_length is_class_method is_native is_precompile is_enum
      byte_vars_width short_vars_width int_vars_width long_vars_width float_vars_width double_vars_width object_vars_width ref_vars_width mortal_stack_length p:native_address p:precompile_address is_precompile_fallback""")
    get("BASIC_TYPE", "SPVM_RUNTIME_BASIC_TYPE", "s:name id category b:parent s:version_string s:class_dir s:class_rel_file is_pointer is_anon class_vars_length fields_length methods_length anon_basic_types_length s:file r:current_runtime")
    M = R + "SPVM_RUNTIME_METHOD* x"
    fn(g, "SPVM_API_METHOD_is_anon", "int32_t", M, "return strcmp(x->name, \"\") == 0;")
    for m in ("native_address", "precompile_address"): fn(g, "SPVM_API_METHOD_set_" + m, "void", M + ", void* v", "x->%s = v;" % m)
    fn(g, "SPVM_API_METHOD_set_is_precompile_fallback", "void", M + ", int32_t v", "x->is_precompile_fallback = v;")
    def by_index(name, kind, ret, arr, amp="&"):
        fn(g, "SPVM_API_%s_get_%s_by_index" % (kind, name), ret, R + "SPVM_RUNTIME_%s* x, int32_t i" % kind, "if (i < 0 || i >= x->%s_length) return 0; return %sx->%s[i];" % (arr, amp, arr))
    by_index("arg", "METHOD", "SPVM_RUNTIME_ARG*", "args"); by_index("opcode", "METHOD", "SPVM_OPCODE*", "opcodes")
    by_index("class_var", "BASIC_TYPE", "SPVM_RUNTIME_CLASS_VAR*", "class_vars"); by_index("field", "BASIC_TYPE", "SPVM_RUNTIME_FIELD*", "fields"); by_index("method", "BASIC_TYPE", "SPVM_RUNTIME_METHOD*", "methods")
    by_index("anon_basic_type", "BASIC_TYPE", "SPVM_RUNTIME_BASIC_TYPE*", "anon_basic_types", "")
    B2 = R + "SPVM_RUNTIME_BASIC_TYPE* a, SPVM_RUNTIME_BASIC_TYPE* b"
    fn(g, "SPVM_API_BASIC_TYPE_has_interface", "int32_t", B2, "return SPVM_BASIC_TYPE_has_interface(runtime->compiler, a->id, b->id, 0);")
    fn(g, "SPVM_API_BASIC_TYPE_is_super_class", "int32_t", B2, "return SPVM_BASIC_TYPE_is_super_class(runtime->compiler, a->id, b->id);")
    fn(g, "SPVM_API_RUNTIME_get_basic_type_by_id", "SPVM_RUNTIME_BASIC_TYPE*", R + "int32_t i", "if (i < 0 || i >= runtime->basic_types_length) return 0; SPVM_RUNTIME_BASIC_TYPE* t = runtime->basic_types[i]; assert(t); return t;")
    fn(g, "SPVM_API_RUNTIME_get_basic_type_by_name", "SPVM_RUNTIME_BASIC_TYPE*", R + "const char* n", "return SPVM_HASH_get(runtime->basic_type_symtable, n, strlen(n));")
    for m, t in (("basic_types_length", "int32_t"), ("compiler", "SPVM_COMPILER*"), ("spvm_stdin", "FILE*"), ("spvm_stdout", "FILE*"), ("spvm_stderr", "FILE*"), ("env", "SPVM_ENV*")): fn(g, "SPVM_API_RUNTIME_get_" + m, t, "SPVM_RUNTIME* runtime", "return runtime->%s;" % m)
    fn(g, "SPVM_API_RUNTIME_set_compiler", "void", R + "SPVM_COMPILER* c", "runtime->compiler = c;")
    T = R + "SPVM_RUNTIME_BASIC_TYPE* t, int32_t dim, int32_t flag"
    for m in ("is_object_type", "is_any_object_type", "is_object_array_type", "is_any_object_array_type", "is_numeric_type", "is_class_type", "get_type_width"):
        fn(g, "SPVM_API_TYPE_" + m, "int32_t", T, "return SPVM_TYPE_%s(runtime->compiler, t->id, dim, flag);" % m)
    C = "SPVM_COMPILER* compiler"
    g = "compiler"
    for m, t in (("start_line", "int32_t"), ("start_file", "const char*")):
        fn(g, "SPVM_API_COMPILER_get_" + m, t, C, "return compiler->%s;" % m)
    fn(g, "SPVM_API_COMPILER_set_start_line", "void", C + ", int32_t v", "compiler->start_line = v;")
    F = C + ", SPVM_CLASS_FILE* x"
    for m, t in (("class_name", "const char*"), ("file", "const char*"), ("dir", "const char*"), ("rel_file", "const char*"), ("content", "const char*"), ("content_length", "int32_t")):
        fn(g, "SPVM_CLASS_FILE_get_" + m, t, F, "return x->%s;" % m)
        fn(g, "SPVM_API_CLASS_FILE_get_" + m, t, F, "return SPVM_CLASS_FILE_get_%s(compiler, x);" % m)
    fn(g, "SPVM_CLASS_FILE_set_content_length", "void", F + ", int32_t n", "x->content_length = n;")

def text(): return "\n".join(SPEC.values())

containers(); types(); reflection()
