From 81fc300b48d571eedfe3ccee6e9f7914a104a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 01/54] fix: type_name of undef releases the string the
 register held

SPVM_IMPLEMENT_TYPE_NAME stored NULL straight into the object register, so the
reference count of the object that was there was never decremented.
---
 lib/SPVM/Builder/include/spvm_implement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..68bffa5 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1412,7 +1412,7 @@ static inline void SPVM_IMPLEMENT_WARN(SPVM_ENV* env, SPVM_VALUE* stack, void* s
 
 static inline void SPVM_IMPLEMENT_TYPE_NAME(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* object) {
   if (object == NULL) {
-    *out = NULL;
+    env->assign_object(env, stack, out, NULL);
   }
   else {
     void* type_name = env->get_type_name_no_mortal(env, stack, object);
-- 
2.43.0


From 6260321e822d71ac133c776a3b5bff33840c510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 02/54] fix: the minimum int or long divided by -1 does not
 kill the process

INT_MIN / -1 and INT_MIN % -1 (and the long versions) raised SIGFPE. Only a
zero divisor is documented to fail; the quotient wraps like the other operators.
---
 lib/SPVM/Builder/include/spvm_implement.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 68bffa5..e1d221e 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -215,7 +215,8 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    *out = in1 / in2;
+    // The minimum value divided by -1 does not trap
+    *out = in2 == -1 ? (int32_t)(0 - (uint32_t)in1) : in1 / in2;
   }
 }
 
@@ -226,7 +227,8 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    *out = in1 / in2;
+    // The minimum value divided by -1 does not trap
+    *out = in2 == -1 ? (int64_t)(0 - (uint64_t)in1) : in1 / in2;
   }
 }
 
@@ -263,7 +265,8 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    int32_t ret = in1 % in2;
+    // The minimum value modulo -1 does not trap
+    int32_t ret = in2 == -1 ? 0 : in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
     *out = ret;
   }
@@ -276,7 +279,8 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    int64_t ret = in1 % in2;
+    // The minimum value modulo -1 does not trap
+    int64_t ret = in2 == -1 ? 0 : in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
     *out = ret;
   }
-- 
2.43.0


From be4a0eb826dbf6c36d92f9a64692bdb2b74bf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 03/54] fix: the byte[]-to-string conversion of undef returns
 undef

It dereferenced NULL; SPVM::Document::Language::Operators says undef is returned.
---
 lib/SPVM/Builder/include/spvm_implement.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index e1d221e..2e0afd8 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2226,10 +2226,16 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+  
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From f677f14f6af0c5a07fa0e12435948abfb3f4f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 04/54] fix: make_read_only does nothing for undef

The type of the object was read before the check for NULL.
---
 lib/SPVM/Builder/src/spvm_api.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..3371e98 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3665,8 +3665,11 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
 }
 
 void SPVM_API_make_read_only(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* string) {
+  if (string == NULL) {
+    return;
+  }
   SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
-  if (string && string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
+  if (string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
     string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
   }
 }
-- 
2.43.0


From 6b4a14abb7951b452cea81818ae66625f290b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 05/54] fix: a destructor does not corrupt a multi-numeric
 return value

---
 lib/SPVM/Builder/include/spvm_api.h |  3 ++
 lib/SPVM/Builder/src/spvm_api.c     | 63 ++++++++++++++++-------------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_api.h b/lib/SPVM/Builder/include/spvm_api.h
index abddcf1..2ecd256 100644
--- a/lib/SPVM/Builder/include/spvm_api.h
+++ b/lib/SPVM/Builder/include/spvm_api.h
@@ -9,6 +9,7 @@
 
 enum {
   SPVM_API_C_STACK_LENGTH = 512,
+  SPVM_API_C_STACK_ARGS_LENGTH = 256, // 0 to 255
 };
 
 enum {
@@ -334,6 +335,8 @@ int32_t SPVM_API_is_binary_compatible_stack(SPVM_ENV* env, SPVM_VALUE* stack);
 
 // Assign
 
+void SPVM_API_call_destroy_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
+
 void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** dist_ref, SPVM_OBJECT* object);
 
 SPVM_MUTEX* SPVM_API_get_object_mutex(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 3371e98..68b4993 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5136,6 +5136,40 @@ void SPVM_API_free_weaken_backrefs(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_WEAKEN
   }
 }
 
+void SPVM_API_call_destroy_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object) {
+  
+  SPVM_RUNTIME* runtime = env->runtime;
+  
+  // Save return value and exception variable. The return value of a multi-numeric type has multiple elements.
+  SPVM_VALUE save_stack_ret[SPVM_API_C_STACK_ARGS_LENGTH];
+  memcpy(save_stack_ret, stack, sizeof(save_stack_ret));
+  void* save_stack_exception_var = stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval;
+  stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = NULL;
+  
+  SPVM_RUNTIME_METHOD* destroy_method = object->basic_type->destroy_method;
+  
+  stack[0].oval = object;
+  int32_t args_width = 1;
+  int32_t error_id = SPVM_API_call_method(env, stack, destroy_method, args_width);
+  
+  // An exception thrown in a destructor is converted to a warning message
+  if (error_id) {
+    void* exception = SPVM_API_get_exception(env, stack);
+    
+    assert(exception);
+    
+    const char* exception_chars = SPVM_API_get_chars(env, stack, exception);
+    
+    fprintf(runtime->spvm_stderr, "[An exception thrown in DESTROY method is converted to a warning message]\n%s\n", exception_chars);
+  }
+  
+  SPVM_API_set_exception(env, stack, NULL);
+  
+  // Restore return value and exception variable
+  memcpy(stack, save_stack_ret, sizeof(save_stack_ret));
+  stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = save_stack_exception_var;
+}
+
 void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref, SPVM_OBJECT* object) {
   
   SPVM_RUNTIME* runtime = env->runtime;
@@ -5198,34 +5232,7 @@ void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref,
           
           // Call destructor
           if (released_object_basic_type->destroy_method) {
-            
-            // Save return value and exception variable
-            SPVM_VALUE save_stack_ret = stack[0];
-            void* save_stack_exception_var = stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval;
-            stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = NULL;
-            
-            SPVM_RUNTIME_METHOD* destroy_method = released_object_basic_type->destroy_method;
-            
-            stack[0].oval = released_object;
-            int32_t args_width = 1;
-            int32_t error_id = SPVM_API_call_method(env, stack, destroy_method, args_width);
-            
-            // An exception thrown in a destructor is converted to a warning message
-            if (error_id) {
-              void* exception = SPVM_API_get_exception(env, stack);
-              
-              assert(exception);
-              
-              const char* exception_chars = SPVM_API_get_chars(env, stack, exception);
-              
-              fprintf(runtime->spvm_stderr, "[An exception thrown in DESTROY method is converted to a warning message]\n%s\n", exception_chars);
-            }
-            
-            SPVM_API_set_exception(env, stack, NULL);
-            
-            // Restore return value and exception variable
-            stack[0] = save_stack_ret;
-            stack[SPVM_API_C_STACK_INDEX_EXCEPTION].oval = save_stack_exception_var;
+            SPVM_API_call_destroy_method(env, stack, released_object);
           }
           
           // Free released_object fields
-- 
2.43.0


From de518d6263bf975ce14d7a3336d8feb3cd62c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 06/54] fix: the size of a multi-numeric array does not
 overflow

---
 lib/SPVM/Builder/src/spvm_api.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 68b4993..7d7f455 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4055,6 +4055,10 @@ SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
   
   SPVM_RUNTIME* runtime = env->runtime;
   
+  if (length < 0) {
+    return NULL;
+  }
+  
   // valut_t array dimension must be 1
   const char* basic_type_name = basic_type->name;
   
@@ -4086,7 +4090,7 @@ SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     assert(0);
   }
   
-  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + unit_size * fields_length * (length + 1);
+  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + (size_t)unit_size * fields_length * ((size_t)length + 1);
   
   SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 1, length, 0);
   
-- 
2.43.0


From 95b4724151b80e8f33ae0b4b4242874320aff0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 07/54] fix: set_no_free(0) does not set the flag

---
 lib/SPVM/Builder/src/spvm_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 7d7f455..e688c81 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5517,7 +5517,7 @@ void SPVM_API_set_no_free(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object,
     object->flag |= SPVM_OBJECT_C_FLAG_NO_FREE;
   }
   else {
-    object->flag ^= SPVM_OBJECT_C_FLAG_NO_FREE;
+    object->flag &= ~SPVM_OBJECT_C_FLAG_NO_FREE;
   }
 }
 
-- 
2.43.0


From 2d0f01fc76d3c6147e533312f7786bac4aba6bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 08/54] fix: new_object_array and new_muldim_array test the
 type before they read it

---
 lib/SPVM/Builder/src/spvm_api.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index e688c81..13951a6 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3986,6 +3986,10 @@ SPVM_OBJECT* SPVM_API_new_object_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     return NULL;
   }
   
+  if (!basic_type) {
+    return NULL;
+  }
+  
   SPVM_RUNTIME* runtime = env->runtime;
   
   SPVM_OBJECT object_for_type_check;
@@ -3998,10 +4002,6 @@ SPVM_OBJECT* SPVM_API_new_object_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     return NULL;
   }
   
-  if (!basic_type) {
-    return NULL;
-  }
-  
   size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + sizeof(void*) * (length + 1);
   
   SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 1, length, 0);
@@ -4024,14 +4024,14 @@ SPVM_OBJECT* SPVM_API_new_muldim_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     return NULL;
   }
   
-  if (type_dimension < 2) {
+  if (!basic_type) {
     return NULL;
   }
-  else if (basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT) {
+  
+  if (type_dimension < 2) {
     return NULL;
   }
-  
-  if (!basic_type) {
+  else if (basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_ANY_OBJECT) {
     return NULL;
   }
   
-- 
2.43.0


From b9ae40f4a229a3a8621cb484024f09df36caf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 09/54] fix: the position in a message about the fields of a
 multi-numeric type

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..df9abcc 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -270,7 +270,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
         SPVM_FIELD* field = SPVM_LIST_get(fields, field_index);
         SPVM_TYPE* field_type = field->type;
         if (!(field_type->basic_type->id == first_field_type->basic_type->id && field_type->dimension == first_field_type->dimension)) {
-          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field_type->basic_type->name, field->op_field->file, field->op_field->line);
+          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field->op_field->file, field->op_field->line);
           return;
         }
       }
-- 
2.43.0


From f0a7c0df5d0b88d31f4298955cda6470bb8314b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 10/54] fix: get_field_string_chars_by_name checks the object
 and the type of the field

---
 lib/SPVM/Builder/src/spvm_api.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 13951a6..2dbb278 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -2188,13 +2188,8 @@ const char* SPVM_API_get_field_string_chars_by_name(SPVM_ENV* env, SPVM_VALUE* s
   
   *error_id = 0;
   
-  SPVM_RUNTIME_FIELD* field = SPVM_API_get_field(env, stack, object, field_name);
-  if (!field) {
-    *error_id = SPVM_API_die(env, stack, "The \"%s\" field is not found.", field_name, func_name, file, line);
-    return NULL;
-  };
-  SPVM_OBJECT* value = SPVM_API_get_field_string(env, stack, object, field);
-  if (value == NULL) {
+  SPVM_OBJECT* value = SPVM_API_get_field_string_by_name(env, stack, object, field_name, error_id, func_name, file, line);
+  if (*error_id || value == NULL) {
     return NULL;
   }
   else {
-- 
2.43.0


From dcf0fba69bc918cc9b4ef362498626bf1ed977e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 11/54] fix: the method API's is_precompile_fallback slot calls
 its own function

---
 lib/SPVM/Builder/src/spvm_api_method.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api_method.c b/lib/SPVM/Builder/src/spvm_api_method.c
index 0861b83..5c56bc1 100644
--- a/lib/SPVM/Builder/src/spvm_api_method.c
+++ b/lib/SPVM/Builder/src/spvm_api_method.c
@@ -42,7 +42,7 @@ SPVM_API_METHOD* SPVM_API_METHOD_new_api() {
     SPVM_API_METHOD_set_native_address,
     SPVM_API_METHOD_get_precompile_address,
     SPVM_API_METHOD_set_precompile_address,
-    SPVM_API_METHOD_is_precompile,
+    SPVM_API_METHOD_is_precompile_fallback,
     SPVM_API_METHOD_set_is_precompile_fallback,
   };
   
-- 
2.43.0


From 2b3cd929a20c622ae27914c466ef12dba6de4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 12/54] fix: a cast of an object to mutable string checks that
 it is a string

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 2e0afd8..d6e6efb 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -401,7 +401,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (string && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From c4fd82195555d8fff3cc464913f1d42b8524d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 13/54] fix: a cast to a numeric array or a multi-numeric array
 requires the same dimension

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 70f4ed7..c163e13 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1590,7 +1590,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is numeric array type(except for byte array)
   else if (SPVM_TYPE_is_numeric_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
     }
     // Source type is any object type
@@ -1609,7 +1609,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is multi-numeric array
   else if (SPVM_TYPE_is_mulnum_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
     }
     // Source type is any object type
-- 
2.43.0


From 5e814771d2de607d6bee796067b6c73eb3a2adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 14/54] fix: a cast of a numeric object to its own type is
 allowed

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index c163e13..7f9176c 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1471,6 +1471,10 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
         can_cast = 0;
       }
     }
+    // Source type equals dist type
+    else if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+      can_cast = 1;
+    }
     // Source type is any object type
     else if (SPVM_TYPE_is_any_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
-- 
2.43.0


From 15fd33f88e62ae89108dc96aceb38921088caddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 15/54] fix: accept method arguments of array types with three
 or more dimensions

The opcode builder asserted that an argument has at most two dimensions, so compiling
a method with an int[][][] argument aborted the process.
---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..91a7a15 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -214,7 +214,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             }
           }
         }
-        else if (arg_type_dimension == 2) {
+        else if (arg_type_dimension >= 2) {
           SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_GET_STACK_OBJECT);
           opcode.operand0 = arg->typed_var_index;
           opcode.operand3 = stack_index & 0xFF;
-- 
2.43.0


From 98acd9f4115bab1186ce34077d756185ab39ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 16/54] fix: an exception raised before a nested eval block
 leaves the outer eval block

The end of an inner eval block also took the pending exception jumps of the outer one, so an
exception raised in the outer block before the inner one continued after the inner block.
---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 91a7a15..17f3f4e 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -438,16 +438,23 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   }
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
+                  // The jumps before this opcode index belong to the outer eval blocks
+                  int32_t eval_block_start_opcode_index = (intptr_t)SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
+                  
                   // Set IF_EXCEPTION_CATCH opcode index
                   while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
-                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
+                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_get(goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_eval_on_exception_opcode_index_stack->length - 1);
+                    
+                    if (goto_end_of_eval_on_exception_goto_opcode_index < eval_block_start_opcode_index) {
+                      break;
+                    }
+                    
+                    SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
                     int32_t goto_end_of_eval_on_exception_goto_opcode_base_index = opcode_list->length;
                     goto_end_of_eval_on_exception_goto->operand0 = goto_end_of_eval_on_exception_goto_opcode_base_index;
                   }
-                  
-                  SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_METHOD) {
                   while (return_opcode_index_stack->length > 0) {
-- 
2.43.0


From 609937b937afe49f73a07b86756000d78440b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/54] fix: leaving an inner scope releases only the variables
 declared in it

The LEAVE_SCOPE opcode has the depth of the mortal stack counted when the opcodes are built. It was not
the depth at runtime after an operand of && or || that declared a (temporary) object variable, nor in a
loop whose condition or increment statement declared one: leaving an inner block released variables of
the outer blocks, and a loop without object variables in its body pushed entries beyond the end of the
mortal stack. The object variables of these operations are now pushed once, before the operation.
---
 .../Builder/include/spvm_opcode_builder.h     |  4 +
 lib/SPVM/Builder/src/spvm_opcode_builder.c    | 76 +++++++++++++++----
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_opcode_builder.h b/lib/SPVM/Builder/include/spvm_opcode_builder.h
index 07c7579..67791b0 100644
--- a/lib/SPVM/Builder/include/spvm_opcode_builder.h
+++ b/lib/SPVM/Builder/include/spvm_opcode_builder.h
@@ -20,6 +20,10 @@ void SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(
   int32_t line
 );
 
+void SPVM_OPCODE_BUILDER_push_mortal(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, int32_t* mortal_stack_top, SPVM_OP* op_var);
+
+void SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, int32_t* mortal_stack_top, SPVM_OP* op);
+
 int32_t SPVM_OPCODE_BUILDER_get_typed_var_index(SPVM_COMPILER* compiler, SPVM_OP* op);
 
 SPVM_OP* SPVM_OPCODE_BUILDER_get_op_var(SPVM_COMPILER* compiler, SPVM_OP* op);
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 17f3f4e..b6bd42e 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -295,6 +295,12 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
               int32_t next_block_base = next_opcode_index_stack->length;
               SPVM_LIST_push(loop_block_stack_next_base, (void*)(intptr_t)next_block_base);
 
+              // The increment statement and the condition are executed many times in the scope of the loop
+              SPVM_OP* op_loop_increment = op_cur->sibparent;
+              SPVM_OP* op_condition = op_loop_increment->sibparent;
+              SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, &mortal_stack_top, op_loop_increment);
+              SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, &mortal_stack_top, op_condition);
+              
               SPVM_OPCODE opcode = {0};
               
               // Add goto
@@ -333,6 +339,13 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             
             break;
           }
+          case SPVM_OP_C_ID_IF: {
+            // The operands of logical operators are executed or not in the current scope
+            if (op_cur->last->uv.block->no_scope) {
+              SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, &mortal_stack_top, op_cur);
+            }
+            break;
+          }
           case SPVM_OP_C_ID_SWITCH: {
             SPVM_SWITCH_INFO* switch_info = op_cur->uv.switch_info;
             SPVM_LIST_push(switch_stack_switch_info, switch_info);
@@ -798,20 +811,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   SPVM_VAR_DECL* var_decl = op_cur->uv.var->var_decl;
                   
                   SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, var_decl->op_var_decl);
-                  if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
-                    
-                    SPVM_OPCODE opcode = {0};
-                    
-                    SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
-                    int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_cur);
-                    opcode.operand0 = typed_var_index;
-                    
-                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
-                    
-                    SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
-                    
-                    mortal_stack_top++;
-                  }
+                  SPVM_OPCODE_BUILDER_push_mortal(compiler, opcode_list, mortal_stack, &mortal_stack_top, op_cur);
                   
                   // Initialized not initialized variable
                   if (!op_cur->uv.var->is_initialized && !op_cur->uv.var->var_decl->is_arg) {
@@ -5158,6 +5158,54 @@ void SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(
   }
 }
 
+void SPVM_OPCODE_BUILDER_push_mortal(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, int32_t* mortal_stack_top, SPVM_OP* op_var) {
+  
+  SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_var->uv.var->var_decl->op_var_decl);
+  
+  if (!SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+    return;
+  }
+  
+  int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_var);
+  
+  // The variable is already pushed
+  for (int32_t i = 0; i < mortal_stack->length; i++) {
+    if ((intptr_t)SPVM_LIST_get(mortal_stack, i) == typed_var_index) {
+      return;
+    }
+  }
+  
+  SPVM_OPCODE opcode = {0};
+  
+  SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
+  opcode.operand0 = typed_var_index;
+  
+  SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+  
+  SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
+  
+  (*mortal_stack_top)++;
+}
+
+// Push the object variables declared in an operation that is not executed exactly once in its scope,
+// so that the depth of the mortal stack at runtime is always the one that the LEAVE_SCOPE opcodes expect.
+void SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, int32_t* mortal_stack_top, SPVM_OP* op) {
+  
+  if (op->id == SPVM_OP_C_ID_BLOCK && !op->uv.block->no_scope) {
+    return;
+  }
+  
+  if (op->id == SPVM_OP_C_ID_VAR && op->uv.var->is_declaration) {
+    SPVM_OPCODE_BUILDER_push_mortal(compiler, opcode_list, mortal_stack, mortal_stack_top, op);
+  }
+  
+  SPVM_OP* op_child = op->first;
+  while (op_child) {
+    SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, mortal_stack_top, op_child);
+    op_child = op_child->moresib ? op_child->sibparent : NULL;
+  }
+}
+
 int32_t SPVM_OPCODE_BUILDER_get_typed_var_index(SPVM_COMPILER* compiler, SPVM_OP* op) {
   
   switch (op->id) {
-- 
2.43.0


From 278cd0de516f5bc76a391bc31a9cffa7b7cacfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 18/54] fix: assigning undef to an element of object[] raises
 its exception

SET_ARRAY_ELEMENT_UNDEF was not followed by the jump on an exception, so an undef array or an index
out of range went on with the next statement and left an enclosing eval block.
---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index b6bd42e..e7929d2 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4630,6 +4630,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       opcode.operand0 = typed_var_index_array;
                       opcode.operand1 = typed_var_index_index;
                       SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+
+                      SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
                     }
                     else {
                       SPVM_OPCODE opcode = {0};
-- 
2.43.0


From ec3066ab3b0c64e3440e1b7e0045e755132470b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 19/54] fix: storing an element in a class array or a
 multi-dimensional array checks its type

A Child[] is assignable to Parent[], so the element type of the array has to be checked at runtime as
it is for interface arrays. For arrays of two or more dimensions the choice of the opcode depended on
an uninitialized variable.
---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index e7929d2..a7b5110 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4758,19 +4758,19 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                         }
                       }
                       else {
+                        // The array can be an array of a more specific type
                         int32_t is_check_type;
-                        if (array_type_dimension == 1) {
-                          switch (array_basic_type_category) {
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
-                            {
-                              is_check_type = 1;
-                              break;
-                            }
-                            default: {
-                              is_check_type = 0;
-                              break;
-                            }
+                        switch (array_basic_type_category) {
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
+                          {
+                            is_check_type = 1;
+                            break;
+                          }
+                          default: {
+                            is_check_type = 0;
+                            break;
                           }
                         }
                         
-- 
2.43.0


From da6b397340d706aa5fec076693097e6f490933c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 20/54] fix: a failed allocation of an object or a constant
 string raises its exception

The NEW_OBJECT and NEW_STRING opcodes set the exception, but no jump on the exception followed them.
---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index a7b5110..1988fa6 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2733,6 +2733,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                         
                         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                         
+                        SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_assign->line);
                       }
                       else {
                         assert(0);
@@ -3451,6 +3452,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                           opcode.operand0 = typed_var_index_out;
                           opcode.operand1 = type->basic_type->id;
                           SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+
+                          SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_assign->line);
                         }
                       }
                       else {
-- 
2.43.0


From b5e51a8f213ebad076ea3040b9d01fa71f947717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 21/54] fix: new of a string, any object, or multi-numeric type
 is a compilation error

---
 lib/SPVM/Builder/src/spvm_check.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index df9abcc..065de81 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2148,6 +2148,18 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a numeric type.\n  at %s line %d", op_new->file, op_new->line);
               return;
             }
+            // Multi-numeric type
+            else if (SPVM_TYPE_is_mulnum_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+              SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
+              return;
+            }
+            // String type and any object type
+            else if (SPVM_TYPE_is_string_type(compiler, type->basic_type->id, type->dimension, type->flag)
+              || SPVM_TYPE_is_any_object_type(compiler, type->basic_type->id, type->dimension, type->flag))
+            {
+              SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be the %s type.\n  at %s line %d", type->basic_type->name, op_new->file, op_new->line);
+              return;
+            }
             // Object type
             else if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
               SPVM_BASIC_TYPE* basic_type = SPVM_HASH_get(compiler->basic_type_symtable, type->basic_type->name, strlen(type->basic_type->name));
@@ -2156,10 +2168,6 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be an interface type.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
-              else if (basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_MULNUM) {
-                SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
-                return;
-              }
 
               SPVM_BASIC_TYPE* current_basic_type = method->current_basic_type;
               if (!SPVM_CHECK_can_access(compiler, current_basic_type, new_basic_type, new_basic_type->access_control_type, 0)) {
-- 
2.43.0


From 88b8bf00d859979ad7ad47f3c6831374e111706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 22/54] fix: is_type and is_compile_type tell a reference type
 from its referenced type

---
 lib/SPVM/Builder/src/spvm_check.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 065de81..1aca1a5 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2263,7 +2263,9 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               || SPVM_TYPE_is_mulnum_type(compiler, type->basic_type->id, type->dimension, type->flag)
               || SPVM_TYPE_is_ref_type(compiler, type->basic_type->id, type->dimension, type->flag))
             {
-              if (operand_type->basic_type->id == type->basic_type->id && operand_type->dimension == type->dimension) {
+              if (operand_type->basic_type->id == type->basic_type->id && operand_type->dimension == type->dimension
+                && (operand_type->flag & SPVM_NATIVE_C_TYPE_FLAG_REF) == (type->flag & SPVM_NATIVE_C_TYPE_FLAG_REF))
+              {
                 SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
                 SPVM_OP* op_constant_true = SPVM_OP_new_op_constant_int(compiler, 1, op_cur->file, op_cur->line);
                 SPVM_OP_replace_op(compiler, op_stab, op_constant_true);
@@ -2299,7 +2301,9 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_TYPE* type = op_type->uv.type;
             
             // If left type is same as right type, this return true. Otherwise, return false
-            if (operand_type->basic_type->id == type->basic_type->id && operand_type->dimension == type->dimension) {
+            if (operand_type->basic_type->id == type->basic_type->id && operand_type->dimension == type->dimension
+              && (operand_type->flag & SPVM_NATIVE_C_TYPE_FLAG_REF) == (type->flag & SPVM_NATIVE_C_TYPE_FLAG_REF))
+            {
               SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
               SPVM_OP* op_constant_true = SPVM_OP_new_op_constant_int(compiler, 1, op_cur->file, op_cur->line);
               SPVM_OP_replace_op(compiler, op_stab, op_constant_true);
-- 
2.43.0


From 9935eaab7361c932eec9f71d71fe2b469095f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 23/54] fix: an anon method has the allowed accesses of its
 outmost class

---
 lib/SPVM/Builder/src/spvm_op.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..da5778e 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -3684,6 +3684,9 @@ int32_t SPVM_OP_is_allowed(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic_type_
   const char* current_basic_type_name = basic_type_current->name;
   const char* dist_basic_type_name = basic_type_dist->name;
   
+  // An anon method class has the same access control as its outmost class
+  const char* outmost_basic_type_name = basic_type_current->is_generated_by_anon_method ? basic_type_current->outmost->name : current_basic_type_name;
+  
   int32_t is_allowed = 0;
   if (!is_parent_field && strcmp(current_basic_type_name, dist_basic_type_name) == 0) {
     is_allowed = 1;
@@ -3692,7 +3695,7 @@ int32_t SPVM_OP_is_allowed(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic_type_
     for (int32_t i = 0; i < allows->length; i++) {
       SPVM_ALLOW* allow = SPVM_LIST_get(allows, i);
       const char* allow_basic_type_name = allow->basic_type_name;
-      if (strcmp(current_basic_type_name, allow_basic_type_name) == 0) {
+      if (strcmp(outmost_basic_type_name, allow_basic_type_name) == 0) {
         is_allowed = 1;
         break;
       }
-- 
2.43.0


From 8d4e800e7098770a057ab87e4dafac5f8e54f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 24/54] fix: an anon method does not access the private fields
 of the super classes of its outmost class

---
 lib/SPVM/Builder/src/spvm_check.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1aca1a5..3ee59e4 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3293,7 +3293,12 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             
             SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(method->current_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
             
-            int32_t is_parent_field = !found_field_in_current_basic_type && !method->current_basic_type->is_generated_by_anon_method;
+            // An anon method class has the same access control as its outmost class
+            if (!found_field_in_current_basic_type && method->current_basic_type->is_generated_by_anon_method) {
+              found_field_in_current_basic_type = SPVM_HASH_get(method->current_basic_type->outmost->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
+            }
+            
+            int32_t is_parent_field = !found_field_in_current_basic_type;
             
             if (!SPVM_CHECK_can_access(compiler, method->current_basic_type,  field_access->field->current_basic_type, field_access->field->access_control_type, is_parent_field)) {
               if (!SPVM_OP_is_allowed(compiler, method->current_basic_type, field->current_basic_type, is_parent_field)) {
-- 
2.43.0


From 9cdf626d960f2df987999c416465b5893180773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 25/54] fix: the fields after a field of a super class are not
 lost

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 3ee59e4..3e7fe4a 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -359,7 +359,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
               compile_error = 1;
             }
             
-            break;
+            continue;
           }
           
           SPVM_FIELD* new_field;
-- 
2.43.0


From 04dee4c62a85874a57190063ce983ae85d419212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 26/54] fix: the error of too many fields gets the name of the
 class

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 3e7fe4a..5cde939 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -384,7 +384,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       }
       
       if (!(merged_fields->length <= 65535)) {
-        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->op_class->file, basic_type->op_class->line);
+        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->name, basic_type->op_class->file, basic_type->op_class->line);
         return;
       }
       
-- 
2.43.0


From 7da40f65c831b6fd4e89224dbf60c282b3350322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 27/54] fix: a recursive inheritance of super classes does not
 stop the compiler from ending

---
 lib/SPVM/Builder/src/spvm_check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 5cde939..bcaa8e2 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -131,8 +131,11 @@ void SPVM_CHECK_check_basic_types_relation(SPVM_COMPILER* compiler) {
   for (int32_t basic_type_id = compiler->basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
     SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
     SPVM_BASIC_TYPE* parent_basic_type = basic_type->parent;
+    int32_t super_classes_length = 0;
     while (1) {
-      if (parent_basic_type) {
+      // A recursive inheritance that does not contain the current class is found from the classes that it contains
+      if (parent_basic_type && super_classes_length <= compiler->basic_types->length) {
+        super_classes_length++;
         if (strcmp(parent_basic_type->name, basic_type->name) == 0) {
           SPVM_COMPILER_error(compiler, "Recursive inheritance. Found the current class %s in a super class.\n  at %s line %d", basic_type->name, basic_type->op_extends->file, basic_type->op_extends->line);
           return;
-- 
2.43.0


From 3d83f9256494d24c6d040c80967d6ad2714bb314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 28/54] fix: checking the suffix of a multi-numeric type reads
 before the beginning of a shorter class name

---
 lib/SPVM/Builder/src/spvm_check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index bcaa8e2..eecc105 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -305,7 +305,10 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       int32_t tail_name_length = (int32_t)strlen(tail_name);
       int32_t basic_type_name_length = strlen(basic_type_name);
       
-      char* found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
+      char* found_pos_ptr = NULL;
+      if (basic_type_name_length >= tail_name_length) {
+        found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
+      }
       if (!found_pos_ptr) {
         SPVM_COMPILER_error(compiler, "The name of the multi-numeric type %s must end with with %s.\n  at %s line %d", basic_type->name, tail_name, basic_type->op_class->file, basic_type->op_class->line);
         return;
-- 
2.43.0


From f0edf779310b89a3cedc9076acc0c592fc7641d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 29/54] fix: allocate enough memory for the class name and the
 file name of an anon class

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..3cb4576 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -186,13 +186,14 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   // Anon class
   if (source) {
     int32_t int32_max_length = 10;
-    int32_t anon_method_basic_type_name_length = 4 + 2 + 4 + 2 + int32_max_length;
+    int32_t anon_basic_type_name_length = strlen("eval::anon_class::") + int32_max_length;
+    int32_t rel_file_length = strlen("eval/anon_class/") + int32_max_length + strlen(".spvm");
     
-    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_basic_type_name_length + 1);
     sprintf(anon_basic_type_name, "eval::anon_class::%d", compiler->eval_anon_classes_length);
     compiler->eval_anon_classes_length++;
     
-    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, rel_file_length + 1);
     sprintf(rel_file, "eval/anon_class/%d.spvm", compiler->eval_anon_classes_length);
     
     SPVM_COMPILER_set_class_file_with_members(compiler, anon_basic_type_name, rel_file, source);
-- 
2.43.0


From 0eb9cb3b9c718e780ef7734efe4eaf61f026c82f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 30/54] fix: allocate enough memory for the class name of an
 anon method

---
 lib/SPVM/Builder/src/spvm_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index da5778e..b4b4a3d 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1667,7 +1667,7 @@ SPVM_OP* SPVM_OP_build_anon_method(SPVM_COMPILER* compiler, SPVM_OP* op_method)
   const char* outmost_basic_type_name = compiler->current_outmost_class_name;
   int32_t anon_method_defined_line = op_method->line;
   int32_t anon_method_defined_column = op_method->column;
-  int32_t anon_method_basic_type_name_length = 6 + strlen(outmost_basic_type_name) + 2 + int32_max_length + 2 + int32_max_length;
+  int32_t anon_method_basic_type_name_length = strlen(outmost_basic_type_name) + strlen("::anon_method::") + int32_max_length + 2 + int32_max_length;
   
   // Anon class name
   char* name_basic_type_tmp = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
-- 
2.43.0


From 683db4975d18b04079b393dc2f49992f3c10e17b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 31/54] fix: a long method name overflows the buffer of an
 error message of an argument

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index eecc105..6d2d155 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3142,7 +3142,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 if (!call_method->method->is_class_method) {
                   call_method_args_length_for_user--;
                 }
-                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
+                snprintf(place, sizeof(place), "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
                 
                 // Invocant is not checked.
                 op_operand = SPVM_CHECK_check_assign(compiler, arg_var_decl_type, op_operand, place, op_cur->file, op_cur->line);
-- 
2.43.0


From 91c103d107dcf1f02a31e84dea349a8c28ad8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 32/54] fix: the reason of an error is used as a format

---
 lib/SPVM/Builder/src/spvm_check.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 6d2d155..2929710 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -501,7 +501,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
               
               if (!satisfy_assignment_requirement) {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 
                 SPVM_COMPILER_error(compiler, "The default value of the optional argument %s must be able to be assigned to the argument.\n  at %s line %d", arg_var_decl->var->name, method->op_method->file, method->op_method->line);
@@ -800,7 +800,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface_common(compiler, basic_type->id, parent_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
       
@@ -815,7 +815,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface(compiler, basic_type->id, interface_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
     }
@@ -2235,7 +2235,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               }
               else {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
                 SPVM_OP* op_constant_false = SPVM_OP_new_op_constant_int(compiler, 0, op_cur->file, op_cur->line);
@@ -3404,7 +3404,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             
             if (!castability) {
               if (strlen(error_reason)) {
-                SPVM_COMPILER_error(compiler, error_reason);
+                SPVM_COMPILER_error(compiler, "%s", error_reason);
               }
               
               const char* src_type_name = SPVM_TYPE_new_type_name(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag);
@@ -4267,7 +4267,7 @@ SPVM_OP* SPVM_CHECK_check_assign(SPVM_COMPILER* compiler, SPVM_TYPE* dist_type,
     
   if (!satisfy_assignment_requirement) {
     if (strlen(error_reason)) {
-      SPVM_COMPILER_error(compiler, error_reason);
+      SPVM_COMPILER_error(compiler, "%s", error_reason);
     }
     
     SPVM_COMPILER_error(compiler, "%s type cannot be assigned to %s type in %s.\n  at %s line %d", src_type_name, dist_type_name, place, file, line);
-- 
2.43.0


From 723d4cfea275b9cf85f3d6579b190c54ac54d617 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 33/54] fix: messages of exceptions are used as formats

---
 lib/SPVM/Native.c          | 2 +-
 lib/SPVM/Native/Compiler.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Native.c b/lib/SPVM/Native.c
index 8f64da3..dbda894 100644
--- a/lib/SPVM/Native.c
+++ b/lib/SPVM/Native.c
@@ -87,7 +87,7 @@ int32_t SPVM__Native__check_bootstrap_method(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   error_id = env->check_bootstrap_method(env, stack, basic_type_name);
   if (error_id) {
-    return env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
+    return env->die(env, stack, "%s", env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
   }
   
   return 0;
diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index 33d8208..eebf104 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -113,7 +113,7 @@ int32_t SPVM__Native__Compiler__compile(SPVM_ENV* env, SPVM_VALUE* stack) {
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
@@ -304,7 +304,7 @@ int32_t SPVM__Native__Compiler__compile_anon_class(SPVM_ENV* env, SPVM_VALUE* st
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
-- 
2.43.0


From 5a72e32ac01d40f262b8fd5f9d696ae053ae4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 34/54] fix: an inherited DESTROY method is not called if the
 super class is parsed after the class

---
 lib/SPVM/Builder/src/spvm_compiler.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 3cb4576..f0cfe3c 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -958,13 +958,19 @@ SPVM_RUNTIME* SPVM_COMPILER_build_runtime(SPVM_COMPILER* compiler) {
       runtime_basic_type->init_method = &runtime_basic_type->methods[basic_type->init_method->index];
     }
     
+    runtime_basic_type->current_runtime = runtime;
+  }
+  
+  // The DESTROY method can be a method of a super class that is placed after the class
+  for (int32_t basic_type_id = current_runtime_basic_types_length; basic_type_id < compiler->basic_types->length; basic_type_id++) {
+    SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
+    SPVM_RUNTIME_BASIC_TYPE* runtime_basic_type = SPVM_API_RUNTIME_get_basic_type_by_id(runtime, basic_type_id);
+    
     if (basic_type->destroy_method) {
       SPVM_RUNTIME_BASIC_TYPE* destroy_method_runtime_basic_type = SPVM_API_RUNTIME_get_basic_type_by_id(runtime, basic_type->destroy_method->current_basic_type->id);
       
       runtime_basic_type->destroy_method = &destroy_method_runtime_basic_type->methods[basic_type->destroy_method->index];
     }
-    
-    runtime_basic_type->current_runtime = runtime;
   }
   
   compiler->runtime = runtime;
-- 
2.43.0


From 71917b19b7b8453928a39eb3463c17411c42b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 35/54] fix: a compilation after a failed compilation continues
 to parse the failed source code

---
 lib/SPVM/Builder/src/spvm_compiler.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index f0cfe3c..9821e27 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -217,6 +217,17 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   SPVM_yydebug = 0;
 #endif
 
+  // Initialize the state of the tokenizer. A failed compilation can stop in the middle of a source code.
+  compiler->current_class_content = NULL;
+  compiler->ch_ptr = NULL;
+  compiler->line_begin_after_shebang_line_ch_ptr = NULL;
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = 0;
+  compiler->current_enum_value = 0;
   compiler->end_of_file = 1;
   
   int32_t yyparse_error_id = SPVM_yyparse(compiler);
-- 
2.43.0


From 15bceeed6c66d63eff8042f1741c00b1c0edd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 36/54] fix: the class name of a class file refers to the
 memory of the caller

---
 lib/SPVM/Builder/src/spvm_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 9821e27..7f14efb 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -323,7 +323,7 @@ void SPVM_COMPILER_add_class_file(SPVM_COMPILER* compiler, const char* class_nam
   
   if (!class_file) {
     class_file = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->class_file_allocator, sizeof(SPVM_CLASS_FILE));
-    class_file->class_name = class_name;
+    class_file->class_name = SPVM_STRING_new(compiler, class_name, strlen(class_name))->value;
     SPVM_COMPILER_set_class_file(compiler, class_name, class_file);
   }
 }
-- 
2.43.0


From ce80ecf99a1e6c9a4b9da287525dc44749b7bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 37/54] fix: a class file that failed to be parsed is used
 again by the next compilation

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 7f14efb..cc2cd3e 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -173,6 +173,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   
   compiler->constant_strings_base_id = compiler_constant_strings_base_id;
   
+  int32_t compiler_class_files_base_id = compiler->class_files->length;
+  
   if (compiler->basic_types->length == 0) {
     SPVM_COMPILER_add_basic_types(compiler);
     
@@ -273,6 +275,11 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
       SPVM_HASH_set(compiler->basic_type_symtable, basic_type->name, strlen(basic_type->name), NULL);
     }
     
+    // Class files of classes that are loaded but whose basic type is not created because of an error
+    while (compiler->class_files->length > compiler_class_files_base_id) {
+      SPVM_COMPILER_delete_class_file(compiler, SPVM_LIST_get(compiler->class_file_class_names, compiler->class_files->length - 1));
+    }
+    
     compiler->eval_anon_classes_length = original_eval_anon_classes_length;
     
     compiler->basic_types->length = compiler_basic_types_base_id;
-- 
2.43.0


From bccb4780b1562b9de03bb94572c6945e6af692a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 38/54] fix: special assignments to a field of a multi-numeric
 variable update the variable

---
 lib/SPVM/Builder/src/spvm_op.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index b4b4a3d..d551374 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2714,6 +2714,17 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
     SPVM_OP* op_dist_clone_set = op_element_access_clone_set;
     SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone_set, op_culc);
   }
+  else if (op_dist->id == SPVM_OP_C_ID_FIELD_ACCESS && op_dist->first->id == SPVM_OP_C_ID_VAR) {
+    // The variable is not copied because the value of a multi-numeric type would be copied with it
+    SPVM_OP* op_field_access = op_dist;
+    SPVM_OP* op_var_invocant_clone = SPVM_OP_clone_op_var(compiler, op_field_access->first);
+    SPVM_OP* op_name_field = op_field_access->uv.field_access->op_name;
+    SPVM_OP* op_name_field_clone = SPVM_OP_new_op_name(compiler, op_name_field->uv.name, op_name_field->file, op_name_field->line);
+    SPVM_OP* op_field_access_clone = SPVM_OP_clone_op_field_access(compiler, op_field_access, op_var_invocant_clone, op_name_field_clone);
+    SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_field_access);
+    SPVM_OP* op_dist_clone = op_field_access_clone;
+    SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
+  }
   else if (op_dist->id == SPVM_OP_C_ID_FIELD_ACCESS) {
     
     SPVM_OP* op_field_access = op_dist;
-- 
2.43.0


From 73d8d9f5159d89be136197986a91078cae6a5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 39/54] fix: special assignments to the exception variable no
 longer crash the compiler

---
 lib/SPVM/Builder/src/spvm_op.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index d551374..7067673 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2659,7 +2659,13 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
   
   SPVM_OP_build_binary_op(compiler, op_culc, op_var_old_clone, op_src);
   
-  if (op_dist->id == SPVM_OP_C_ID_VAR || op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+  if (op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+    SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
+    SPVM_OP* op_exception_var_clone = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_EXCEPTION_VAR, op_dist->file, op_dist->line);
+    SPVM_OP* op_dist_clone = op_exception_var_clone;
+    SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
+  }
+  else if (op_dist->id == SPVM_OP_C_ID_VAR) {
     SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
     SPVM_OP* op_var = op_dist;
     SPVM_OP* op_var_clone = SPVM_OP_clone_op_var(compiler, op_var);
-- 
2.43.0


From 0e5a37ab226667fce367f0a8a20bcbc8f26e1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 40/54] fix: the character after the operators "<" and ">" is
 no longer skipped

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..8973754 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -805,7 +805,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -864,7 +863,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
-- 
2.43.0


From 2dba80bafb64bd6d0c294b526ac51e187e54cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 41/54] fix: "}" after a variable without a brace in a string
 literal no longer loops endlessly

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 8973754..def14ec 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1045,11 +1045,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                     else if (*next_string_literal_ch_ptr == ':' && *(next_string_literal_ch_ptr + 1) == ':') {
                       next_string_literal_ch_ptr += 2;
                     }
-                    else if (*next_string_literal_ch_ptr == '}') {
-                      if (var_have_brace) {
-                        next_string_literal_ch_ptr++;
-                        break;
-                      }
+                    else if (var_have_brace && *next_string_literal_ch_ptr == '}') {
+                      next_string_literal_ch_ptr++;
+                      break;
                     }
                     else {
                       break;
-- 
2.43.0


From a1745147e88fadc4c55be4b4f8f224c1f1be36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 42/54] fix: "\\" at the end of the source in a string literal
 no longer skips the end of the source

---
 lib/SPVM/Builder/src/spvm_toke.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index def14ec..ff03854 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1141,7 +1141,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               // Escape is always 2 characters
-              if (*compiler->ch_ptr == '\\') {
+              if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                 compiler->ch_ptr += 2;
               }
               else {
@@ -1568,7 +1568,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               }
               else {
                 // Escape character
-                if (*compiler->ch_ptr == '\\') {
+                if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                   compiler->ch_ptr += 2;
                 }
                 else {
-- 
2.43.0


From fb982adda2421b0b307ea701729ae14a5cd14824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 43/54] fix: the first character after "0x" is checked, and
 "0x" and "0b" without digits are rejected

---
 lib/SPVM/Builder/src/spvm_toke.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index ff03854..2c64ff7 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1684,7 +1684,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Scan Hex number
           if (digit == 16) {
-            compiler->ch_ptr += 2;
+            compiler->ch_ptr += 1;
             while(
               SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_'
               || *compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P' || *compiler->ch_ptr == '-' || *compiler->ch_ptr == '+'
@@ -1754,6 +1754,11 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             numeric_literal[pos] = '\0';
           }
+          
+          if ((digit == 16 || digit == 2) && pos <= 2) {
+            SPVM_COMPILER_error(compiler, "The numeric literal \"%s\" must have one or more digits.\n  at %s line %d", numeric_literal, compiler->current_file, compiler->current_line);
+          }
+          
           // Back suffix such as "f" or "F" when hex floating number
           if (is_hex_floating_number && !SPVM_TOKE_isdigit_ascii(compiler, *(compiler->ch_ptr - 1))) {
             compiler->ch_ptr--;
-- 
2.43.0


From 32a8677f5ce193f5f906b1d2f9403caefec635da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 44/54] fix: "+" and "-" after a floating point literal are not
 a part of the literal

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 2c64ff7..e643726 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1702,6 +1702,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                 is_hex_floating_number = 1;
                 before_is_exponant = 1;
               }
+              else if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               compiler->ch_ptr++;
             }
           }
@@ -1731,8 +1734,13 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
+              }
+              if (*compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 before_is_exponant = 1;
               }
+              else if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               compiler->ch_ptr++;
             }
           }
-- 
2.43.0


From 472155650e7c36a452ba83d7bcfb2450227875e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 45/54] fix: a character literal at the end of the source no
 longer skips the end of the source

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index e643726..74fcc03 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -946,12 +946,16 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               SPVM_COMPILER_error(compiler, "\"\\%c\" is the invalid charater literal escape character.\n  at %s line %d", *compiler->ch_ptr, compiler->current_file, compiler->current_line);
-              compiler->ch_ptr++;
+              if (*compiler->ch_ptr != '\0') {
+                compiler->ch_ptr++;
+              }
             }
           }
           else {
             ch = *compiler->ch_ptr;
-            compiler->ch_ptr++;
+            if (ch != '\0') {
+              compiler->ch_ptr++;
+            }
           }
             
           if (*compiler->ch_ptr == '\'') {
-- 
2.43.0


From 446a250b1032726acdd9e9513e63df177fac241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 46/54] fix: a character literal must be a printable ASCII
 character

---
 lib/SPVM/Builder/src/spvm_toke.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 74fcc03..9d9ab76 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -953,6 +953,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           }
           else {
             ch = *compiler->ch_ptr;
+            if (!SPVM_TOKE_isprint_ascii(compiler, ch)) {
+              SPVM_COMPILER_error(compiler, "The character literal must be a printable ASCII character or an escape character.\n  at %s line %d", compiler->current_file, compiler->current_line);
+            }
             if (ch != '\0') {
               compiler->ch_ptr++;
             }
-- 
2.43.0


From aec7d33f1403b1635edb535946715c88040881c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 47/54] fix: the end of a POD must begin from the beginning of
 the line

---
 lib/SPVM/Builder/src/spvm_toke.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 9d9ab76..e888d13 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -610,6 +610,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             if (
               *compiler->ch_ptr == '='
+              && *(compiler->ch_ptr - 1) == '\n'
               && strncmp(compiler->ch_ptr + 1, "cut", 3) == 0
               && (*(compiler->ch_ptr + 4) == '\0' || SPVM_TOKE_is_white_space(compiler, *(compiler->ch_ptr + 4)))
             )
-- 
2.43.0


From 9c8ce2f04fb37439eb5fc42ca160b43a4240af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 48/54] fix: a line directive with a "-" in the line number is
 rejected

---
 lib/SPVM/Builder/src/spvm_toke.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index e888d13..48563f0 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -417,6 +417,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             compiler->ch_ptr++;
           }
           
+          const char* line_number_end_ptr = compiler->ch_ptr;
+          
           while (*compiler->ch_ptr == ' ') {
             compiler->ch_ptr++;
           }
@@ -435,7 +437,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           char *end;
           int64_t line_number = (int64_t)strtoll(line_number_begin_ptr, &end, 10);
           
-          if (!(line_number >= 1 && line_number <= INT32_MAX && errno == 0)) {
+          if (!(line_number >= 1 && line_number <= INT32_MAX && errno == 0 && end == line_number_end_ptr)) {
             SPVM_COMPILER_error(compiler, "The line number given to a line directive must be a positive 32bit integer.\n  at %s line %d", compiler->current_file, compiler->current_line);
             return 0;
           }
-- 
2.43.0


From 659ebf37146d2c781681a088433fac31c04547d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 49/54] fix: a file directive and a lib directive not closed at
 the end of the source no longer read past it

---
 lib/SPVM/Builder/src/spvm_toke.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 48563f0..c2609fb 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -469,7 +469,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             const char* file_begin_ptr = compiler->ch_ptr;
             int32_t file_length = 0;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "A file in a file directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
@@ -529,7 +529,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             const char* include_dir_begin_ptr = compiler->ch_ptr;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "The directory specified by a lib directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
-- 
2.43.0


From def8a9dd580ee357042eaff2fab357ee31d73d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 50/54] fix: the line of a lib directive is counted

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index c2609fb..57b50b5 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -560,7 +560,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           }
           
           compiler->ch_ptr++;
-          compiler->line_begin_ch_ptr = compiler->ch_ptr;
+          SPVM_TOKE_increment_current_line(compiler);
         }
         // Comment
         else {
-- 
2.43.0


From 98f4b129a983b1bb2bdd086f28432c1775da5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 51/54] fix: a variable name must have a symbol name

---
 lib/SPVM/Builder/src/spvm_toke.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 57b50b5..00468cc 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1490,6 +1490,11 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Check the variable name
           {
+            // A variable name must have a symbol name
+            if (var_name_symbol_name_part_length == 0) {
+              SPVM_COMPILER_error(compiler, "The variable name must have a symbol name after \"$\".\n  at %s line %d", compiler->current_file, compiler->current_line);
+            }
+            
             // A variable name cannnot conatain "__"
             if (strstr(var_name, "__")) {
               SPVM_COMPILER_error(compiler, "The variable name \"%s\" cannnot contain \"__\".\n  at %s line %d", var_name, compiler->current_file, compiler->current_line);
-- 
2.43.0


From 4f70195c842af27a556eb1716952cfaad0d8f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 52/54] fix: the character after "scalar" is no longer skipped

---
 lib/SPVM/Builder/src/spvm_toke.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 00468cc..6aa697f 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -2464,7 +2464,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                   keyword_token = SHORT;
                 }
                 else if (strcmp(symbol_name, "scalar") == 0) {
-                  compiler->ch_ptr++;
                   SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_SCALAR);
                   yylvalp->opval = op;
                   
-- 
2.43.0


From d4ce9feca04fcb2624a529a055dae4ba86502145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 53/54] fix: take any operator as the value of a field with a
 variable in an anon method

---
 lib/SPVM/Builder/src/spvm_op.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 7067673..3c72bfb 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1710,8 +1710,6 @@ SPVM_OP* SPVM_OP_build_anon_method_field(SPVM_COMPILER* compiler, SPVM_OP* op_fi
   }
   else if (op_name_field->id == SPVM_OP_C_ID_VAR) {
     
-    assert(op_default->id == SPVM_OP_C_ID_VAR);
-    
     op_name_field = SPVM_OP_new_op_name(compiler, op_name_field->uv.var->name + 1, op_name_field->file, op_name_field->line);
     
     is_decl_var_in_anon_method = 1;
-- 
2.43.0


From 207c8b9014db09cf9409569b7282a3ba917393cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 54/54] fix: let the generated setter of a class variable named
 $value set the class variable

---
 lib/SPVM/Builder/src/spvm_op.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 3c72bfb..dc85d40 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -593,8 +593,8 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
         // Setter
         if (class_var->has_setter) {
           
-          // method SET_FOO : void ($value : TYPE) {
-          //   $FOO = $value;
+          // method SET_FOO : void ($SET_FOO : TYPE) {
+          //   $FOO = $SET_FOO;
           // }
           
           SPVM_OP* op_method = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_METHOD, op_decl->file, op_decl->line);
@@ -605,6 +605,12 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
           SPVM_STRING* method_name_string = SPVM_STRING_new(compiler, method_name_tmp, strlen(method_name_tmp));
           const char* method_name = method_name_string->value;
           
+          // The arg is named after the method so that it does not hide a class variable named "$value"
+          char* arg_name_tmp = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, 1 + strlen(method_name) + 1);
+          sprintf(arg_name_tmp, "$%s", method_name);
+          SPVM_STRING* arg_name_string = SPVM_STRING_new(compiler, arg_name_tmp, strlen(arg_name_tmp));
+          const char* arg_name = arg_name_string->value;
+          
           SPVM_OP* op_name_method = SPVM_OP_new_op_name(compiler, method_name, op_decl->file, op_decl->line);
           SPVM_OP* op_return_type = SPVM_OP_new_op_void_type(compiler, op_decl->file, op_decl->line);
           SPVM_OP* op_args = SPVM_OP_new_op_list(compiler, op_decl->file, op_decl->line);
@@ -622,7 +628,7 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
           }
           SPVM_OP* op_type_value = SPVM_OP_new_op_type(compiler, arg_type->unresolved_basic_type_name, arg_type->basic_type, arg_type->dimension, arg_type->flag, op_decl->file, op_decl->line);
           
-          SPVM_OP* op_var_value_name = SPVM_OP_new_op_name(compiler, "$value", op_decl->file, op_decl->line);
+          SPVM_OP* op_var_value_name = SPVM_OP_new_op_name(compiler, arg_name, op_decl->file, op_decl->line);
           SPVM_OP* op_var_value = SPVM_OP_new_op_var(compiler, op_var_value_name);
           SPVM_OP* op_arg_value = SPVM_OP_build_arg(compiler, op_var_value, op_type_value, NULL, NULL);
           
@@ -634,7 +640,7 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
           SPVM_OP* op_name_basic_type_var = SPVM_OP_new_op_name(compiler, class_var->name, op_decl->file, op_decl->line);
           SPVM_OP* op_var_class_var = SPVM_OP_new_op_var(compiler, op_name_basic_type_var);
           
-          SPVM_OP* op_var_assign_value_name = SPVM_OP_new_op_name(compiler, "$value", op_decl->file, op_decl->line);
+          SPVM_OP* op_var_assign_value_name = SPVM_OP_new_op_name(compiler, arg_name, op_decl->file, op_decl->line);
           SPVM_OP* op_var_assign_value = SPVM_OP_new_op_var(compiler, op_var_assign_value_name);
           
           SPVM_OP* op_type_cast = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_TYPE_CAST, op_decl->file, op_decl->line);
-- 
2.43.0

