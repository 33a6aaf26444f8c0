"""The properties, their anchors, and what decides them (source of properties.jsonl and MANIFEST.json)."""
P = []
B = "lib/SPVM/Builder/"
def p(**k): P.append(k)

SPEC_T = "translation validation of opcode semantics: symbolic path summaries of LLVM IR against an independent specification"
SPEC_N = ("Every path of every opcode of the group, for symbolic operands and register contents, in the interpreter and in the text the precompiler emits. "
          "Trusted: the specification in sa/spec.py, clang's front end, the exporter, the API functions behind the environment table (they are calls here; other properties cover them). "
          "Exception messages are not compared.")
FN_T = "translation validation of C functions: path summaries of LLVM IR against an independent specification"
FN_N = ("Every path of the listed functions with symbolic arguments and memory; loops by their first and one arbitrary iteration. Trusted: the specification in sa/apispec.py, clang's front end, the exporter. "
        "Calls to other API functions are compared as calls; exception messages are not compared; where a loop is rewritten into another shape the function is reported as not decided in the evidence.")
API = B + "src/spvm_api.c"
APIM = ("native API", API)
VMF = [B + "src/spvm_vm.c", B + "include/spvm_implement.h", B + "src/spvm_precompile.c"]
VMM = [("opcode dispatch", B + "src/spvm_vm.c: SPVM_VM_call_method"), ("opcode helpers", B + "include/spvm_implement.h: SPVM_IMPLEMENT_*"), ("emitted C", B + "src/spvm_precompile.c: SPVM_PRECOMPILE_build_method_source")]

p(id="C01", title="Array element access is bounds-checked and touches exactly the element",
  statement="Reading or writing an array element (numeric, object or multi-numeric, whole or one field of it) on an undefined array or with an index outside 0..length-1 throws an exception and changes nothing else; otherwise it reads or writes exactly the addressed element, with object elements stored through the reference-counting assignment. The length operator throws on an undefined array and otherwise yields the length.",
  over=["programs", "inputs"], forall="every program, every array type, every index value including negative and extreme ones, interpreted and precompiled",
  why="Tests index a few small arrays of each type with a handful of indices; a check dropped or off by one for one element type on one path is memory corruption that the sampled indices do not show.",
  files=VMF, mechanism=VMM, technique=SPEC_T, level="translation_validation", note=SPEC_N)
p(id="C02", title="Field and class variable access checks the invocant and hits its own slot",
  statement="Getting or setting a field, or weakening, unweakening or testing the weakness of a field, on an undefined object throws an exception; otherwise the access reads or writes exactly the named field's bytes with the field's type, object values go through the reference-counting assignment, and a weak field yields the object itself. Class variables are read and written in their own typed slot. The native API functions that get and set a field or class variable do the same.",
  over=["programs", "inputs"], forall="every program, every field and class-variable type, defined and undefined invocants, weakened and strong fields, interpreted and precompiled",
  why="Tests touch a few field layouts; a missing undefined check or wrong width for one type on one of the two execution paths is only visible for particular values and layouts.",
  files=VMF + [API], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C03", title="Numeric operators compute the documented result and never kill the process",
  statement="Each arithmetic, bit, shift, comparison and condition operator yields the documented result at its operand type for every pair of operands. Integer division and remainder throw an exception exactly when the divisor is zero, remainder takes the sign of the divisor, and no operand pair (including the minimum value with -1) terminates the process.",
  over=["programs", "inputs"], forall="every operand pair of every numeric type, interpreted and precompiled",
  why="Tests use tens of operand pairs out of 2^64 to 2^128; the corner cases (minimum by -1, NaN comparisons, unsigned operands above the signed range) are per type and per operator.",
  files=VMF, mechanism=VMM, technique=SPEC_T, level="translation_validation", note=SPEC_N)
p(id="C04", title="Interpreted and precompiled code of a method behave identically",
  statement="For every method, running it in the interpreter and running the C code the precompiler generates for it produce the same effects: the same values, the same calls, the same exceptions and the same control flow, for every opcode the compiler can emit. The generated text compiles whenever the compiler accepted the method, and every variable it uses is declared and initialised as in the interpreter.",
  over=["programs", "inputs", "configurations"], forall="every program and input, with and without the precompile attribute",
  why="Tests run a sample of programs in both modes; a divergence in one opcode's operand, type or check shows only for the values and opcodes sampled.",
  files=VMF, mechanism=VMM, technique="translation validation: interpreter case vs emitted C text per opcode, path summaries of LLVM IR", level="translation_validation",
  note="All opcodes, symbolic operands; declaration pre-pass, prologue and switch lookup by dataflow rules. Trusted: clang's front end, the exporter, the reconstruction of the emitted text from the emitting code.")
p(id="C05", title="A raised exception always reaches its handler with its error class and trace",
  statement="When an operation raises an exception, control goes to the end of the enclosing eval block if there is one and otherwise leaves the method, before any later operation of the program runs; the exception and its error class are kept, the stack trace gets the current method and line, and inside eval the error class becomes the eval error id. Without an exception none of these jumps is taken, and on leaving the method normally the returned object is handed over without an extra reference. Setting an exception keeps it alive, and a stack trace line appends the class, method, file and line within the string allocated for it.",
  over=["programs", "inputs"], forall="every operation that can raise, every nesting of eval blocks and method calls, interpreted and precompiled",
  why="Tests raise a few exceptions at a few places; a lost jump, trace or error id matters only when the failing operation actually fails at that place.",
  files=VMF + [API] + [B + "src/spvm_opcode_builder.c"], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C06", title="Type conversions give the documented value and check undef and boxed operands",
  statement="Each numeric conversion converts by the target type's C rule; string-to-number clamps to the target range and gives 0 for undef; number-to-string uses the documented format; unboxing throws for undef and for an object of another class; byte[] and string convert to each other by copying, with undef giving undef.",
  over=["programs", "inputs"], forall="every source and target type and every value, interpreted and precompiled",
  why="There are 36 numeric pairs plus string and boxing conversions with full value ranges; tests sample a few values per pair.",
  files=VMF, mechanism=VMM, technique=SPEC_T, level="translation_validation", note=SPEC_N)
p(id="C07", title="String operators compare, concatenate and guard read-only strings as documented",
  statement="String comparison orders by bytes then length with undef lowest, for every byte content; concatenation throws when either side is undefined; length of undef is 0; string literals are created read-only, and make_read_only and is_read_only act on exactly their operand. The native string functions (length, concatenation, shorten, print) use exactly the string's bytes, embedded NULs included, and do nothing for undef where that is documented.",
  over=["programs", "inputs"], forall="every pair of strings including embedded NULs, bytes above 127, prefixes and undef, interpreted and precompiled",
  why="Tests compare a few ASCII strings; sign, length and undef combinations are a product the tests do not enumerate.",
  files=VMF + [API], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C08", title="Calls pass arguments and return values intact for every type",
  statement="Every argument and return value of every type, including multi-numeric values and references, arrives unchanged in the callee's or caller's variable of that type; a returned object stays alive across the return. An instance method call on undef, or for which the object's class has no such method, throws, and otherwise runs the method of the object's own class; a callee's error is the caller's error. Missing optional arguments get their defaults, the call depth limit throws, an INIT method runs once, and a native method's failure always sets an exception.",
  over=["programs", "inputs"], forall="every method signature, argument position and value, and dynamic class of the invocant, interpreted and precompiled",
  why="Tests call methods with a few signatures; per-type and per-width stack transfer is a product of types, widths and positions.",
  files=VMF + [API], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C09", title="Object creation rejects negative lengths and failed allocation",
  statement="Creating an array or string with a negative length, or an object, array or string whose allocation fails, throws an exception and assigns nothing; otherwise a new object of exactly the requested type, dimension and length is assigned, in a block large enough for its elements and terminator whatever the length. The native creation functions behave the same and return NULL on failure; the _no_mortal forms push nothing on the mortal stack and the others exactly one reference.",
  over=["programs", "inputs", "fault_sequences"], forall="every element type, dimension and length value, and every allocation outcome, interpreted and precompiled",
  why="Tests never make an allocation fail and try one negative length for some of the types.",
  files=VMF + [API], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C10", title="Run-time type checks guard every unchecked assignment",
  statement="Assigning an object where the compiler could not prove the type succeeds only if the object's run-time type is assignable to the target (and a read-only string is never assigned to a mutable string); otherwise an exception is thrown and nothing is assigned. isa, is_type, isa_error, is_error, can, type_name, dump and copy give the documented answer for every object, with undef giving false or undef. The native type predicates (is_array, is_string, isa, elem_isa, element size, type name) agree with this for every type and dimension, and a type name is written within the string allocated for it.",
  over=["programs", "inputs"], forall="every static target type and dynamic object type, interpreted and precompiled",
  why="The pairs of static and dynamic types are unbounded; tests cast a few.",
  files=VMF + [API], mechanism=VMM + [APIM], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C11", title="Assignment, multi-numeric values and references copy exactly their operands",
  statement="Assigning a variable copies the whole value of its type and nothing else: numeric values and constants bit for bit, multi-numeric values field by field over their full width, objects through the reference-counting assignment. Reference and dereference operations address exactly the referenced variable.",
  over=["programs", "inputs"], forall="every type, width and value, interpreted and precompiled",
  why="Per-type, per-width copies are a product that tests sample with small structs and values.",
  files=VMF, mechanism=VMM, technique=SPEC_T, level="translation_validation", note=SPEC_N)
p(id="C12", title="Objects live exactly as long as they are referenced",
  statement="Storing an object in a variable, field, element or mortal slot increments its reference count and releases the object stored there before; leaving a scope, a stack or the process's class variables releases exactly what was pushed since it was entered. An object whose last reference goes is destroyed exactly once: its DESTROY method runs first (its exceptions become warnings; return values, including multi-numeric ones, and the pending exception of the interrupted method survive), then its elements or object fields are released, then its memory is freed. The mortal stack grows without losing an entry.",
  over=["programs", "histories"], forall="every sequence of assignments, scopes and destructor calls, for every object kind and reference count, including destructors that throw or that store the object again",
  why="Leaks and double frees depend on the order of operations, on the count at the moment of release and on what a destructor does; tests count memory blocks of a few programs.",
  files=VMF + [API], mechanism=VMM + [("assign_object, scopes, mortal stack", API)], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C13", title="Weak references never dangle and never keep an object alive",
  statement="Weakening a field makes it stop counting, registers it at the object exactly once, and releases the object when it held the last reference; weakening twice, or undef, changes nothing. Reading a weak field yields the untagged object; assigning to it or unweakening it removes its registration and counts again. When the object is freed every registered field becomes undef and every registration is freed.",
  over=["programs", "histories"], forall="every sequence of weaken, unweaken, assignment and release over any number of weak fields of one object",
  why="The backreference list depends on the history of weakenings; tests build lists of one or two entries.",
  files=VMF + [API], mechanism=[("weaken, unweaken, free_weaken_backrefs, assign_object", API), ("weak field opcodes", B + "include/spvm_implement.h")], technique=SPEC_T + "; and of C functions", level="translation_validation", note=SPEC_N + " Native functions: " + FN_N)
p(id="C14", title="Native access by name checks existence, invocant and type before it acts",
  statement="Every native API function that finds a class, field, class variable or method by name sets error_id with an exception and touches nothing when the class or member does not exist, the invocant is undef or not an instance of a class, or the member's type does not fit (a getter accepts its own and narrower numeric types, a setter its own and wider ones, object accessors only object types); otherwise it clears error_id and performs exactly the access of the found member. Lookups honour class versus instance methods and the inheritance chain.",
  over=["inputs"], forall="every class, member name, member type, invocant and requested type",
  why="There are about fifty such functions each with several independent checks; tests call each once or twice with fitting arguments.",
  files=[API], mechanism=[("by-name accessors", API)], technique=FN_T, level="translation_validation", note=FN_N)
p(id="C15", title="Every native API slot reaches the function it is named after",
  statement="A native module reaches every API function through the slot of that name, at the position the API documents give, with the calling signature the header declares: each slot of the environment and of its thirteen sub-APIs holds the implementation of that very function, and no slot is left unfilled. A module compiled against the header therefore always calls what it names.",
  over=["programs", "configurations"], forall="every slot of every native API table",
  why="Most of the 370 slots are called by no test; a swapped, missing or shifted slot shows only when that slot is called.",
  files=["lib/SPVM/Builder/include/spvm_native.h", API, B + "src/spvm_api_runtime.c", B + "src/spvm_api_method.c"], mechanism=[("API table constructors", API), ("struct spvm_env", B + "include/spvm_native.h")],
  technique="evaluation of the table constructors over LLVM IR, checked against member names, ABI signatures and documented positions", level="other",
  note="All slots. Trusted: clang's front end and debug information, the exporter.")
p(id="C17", title="Types are assignable and castable exactly as the language documents say",
  statement="For every destination and source type the compiler accepts an assignment, and a cast, exactly when the tables of the language documents accept it, and asks for a data conversion exactly where they say the value is converted (widening, narrowing where allowed, boxing, unboxing, number to string). Read-only strings are never assignable to mutable string, interfaces and super classes are accepted in the documented direction only, and array types only with the same dimension. An object's run-time type is judged by the same tables, also when the answer was kept from before. A class has an interface exactly when it or a super class defines each required method with assignable argument and return types, and is a super class exactly along the chain of extends. The type predicates these decisions rest on classify every type correctly.",
  over=["programs"], forall="every pair of types: numeric, numeric object, string, multi-numeric, class, interface, any object, undef, void, references, arrays of every dimension, with and without mutable",
  why="There are thousands of pairs of type kinds (unboundedly many types); tests compile a few accepted and a few rejected assignments.",
  files=[B + "src/spvm_type.c", B + "src/spvm_basic_type.c"], mechanism=[("SPVM_TYPE_satisfy_assignment_requirement", B + "src/spvm_type.c"), ("SPVM_TYPE_satisfy_cast_requirement", B + "src/spvm_type.c")],
  technique="abstract interpretation of the LLVM IR over a partition of all types, against decision tables transcribed from the documents; comparison of path summaries with specifications for the relations between types", level="other",
  note="Exhaustive over the kinds (symbolic classes, interfaces, dimensions) and the relations between two types. Trusted: clang's front end, the exporter, the abstract interpreter, the transcription of the tables.")
p(id="C21", title="Compiled code does what the statements and operators of the method mean",
  statement="For every operator and every kind of operands the compiler emits the operation documented for it, on the operands as written, with the check, conversion or allocation it requires, and where the operation can raise, a raised exception always continues at the handler of the innermost enclosing eval block, or ends the method, wherever the operation stands. For every nesting of blocks, if, for/while, switch, eval, logical operators, next, last, break, return and die, exactly the statements the source means are executed in order, and every object variable is released when its own scope is left, by whatever way, exactly then and never earlier, on normal and exceptional exits alike.",
  over=["inputs"], forall="every operator and operand kind, every nesting of control statements up to the stated depth, every outcome of conditions, switches and raising operations",
  why="The wrong jump, release depth or opcode shows only for a particular nesting, operand kind and exceptional outcome; the tests' programs contain few of the combinations.",
  files=[B + "src/spvm_opcode_builder.c"],
  mechanism=[("SPVM_OPCODE_BUILDER_build_opcodes", B + "src/spvm_opcode_builder.c"), ("SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception", B + "src/spvm_opcode_builder.c")],
  technique="abstract interpretation of the opcode builder's IR on symbolic syntax trees; emitted opcodes compared with documented ones and, for control flow, by trace equivalence with a reference interpreter of the statements", level="translation_validation",
  note="The syntax trees are those the checker hands over (C22, C23); depth 2 (quick) or 3 (thorough) of statement nesting, 7 decisions per trace. Opcode meanings are C01's.")
p(id="C22", title="Operators are typed and operands converted exactly as documented",
  statement="For every operator and every combination of operand types, the compiler reports an error exactly where the language documents say the types are not allowed, and never stops by an internal abort. Where it accepts the program it converts the operands as documented: the binary numeric conversion to the wider of the two types and at least int, the integer promotional conversion, the conversion of numbers to strings, the conversion required by an assignment, an argument or a return value; a numeric literal is narrowed only when its value fits. Type tests on types known at compile time (isa, is_type, is_compile_type, compile_type_name) are replaced with their true answer. next, last and break are accepted only inside a loop or a switch; the cases of a switch belong to the innermost switch, are in ascending order and distinct, and a switch without a default gets one.",
  over=["inputs"], forall="every operator, every kind of operand types in every combination, every literal at the bounds of a narrower type, every placement of a jump statement",
  why="A wrong conversion or a missing error shows only for a particular operator with a particular pair of types; there are tens of thousands of pairs and the tests contain a few hundred.",
  files=[B + "src/spvm_check.c"],
  mechanism=[("SPVM_CHECK_check_ast_syntax", B + "src/spvm_check.c"), ("SPVM_CHECK_check_assign", B + "src/spvm_check.c"), ("SPVM_CHECK_perform_binary_numeric_conversion", B + "src/spvm_check.c"), ("SPVM_CHECK_check_allow_narrowing_conversion", B + "src/spvm_check.c")],
  technique="abstract interpretation of the checker's IR on symbolic syntax trees, one per operator and operand kinds; reported errors and the tree left compared with the tables of the language documents", level="translation_validation",
  note="Whether a pair of types satisfies the assignment or cast requirement is C17's; here it is checked that the requirement is asked for the right types and its answer obeyed.")
p(id="C23", title="Names resolve by the scoping rules and access control always holds",
  statement="A variable name refers to the innermost declaration before it that is in scope, else to the class variable of the outmost class, and is an error if there is none; declaring a name twice in one block is an error, in nested blocks it is not. A method call resolves to the method of the named class, of the current class (&), of the class of the invocant or the nearest super class, or of the super class (SUPER), and is an error if there is none or it is of the other sort (class or instance method) or the number of arguments does not fit. A field is the one of the class of the invocant or its nearest super class. Everywhere - method calls, class variables, fields, new, in methods and in anon methods - a private member is reachable only from its own class, a protected one also from its descendants, and either from the classes its class allows; an anon method has exactly the access of its outmost class.",
  over=["inputs"], forall="every nesting of declarations and uses, every relation between the accessing and the accessed class, every access control, every hierarchy of definitions",
  why="Shadowing, redeclaration and access rules fail only for particular combinations of scopes, relations and access controls; the tests contain a few of them.",
  files=[B + "src/spvm_check.c", B + "src/spvm_op.c", B + "src/spvm_basic_type.c"],
  mechanism=[("SPVM_CHECK_check_ast_syntax", B + "src/spvm_check.c"), ("SPVM_CHECK_check_call_method", B + "src/spvm_check.c"), ("SPVM_CHECK_can_access", B + "src/spvm_check.c"), ("SPVM_CHECK_check_field_access", B + "src/spvm_check.c"), ("SPVM_OP_is_allowed", B + "src/spvm_op.c")],
  technique="abstract interpretation of the checker's IR on symbolic syntax trees over class hierarchies; resolved declarations and acceptance compared with the resolution and access control rules", level="translation_validation",
  note="Scopes: all programs of 5 (quick) or 6 (thorough) statements with two names and blocks nested twice.")
p(id="C24", title="Class definitions are related, laid out and checked as documented",
  statement="For every set of class definitions the compiler comes to an end and reports an error exactly where the documents say the definitions are invalid: recursive inheritance, a parent or an interface of the wrong category, a field redefined with another type, a field or class variable of a multi-numeric type, a multi-numeric type whose fields or name do not fit, a required argument after an optional one, a default that cannot be assigned, more than 255 argument values, a reference as return type, an unsatisfied interface requirement of a super class or interface. Otherwise every class has exactly the interfaces, the destructor and the fields of itself and its super classes; each field has its declared type, is found by its name and its index, is aligned and overlaps no other field within the object, and lies at the same index and offset in every class derived from the one that declares it. Arguments are placed one after the other by their width and optional ones carry the declared default; INIT methods first call the INIT of the parent and then of the used classes in order; exactly the methods with a body of precompile classes, except INIT and enumerations, are precompiled.",
  over=["inputs"], forall="every inheritance relation, every distribution of interfaces, fields, destructors over a hierarchy, every sequence of field types, every argument pattern",
  why="Layout and merging go wrong only for particular hierarchies and field sequences; the tests define a few classes, and a wrong offset is memory corruption that need not show.",
  files=[B + "src/spvm_check.c"],
  mechanism=[("SPVM_CHECK_check_basic_types_relation", B + "src/spvm_check.c"), ("SPVM_CHECK_check_fields", B + "src/spvm_check.c"), ("SPVM_CHECK_check_field_offset", B + "src/spvm_check.c"), ("SPVM_CHECK_check_methods", B + "src/spvm_check.c")],
  technique="abstract interpretation of the IR of the passes over class definitions on families of definitions; reported errors and the tables left compared with the documented rules", level="translation_validation",
  note="Hierarchies of three classes, field sequences of length 4 (quick) or 5 (thorough) plus longer ones. What the interface requirement of two classes is, is C17's.")
p(id="C25", title="Every value is kept in storage of its own type that nothing else uses",
  statement="After checking, for every method body: each operator that computes a value is the source of an assignment to a variable whose type is the type of the value (the variable the program assigns it to, or a fresh temporary variable used for this value only and listed once among the variables of the method); nothing else about the operators and their order changes, except that the condition of a loop is moved behind its statements and increment. Every variable declared, including multi-numeric ones with their width, has its own place among the byte, short, int, long, float, double, object or reference variables of the call, no two overlap, and the storage of the call is wide enough for all of them. Every block that is a scope and declares object variables, itself or in its inner blocks at any depth, is marked to release them at its end (an inner block can be left by a jump), and no block that is no scope is.",
  over=["inputs"], forall="every operator in every position, every sequence of declarations, every nesting of blocks and loops",
  why="A value in storage of another type or shared with another variable shows only when both are live and used; the tests run particular expressions.",
  files=[B + "src/spvm_check.c"],
  mechanism=[("SPVM_CHECK_check_ast_assign_unassigned_op_to_var", B + "src/spvm_check.c"), ("SPVM_CHECK_check_ast_if_block_need_leave_scope", B + "src/spvm_check.c"), ("SPVM_CHECK_check_ast_typed_var_indexs", B + "src/spvm_check.c"), ("SPVM_CHECK_get_typed_var_index", B + "src/spvm_check.c")],
  technique="abstract interpretation of the IR of the passes on the trees the checker leaves; the tree, the types of its variables, their places and the marks of its blocks compared with the rules", level="translation_validation",
  note="Every operator with representative operand types, pairs of nested values, sequences of 3 declarations, blocks nested three deep, loops nested twice.")
p(id="C26", title="Symbol tables, lists and buffers keep every entry as they grow",
  statement="A symbol table of the compiler returns for every key the value last set for exactly that key (compared by length and bytes), whatever the number of entries, whichever keys collide, and before as well as after the table grows. Lists and the opcode list keep every element in order when they grow. String buffers keep every byte added and are grown before anything is written beyond their capacity. Every block of the compiler's allocator is counted, and permanent blocks are all released when the allocator is.",
  over=["inputs", "histories"], forall="every sequence of insertions, lookups and growth steps, any keys and sizes",
  why="Collisions, duplicates and growth happen at particular sizes and key combinations that the tests' programs do not choose.",
  files=[B + "src/spvm_hash.c", B + "src/spvm_list.c", B + "src/spvm_string_buffer.c", B + "src/spvm_allocator.c", B + "src/spvm_opcode_list.c"],
  mechanism=[("SPVM_HASH_set, SPVM_HASH_get, SPVM_HASH_rehash", B + "src/spvm_hash.c"), ("SPVM_LIST_maybe_extend", B + "src/spvm_list.c"), ("SPVM_STRING_BUFFER_maybe_extend", B + "src/spvm_string_buffer.c")], technique=FN_T, level="translation_validation", note=FN_N)
p(id="C16", title="Shared runtime state is only touched under its lock, and locks are released",
  statement="Every lock taken by the runtime, the native API or the compiler is released again before the function that took it returns, on every way out including the ones after errors, and in the mode it was taken. No function takes, itself or through what it calls, a lock its own thread holds already, locks are nested in one order only, and no code of the program (methods, destructors) runs while the runtime holds one of its locks. What the documents call thread safe - reference counts, the number of memory blocks, weak references, the cache of assignments, a compilation - is read and written only while its lock is held. Sync::Mutex and the lock functions perform the operation they are named after.",
  over=["schedules"], forall="every schedule of threads, every path through every function that takes a lock",
  why="A missing unlock on an error path or an access outside the lock only shows under a particular interleaving; the tests use hardly any threads.",
  files=[B + "src/spvm_mutex.c", API, B + "src/spvm_compiler.c", B + "src/spvm_runtime.c", "lib/SPVM/Sync/Mutex.c"],
  mechanism=[("SPVM_MUTEX_*", B + "src/spvm_mutex.c"), ("SPVM_API_lock_object, inc_ref_count, dec_ref_count", API), ("SPVM_COMPILER_compile_common", B + "src/spvm_compiler.c")],
  technique="lock-state dataflow with effect summaries over the call graph of the LLVM IR; lock order graph; guarded-by rules for the protected state", level="other",
  note="Every function of the compiler and runtime and the native class Sync::Mutex. Trusted: clang's front end, the exporter, pthread and Win32 lock functions. Locks taken by programs through the API are the programs' matter.")
p(id="C18", title="Reflection and the runtime describe exactly the compiled classes",
  statement="After compilation the runtime's description is that of the compiled classes: every class has its id, name, category, parent, version, file, access and flags, its class variables, fields, methods, arguments, interfaces and anon classes in the order of the class with names, types, offsets, indexes, widths and flags equal to the compiled ones, its constant strings byte by byte, and the opcodes of each method; classes of earlier compilations keep their place and are found as before. The destructor of a class is its own or the one of its nearest super class, wherever the classes stand. Looking up a class, field, class variable or method by name or by index finds exactly the one of that name, in super classes too where documented, and nothing for a name or an index that does not exist. Every getter of the reflection API returns the property it is named after.",
  over=["inputs", "histories"], forall="every set of classes in one or more compilations, every name and index asked for",
  why="A description is built member by member for every kind of definition; a member copied from the wrong one or for the last of several shows only for particular classes and is then used as an index or offset by the interpreter.",
  files=[B + "src/spvm_compiler.c", B + "src/spvm_api_basic_type.c", B + "src/spvm_api_runtime.c", B + "src/spvm_api_field.c", B + "src/spvm_api_method.c"],
  mechanism=[("SPVM_COMPILER_build_runtime", B + "src/spvm_compiler.c"), ("SPVM_API_BASIC_TYPE_get_*", B + "src/spvm_api_basic_type.c"), ("SPVM_BASIC_TYPE_add_constant_string", B + "src/spvm_basic_type.c")],
  technique="abstract interpretation of the IR of the runtime builder on families of compiled classes, the result compared member by member; path summaries of the reflection API against specifications", level="translation_validation",
  note="202 sets of classes in one or two compilations. Trusted: clang's front end, the exporter, the abstract interpreter.")
p(id="C20", title="Texts made with formats fit their arguments and their memory",
  statement="Every message, name or generated text that the compiler, the runtime and the native classes make from a format gives the format exactly the arguments it asks for, each of the type asked for, and no text of a program, a file or an exception is ever used as a format. The memory a text is written to is large enough for every length of the names and numbers in it. A position in a compile error is the file and the line of one and the same construct, and a name given as Class#member is that of the class and the member in this order.",
  over=["inputs"], forall="every call that makes a text from a format, every length and content of the inserted texts",
  why="Most error messages are produced by no test and none with long names or texts containing a percent sign; a wrong argument or a short buffer then crashes the compiler or the program.",
  files=[B + "src/spvm_compiler.c", B + "src/spvm_check.c", B + "src/spvm_op.c", B + "src/spvm_toke.c", API, "lib/SPVM/Format.c"],
  mechanism=[("SPVM_COMPILER_error", B + "src/spvm_compiler.c"), ("SPVM_API_die", API)],
  technique="dataflow analysis of format, arguments and destination of every printf-like call over LLVM IR; symbolic sizes of the destinations", level="other",
  note="All 863 calls with a format. Trusted: clang's front end, the exporter, the meaning of printf conversions. Destinations whose size is not followed are counted in the evidence.")
p(id="C27", title="A failed compilation leaves nothing behind; a successful one checked everything",
  statement="A compiler can be used for any sequence of compilations. A compilation that fails - a syntax error, a class that cannot be loaded, an error of a check - reports its errors and leaves the classes, class names, constants, class files and the runtime as they were before it, keeps no reference to memory it released, and the next compilation starts parsing in the state of a new compiler; a class that failed can be compiled again. A compilation that succeeds ran every check on every class and every method with a body, stopped at the first pass that found errors otherwise, generated the code and built the runtime from all classes, and leaves earlier classes as they were. Class files, include directories and the start position given to the compiler are copied, found again exactly as set, and released with it. A compilation holds the lock of the compiler from its begin to its end.",
  over=["histories", "faults"], forall="every sequence of compilations and settings, failing or succeeding at every stage",
  why="The tests compile many programs but hardly ever continue with a compiler after a failure at a particular stage; what is left behind shows only in a later compilation.",
  files=[B + "src/spvm_compiler.c", B + "src/spvm_check.c", B + "src/spvm_class_file.c"],
  mechanism=[("SPVM_COMPILER_compile_common", B + "src/spvm_compiler.c"), ("SPVM_CHECK_check", B + "src/spvm_check.c"), ("SPVM_CLASS_FILE_set_*", B + "src/spvm_class_file.c")],
  technique="abstract interpretation of the compilation driver's IR on histories with failures injected at each stage, with memory ownership; reachability analysis of the parser's stores", level="fault_enumeration",
  note="106 histories of up to 3 compilations (one of 8), 1121 histories of settings. The parser itself is represented by what it may store. Trusted: clang's front end, the exporter, the abstract interpreter.")
p(id="C28", title="The parser accepts the documented grammar with documented precedence",
  statement="A sequence of tokens is accepted by the parser exactly if the grammar in the document on syntax parsing derives it, and it is structured by that grammar and the documented precedence and associativity of the operators: which operator binds tighter, in which direction operators of one precedence associate, which may not be chained, and where a construct ends. No source, however long or nested, is parsed differently.",
  over=["inputs"], forall="every sequence of tokens",
  why="There are tens of thousands of pairs of parser state and token; the tests' programs pass through a fraction of them, and a changed precedence shows only for particular operators side by side.",
  files=[B + "src/spvm_yacc.c", "yacc/spvm_yacc.y"], mechanism=[("SPVM_yyparse", B + "src/spvm_yacc.c")],
  technique="construction of the documented grammar's LALR(1) automaton and a bisimulation with the automaton encoded in the compiled parser's constant tables", level="translation_validation",
  note="The loop that interprets the tables (Bison's skeleton) is trusted to read them as Bison documents. What a production does is C29's; tokens are not covered.")
p(id="C29", title="The parser's tree for a construct does what the construct is documented to do",
  statement="For every operator and statement the syntax tree built for it evaluates its operands exactly once (or, for logical operators and branches, only when documented), in the documented order, and writes, declares, tests, calls, returns or throws exactly what the documents say: assignment and compound assignment, increment and decrement, before or after, to a variable, an element, a field (also of a multi-numeric variable, in its own storage), the field of an element, the referent of a reference or the exception variable; logical operators give the value last evaluated; if/elsif/else, unless, for, foreach, while, switch, eval, die, warn, return, next, last, break, array and key-value initializers, new, casts and declared types with their dimensions and qualifiers. Where an operand is not assignable, or the elements of an initializer do not fit, an error is reported, and no source makes the compiler crash.",
  over=["inputs"], forall="every operator and statement on every sort of operand, with operands left opaque",
  why="A construct rewritten into simpler ones goes wrong for a particular kind of target or operand - evaluated twice, a copy modified, a dereferenced NULL - and tests use few kinds for each.",
  files=[B + "src/spvm_op.c", B + "src/spvm_yacc.c"],
  mechanism=[("SPVM_OP_build_special_assign", B + "src/spvm_op.c"), ("SPVM_OP_build_logical_and", B + "src/spvm_op.c"), ("SPVM_OP_build_for_statement", B + "src/spvm_op.c"), ("SPVM_yyparse", B + "src/spvm_yacc.c")],
  technique="abstract interpretation of the parser's actions' IR on one source per construct with opaque operands; the meaning of the tree compared as a decision tree with the documented meaning", level="translation_validation",
  note="Loops are followed two rounds; up to four elements or arguments and three statements. Definitions (classes, methods, fields) are not covered here.")
p(id="C30", title="A source text is read as the tokens the language documents",
  statement="Every text is either read as the tokens the documents define - keywords, attributes, operators (the longest), symbol and variable names, numeric, character, string and single-quoted literals, heredocs, variable expansions, with comments, POD and #line, #file and #lib directives between them - with the documented values, operations and line and file, or it is refused with an error. Names after an arrow, in a field access, after method, has and &, and before a fat comma are names even if they are keywords. No text makes the tokenizer skip characters, read outside the text, overrun a buffer or loop endlessly.",
  over=["inputs"], forall="every text up to two bytes; every one of about five hundred texts with any one byte put in, replaced or left out or cut off anywhere; and sources beginning with each construct followed by up to three unknown characters",
  why="Which characters follow, or where the source ends, decides the token; tests use well-formed sources and a handful of errors.",
  files=[B + "src/spvm_toke.c", B + "src/spvm_op.c"],
  mechanism=[("SPVM_yylex", B + "src/spvm_toke.c"), ("SPVM_TOKE_parse_octal_escape", B + "src/spvm_toke.c"), ("SPVM_TOKE_parse_hex_escape", B + "src/spvm_toke.c"), ("SPVM_TOKE_is_hex_number", B + "src/spvm_toke.c")],
  technique="abstract interpretation of the tokenizer's IR over sets of bytes, all paths, compared with a reference tokenizer written from the documents; bounds of every access", level="exploration",
  note="A text has no NUL inside of it. How a class file is found and read is not covered. Texts the documents leave open (\\8, 012.5, 1., names ending with ::) are accepted either way.")
p(id="C31", title="A definition gives the class exactly what its source says",
  statement="A class definition leaves in the compiler exactly the class its source describes: its kind and attributes, parent, interfaces, allowed and used classes and aliases, version; every field, class variable and method under its name with its type, access and attributes, arguments in order with their defaults and number required, and its body; getters and setters for rw, ro and wo fields and class variables that read and set that member (byte and short as int), including a class variable of any name; one method per enumeration item returning its value, counting up from the last one; constructors of anonymous methods that give each field its value and each variable its field; one INIT method running the INIT blocks in order. Contradictory, misplaced or repeated attributes and repeated names are errors.",
  over=["inputs"], forall="every definition of the grammar, with names, types, bodies and values left opaque, up to three attributes and four members",
  why="An attribute, an accessor or a flag taken from the wrong member, or an accepted contradiction, shows only for the combination of attributes, type and position concerned; tests define a few classes.",
  files=[B + "src/spvm_op.c", B + "src/spvm_yacc.c"],
  mechanism=[("SPVM_OP_build_class", B + "src/spvm_op.c"), ("SPVM_OP_build_method", B + "src/spvm_op.c"), ("SPVM_OP_build_field", B + "src/spvm_op.c"), ("SPVM_OP_build_anon_method", B + "src/spvm_op.c"), ("SPVM_OP_attach_anon_method_fields", B + "src/spvm_op.c")],
  technique="abstract interpretation of the parser's actions' IR on one source per definition; the class structure left compared with the documented one, method bodies as decision trees", level="translation_validation",
  note="The checks of the later compiler phases (types, inheritance) belong to C18, C21, C24 and C25.")
