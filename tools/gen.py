#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run after editing; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, level='exploration', technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, level=level, technique=technique, note=note, na=na))


TESTS = 'The existing tests are a fixed set of programs with fixed inputs, compiled once with the default options and schedule; '
DIFF = 'bounded-exhaustive enumeration of programs, each compiled by the real compiler, executed, and compared with an independent reference'
TR = 'Trusted: clang-18/lld-link as reference semantics, the engine (PE loader and Windows stand-in) that runs hlc and its output.'

prop('C01', 'Run-time expressions evaluate to the C value', 'For every well-defined C expression over the arithmetic types, the compiled program computes the value C prescribes: promotions, usual arithmetic conversions, signedness, width, truncation, wrap-around, shifts, division, comparison, short-circuit, compound assignment, increment, comma, conditional and assignment results. This holds for every operand form (variable, global, dereference, element, member, call result, cast, volatile, nested expression) and for every nesting depth and number of simultaneously live values.',
     ['programs', 'inputs'], 'all operator x operand-type-pair x operand-form combinations, all four-leaf expression shapes, all nesting depths up to a bound, over the full product of boundary values',
     TESTS + 'they touch a few operator/type/form combinations and hardly any register-pressure situation; the property ranges over the whole product.',
     ['src/parse.c', 'src/emit_x64.c', 'src/ir.h'], [('parse_expression, perform_usual_arithmetic_conversions, push_cast', 'src/parse.c'), ('emit_code_for_function__internal, spill_register, emit_binary_op__internal', 'src/emit_x64.c')],
     technique=DIFF, note='Every case inside the stated product is executed on the real compiler output; values outside the boundary tables are not covered. ' + TR)
prop('C02', 'Constant expressions equal their run-time value', 'An expression evaluated during compilation (static initialisers, enumerators, array sizes, case labels, bit-field widths, _Static_assert, #if, constant folding inside functions) has exactly the value and type the same expression has at run time under C rules. #if arithmetic is done in 64-bit integers as C prescribes.',
     ['programs', 'inputs'], 'all operators x literal types x boundary values, in every constant context, plus all depth-two compositions over a small value set',
     TESTS + 'only a handful of folded values are asserted, the folder has separate code per operator, type and context.',
     ['src/parse.c', 'src/main.c', 'src/preprocess.c'], [('perform_integer_operation, perform_float_operation, push_cast literal paths', 'src/parse.c'), ('evaluate_static_initializer__internal', 'src/main.c'), ('static_if_evaluate', 'src/preprocess.c')],
     technique=DIFF, note='Exhaustive over the stated operator/type/value product in each constant context. ' + TR)
prop('C03', 'Control flow follows the C abstract machine', 'Every combination of if/else, while, do, for, switch (with fallthrough, default anywhere, nested, dense or sparse cases), break, continue, goto, labels, return, short-circuit and conditional operators executes exactly the statements C prescribes in that order. This holds for every nesting and for any number of cases or size of the bodies.',
     ['programs', 'inputs'], 'all statement trees up to a size bound x all input values selecting the paths; case-count and body-size ladders',
     TESTS + 'each test exercises one shape and one path.',
     ['src/parse.c', 'src/emit_x64.c'], [('parse_statement, push_jump', 'src/parse.c'), ('jump emission and patching in emit_code_for_function__internal', 'src/emit_x64.c')],
     technique=DIFF, note='All statement shapes up to the bound with a recorded trace of executed statements; larger programs are not covered. ' + TR)
prop('C04', 'Calls follow the Windows x64 calling convention', 'Functions compiled by hlc and functions compiled by another Windows x64 compiler can call each other in both directions with any signature: integer, floating point, pointer and aggregate arguments and results of every size, varargs, function pointers and recursion, with non-volatile registers preserved and the stack aligned.',
     ['programs'], 'all signatures up to a number of parameters over the type alphabet (all scalar types, structs of size 1..24, float structs), each called in the directions hlc->clang, clang->hlc and hlc->hlc',
     TESTS + 'nothing in them links against code of another compiler, and only a few signatures occur.',
     ['src/emit_x64.c', 'src/parse.c'], [('IR_function_call handling, IR_return, prologue/epilogue', 'src/emit_x64.c'), ('maybe_insert_implicit_nodes_for_varargs_argument', 'src/parse.c')],
     technique='bounded-exhaustive enumeration of signatures; caller and callee from different compilers linked together and executed', note='All signatures in the stated bound. ' + TR)
prop('C05', 'Type layout matches the MSVC ABI', 'Size, alignment and member offsets of every struct, union, array, enum, bit-field, packed or aligned type are those of the Microsoft x64 ABI, in sizeof, _Alignof, offsetof and in the bytes of objects.',
     ['programs'], 'all struct/union member sequences up to a length over the member-type alphabet (scalars, arrays, nested aggregates, bit-fields) x pack pragmas x alignment attributes',
     TESTS + 'they check a few structs; layout rules interact (packing, bit-field units, alignment, nesting).',
     ['src/parse.c', 'src/main.c'], [('struct/union parsing in parse_declaration_specifiers, register_compound_member', 'src/parse.c'), ('parse_and_process_pragma_pack', 'src/parse.c')],
     technique=DIFF, note='All member sequences in the stated bound. ' + TR)
prop('C06', 'Object accesses touch exactly the designated bytes', 'A store to a variable, array element, struct or union member or bit-field changes exactly the bytes (or bits) of that object and a load reads exactly them; struct assignment, passing and returning copy the whole object and nothing else. This holds for every object size, offset, index, stack-frame size and address form. Memory from _alloca is 16-byte aligned, of the requested size and disjoint from every other live object, and the elements of string literals are read at their place.',
     ['programs', 'inputs'], 'all member types and bit-field widths/offsets x values, all object sizes 0..65+, offsets across displacement thresholds, index scales and pointer arithmetic',
     TESTS + 'no test checks the neighbouring bytes, nor the sizes and offsets at which the encodings change.',
     ['src/emit_x64.c', 'src/parse.c'], [('emit_store, emit_store_bitfield, emit_memcpy, emit_register_relative__internal', 'src/emit_x64.c'), ('handle_pointer_arithmetic, push_dot_or_arrow', 'src/parse.c')],
     technique=DIFF, note='Exhaustive over the stated sizes, offsets, widths and values; surrounding memory is compared byte for byte. ' + TR)
prop('C07', 'Initialisers produce the object C prescribes', 'For every initialiser (nested braces, elided braces, designators in any order, repeated designators, strings, unions, bit-fields, compound literals, arrays of unknown size, and address constants: an object, function or string literal plus or minus any constant offset, in every spelling such as &a[i].m, &*a or p->m of a known address, narrowed only where C allows it) the object has exactly the bytes C prescribes, with all remaining members zero, whether the object is static, automatic or thread-local.',
     ['programs'], 'all initialiser lists up to a size over a type alphabet x designator sequences, each as static, local and compound literal',
     TESTS + 'they contain some dozens of initialisers; brace elision and designator orders combine freely.',
     ['src/parse.c', 'src/main.c'], [('parse_initializer, parse_initializer_list', 'src/parse.c'), ('evaluate_static_initializer', 'src/main.c')],
     technique=DIFF, note='All initialisers in the stated bound. ' + TR)
prop('C08', 'Meaning is independent of declaration order and file split', 'A program means the same regardless of the order of its file-scope declarations, of whether types and functions are used before they are declared, of how the declarations are distributed over translation units, of the order of the files on the command line and of the scheduling seed; an ill-formed program is rejected under every such order.',
     ['programs', 'configurations'], 'all permutations of small sets of mutually dependent declarations x all distributions over up to three files x file orders x seeds',
     TESTS + 'each test has one order; the waiting-and-waking machinery that makes order irrelevant is only exercised by whatever order the test happens to have.',
     ['src/main.c', 'src/parse.c'], [('worker_parse_global_scope_entry, sleeper tables, wake_up_sleepers, register_declaration', 'src/main.c'), ('_parser_sleep, maybe_resolve_unresolved_type_or_sleep_or_error', 'src/parse.c')],
     state=[('declaration and sleeper tables', 'which declaration each parse task waits for', 'src/main.c')],
     technique='exhaustive enumeration of declaration permutations, partitions and task orders of the real compiler', note='All permutations/partitions/orders of each declaration set in the corpus. ' + TR)
prop('C09', 'Compilation is independent of the thread schedule', 'For every number of threads and every interleaving of them, a compilation terminates, never crashes or hangs, and gives the same verdict, the same diagnostics (as a set) and an equivalent program as the single-threaded compilation.',
     ['schedules', 'configurations'], 'all interleavings up to a preemption bound of the real compiler with 2-3 threads, at synchronisation operations and conflicting accesses',
     TESTS + 'they run under whatever schedule the machine happens to produce.',
     ['src/main.c', 'src/windows.c', 'src/std.c'], [('work_queue_add/work_queue_get_work, sleeper_table_*, ast_table_*, register_declaration', 'src/main.c'), ('atomic_* wrappers', 'src/windows.c')],
     state=[('work queues', 'lock-free lists with tagged pointers', 'src/main.c'), ('ast_table / sleeper_table', 'growing hash tables shared by all threads', 'src/main.c')],
     technique='stateless model checking of the real compiler under a controlled scheduler (preemption-bounded, conflict-directed)', note='All schedules within the preemption bound of each harness program at the chosen scheduling points, under sequential consistency. ' + TR)
prop('C10', 'Macro expansion follows the standard', 'Object-like and function-like macros, nested and self-referential expansion, stringification, pasting, variadic macros (including __VA_OPT__ where accepted), rescanning, redefinition and #undef produce the token sequence the C standard prescribes.',
     ['programs'], 'all replacement lists and invocations up to a length over a token alphabet for sets of up to three mutually referring macros',
     TESTS + 'macro interactions are combinatorial.',
     ['src/preprocess.c'], [('expand_define, register_define, next_token_raw', 'src/preprocess.c')],
     technique='bounded-exhaustive enumeration of macro programs; token sequences compared with clang -E', note='All macro programs within the stated bound. ' + TR)
prop('C11', 'Conditionals, includes and positions follow the standard', '#if/#ifdef/#elif/#else nests select exactly the standard-prescribed text; #if arithmetic is done in 64 bits and each operator yields the signedness C prescribes; #include and #include_next resolve quoted and angled files in the documented order, whatever the directories are called, and include guards/#pragma once include a file once; __LINE__ and the file(line) of diagnostics denote the right source position, also across line splices, comments, macro expansions and included files. Unbalanced conditionals are rejected. #embed in a static character array yields the bytes of the file.',
     ['programs', 'inputs'], 'all conditional skeletons up to a length over the directive alphabet; all include graphs over up to three files; all placements of splices/comments/newlines before a marker',
     TESTS + 'they use a few directive shapes.',
     ['src/preprocess.c', 'src/diagnostic.c'], [('file_tokenize_and_preprocess, static_if_stack_push/pop, maybe_push_file_to_include_stack, tokenize_raw', 'src/preprocess.c'), ('report_error', 'src/diagnostic.c')],
     technique='bounded-exhaustive enumeration of directive sequences against a reference preprocessor', note='All directive sequences in the stated bound. ' + TR)
prop('C12', 'Names bind as C linkage and scope rules prescribe', 'Every identifier use refers to the declaration C prescribes: block, function-prototype, file and tag scopes, shadowing, static versus external linkage per translation unit, tentative definitions, typedef/variable ambiguity, labels and extern declarations; same-named static entities in different files stay distinct and external ones are shared.',
     ['programs'], 'all combinations of declaration kinds for the same name at up to three nesting levels and in up to two translation units',
     TESTS + 'only a few shadowing and linkage combinations occur.',
     ['src/main.c', 'src/parse.c'], [('lookup_declaration, lookup_typedef, parser_register_declaration_in_scope, identifier static tables', 'src/main.c')],
     technique=DIFF, note='All combinations in the stated bound. ' + TR)
prop('C13', 'Executables and DLLs are well-formed and relocatable', 'Every image hlc writes is a well-formed PE32+ file whose headers, sections, directories, imports, exports, relocations, TLS and exception tables are mutually consistent, and it behaves identically when loaded at any base address; with /no_dynamic_base and /image_base the image is as requested.',
     ['programs', 'configurations'], 'all combinations of image features (data kinds, pointers in static data, imports, exports, TLS, subsystem, sizes around alignment thresholds) x load addresses',
     TESTS + 'they run each image once, at the address the loader picks.',
     ['src/coff_writer.c'], [('print_coff', 'src/coff_writer.c')],
     technique='bounded-exhaustive enumeration of image features with a structural checker, and execution at several bases', note='All feature combinations in the stated bound. ' + TR)
prop('C14', 'Object files link like a direct compilation', 'An object file written with /obj, linked by another linker with or without other objects, yields a program equivalent to compiling the same sources directly; sections, symbols, relocations, COMDATs, directives and unwind data are valid COFF.',
     ['programs', 'configurations'], 'the same program corpora as the direct path, all partitions into objects, and symbol-feature combinations',
     TESTS + 'the object path has no execution tests here.',
     ['src/obj_writer.c'], [('print_obj', 'src/obj_writer.c')],
     technique='bounded-exhaustive enumeration of programs and partitions, linked with lld-link and executed, compared with the direct path', note='All programs in the stated corpora. ' + TR)
prop('C15', 'Output is deterministic', 'Repeating a compilation with the same inputs, options and schedule gives byte-identical output (except time stamps, the GUID of the PDB and printed times), and nothing from the environment other than the documented inputs (no addresses, uninitialised memory, file times outside the time stamp) reaches the output.',
     ['configurations', 'schedules'], 'every corpus program compiled under every combination of heap placement, memory fill, clock and processor count',
     TESTS + 'they never compare two outputs.',
     ['src/main.c', 'src/coff_writer.c', 'src/obj_writer.c', 'src/std.c'], [('print_coff, print_obj', 'src/coff_writer.c'), ('memory arenas', 'src/std.c')],
     technique='exhaustive enumeration of environment variations; outputs compared byte for byte', note='All environment variations in the stated set for each corpus program. ' + TR)
prop('C16', 'Ill-formed programs are rejected cleanly', 'Every program that violates a constraint the compiler implements is rejected with a diagnostic naming the file and line, a non-zero exit status and no output file; constant expressions at the limits of their types (division of the smallest value by -1, sizes, indices, widths and shift counts out of range) are folded or rejected, too; no input whatsoever makes the compiler crash, assert, hang or report success without output.',
     ['programs', 'inputs'], 'all single-token deletions, insertions, duplications and replacements of seed programs over the token alphabet; all token sequences up to a small length; all truncations; a catalogue of constraint violations in every context',
     TESTS + 'each test is one input; the property is about all inputs.',
     ['src/parse.c', 'src/preprocess.c', 'src/diagnostic.c', 'src/main.c'], [('report_error, maybe_set_should_exit_statement, maybe_report_error_for_stack_exhaustion', 'src/diagnostic.c'), ('parse_*', 'src/parse.c')],
     technique='bounded-exhaustive enumeration of token-level mutations and short token sequences on the real compiler', note='All mutations of the listed kinds of each seed. ' + TR)
prop('C17', 'I/O and resource failures are reported', 'When any file, directory, registry, memory or thread operation fails or writes short, the compiler ends with a diagnostic and a non-zero status or produces the complete correct output; it never reports success with missing or truncated output and never crashes or hangs.',
     ['fault_sequences'], 'every single fault and every pair of faults at every I/O, memory and thread call of representative compilations (exe, dll, obj, several files, preprocess only)',
     TESTS + 'no test injects a fault.',
     ['src/windows.c', 'src/std.c', 'src/main.c'], [('os_load_file, os_write_file, os_reserve_memory, os_commit_memory, os_create_thread', 'src/windows.c')],
     level='fault_enumeration', technique='exhaustive fault enumeration over every environment call of the real compiler', note='Every single fault (thorough: pairs) for each harness compilation. ' + TR)
prop('C18', 'Command-line options have their documented effect', 'Every option spelling the help lists is accepted with its documented effect and independently of its position; input files, output names, response to unknown or incomplete options and the argument splitting (quotes, backslashes) follow the documentation; argc/argv/envp and WinMain arguments of the compiled program follow the Windows rules.',
     ['configurations', 'inputs'], 'all options, all pairs of options and all their orders; all command-line strings up to a length over the quoting alphabet',
     TESTS + 'they use a fixed command line.',
     ['src/cli.c', 'src/windows.c', 'implicit/pre_main_common.c'], [('cli_parse_options', 'src/cli.c'), ('windows_parse_command_line', 'src/windows.c'), ('argument splitting of the start-up code', 'implicit/pre_main_common.c')],
     technique='bounded-exhaustive enumeration of command lines against a model of the option semantics', note='All option pairs/orders and all strings in the stated bound. ' + TR)
prop('C19', 'Inline assembly is encoded as written', 'Every supported inline-assembly instruction with every supported operand form is encoded so that it performs exactly that instruction on those operands, and C variables used as operands are read and written correctly; unsupported forms are rejected with a diagnostic.',
     ['programs'], 'all 1978 supported (mnemonic, operand kinds) x every register, every pair of registers, 18 memory operands, immediates at all encoding boundaries, gs/lock/rep prefixes; the full base x scale x index x displacement product for six instructions; all other operand-kind combinations of each mnemonic; all pairs (thorough: triples of a subset) of 150 instructions over C variables, every operand type x storage class, every jump and set condition, executed',
     TESTS + 'a few instructions with few operands are used.',
     ['src/parse_asm_block.c', 'src/emit_inline_asm_block.c', 'src/emit_x64.c'], [('parse_asm_instruction', 'src/parse_asm_block.c'), ('emit_inline_asm_block', 'src/emit_inline_asm_block.c'), ('emit_prefixes_and_opcode', 'src/emit_x64.c')],
     technique='bounded-exhaustive enumeration of instructions x operands, encodings compared with llvm-mc through a disassembler; sequences over C variables executed and compared with clang', note='All instruction/operand combinations in the stated alphabet. ' + TR)
prop('C20', 'Atomic operations are atomic and correct', 'Each _Interlocked*/_Atomic operation the compiler provides performs its whole read-modify-write as one indivisible step and leaves the prescribed value in the object, for every operand width and operand form, also with concurrent access from other threads; its result is the prescribed one (the value of an atomic assignment or compound assignment may be re-read from the object). Operations on _Atomic objects which the compiler does not implement indivisibly are rejected with a diagnostic.',
     ['schedules', 'inputs'], 'all _Interlocked* intrinsics, all operators on _Atomic integers, booleans and pointers, all of stdatomic.h x widths x operand forms x boundary values; another thread\'s operation before every instruction (and inside every unlocked read-modify-write instruction) of the operation',
     TESTS + 'they run single-threaded.',
     ['src/emit_x64.c', 'src/parse.c', 'implicit/include'], [('IR_*_atomic, emit_store_atomic_integer, intrinsic inline functions', 'src/emit_x64.c')],
     technique='exhaustive single-step interleaving of the generated machine code, and differential execution', note='All instruction interleavings of two threads for each operation. ' + TR)
prop('C21', 'Debug information describes the program', 'In the PDB file, and in the PDB a linker makes of the object file, the line table of every function starts at its first instruction, is sorted, stays inside the function and at instruction boundaries, and maps the instructions of each statement to the file and line of that statement. At every address inside a statement, the innermost enclosing block that records a name records the variable the name denotes there (a static or thread-local local variable has no record, and a declaration counts for its whole block), with its type and its place relative to rbp; parameters passed by reference are recorded as pointers. Every function and every external or static global variable that is not thread-local is recorded once with its address, type, linkage and size, ; the scope and end links of procedures and blocks and the procedure references of the global stream point at the records they name; structures, unions and enumerations are recorded with their members, types, offsets and values (variables of enumeration type as int). Both files are well-formed.',
     ['programs'], 'every statement form nested to depth one (thorough: two) in main and included file; all trees of nested blocks to depth three with every declaration pattern over two names, all pairs of eight block kinds, all parameter types x positions; all types x storage x initialisers; 30 base types x 22 declarators as globals, statics, parameters and locals; 12 return types x 18 parameter lists; bit-field, large, deeply nested, packed, aligned and long-named structures, unions and enumerations',
     TESTS + 'no test reads the debug information.',
     ['src/coff_writer.c', 'src/obj_writer.c', 'src/emit_x64.c'], [('write_msf, codeview_emit_debug_info_for_function, codeview_push_debug_s_lines, register_all_types', 'src/obj_writer.c'), ('function_maybe_add_line_information', 'src/parse.c')],
     technique='bounded-exhaustive enumeration of programs; line tables compared with markers in the machine code, variable records with the addresses the running program reports, types with clang', note='All programs in the corpus, both output forms. ' + TR)
prop('C22', 'print-like functions describe their arguments', 'In a call of a __declspec(printlike) function, the format string and argument list the compiler supplies for inferred arguments ({}, {:...}, {name}, {name=}, %?, or no format at all) describe each argument: the conversion matches the promoted type of the argument, the requested width, precision and base are applied, structures, unions and arrays are expanded to one conversion and value per printed member in order, in one line or with # one per line, and strings are printed with s. Each argument is evaluated exactly once; literal text, %% and C-style conversions are passed through unchanged, in any mix. Calls with too few or too many arguments are rejected with a diagnostic. (The flags + - 0 and space of inferred arguments are not covered.)',
     ['programs', 'inputs'], 'all scalar types x placeholder forms x argument expression forms; all structures and unions of up to two (thorough: three) members over 29 member types x forms; all sequences of up to three placeholders over 21 kinds with 12 separators, longer sequences along a ladder',
     TESTS + 'some types are printed once.',
     ['src/parse.c', 'src/emit_x64.c'], [('parse_call_to_printlike_function_arguments, get_pretty_print_string_for_type, printlike__infer_format_string_and_arguments_for_argument', 'src/parse.c'), ('IR_duplicate, IR_swap_lhs_rhs, IR_member', 'src/emit_x64.c')],
     technique='bounded-exhaustive enumeration of calls, executed and compared with the explicit call of a model of the documented format', note='All calls in the stated bound. ' + TR)
prop('C23', 'Literals and tokens denote their C values', 'Every integer, floating, character and string literal (all bases, suffixes, separators, escapes, prefixes, adjacent concatenation, encodings) has the type and value C prescribes, and the source text is split into tokens by maximal munch, with comments and with line splices between tokens, in strings and in // comments.',
     ['inputs'], 'all literals up to a length over the literal alphabet; all two-token adjacencies; all escapes and all code points at encoding boundaries',
     TESTS + 'the literal grammar is infinite and mostly untouched by tests.',
     ['src/preprocess.c', 'src/parse.c'], [('tokenize_raw, parse_base10_literal, parse_hex_literal, parse_character_literal, handle_escaping, parse_integer_suffix', 'src/preprocess.c')],
     technique=DIFF, note='All literals in the stated bound. ' + TR)
prop('C24', 'Structured exception handling unwinds correctly', '__try/__except runs filters and handlers as Windows prescribes: an exception raised by any statement or at any instruction inside a guarded block, directly or in callees, evaluates the filters from the innermost block outwards, with access to the locals, parameters, code and record of the exception, runs the handler of the first accepting filter (or resumes for -1), and execution continues with all variables intact; blocks left by break, continue, return or goto are no longer guarded. (__finally is rejected with a diagnostic.)',
     ['programs', 'crash_points'], 'all nestings of try/except up to a bound x raising statement x filter x leaving statement; an exception at every executed instruction',
     TESTS + 'few shapes with one raising site.',
     ['src/parse.c', 'src/emit_x64.c', 'src/obj_writer.c'], [('__try parsing and scope tables', 'src/parse.c'), ('push_unwind_information_for_function', 'src/obj_writer.c')],
     technique='bounded-exhaustive enumeration of handler nests x raising sites, executed under an independent exception dispatcher and compared with an interpreter; exception injection at every executed instruction', note='All programs of the stated families; injections at every instruction of selected programs of every family. ' + TR)
prop('C25', 'Unwind data is right at every instruction', 'At every instruction of every generated function, in images and in objects linked by another linker, unwinding with the emitted unwind information recovers the exact stack pointer, return address and non-volatile registers of the caller and of all further callers.',
     ['programs', 'crash_points'], 'every instruction boundary of every function of the frame-shape corpus (frame sizes across thresholds, alloca-like large frames, calls, struct copies, saved registers)',
     TESTS + 'they never unwind from arbitrary instructions.',
     ['src/emit_x64.c', 'src/obj_writer.c', 'src/coff_writer.c'], [('emit_code_for_function prologue and epilogue', 'src/emit_x64.c'), ('.pdata and .xdata of objects in print_obj', 'src/obj_writer.c'), ('push_unwind_information_for_function', 'src/obj_writer.c')],
     technique='exhaustive single-stepping of the generated code, unwinding at every instruction', note='Every executed instruction of every function in the corpus. ' + TR)
prop('C26', 'Size never changes meaning', 'Growing any dimension of a program (declarations, functions, statements, nesting, arguments, members, cases, string and array sizes, identifier length, macros, includes, files, code size) does not change its meaning: up to the C minimum limits and the practical limits of the compiler the program is accepted and computes the same as its definition; beyond a limit it is rejected with a diagnostic, never miscompiled or crashed on.',
     ['programs'], 'each of about 100 dimensions stepped through a ladder of sizes around every power of two and ten up to a bound, with and without debug information',
     TESTS + 'test programs are small; table growth, buffer and encoding thresholds are never crossed.',
     ['src/main.c', 'src/parse.c', 'src/emit_x64.c', 'src/preprocess.c', 'src/coff_writer.c', 'src/std.c'], [('table growth, arenas, fixed-size stacks', 'src/main.c'), ('dynarray/arena', 'src/std.c')],
     technique=DIFF, note='Every rung of every ladder. ' + TR)
prop('C27', 'Intrinsic functions compute their documented result', 'Every intrinsic function the implicit headers provide (bit and byte operations, wide arithmetic, memory and segment access, flags, SSE to SSE4.2, AES and AVX) computes the documented result and memory effect, including NaN, infinity, saturation and wrap-around inputs and every value of an immediate control operand, in whatever expression context the call appears, and leaves all other values of the program intact.',
     ['programs', 'inputs'], 'every intrinsic function of implicit/include (except the _Interlocked family, which C20 covers) x forms of use (locals, elements, call results, members, through pointers, nested calls, live registers around it, conditional, returned) x boundary argument values x immediates',
     TESTS + 'most intrinsics are never called by a test, none with NaN or wrap-around arguments.',
     ['implicit/include/intrinsic.c', 'src/emit_inline_asm_block.c', 'src/parse_asm_block.c', 'src/emit_x64.c'], [('__declspec(inline_asm) functions', 'implicit/include/intrinsic.c'), ('emit_inline_asm_block, emit_inline_asm_function_call', 'src/emit_inline_asm_block.c')],
     technique=DIFF, note='Every function, form and immediate in the stated product; argument values from boundary tables. ' + TR)

COST = {'C01': '30 s', 'C02': '10 s', 'C03': '15 s', 'C04': '30 s', 'C05': '10 s', 'C06': '35 s', 'C07': '15 s', 'C08': '10 s', 'C09': '240-320 s', 'C10': '10 s', 'C11': '140 s', 'C12': '5 s', 'C13': '20 s',
        'C14': '40 s', 'C15': '65 s', 'C16': '170 s', 'C17': '5 s', 'C18': '45 s', 'C19': '32 s', 'C20': '25-60 s', 'C21': '12 s', 'C22': '17 s', 'C23': '5 s', 'C24': '20 s', 'C25': '30 s', 'C26': '15 s', 'C27': '6 s'}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                            'observe_at': list(p['observe']) or ['compiler exit status, output and files', 'behaviour of the produced image'], 'hook_needed': p['hook']}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile /repo/src/main.c unmodified (the schedule check adds compiler instrumentation only)', 'source_commits': []},
         'checks': [], 'not_applicable': []}
    for p in P:
        script = os.path.join('checks', p['id'].lower() + '.py')
        if os.path.exists(os.path.join(V, script)) and not p['na']:
            m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 {script}', 'thorough_cmd': f'VERIF_TIER=thorough python3 {script}', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    d = open(os.path.join(V, 'DESIGN.md')).read()
    a, b = '| id | space enumerated', '\n\nNon-triviality'
    i, j = d.index(a), d.index(b)
    h = '| id | space enumerated (quick; thorough extends) | deciding method and oracle | quick cost |\n|---|---|---|---|\n'
    rows = []
    for p in P:
        claimed = os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')) and not p['na']
        rows.append(f"| {p['id']} {p['title']} | {p['text']} | {p['technique'] if claimed else 'not claimed: ' + (p['na'] or 'check not built yet')} | {COST.get(p['id'], '') if claimed else ''} |")
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d[:i] + h + '\n'.join(rows) + d[j:])
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')


main()
