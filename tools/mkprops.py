#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
A = 'src/middle_end/ast_to_ir.rs'; T = 'src/back_end/target_code_generation.rs'
def m(n, w): return {'name': n, 'where': w}
def st(n, me, w): return {'name': n, 'meaning': me, 'where': w}
OUT = 'bytes written to standard output and exit status of node runtime/run.mjs'
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), observe=OUT, hook=None):
    P.append({'id': id, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': list(state), 'mechanism': mech, 'observe_at': observe.split('; '), 'hook_needed': hook}})

p('C01', 'Integer expressions have the value and type that C gives them',
  'Every integer operator, conversion, cast, compound assignment, increment and decrement, on operands of any combination of the integer types (8, 16, 32 and 64 bits, signed and unsigned), gives in the compiled program the value and the result type that the C rules for promotion and conversion define. Only expressions whose behaviour is defined are meant.',
  ['inputs', 'programs'], 'all operators, all pairs of operand types, all operand values (boundary values of every type), and nested expressions of them',
  'The tests evaluate a few dozen fixed expressions, mostly on int; the 8 x 8 operand type pairs times 22 operators times boundary values, and their nesting, are not sampled.',
  [A, 'src/middle_end/type_conversions.rs', 'src/middle_end/get_ast_type_info.rs', T, 'src/back_end/integer_encoding.rs'],
  [m('promotion and usual arithmetic conversions', 'src/middle_end/type_conversions.rs'), m('operator selection by type', T), m('integer constants and LEB128', 'src/back_end/integer_encoding.rs')])
p('C02', 'Side effects happen once, and in the order C requires',
  'In a compiled program each operand is evaluated as often as C says: && and || and ?: evaluate only the operands they need, sizeof evaluates none, and the left side of a compound assignment is evaluated once. Effects separated by a sequence point (&&, ||, ?:, the comma operator, full expressions, calls, initialisers) happen in their order.',
  ['programs', 'inputs'], 'all nestings of sequencing operators with operands that have side effects, in every context an expression can occur in',
  'The tests contain no operands that print or count their evaluations inside nested conditional operators, conditions, subscripts and arguments.',
  [A, 'src/middle_end/instructions.rs', 'src/relooper/soupify.rs'], [m('lowering of &&, ||, ?:, comma', A), m('compound assignment and increment', A)])
p('C03', 'Structured and unstructured control flow follows the source',
  'For any nesting of if, while, do, for, switch (with fall through, default anywhere), break, continue, return and goto (forwards, backwards, into and out of loops and branches), the compiled program executes exactly the statements, in the order, that the source prescribes.',
  ['programs', 'inputs'], 'all control-flow graphs that statements of the accepted language can form, with all paths through them',
  'The control flow is rebuilt from labels and branches by an algorithm whose case analysis depends on the shape of the whole graph; tests have a handful of shapes, and nearly no goto.',
  ['src/relooper/relooper.rs', 'src/relooper/soupify.rs', 'src/relooper/blocks.rs', A, T],
  [m('labels and branches to blocks', 'src/relooper/soupify.rs'), m('simple, loop and multiple blocks', 'src/relooper/relooper.rs'), m('branch depths', T)],
  [st('label variable', 'selects the block to enter next', 'src/relooper/relooper.rs')])
p('C04', 'Calls pass arguments and results, and every activation has its own variables',
  'A call evaluates its arguments, converts them to the parameter types, and yields the returned value converted to the result type; each activation has its own parameters and automatic variables, whatever the depth and shape of recursion, and a call changes no variable of the caller except through pointers and globals.',
  ['programs', 'inputs', 'histories'], 'all call graphs, recursion depths, numbers and types of parameters and results, and call sites',
  'The tests call functions of a few int parameters; mixed widths, deep or mutual recursion, calls in argument lists and calls while many variables are live are not covered.',
  [T, 'src/back_end/stack_frame_operations.rs', 'src/back_end/memory_operations.rs', A], [m('frame set-up and tear-down', 'src/back_end/stack_frame_operations.rs'), m('argument conversion', A)],
  [st('frame pointer, temporary frame pointer and stack pointer', 'addresses 0, 4 and 8', 'src/back_end/memory_constants.rs')])
p('C05', 'Tail-call optimisation changes stack use only',
  'A program gives the same output and exit status with and without tail-call optimisation, whatever the number, order, type and mutual dependence of the arguments of the tail call. With it, a chain of self tail calls of any length (each written as return f(...) in a function f whose variables are scalars and whose body takes no address) runs in a bounded stack.',
  ['programs', 'configurations', 'inputs'], 'all self-recursive functions with tail calls, with the optimisation on and off, and all recursion depths',
  'Tests have four fixed tail-recursive functions with the default flags; arguments that swap or depend on each other, addresses of parameters, tail calls inside loops or switches are not there.',
  ['src/middle_end/middle_end_optimiser', T, 'src/back_end/stack_frame_operations.rs'], [m('tail call to jump', 'src/middle_end/middle_end_optimiser/tail_call_optimise.rs'), m('frame reuse', 'src/back_end/stack_frame_operations.rs')],
  [st('stack pointer', 'end of the stack in use', 'src/back_end/memory_constants.rs')], OUT + '; stack pointer log of --prof-stack')
p('C06', 'Variables that share stack space are never needed at the same time',
  'A program gives the same output with and without optimised stack allocation: no write to one variable is visible in another that is still needed, on any path, with addresses taken or not. With it, no frame is larger than without it.',
  ['programs', 'configurations', 'inputs'], 'all functions: all patterns of overlapping lifetimes over branches, loops, gotos and address-taken variables, both allocators',
  'The two stack allocation tests check one fixed function each; the interference of variables depends on liveness over every path of the control-flow graph.',
  ['src/back_end/stack_allocation', 'src/back_end/dataflow_analysis', 'src/data_structures/interval_tree.rs', T],
  [m('live variable analysis', 'src/back_end/dataflow_analysis/live_variable_analysis.rs'), m('placement', 'src/back_end/stack_allocation/allocate_vars.rs')],
  [st('clash graph', 'variables that must not overlap', 'src/back_end/dataflow_analysis/clash_graph.rs')], OUT + '; stack pointer log of --prof-stack')
p('C07', 'Exactly the procedures that main may reach are needed',
  'Unreachable-procedure elimination never removes a function that a chain of calls from main mentions, in whatever position, order or nesting the call occurs, and removes every defined function that no such chain mentions; programs behave the same with and without it.',
  ['programs', 'configurations'], 'all call graphs: cycles, self calls, calls in initialisers, arguments, dead branches and conditions, functions before and after their callers',
  'The only tests are programs all of whose functions are used.',
  ['src/middle_end/middle_end_optimiser', 'src/middle_end/ir.rs'], [m('call graph and its traversal', 'src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs')], (), 'code section of the generated module; ' + OUT)
p('C08', 'Optimisation and profiling flags never change what a program does',
  'Each accepted program has the same output and exit status under all sixteen combinations of the optimisation and profiling flags, and compiling the same source twice with the same flags gives modules that behave the same.',
  ['programs', 'configurations'], 'all programs, under all 16 flag combinations',
  'The tests run each program with one or two flag sets; interactions of the optimisations with one another and with profiling on general programs are not run.',
  ['src/program_config', 'src/middle_end/middle_end_optimiser', 'src/back_end/stack_allocation', 'src/back_end/profiler.rs', 'src/main.rs'],
  [m('flags', 'src/program_config/enabled_optimisations.rs'), m('profiling calls', 'src/back_end/profiler.rs')])
p('C09', 'Pointers and arrays address exactly the object they designate',
  'Loads and stores through pointers, subscripts (also of arrays of arrays), address-of, pointer arithmetic, differences and comparisons reach exactly the bytes of the designated object, for every element type, and change no other object; arrays have the size they were declared with, also when the size is computed at run time.',
  ['programs', 'inputs'], 'all element types, dimensions, offsets within an object, and aliasings of pointers to globals, locals, parameters and elements',
  'The tests index int and char arrays of one dimension; multi-dimensional arrays, pointers to pointers, aliasing stores and differences of wide elements are not covered.',
  [A, T, 'src/middle_end/ir_types.rs', 'src/back_end/memory_operations.rs'], [m('pointer scaling', A), m('loads and stores by type', 'src/back_end/memory_operations.rs'), m('runtime array sizes', 'src/middle_end/ir_types.rs')])
p('C10', 'Structure and union members keep separate, shared and nested storage',
  'Members of a structure are disjoint and keep their values independently, members of a union share their storage from its start, nested structures, arrays and pointers (also to the type itself) are reached through any chain of . and ->, and sizeof and initialisers agree with that layout.',
  ['programs', 'inputs'], 'all structure and union types of the accepted language and all chains of member accesses to them',
  'One test with a small structure; nested and recursive types, unions of mixed widths, arrays of structures, and writes next to other members are not covered.',
  [A, 'src/middle_end/get_ast_type_info.rs', 'src/middle_end/ir_types.rs', 'src/middle_end/aggregate_type_initialisers.rs'], [m('member offsets', 'src/middle_end/ir_types.rs'), m('member access', A)])
p('C11', 'Static data has its initial value when main starts, and lasts for the whole run',
  'Global variables, static locals and string literals have their initial values (zero when there is none) when the program starts, keep what is stored in them over calls, are one object in all functions, and are disjoint from one another, from the program arguments and from the stack; string literals hold exactly the bytes written in the source.',
  ['programs', 'inputs', 'histories'], 'all sets of globals, statics and literals, of all types and initialisers, with all program arguments',
  'One test program uses globals; many literals, zero bytes and escapes, initialisers that use other globals, statics in recursive functions and large data are not covered.',
  ['src/back_end/initialise_memory.rs', T, A, 'runtime/init_memory.mjs', 'src/middle_end/aggregate_type_initialisers.rs'], [m('data layout', 'src/back_end/initialise_memory.rs'), m('argument strings', 'runtime/init_memory.mjs')],
  [st('static data region', 'string literals, then globals, then arguments, then the stack', 'src/back_end/initialise_memory.rs')])
p('C12', 'Names refer to the declaration that is in scope',
  'Variables, parameters, enumeration constants, typedef names and tags refer to the innermost declaration in scope at that point, inner declarations hide outer ones exactly until the end of their block, and a typedef means the type it was declared with.',
  ['programs'], 'all nestings of blocks, loops and functions with shadowing declarations of all kinds of names',
  'Tests shadow next to nothing; each kind of name has its own table, and hiding between kinds needs nested programs.',
  ['src/middle_end/context.rs', A, 'src/front_end/lexer.rs', 'src/middle_end/get_ast_type_info.rs'], [m('scope stack', 'src/middle_end/context.rs'), m('typedef names in the parser', 'src/front_end/lexer.rs')],
  [st('scope stack', 'what each name means in each open block', 'src/middle_end/context.rs')])
p('C13', 'Constant expressions have the value they have at run time',
  'Array sizes, case labels, enumeration values and other constant expressions evaluate to the value that the same expression has when it is evaluated at run time.',
  ['programs', 'inputs'], 'all constant expressions of the operators, constants, enumeration constants and sizeof that the compiler accepts in these places',
  'The compiler has a separate evaluator for them, which the tests use for literals and one enumeration.',
  ['src/middle_end/compile_time_eval.rs', A], [m('compile time evaluation', 'src/middle_end/compile_time_eval.rs')])
p('C14', 'printf writes exactly the bytes C defines, and returns their number',
  'For any format of the supported conversions (d, i, u, c, s, f, %, with h or l) and matching arguments, printf writes exactly the bytes that C defines, in program order, and returns how many they are.',
  ['inputs', 'programs'], 'all sequences of conversions and plain bytes, all argument values (boundary values of every type, doubles of all magnitudes, strings of any bytes)',
  'The printf test prints a few small numbers; the argument area mixes 4 and 8 byte slots whose offsets depend on all arguments before.',
  ['runtime/stdlib/stdio.mjs', 'runtime/number_operations.mjs', 'runtime/memory_operations.mjs', T, A], [m('format interpretation', 'runtime/stdlib/stdio.mjs'), m('variadic argument area', A)])
p('C15', 'String and number library functions do what C defines',
  'strlen, strstr, strtol and strtoul return the length, the first occurrence (or a null pointer), and the number with the end of its digits that C defines, for every valid string, base and end pointer, and change nothing else.',
  ['inputs'], 'all strings, search strings, bases 0 and 2 to 36, signs, prefixes, overflows, and null or non-null end pointers',
  'Two tests call them on a few ASCII strings.',
  ['runtime/stdlib/string.mjs', 'runtime/stdlib/stdlib.mjs', 'runtime/memory_operations.mjs'], [m('library in JavaScript', 'runtime/stdlib/')])
p('C16', 'Program arguments reach main, and its result becomes the exit status',
  'The runtime gives main the number of arguments and, in order, each argument byte for byte as a string it may modify, none of which overlaps another object; the process exits with the value main returns, modulo 256 (0 if it falls off its end), after all output has been written.',
  ['inputs', 'programs'], 'all argument vectors (number, length, empty strings, bytes of non-ASCII text) and all results of main',
  'One test passes two short ASCII arguments.',
  ['runtime/run.mjs', 'runtime/init_memory.mjs', 'runtime/memory_operations.mjs', T], [m('argument area', 'runtime/init_memory.mjs'), m('call of main', 'runtime/run.mjs')])
p('C17', 'Source text is read as C: tokens, constants, precedence, comments',
  'Integer constants (decimal, octal, hexadecimal), character constants and string literals with all their escapes denote the values C gives them, operators group by the precedence and associativity of C, tokens are the longest possible, and white space, comments and line breaks between tokens change nothing.',
  ['programs', 'inputs'], 'all spellings of tokens and all operator sequences of the accepted language, however laid out',
  'The lexer and the parser have some unit tests on single tokens; combinations of tokens, escapes and operators are not enumerated.',
  ['src/front_end/lexer.rs', 'src/front_end/c_parser.lalrpop', 'src/front_end/interpret_string.rs', 'src/preprocessor.rs'], [m('tokens', 'src/front_end/lexer.rs'), m('grammar', 'src/front_end/c_parser.lalrpop'), m('escapes', 'src/front_end/interpret_string.rs')])
p('C18', 'Invalid programs are rejected and leave no output file',
  'A source that is not a program of the language makes the compiler exit with a non-zero status and a message, without writing a module: one that breaks the grammar; uses a name, tag, member or label that is not declared, or declares one twice or differently in a scope; applies an operator, subscript, call, cast, assignment or initialiser to operands of types for which C has none; gives a call the wrong number of arguments; defines an object of incomplete type; has a wrong array size, enumeration value or case label; has break, continue, case, default, return or goto where it means nothing; or cannot be read, or includes a file that cannot be. A program that keeps these rules is not rejected. (Not covered, as the compiler is lenient there: const, pointers assigned to other pointers or integers, initialisers of static objects that are not constant, storage classes.)',
  ['programs', 'fault_sequences'], 'all programs obtained from valid ones by one such violation, anywhere in them; unreadable input files',
  'No test compiles an invalid program; the rules have to hold for every declaration, expression and statement, wherever it stands.',
  ['src/main.rs', 'src/middle_end/context.rs', A, 'src/front_end/parser.rs', 'src/preprocessor.rs', 'src/middle_end/middle_end_error.rs'], [m('error reporting', 'src/main.rs'), m('name resolution errors', 'src/middle_end/context.rs')], (), 'exit status, standard error and output file of the compiler')
p('C19', 'The stack pointer is disciplined, and the profile log shows it',
  'Every call starts its frame at or above the end of the caller\'s, a return restores the stack of the caller exactly, and when main has returned only its own frame is left; neither calls nor arrays of constant size in a loop use more stack with every iteration; with stack profiling the log records the stack pointer at these points, in order, and profiling changes nothing else.',
  ['programs', 'histories', 'configurations'], 'all dynamic call sequences: nested, recursive and sibling calls, returns from inside loops and blocks, library calls',
  'No test looks at the stack pointer; a leak shows only after thousands of calls.',
  ['src/back_end/stack_frame_operations.rs', 'src/back_end/profiler.rs', 'runtime/profiler.mjs', T], [m('frame set-up and tear-down', 'src/back_end/stack_frame_operations.rs'), m('stack pointer log', 'runtime/profiler.mjs')],
  [st('stack pointer', 'end of the stack in use', 'src/back_end/memory_constants.rs')], 'stack pointer log, and the memory when main has returned')
p('C20', 'Floating-point arithmetic is IEEE 754, with the conversions of C',
  'float and double constants, operators, comparisons, negation, truth values, and conversions between them and to and from every integer type give the correctly rounded IEEE 754 results that C prescribes for them.',
  ['inputs', 'programs'], 'all operators, pairs of operand types (with integers too), and values: zeros, fractions, halves, large and tiny numbers',
  'Two tests use a few float sums.',
  [T, 'src/back_end/float_encoding.rs', 'src/middle_end/type_conversions.rs', A], [m('conversions', 'src/middle_end/type_conversions.rs'), m('float constants', 'src/back_end/float_encoding.rs')])
p('C21', 'The supplied headers and the preprocessor conform',
  'The character classes and case mappings of every character value, the limits of the integer types, the fixed-width and size types and the other macros of the supplied headers are those of C for this target, in any order or repetition of includes; macros and conditional compilation act as C says.',
  ['inputs', 'programs'], 'every value from -1 to 255 for each character function, every macro and type of the headers, every order of includes',
  'Two tests include one header function or two.',
  ['headers/ctype.h', 'headers/limits.h', 'headers/stdint.h', 'headers/stddef.h', 'headers/string.h', 'headers/stdlib.h', 'src/preprocessor.rs'], [m('headers', 'headers/'), m('include handling', 'src/preprocessor.rs')])
p('C22', 'Every accepted program becomes a valid module',
  'Whenever the compiler exits with status 0, the output is a valid WebAssembly module which the runtime can instantiate: for any size and number of functions, parameters, variables, literals, nested blocks and constants. Nesting of a usual depth (63 parentheses, some dozens of nested statements) compiles.',
  ['programs', 'configurations'], 'all accepted programs, in particular around the boundaries of the variable-length encodings (63/64, 127/128, 8191/8192, 16383/16384, ...), under all flags',
  'The tests are small programs whose sections and bodies stay within the shortest encodings.',
  [T, 'src/back_end/wasm_module', 'src/back_end/integer_encoding.rs', 'src/back_end/vector_encoding.rs', 'src/back_end/wasm_instructions.rs', 'src/back_end/wasm_indices.rs'],
  [m('LEB128', 'src/back_end/integer_encoding.rs'), m('section and vector lengths', 'src/back_end/vector_encoding.rs'), m('types on the operand stack', T)], (), 'WebAssembly.validate and instantiation of the generated module')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(x) + '\n' for x in P))
