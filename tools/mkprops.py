#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Integer expressions evaluate exactly as C defines them (x86-64)',
 'A program compiled by xcc computes, for every integer expression without undefined behaviour, exactly the value C prescribes: promotions, usual conversions, casts, wrap-around of unsigned types, shifts, division and remainder, comparisons, logical and conditional operators, assignments, compound assignments, increments and bit-field accesses, for every integer type and operand value. This holds whatever mix of constants, locals, parameters, globals, array elements and struct members the operands are, and however many values are live at once.',
 ['programs', 'inputs'], 'every UB-free integer expression, every operand type pair, operand values and operand placement',
 'valtest and friends sample a few hundred fixed expressions with small operands; type pairs x operators x values x operand placement is unbounded',
 ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/parser_expr.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/ir.c', 'src/cc/backend/optimize.c', 'src/cc/backend/regalloc.c', 'src/cc/arch/x64/ir_x64.c'],
 [('usual arithmetic conversions and constant folding', 'src/cc/frontend/fe_misc.c'), ('IR lowering of expressions', 'src/cc/backend/codegen_expr.c'), ('x64 instruction selection', 'src/cc/arch/x64/ir_x64.c'), ('linear-scan register allocation and spilling', 'src/cc/backend/regalloc.c')],
 ['stdout of compiled programs'])

prop('C02', 'Floating-point expressions are IEEE-754 exact (x86-64)',
 'For every float/double expression a compiled program computes the IEEE-754 result of the C operation at the type C prescribes: arithmetic, comparisons (including NaN, infinities and signed zeros), conversions to and from every integer type, float-double conversions, literals in decimal and hexadecimal, passing, returning and storing of floating values. Floating values survive calls and register spills unchanged.',
 ['programs', 'inputs'], 'every floating expression, operand value (incl. special values), integer/floating type pair and register pressure',
 'the tests use a handful of small exact values; special values, double rounding, unsigned conversions and spills around calls are not sampled',
 ['src/cc/frontend/lexer.c', 'src/cc/frontend/fe_misc.c', 'src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/backend/emit_code.c'],
 [('SSE instruction selection', 'src/cc/arch/x64/ir_x64.c'), ('floating literal emission', 'src/cc/backend/emit_code.c'), ('floating constant folding', 'src/cc/frontend/fe_misc.c')],
 ['stdout of compiled programs'])

prop('C03', 'Control flow runs the statements C prescribes, in order (x86-64)',
 'For every program, statements execute in exactly the order and number of times C prescribes: if/else, for/while/do, break, continue, switch (dense, sparse, negative, 64-bit, fall-through, nested, with or without default), goto and labels, computed early returns, short-circuit and conditional evaluation, comma sequencing, statement expressions and recursion. The trace of side effects of a compiled program equals the trace of the C abstract machine.',
 ['programs', 'inputs'], 'every structured or goto-based control-flow graph, loop nesting, switch label set and branch outcome',
 'tests contain a few dozen fixed loops and switches; jump threading, dead-code removal and switch lowering depend on the shape of the whole function',
 ['src/cc/frontend/parser.c', 'src/cc/backend/codegen.c', 'src/cc/backend/optimize.c', 'src/cc/backend/codegen_expr.c'],
 [('statement lowering and switch tables', 'src/cc/backend/codegen.c'), ('basic-block optimisation', 'src/cc/backend/optimize.c'), ('conditional branches', 'src/cc/backend/codegen_expr.c')],
 ['stdout of compiled programs'])

prop('C04', 'Objects hold exactly what was stored: structs, unions, arrays, pointers',
 'In a compiled program every object keeps the value last stored to it and no store changes any other object: struct and union assignment, passing, returning and member access, nested and flexible aggregates, arrays of any dimension, pointer arithmetic, comparison and difference, function pointers, compound literals, local initialisers (designated, partial, string), variable-length arrays, alloca and block-scoped objects. Elements omitted by an initialiser are zero.',
 ['programs', 'inputs'], 'every aggregate shape, size, alignment, nesting, index and initialiser form',
 'tests exercise some twenty fixed struct shapes; copy lowering, frame offsets and zero filling depend on size, offset and context',
 ['src/cc/frontend/initializer.c', 'src/cc/frontend/type.c', 'src/cc/frontend/parser_expr.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c', 'src/cc/backend/emit_code.c'],
 [('initialiser flattening', 'src/cc/frontend/initializer.c'), ('memory copy lowering', 'src/cc/backend/codegen.c'), ('frame layout', 'src/cc/backend/emit_code.c')],
 ['stdout of compiled programs'])

prop('C05', 'Calls follow the C and System V calling convention on both sides',
 'Every argument and return value crosses a call unchanged, for any number and mix of integer, floating, pointer and struct parameters, fixed or variadic, direct, indirect or recursive; values live across the call are preserved. Functions compiled by xcc and by the system compiler can call each other for integer, pointer and floating arguments and results, and xcc functions keep callee-saved registers and 16-byte stack alignment at every call.',
 ['programs', 'inputs'], 'every signature, argument count, variadic argument list, call nesting depth and register pressure',
 'tests call a dozen signatures, all compiled by xcc itself, where two matching mistakes cancel out',
 ['src/cc/backend/codegen_expr.c', 'src/cc/backend/emit_code.c', 'src/cc/arch/x64/emit_x64.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/builtin.c', 'include/stdarg.h'],
 [('argument placement', 'src/cc/backend/codegen_expr.c'), ('prologue, epilogue and register save', 'src/cc/arch/x64/emit_x64.c'), ('va_start/va_arg', 'src/cc/builtin.c')],
 ['stdout of mixed xcc/gcc programs', 'register and stack snapshots taken by assembly monitors around every call'])

prop('C06', 'Static data has the bytes its initialiser denotes',
 'Every object of static storage duration contains at program start exactly the bytes its initialiser denotes, at its required alignment: integers, floats, strings and wide strings, addresses of objects and functions with offsets, nested, designated, partial and overridden initialisers, anonymous members, unions, flexible and unsized arrays, tentative and static local definitions. sizeof, _Alignof and member offsets agree with the platform ABI for types without bit-fields or _Bool.',
 ['programs', 'inputs'], 'every type shape and initialiser form',
 'tests check a few dozen fixed initialisers by value; padding, trailing zeros, section choice and alignment depend on the shape',
 ['src/cc/frontend/initializer.c', 'src/cc/frontend/type.c', 'src/cc/backend/emit_code.c', 'src/as/parse_asm.c', 'src/as/ir_asm.c', 'src/as/emit_elf.c'],
 [('initialiser flattening', 'src/cc/frontend/initializer.c'), ('emission of data directives', 'src/cc/backend/emit_code.c'), ('struct layout', 'src/cc/frontend/type.c')],
 ['byte images of static objects dumped by compiled programs'])

prop('C07', 'Compile-time evaluation agrees with run-time evaluation',
 'Every constant expression has the same value wherever the compiler evaluates it - array sizes, enumerators, case labels, bit-field widths, static initialisers, #if conditions, sizeof/_Alignof/offsetof - as the same expression has when computed at run time from variables. Branches and operands whose value the compiler knows are treated exactly as at run time.',
 ['programs', 'inputs'], 'every constant expression over all integer and floating types and every context that needs a constant',
 'constant folding is sampled by a few dozen asserts, never against the run-time value of the same expression over the operator x type x value space',
 ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/initializer.c', 'src/cpp/pp_parser.c', 'src/cc/backend/optimize.c'],
 [('constant folding', 'src/cc/frontend/fe_misc.c'), ('#if evaluation', 'src/cpp/pp_parser.c'), ('IR constant propagation', 'src/cc/backend/optimize.c')],
 ['stdout of compiled programs', 'acceptance or rejection where it depends on a constant (array sizes, duplicate case labels)'])

prop('C08', 'Optimisation and back-end options never change behaviour',
 'For every program, the observable behaviour is the same at every optimisation setting (-O0, default, -O1, -O2) and with the SSA pipeline switched on, and equals that of the C abstract machine. Compilation succeeds at all of them or at none.',
 ['programs', 'configurations'], 'every program and option combination, in particular loops with cross-assigned variables, many live values, phi cycles and irreducible control flow',
 'the test suite compiles every program in one configuration only; SSA conversion is never executed by it',
 ['src/cc/backend/ssa.c', 'src/cc/backend/optimize.c', 'src/cc/backend/regalloc.c', 'src/cc/cc1.c'],
 [('SSA conversion and phi resolution', 'src/cc/backend/ssa.c'), ('peephole and copy propagation', 'src/cc/backend/optimize.c'), ('register allocation', 'src/cc/backend/regalloc.c')],
 ['stdout of compiled programs under each configuration'])

prop('C09', 'Preprocessing yields the token sequence the C standard defines',
 'For every source the preprocessor outputs the token sequence C prescribes: macro definition, redefinition and removal, argument collection, prescan and rescan, stringising, pasting, variadics, self-reference, conditional inclusion with any #if expression, includes and their search order, line splicing and comments, #line, #error and predefined macros. Text in skipped groups never has an effect, and what is not a macro is copied unchanged.',
 ['inputs', 'programs'], 'every macro set, nesting, argument shape, directive nesting and white-space arrangement',
 'cpp tests cover about a hundred fixed inputs; interactions of expansion, pasting, nesting and layout are combinatorial',
 ['src/cpp/preprocessor.c', 'src/cpp/macro.c', 'src/cpp/pp_parser.c', 'src/cpp/cpp.c'],
 [('macro expansion', 'src/cpp/macro.c'), ('directives and conditionals', 'src/cpp/preprocessor.c'), ('#if expression evaluation', 'src/cpp/pp_parser.c')],
 ['token sequence of xcc -E compared with a reference preprocessor'])

prop('C10', 'The x86-64 assembler encodes every accepted instruction correctly',
 'Every instruction and data directive the assembler accepts is encoded to machine code with exactly the meaning of the text: same operation, operands, widths, displacements, immediates and branch targets as the reference assembler gives it. Sizes of relaxed branches, alignment padding, symbol differences and local labels are consistent for every distance.',
 ['programs', 'inputs'], 'every supported mnemonic x operand form x register x immediate/displacement value, and every branch distance',
 'assembler tests check a fixed list of encodings; registers needing REX, rsp/r12/rbp/r13 bases, boundary displacements and branch distances around 127 bytes multiply out',
 ['src/as/arch/x64/asm_code.c', 'src/as/arch/x64/parse_x64.c', 'src/as/arch/x64/ir_asm_x64.c', 'src/as/parse_asm.c', 'src/as/emit_elf.c'],
 [('operand matching and encoding', 'src/as/arch/x64/asm_code.c'), ('branch relaxation', 'src/as/arch/x64/ir_asm_x64.c'), ('relocation output', 'src/as/emit_elf.c')],
 ['sections, symbols and relocations of object files'])

prop('C11', 'Linking binds every reference to the right definition',
 'In a linked executable every reference - code, data, across objects, into archives, in any link order the rules allow - denotes the one definition the rules select: strong before weak, definition before tentative, static symbols kept per object, archive members pulled in exactly when needed, start/stop of constructors and destructors in order. Every section keeps its alignment, contents and zero-fill; undefined or duplicate symbols make the link fail with a diagnostic and without a usable output.',
 ['programs', 'configurations'], 'every set of objects and archives, symbol graph, visibility, alignment and link order',
 'only a few two-file links are tested; symbol resolution is a function of the whole object graph',
 ['src/ld/ld.c', 'src/ld/elfobj.c', 'src/util/archive.c', 'src/util/elfutil.c', 'src/as/emit_elf.c'],
 [('symbol resolution and relocation', 'src/ld/ld.c'), ('object reading', 'src/ld/elfobj.c'), ('archive lookup', 'src/util/archive.c')],
 ['stdout of linked programs', 'exit status and messages of the linker', 'addresses printed by linked programs'])

prop('C12', 'The tools never corrupt memory or crash, whatever the input',
 'For any input - valid, malformed, truncated or random bytes - the preprocessor, compiler, assembler, linker and the wasm compiler end normally: they either succeed or print a diagnostic and exit non-zero. They never read or write outside their objects, use freed memory, divide by zero, dereference null, abort on an internal assertion, or hang.',
 ['inputs'], 'every byte string given as C source, assembly source, object file or archive',
 'error tests feed some tens of small invalid programs to an uninstrumented build',
 ['src/cc/frontend', 'src/cpp', 'src/as', 'src/ld', 'src/util', 'src/wcc'],
 [('parse error recovery', 'src/cc/frontend/lexer.c'), ('AddressSanitizer/UBSan build of all tools', '/verif/vlib/core.py')],
 ['sanitizer reports, signals and exit status of instrumented tools'])

prop('C13', 'Invalid programs are rejected with a located diagnostic, valid ones accepted',
 'A translation unit that breaks a constraint the compiler checks (undeclared or redeclared names, type mismatches, wrong argument counts, assignment to constants or non-lvalues, misplaced statements, bad labels, invalid initialisers, impossible array sizes and bit-field widths, syntax errors, #error) is rejected: non-zero exit, a diagnostic naming the file and line of the offence, and no output file that passes for a result. Correct programs compile without errors, wherever the construct occurs and through includes and macros.',
 ['programs'], 'every constraint violation the compiler knows x every syntactic context and position, and every valid program',
 'the error tests check that some tens of snippets fail, not where the diagnostic points, nor that neighbouring valid forms still pass',
 ['src/cc/frontend/parser.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/cc_misc.c', 'src/cc/frontend/lexer.c', 'src/xcc/main.c'],
 [('type checks', 'src/cc/frontend/fe_misc.c'), ('error reporting', 'src/cc/frontend/lexer.c')],
 ['exit status, stderr and output files of xcc -c'])

prop('C14', 'The xcc driver does what its options say and reports every failure',
 'For every combination of inputs and options (-c, -S, -E, -o, -D, -I, -x, -l, -L, -nostdlib, several sources, objects, archives, standard input) the driver runs the right stages in order on every input and puts each result where the options say. Failure of any stage makes the driver exit non-zero and not report success; temporary files are removed in every case.',
 ['configurations', 'fault_sequences'], 'every option/input combination and every stage failing at any point',
 'driver behaviour is covered by a few smoke tests; stage failures are not injected',
 ['src/xcc/main.c', 'src/util/util.c', 'src/cc/cc1.c', 'src/cpp/cpp.c', 'src/as/as.c', 'src/ld/ld.c'],
 [('process pipeline and waiting', 'src/xcc/main.c'), ('option parsing', 'src/util/util.c'), ('temporary file list', 'src/xcc/main.c')],
 ['exit status, created files, temp directory listing'])

prop('C15', 'Output is a deterministic function of the input; xcc reproduces itself',
 'The same input and options always give byte-identical output, regardless of environment, file location, time, memory layout or repetition. A compiler built with xcc behaves exactly like one built with the host compiler: for every input it produces the same assembly, objects, executables, preprocessed text, diagnostics and exit status.',
 ['programs', 'configurations'], 'every input and every environment; every program fed to both generations',
 'the self-hosting test compares generations on the compiler sources only',
 ['Makefile', 'src/cc', 'src/cpp', 'src/as', 'src/ld', 'src/util/table.c'],
 [('hash tables iterated in insertion order', 'src/util/table.c'), ('self hosting', 'Makefile')],
 ['output bytes of both generations'])

prop('C16', 'printf formats every value as C prescribes',
 'The printf family produces, for every supported conversion, flag, width, precision and length modifier and every argument value, exactly the characters C prescribes and returns their count; snprintf never writes beyond its size, always terminates, and returns the length the full output would have.',
 ['inputs'], 'every format string over the supported conversions and every argument value',
 'printf tests check about a hundred fixed format/value pairs',
 ['libsrc/stdio/vfprintf.c', 'libsrc/stdio/snprintf.c', 'libsrc/stdio/vsnprintf.c', 'libsrc/stdio/sprintf.c', 'libsrc/stdio/fprintf.c', 'libsrc/stdio/printf.c'],
 [('format interpreter', 'libsrc/stdio/vfprintf.c')], ['bytes produced and return values'])

prop('C17', 'The heap gives out disjoint, aligned, stable blocks',
 'For every sequence of malloc, calloc, realloc and free, live blocks are suitably aligned and never overlap each other, their contents change only through the program\'s own stores, calloc memory is zero, realloc preserves the common prefix, freed memory is reusable, and impossible requests return NULL with the heap still intact.',
 ['histories', 'inputs'], 'every operation sequence and size',
 'unit tests allocate a few blocks; free-list splitting, merging and reuse depend on the whole history',
 ['libsrc/stdlib/malloc.c', 'libsrc/stdlib/realloc.c', 'libsrc/stdlib/calloc.c', 'libsrc/unistd/brk.c'],
 [('free list', 'libsrc/stdlib/malloc.c'), ('program break', 'libsrc/unistd/brk.c')], ['shadow map of live blocks kept by the workload program'])

prop('C18', 'String, memory and character functions meet their C contract',
 'Every function of string.h, strings.h and ctype.h returns and stores exactly what C/POSIX prescribe for every argument, touches no byte outside the ranges it is given, and handles overlap (memmove), embedded and missing terminators, bytes above 127, zero lengths and every alignment.',
 ['inputs'], 'every argument: contents, lengths, alignments, overlaps, byte values',
 'tests check a few literal strings per function, some functions not at all',
 ['libsrc/string', 'libsrc/misc', 'include/string.h', 'include/strings.h', 'include/ctype.h'],
 [('string and memory functions', 'libsrc/string'), ('character classes', 'libsrc/misc')], ['results and guarded buffers'])

prop('C19', 'Stdio streams behave as the file they stand for',
 'For every sequence of stream operations (open modes, reads, writes, character and line input, push-back, seek, tell, flush, close, memory streams, temporary files, mixed with other streams), results, positions, end-of-file state and the final contents of files and buffers are those of the C stream model; nothing written is lost, duplicated or reordered, including at normal exit.',
 ['histories', 'fault_sequences'], 'every sequence of operations on any number of streams, buffer boundaries, short reads/writes and errors',
 'file tests run a few fixed sequences well inside one buffer',
 ['libsrc/stdio'], [('buffering', 'libsrc/stdio/_file.c'), ('open stream list flushed at exit', 'libsrc/stdio/_fileman.c'), ('memory streams', 'libsrc/stdio/fmemopen.c')],
 ['operation log of the workload program and final file contents'])

prop('C20', 'stdlib conversions, sorting, searching and random numbers are right',
 'strtol/strtoul/strtoll/strtoull/atoi and relatives, strtod/atof, abs, qsort, bsearch, rand and the rand48 family, getenv and mkstemp(s) return for every argument what C/POSIX prescribe: value, end pointer and range handling; sorted permutations of the input; a matching element whenever one exists.',
 ['inputs'], 'every input string, base, array content, element size and key',
 'tests check a few fixed values',
 ['libsrc/stdlib', 'include/stdlib.h'], [('integer parsing', 'libsrc/stdlib/_strtoull_sub.c'), ('floating parsing', 'libsrc/stdlib/strtod.c'), ('sorting', 'libsrc/stdlib/qsort.c')],
 ['results of the library functions'])

prop('C21', 'Math functions are accurate on their whole domain',
 'Every function of math.h returns, for every argument, the exact result where C or IEEE define one (rounding, decomposition, classification, sign, remainder, special values) and otherwise a result within a small relative error of the true value, with the right sign, range, symmetry and special-case behaviour. (The error of pow may grow with the exponent, and sine, cosine and tangent of arguments above a million need only be bounded and continuous up to argument rounding.)',
 ['inputs'], 'every double argument, incl. huge, tiny, negative, NaN and infinities',
 'tests check a few points per function with a tolerance',
 ['libsrc/math', 'include/math.h'], [('argument reduction and series', 'libsrc/math'), ('bit-level decomposition', 'libsrc/math/_ieee.h')], ['results of the library functions'])

prop('C22', 'wcc compiles C to wasm with the same meaning',
 'For every program without undefined behaviour, the WebAssembly module wcc produces is valid and, run under WASI, prints and returns exactly what the C program prescribes: integer and floating expressions, control flow including switch, loops and goto-free nesting, aggregates, pointers, function pointers, variadic calls, static data, and 32-bit long and pointers.',
 ['programs', 'inputs'], 'every program over the supported language and every input',
 'the test suite never executes a wasm module in this environment',
 ['src/wcc/gen_wasm.c', 'src/wcc/traverse.c', 'src/wcc/emit_wasm.c', 'src/wcc/wcc.c', 'src/wcc/wcc_util.c'],
 [('wasm code generation', 'src/wcc/gen_wasm.c'), ('lowering pass', 'src/wcc/traverse.c'), ('module emission', 'src/wcc/emit_wasm.c')],
 ['stdout of modules run by node:wasi', 'module validation'])

prop('C23', 'wasm objects, archives and the wasm runtime link and run correctly',
 'Separately compiled wasm objects and archives link into a module in which every function, data and table reference denotes the right definition, only what is exported is exported, and undefined or duplicate symbols are reported. The wasm runtime gives correct startup arguments, exit status, file I/O, heap, printf and setjmp/longjmp.',
 ['programs', 'configurations'], 'every set of translation units, symbol graph, link order and runtime call history',
 'the test suite never links or executes wasm in this environment',
 ['src/wcc/wasm_linker.c', 'src/wcc/traverse_setjmp.c', 'src/wcc/emit_wasm.c', 'libsrc/_wasm', 'libsrc/Makefile'],
 [('wasm linker', 'src/wcc/wasm_linker.c'), ('setjmp lowering', 'src/wcc/traverse_setjmp.c'), ('WASI runtime', 'libsrc/_wasm')],
 ['stdout and exit status of modules', 'export lists of modules'])

prop('C24', 'The RISC-V compiler produces programs with the meaning of the source',
 'For every program without undefined behaviour, the riscv64 executable built by xcc (compiler, assembler, linker and library for that target) computes and prints exactly what C prescribes: integer and floating expressions, control flow, aggregates, calls with any mix of arguments, variadic functions and static data, for any frame size, branch distance and constant.',
 ['programs', 'inputs'], 'every program, operand value, frame size, branch distance and immediate',
 'the test suite never compiles for riscv64 in this environment',
 ['src/cc/arch/riscv64/ir_riscv64.c', 'src/cc/arch/riscv64/emit_riscv64.c', 'src/as/arch/riscv64', 'src/ld/ld.c'],
 [('instruction selection', 'src/cc/arch/riscv64/ir_riscv64.c'), ('prologue and frame', 'src/cc/arch/riscv64/emit_riscv64.c'), ('RISC-V relocations', 'src/ld/ld.c')],
 ['stdout of programs under an instruction-set emulator that checks every instruction'])

prop('C25', 'The AArch64 compiler produces programs with the meaning of the source',
 'For every program without undefined behaviour, the aarch64 executable built by xcc (compiler, assembler, linker and library for that target) computes and prints exactly what C prescribes: integer and floating expressions, control flow, aggregates, calls with any mix of arguments, variadic functions and static data, for any frame size, branch distance and constant.',
 ['programs', 'inputs'], 'every program, operand value, frame size, branch distance and immediate',
 'the test suite never compiles for aarch64 in this environment',
 ['src/cc/arch/aarch64/ir_aarch64.c', 'src/cc/arch/aarch64/emit_aarch64.c', 'src/as/arch/aarch64', 'src/ld/ld.c'],
 [('instruction selection', 'src/cc/arch/aarch64/ir_aarch64.c'), ('prologue and frame', 'src/cc/arch/aarch64/emit_aarch64.c'), ('AArch64 relocations', 'src/ld/ld.c')],
 ['stdout of programs under an instruction-set emulator that checks every instruction'])

prop('C26', 'Program start, exit, non-local jumps and system calls behave as specified',
 'Every compiled program receives its exact argument vector and environment; runs constructors before main and destructors and exit handlers (in reverse order, with their arguments) exactly once at exit; delivers its exact exit status; setjmp/longjmp return the given value and restore the calling context from any depth; and the system-call wrappers pass all arguments, return the kernel\'s result and set errno on failure.',
 ['histories', 'inputs', 'fault_sequences'], 'every argument vector, handler registration history, jump depth and failing system call',
 'tests check one or two cases of each',
 ['libsrc/crt0/_start.c', 'libsrc/stdlib/exit.c', 'libsrc/stdlib/atexit.c', 'libsrc/stdlib/__cxa_atexit.c', 'libsrc/misc/setjmp.c', 'libsrc/misc/longjmp.c', 'libsrc/unistd'],
 [('startup code', 'libsrc/crt0/_start.c'), ('exit handlers', 'libsrc/stdlib/exit.c'), ('context save/restore', 'libsrc/misc/setjmp.c'), ('system-call stubs', 'libsrc/unistd')],
 ['log, exit status and wait status of compiled programs'])

prop('C27', 'Names denote the declaration C scoping, linkage and typing select',
 'Every identifier denotes the declaration visible under C rules: block scopes and shadowing, separate name spaces for tags, labels, members and ordinary identifiers, typedef names, enumerators, extern declarations, static locals that keep their value, prototypes and old declarations, tentative definitions, inline functions. Types are what C says: _Generic selects the matching branch, typeof and sizeof see the right type, through any declarator nesting.',
 ['programs'], 'every nesting of scopes and declarations, and every declarator and type combination',
 'tests contain a few shadowing cases; resolution depends on arbitrary nesting and order',
 ['src/cc/frontend/var.c', 'src/cc/frontend/parser_type.c', 'src/cc/frontend/parser.c', 'src/cc/frontend/type.c', 'src/cc/frontend/parser_expr.c'],
 [('scope tables', 'src/cc/frontend/var.c'), ('declarator parsing', 'src/cc/frontend/parser_type.c'), ('type comparison', 'src/cc/frontend/type.c')],
 ['stdout of compiled programs'])

prop('C28', 'Source text is read faithfully: literals, escapes, identifiers, comments',
 'Every token of the source has exactly the value its spelling denotes: decimal, octal, hexadecimal and suffixed integers with the right type, floating literals, character constants, narrow, wide and concatenated strings with all escapes and UTF-8 text, long identifiers, comments, line continuations and any white space. The text that reaches the program does not depend on layout or on the length of lines, names or literals.',
 ['inputs', 'programs'], 'every spelling of every literal and every layout of the source',
 'tests contain some tens of literals; boundary values, escapes followed by digits, long tokens and layouts multiply out',
 ['src/cc/frontend/lexer.c', 'src/cpp/preprocessor.c', 'src/cpp/pp_parser.c', 'src/util/util.c', 'src/cc/backend/emit_code.c', 'src/as/parse_asm.c'],
 [('lexer', 'src/cc/frontend/lexer.c'), ('string output and unescaping in the assembler', 'src/as/parse_asm.c')],
 ['stdout of compiled programs'])

prop('C29', 'The RISC-V and AArch64 assemblers encode instructions correctly',
 'Every instruction the riscv64 and aarch64 assemblers accept is encoded with exactly the meaning the reference assembler gives the same text - operation, registers, immediates, addressing mode, branch target - including compressed forms, constants at the edges of immediate ranges and branches over any distance.',
 ['programs', 'inputs'], 'every supported mnemonic x operand form x register x immediate, and every branch distance',
 'the test suite never builds these assemblers in this environment',
 ['src/as/arch/riscv64', 'src/as/arch/aarch64', 'src/as/parse_asm.c', 'src/as/emit_elf.c'],
 [('RISC-V encoding and compression', 'src/as/arch/riscv64/asm_code.c'), ('AArch64 encoding', 'src/as/arch/aarch64/asm_code.c'), ('branch range handling', 'src/as/arch/riscv64/ir_asm_riscv64.c')],
 ['disassembly of object files and reference encodings'])

prop('C30', 'Volatile objects are accessed exactly as the program says',
 'Every read and every write of a volatile-qualified object that the program evaluates in the abstract machine is performed exactly once, with the width of the object, in program order, with the written value, and the value used is the one just read - for variables, members, array elements, pointers of every type, in every expression context and statement, with unused results, in conditions and loops, and at every optimisation setting; qualifiers reach the object through every way of naming it.',
 ['programs', 'histories'], 'every expression over volatile objects, and every history of values a device shows',
 'tests never observe an access, only final values: a read that is dropped, duplicated, cached or reordered leaves ordinary memory with the same contents',
 ['src/cc/backend/optimize.c', 'src/cc/backend/codegen_expr.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/parser_expr.c', 'src/cc/backend/ir.c'],
 [('removal of unused results, copy propagation', 'src/cc/backend/optimize.c'), ('loads and stores', 'src/cc/backend/codegen_expr.c'), ('conversions and member addresses', 'src/cc/frontend/fe_misc.c')],
 ['log of trapped memory accesses'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
