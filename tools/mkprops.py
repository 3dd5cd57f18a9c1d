#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Integer expressions compute the value C defines on LP64',
 'For every integer expression whose evaluation C defines, the compiled program computes exactly the value given by the operands after integer promotion, usual arithmetic conversion, the operator (unsigned results modulo 2^n) and conversion to the destination type, for every combination of the eight integer types, enums and pointers, and whether each operand is a constant, variable, parameter, array element, member, bit-field or sub-expression. Precedence and associativity group an unparenthesised expression as the C grammar does. The result never depends on how the compiler chooses to compute it.',
 ['programs', 'inputs'], 'all defined expressions over integer, enum and pointer operands, all operand values, all operand storage kinds',
 'the torture tests sample a fixed list of operand pairs per type; instruction selection has hundreds of type- and operand-specific rules (immediates, power-of-two strength reduction, byte registers, div/shift register constraints) and their combinations are unbounded',
 ['parser.c', 'types.c', 'instrrules.c', 'instrsel.c', 'ir.c', 'codegen.c', 'constexpr.c'],
 [('usual arithmetic conversions', 'types.c operation_type'), ('expression parser and IR emission', 'parser.c parse_expression'), ('tree-tiling rules', 'instrrules.c'), ('arithmetic optimisation', 'ir.c optimize_arithmetic_operations')],
 [('value', 'typed IR value: constant, virtual register, stack slot, global or lvalue', 'wcc.h Value')], ['stdout of a compiled program'])
prop('C02', 'Constant expressions equal their run-time evaluation',
 'Every integer constant expression has, in every place C requires one (array size, enumerator, case label, bit-field width, static initialiser, #if), the same value and type as the same expression evaluated at run time with the same operands; in #if all arithmetic is done in the 64-bit types. Subexpressions the language says are not evaluated never make the whole invalid.',
 ['programs', 'inputs'], 'all constant expressions over all operators, operand types and values, in each constant context',
 'the tests fold a couple of dozen literals; folding code is separate per operator and signedness and mostly exercised with small positive ints',
 ['constexpr.c', 'parser.c', 'cpp.c', 'types.c'],
 [('constant folding', 'constexpr.c evaluate_const_*'), ('#if expression evaluation', 'cpp.c, parse_constant_integer_expression')], (), ['stdout of a compiled program', 'wcc -E output'])
prop('C03', 'Control flow executes exactly the statements C prescribes, in order',
 'For every program built from if, while, do, for, switch, break, continue, goto, labels, return and blocks, nested in any way, the sequence of observable effects is exactly the one of the C abstract machine. In particular switch transfers to the matching case wherever its label is nested, falls through, and takes default only if nothing matches.',
 ['programs', 'inputs'], 'all nestings of statements and all branch outcomes',
 'tests use a few fixed shapes of each statement; jumps, dead blocks and nested labels interact with flow-graph construction, SSA and block ordering only in unusual nestings',
 ['parser.c', 'ssa.c', 'codegen.c', 'ir.c'],
 [('statement parsing and jump emission', 'parser.c parse_statement'), ('flow graph and dominance', 'ssa.c'), ('jump threading/removal', 'ir.c, ssa.c')],
 [('loop', 'current loop/switch jump targets', 'parser.c')], ['stdout of a compiled program'])
prop('C04', 'Every side effect happens exactly when and as often as C says',
 'In an expression each operand the language evaluates is evaluated exactly once and each operand it does not evaluate (short-circuited && and ||, the untaken arm of ?:, the operand of sizeof) not at all, with the effects of the left operand of &&, ||, ?: and comma complete before the right one begins. Compound assignments and ++/-- read and write their lvalue once and yield the right value.',
 ['programs', 'inputs'], 'all expressions mixing side-effecting operands with all operators and lvalue kinds',
 'tests check values of single operators, hardly ever the number and order of side effects in nested combinations or on all lvalue kinds (bit-fields, dereferenced side-effecting pointers, members)',
 ['parser.c', 'ir.c', 'instrsel.c', 'ssa.c'],
 [('short-circuit lowering', 'parser.c and_or_expr'), ('ternary lowering', 'parser.c'), ('compound assignment', 'parser.c finish_comp_assign')], (), ['stdout of a compiled program'])
prop('C05', 'A store changes exactly the designated object',
 'Every assignment - to variables, array elements, members, bit-fields, through pointers computed in any way, or of whole structs and unions of any size - changes exactly the bytes (for bit-fields: bits) of the designated object to the value converted to its type, and a later load through any valid lvalue sees it. No other object, padding-independent neighbour or bit is changed.',
 ['programs', 'inputs', 'histories'], 'all sequences of loads and stores over all object types, sizes, storage classes and access paths',
 'tests check a stored value but rarely that neighbours stay intact, and only for a few sizes and alignments of aggregates and access paths',
 ['parser.c', 'ir.c', 'codegen.c', 'instrsel.c', 'functions.c', 'types.c'],
 [('struct copy lowering', 'ir.c add_memory_copy'), ('bit-field load/save', 'ir.c, instrrules.c IR_LOAD_BIT_FIELD/IR_SAVE_BIT_FIELD'), ('pointer arithmetic', 'parser.c')], (), ['stdout of a compiled program (byte dumps of objects)'])
prop('C06', 'Type sizes, alignments and member offsets follow the System V ABI',
 'sizeof, alignment and the offset of each member (and position of each bit-field) of every scalar, pointer, array, struct and union, including nested, anonymous, flexible-array and packed ones, are those of the x86-64 System V ABI. Objects can therefore be exchanged byte for byte with code compiled by any conforming compiler.',
 ['programs'], 'all struct/union declarations',
 'tests list a few dozen structs; layout is a function of the whole sequence of members, with bit-fields depending on all predecessors',
 ['types.c', 'parser.c'], [('layout computation', 'types.c complete_struct_or_union')], (), ['stdout of a compiled program: sizeof, member addresses, byte dumps'])
prop('C07', 'Initialisation sets every element to its initialiser or to zero',
 'For every object of static or automatic storage duration, each (nested) element, member or bit-field has right after its declaration the value of the initialiser the C rules associate with it (brace elision, string literals, partial lists, computed sizes, addresses plus offset) or zero if the initialiser list does not reach it. Static initialisers and run-time initialisers with the same text give the same object.',
 ['programs'], 'all aggregate types and initialiser shapes',
 'the initialiser walker is a recursive machine over type and brace structure; tests contain a handful of shapes',
 ['parser.c', 'codegen.c', 'types.c'], [('initialiser walking', 'parser.c parse_initializer, types.c type iterator'), ('static data emission', 'codegen.c')], (), ['stdout of a compiled program (byte dumps)'])
prop('C08', 'Calls pass and return values as the System V ABI prescribes',
 'Every call, direct or through a function pointer, delivers to the callee exactly the argument values (converted to the parameter types) and to the caller exactly the returned value, for all numbers, orders and types of parameters including structs and unions by value, nested and recursive calls; caller and callee may each be compiled by wcc or by another ABI-conforming compiler. The callee preserves callee-saved registers and the stack pointer, and the stack is 16-byte aligned at every call.',
 ['programs', 'configurations'], 'all function signatures, argument expressions and compiler pairings',
 'tests contain some tens of fixed signatures; register/stack assignment depends on the whole parameter list',
 ['functions.c', 'codegen.c', 'instrsel.c', 'regalloc.c'],
 [('parameter classification', 'functions.c add_function_param_to_allocation'), ('argument moves', 'functions.c add_function_call_arg_moves'), ('prologue/epilogue and call alignment', 'codegen.c')], (), ['stdout of programs linked from wcc and gcc objects'])
prop('C09', 'Variadic functions see exactly the promoted arguments passed',
 'A variadic function reading its arguments with va_arg in the passed order and with the promoted types gets exactly the passed values, for any number and mix of fixed and variable integer, pointer, floating and struct arguments, also when registers are exhausted, when the list is walked repeatedly, or handed to another function, and whichever ABI-conforming compiler compiled the other side.',
 ['programs', 'configurations'], 'all variadic signatures and argument lists',
 'only a handful of argument lists are tested; the register save area/overflow area switch is a state machine over the whole argument list',
 ['functions.c', 'parser.c', 'codegen.c', 'include/stdarg.h'], [('va_start/va_arg lowering', 'functions.c process_function_varargs')], (), ['stdout of programs linked from wcc and gcc objects'])
prop('C10', 'Values survive register allocation, spilling and calls',
 'The value of every variable and temporary reaches each of its uses unchanged, whatever the number of simultaneously live values, their types, the calls, divisions, shifts and loops in between, and the branch structure over which they are live. Selecting another register-allocation or coalescing strategy by the documented options does not change what the program does.',
 ['programs', 'inputs', 'configurations'], 'all live-range shapes and all settings of the allocation options',
 'interference, coalescing and spilling only matter under register pressure with particular live-range shapes, which hand-written tests cover in a few spots',
 ['regalloc.c', 'ssa.c', 'graph.c', 'codegen.c', 'instrsel.c', 'instrutil.c'],
 [('interference graph', 'ssa.c make_interference_graph'), ('coalescing', 'ssa.c coalesce_live_ranges'), ('colouring', 'regalloc.c allocate_registers'), ('spilling', 'codegen.c/instrsel.c add_spill_code')], (), ['stdout of a compiled program'])
prop('C11', 'Macro expansion follows the C preprocessing algorithm',
 'For every set of object-like and function-like macro definitions and every text, the expanded token sequence is the one C defines: arguments fully expanded before substitution except next to # and ##, rescanning with the rest of the source, no re-expansion of a macro within itself, stringising and pasting as specified. The printed output re-tokenises to exactly that sequence.',
 ['programs', 'inputs'], 'all macro definition sets and source texts',
 'tests contain the standard examples and a few regressions; hide sets, nested argument expansion and paste/stringise operands combine without bound',
 ['cpp.c'], [('expansion with hide sets', 'cpp.c expand'), ('substitution', 'cpp.c subst'), ('output spacing', 'cpp.c need_token_space/append_tokens_to_string')], (), ['wcc -E output'])
prop('C12', 'Directives select exactly the prescribed text and locations',
 'For every sequence of #if, #ifdef, #ifndef, #elif, #else, #endif, #define, #undef, #include and #line directives, nested in any way and spread over included files, exactly the groups C selects are processed, each name having at each point the definition given by the history of #define and #undef. __LINE__, __FILE__ and diagnostics give the right location, and mis-nested or unterminated conditionals are rejected.',
 ['programs', 'histories'], 'all sequences of directives',
 'tests have fixed nestings of two or three levels; the conditional stack, the macro table history and include nesting are unbounded state',
 ['cpp.c', 'strmap.c'], [('conditional stack', 'cpp.c parse_directive'), ('include stack', 'cpp.c parse_include'), ('macro table', 'strmap.c')], (), ['wcc -E output', 'exit status and messages'])
prop('C13', 'Source text is tokenised as the C translation phases prescribe',
 'For every source text, trigraphs (when enabled), line splices, comments, white space, identifiers, keywords, numbers with their suffixes, character and string literals with all escapes, and operators by maximal munch are recognised as C prescribes, wherever they are split or adjacent. Each literal has the value and type C gives it and adjacent strings are concatenated.',
 ['inputs'], 'all character sequences forming valid programs',
 'tests have single examples per token kind; interactions (splice inside an operator or escape, comment openers in strings, suffix and base determining the type) are combinatorial',
 ['cpp.c', 'lexer.c'], [('phases 1-3', 'cpp.c transform_trigraphs, strip_backslash_newlines, cpp_next'), ('tokens', 'lexer.c next')], (), ['stdout of a compiled program', 'wcc -E output'])
prop('C14', 'Every identifier denotes the declaration C scoping selects',
 'Each use of an identifier denotes the innermost visible declaration of it in its name space (ordinary identifiers, tags, labels, members of each struct or union), for any nesting of file, function-parameter and block scopes, including the scope starting right after the declarator, shadowing by and of typedef names and enumerators, and tags declared, redeclared or completed in inner scopes. Entering and leaving blocks never changes an outer binding.',
 ['programs'], 'all arrangements of declarations and uses in nested scopes',
 'tests shadow one or two names; the scope machine state is an unbounded stack of symbol and tag tables',
 ['scopes.c', 'parser.c', 'types.c'], [('scope stack', 'scopes.c enter_scope/exit_scope/lookup_symbol/lookup_tag')], (), ['stdout of a compiled program', 'exit status'])
prop('C15', 'Linkage and storage duration are as declared',
 'For every combination of extern, static, tentative and initialised declarations of objects and functions in one or several translation units, names with external linkage denote one entity across units, names with internal linkage one per unit, static locals one object each, and names without linkage none of these. Static-duration objects keep their values between calls and start with their initialiser or zero; automatic ones are fresh per activation, including in recursion.',
 ['programs', 'histories'], 'all declaration combinations over several units, all call histories',
 'tests cover a few declarations in one unit; the outcome depends on the set of all declarations of a name',
 ['parser.c', 'codegen.c', 'scopes.c'], [('declaration merging', 'parser.c parse_external_declaration'), ('symbol emission', 'codegen.c')], (), ['symbol tables of the objects', 'stdout of linked programs'])
prop('C16', 'Invalid programs are rejected with a located message, valid ones accepted',
 'A program violating a syntax rule or one of the constraints the compiler diagnoses is rejected wherever the violation occurs, with exit status 1, a message naming the file and line, and no output file; a valid program in the supported language is never rejected. The compiler never ends by a signal.',
 ['programs'], 'all placements of each constraint violation in otherwise valid programs',
 'each diagnostic has one test in one context',
 ['error.c', 'parser.c', 'types.c', 'lexer.c', 'cpp.c', 'scopes.c'], [('diagnostics', 'error.c simple_error, error'), ('type checks', 'parser.c check_*')], (), ['exit status, stderr, files written'])
prop('C17', 'The driver runs the right phases and reports every failure',
 'For every combination of the mode options (-E, -S, -c, link), -o, input kinds and number of inputs, exactly the prescribed phases run and exactly the prescribed output files appear with the right contents. If any phase of any input fails - missing or unreadable input, invalid program, unwritable output, assembler or linker failing or being killed - the driver exits with a nonzero status, and with zero otherwise.',
 ['configurations', 'fault_sequences'], 'all option combinations and all points at which a phase fails',
 'tests invoke the driver in a few fixed ways and never make a phase fail',
 ['main.c', 'wcc.c'], [('option parsing and phase sequencing', 'main.c main'), ('sub-process execution', 'main.c')], (), ['exit status, files written, commands run'])
prop('C18', 'Code generation options do not change program behaviour',
 'A program behaves the same when compiled with -fPIC (also into a shared library), -g, -O<n>, or any combination of the documented -f and -W options that do not reject it, and when compiled twice. References to functions and data of the same and of other units, static and external, resolve to the same entities in each.',
 ['programs', 'configurations'], 'all programs and option sets',
 'one or two programs are tested with -fPIC; other options hardly at all',
 ['codegen.c', 'instrsel.c', 'instrrules.c', 'main.c'], [('PIC addressing', 'codegen.c, instrsel.c'), ('option flags', 'main.c')], (), ['stdout of a compiled program'])
prop('C19', 'Floating-point operations on exact and special values are right',
 'For float, double and long double operands whose exact result is representable, and for infinities, NaN and signed zeros, arithmetic, comparison, logical operators, conversions to and from every integer and floating type (truncating toward zero), increments, and conditions give the value IEEE 754 and C prescribe, in every operand storage kind, constant or not.',
 ['programs', 'inputs'], 'all operators, types, storage kinds and exactly representable or special operands',
 'tests use a few ordinary values; unordered comparisons, unsigned 64-bit conversions, and mixed-type operands have separate code paths',
 ['parser.c', 'instrrules.c', 'instrsel.c', 'codegen.c', 'constexpr.c', 'types.c'], [('floating rules', 'instrrules.c'), ('conversions', 'types.c, ir.c')], (), ['stdout of a compiled program'])
prop('C20', 'The compiler\'s containers behave as their abstract types',
 'For every sequence of operations, the string and long maps, string, long and integer sets, lists and stacks behave as mathematical maps, sets and sequences: a lookup returns the latest value put under that key and not deleted since, membership, size and iteration reflect exactly the current contents, and growth or deletion never loses, revives or duplicates an entry.',
 ['histories', 'inputs'], 'all operation sequences and key sets (including colliding keys and growth boundaries)',
 'unit tests run one or two fixed histories; hash collisions, tombstones and resizing meet only in long particular histories',
 ['strmap.c', 'longmap.c', 'strset.c', 'longset.c', 'set.c', 'list.c', 'stack.c', 'graph.c'], [('open addressing with tombstones', 'strmap.c, longmap.c'), ('growth', 'list.c, stack.c')], (), ['return values of the library calls'])
prop('C21', 'Declarations give every name the type the declarator grammar says',
 'For every declaration built from specifiers in any permitted order and nested declarators (pointers, arrays, functions, parentheses, typedef names, qualifiers, abstract declarators in casts and sizeof), the declared entity has exactly the type C assigns: its size, the size of what it points to, the element stride and the type of each access through it follow. Equivalent spellings of a type are the same type.',
 ['programs'], 'all declarator trees and specifier orders',
 'tests list some tens of declarations; nesting is unbounded',
 ['parser.c', 'types.c'], [('declarator parsing', 'parser.c parse_declarator/parse_direct_declarator'), ('specifiers', 'parser.c parse_declaration_specifiers')], (), ['stdout of a compiled program', 'exit status'])
prop('C22', 'Compiling the compiler with itself reaches a fixed point',
 'wcc compiled by wcc behaves exactly like wcc compiled by another compiler, in particular it compiles its own sources to identical code.',
 ['programs'], 'all inputs of the self-compiled compiler',
 'the repository compares one pair of stages on one input set',
 ['Makefile', 'wcc.c'], [('self compilation', 'Makefile')], (), ['assembly produced by the stages'])
prop('C23', 'No input makes the compiler crash, hang or corrupt memory',
 'For every sequence of bytes given as source, the compiler terminates with a result or a diagnostic, without memory errors.',
 ['inputs'], 'all byte sequences', 'tests contain valid programs and some erroneous ones only',
 ['lexer.c', 'cpp.c', 'parser.c', 'memory.c'], [('error paths', 'error.c')], (), ['exit status', 'sanitizer reports'])
prop('C24', 'Inexact floating-point results are correctly rounded',
 'Decimal floating constants and all arithmetic whose exact result is not representable are rounded to nearest even in the type of the expression.',
 ['inputs'], 'all floating operands', 'tests compare a few printed values',
 ['lexer.c', 'constexpr.c', 'codegen.c'], [('literals', 'lexer.c'), ('folding', 'constexpr.c')], (), ['stdout of a compiled program'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
