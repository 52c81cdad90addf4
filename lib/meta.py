"""The source of properties.jsonl and MANIFEST.json (bin/mkmeta writes them)."""
import json, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ abstract machine (CMachine), TLC trace validation of recorded executions of bic'


def P(id, title, statement, over, text, why, files, mech, obs, technique=TV, note='', hook=None, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                obs=obs, technique=technique, note=note, hook=hook, state=state)


EV = 'src/evaluate.c'
COMMON = ('Every recording of the generated programs was checked event by event against the specification by TLC. '
          'Assumes LP64 little-endian, gcc -E as the preprocessor, and that the observable behaviour is what the programs print, '
          'their exit status and diagnostics. Bounded by the generated programs (listed in the evidence).')

PROPS = [
 P('C01', 'Integer arithmetic is C arithmetic',
   'For all operands whose C result is defined, the unary, arithmetic, bitwise, shift, relational, equality and logical operators on the integer types (char to unsigned long) '
   'yield the value and the type that C gives them: integer promotions, usual arithmetic conversions, unsigned arithmetic modulo 2^n, truncating division, arithmetic right shift. '
   'This holds no matter whether an operand is a variable, a constant, a cast or another expression.',
   ['inputs', 'programs'], 'all operators, all pairs of integer types, all operand values with a defined result, all operand forms',
   'The tests evaluate a dozen expressions on small positive ints; mixed widths, signs, boundary values and non-variable operands are not sampled.',
   [EV, 'src/c.lang', 'src/genctypes.cpp', 'src/lex.m4'], [{'name': 'binary and unary operators', 'where': EV}],
   ['standard output of scripts'], note=COMMON),
 P('C02', 'Expressions have the structure and the order of evaluation of C',
   'An expression is evaluated with the precedence and associativity of C whatever parentheses it has; &&, ||, ?: and the comma operator evaluate exactly the operands C evaluates, from left to right; '
   'and every operand that is evaluated is evaluated exactly once, including the left operand of compound assignments, increments and subscripts.',
   ['programs', 'inputs'], 'all pairs of operators in both groupings, all trees of sequencing operators up to four leaves, random deeper trees, all side effect positions',
   'Tests contain single expressions of one operator; the structure of nested expressions and evaluation counts are never observed.',
   ['src/parser.m4', EV], [{'name': 'expression grammar', 'where': 'src/parser.m4'}, {'name': 'logical operators, conditional, compound assignment', 'where': EV}],
   ['standard output of scripts'], note=COMMON),
 P('C03', 'Stored, passed and cast values are converted to the destination type',
   'A value that initialises, is assigned to (also by compound assignment, ++ and --), is cast to, is passed to a parameter of, or is returned as a type is converted to exactly that type, '
   'whether the destination is a variable, an array element, a structure member or behind a pointer, and no neighbouring object changes. An assignment expression has the converted value; sizeof yields the size C gives.',
   ['inputs', 'programs'], 'all pairs of source and destination types, boundary values, all kinds of destination',
   'Tests store small ints in ints; truncation, sign extension and the value of an assignment are not observed.',
   [EV], [{'name': 'assignment, casts, return value and parameter conversion', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C04', 'Control flow follows the statements',
   'if, else, while, for, break, return, blocks and empty statements, in any nesting, with and without braces, execute exactly the statements that C executes and in that order, with conditions of any scalar type. '
   'The value a program returns from main, or from its top level, is its exit status.',
   ['programs', 'inputs'], 'all statement skeletons up to depth 2 and random deeper ones, under all small condition histories',
   'Each test contains one loop or one if; nesting, unbraced bodies, break and return from nested statements are not covered.',
   [EV, 'src/parser.m4', 'src/main.c'], [{'name': 'loops, if, break and return', 'where': EV}], ['standard output and exit status of scripts'], note=COMMON),
 P('C05', 'Names are scoped lexically and objects live as long as their block',
   'Every use of an identifier, tag, typedef or enumerator refers to the innermost declaration visible where the use is written: blocks, loops, parameters and functions hide outer names and never the other way round, '
   'and a function never sees its caller\'s names. Every entry of a block or function has fresh objects, which stay intact until the block is left.',
   ['programs', 'histories'], 'all placements of declarations on six scope levels, random scope nests, call graphs',
   'No test shadows a name, and none calls a function from a scope that declares the names the function uses.',
   [EV, 'src/hash_table.c'], [{'name': 'context stack and identifier resolution', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C06', 'Function calls pass arguments and results faithfully',
   'Calling a function, directly or through a pointer held in any object or returned by any call, to any depth of direct or mutual recursion, gives every parameter the value of its argument converted to its type, evaluates the arguments in the caller\'s scope, '
   'leaves the caller\'s objects untouched unless it is given their address, and yields the returned value converted to the return type. However and wherever a function is declared, again and where objects hide it, its name means that function.',
   ['programs', 'inputs', 'histories'], 'signatures of up to ten parameters of all types, recursive and mutually recursive call graphs, function pointers',
   'Tests call functions of at most three int parameters once; recursion, pointers to functions and conversions are not covered in combination.',
   [EV], [{'name': 'function call, parameter declaration, return value', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C07', 'Static storage is zero-initialised, initialised once and persists',
   'Objects of file scope and static objects of functions start as their initialiser or as zero in all their bytes (scalars, pointers, arrays, structures), whatever the interpreter did before, are initialised once, '
   'keep their value until the program ends, and are one object per declaration. String literals persist likewise.',
   ['histories', 'programs'], 'all object types; call histories before, between and after the declarations',
   'A single test reads one static counter; nothing checks zero initialisation or several statics of one name.',
   [EV, 'src/gc.c'], [{'name': 'allocation of live variables, static declarations', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C08', 'Pointers and arrays behave as in C',
   'Address-of, dereference, subscripting, pointer arithmetic (scaled by the size of the pointed-to type), comparison and difference of pointers designate exactly the objects C says, for all element types and levels of indirection; '
   'an array decays to a pointer to its first element, and a write through a pointer changes exactly that object.',
   ['inputs', 'programs'], 'all element types, all in-bounds offsets of small arrays, random walks, aliasing and list programs',
   'Tests dereference one pointer to an int; scaling, differences, aliasing and pointers into arrays of other types are not covered.',
   [EV], [{'name': 'live variables, pointer operators', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C09', 'Structures and unions have the layout and the members C gives them',
   'A structure or union of any member types has the size, alignment and member offsets of the platform ABI, however its type is written (tag, typedef, forward declaration, definition within a declaration, nested definitions, anonymous members, whose members are those of the compound), each time the block that declares it is entered; '
   'every member designator (. and ->, in any combination with subscripts and pointers) names that member of that object, and a write to it changes exactly the bytes of that member.',
   ['inputs', 'programs'], 'all pairs of member types, random compounds of up to seven members with nesting, arrays, unions, anonymous members and self references, all ways to declare them, in blocks and functions entered once, repeatedly and recursively',
   'Tests use structures of two or three ints; padding, overlap of union members, nesting and self-referential types are hardly sampled.',
   [EV], [{'name': 'eval_decl_compound, instantiation of compounds, member access', 'where': EV}], ['standard output of scripts'], note=COMMON),
 P('C10', 'Declarations declare what they say',
   'A declaration gives every one of its declarators exactly the type that C derives from the specifiers (in any legal order and combination, with qualifiers and storage classes anywhere among them) and from the declarator '
   '(pointers, arrays with constant expressions as sizes, parentheses, initialisers), through any chain of typedefs, and the name means that from there to the end of its block. Enumerators have the values C gives them, at any scope; tags, typedef names, members and identifiers do not interfere.',
   ['programs', 'inputs'], 'all orders of all legal specifier lists, random declarator lists, typedef chains, enumerations with all initialiser patterns',
   'Tests declare a handful of ints; the order of specifiers, lists of declarators, typedef chains and enumerator numbering are hardly sampled.',
   ['src/parser.m4', EV, 'src/genspecresolver.cpp', 'src/c.lang'], [{'name': 'declaration specifiers', 'where': 'src/genspecresolver.cpp'}, {'name': 'declarators and enumerations', 'where': EV}],
   ['standard output of scripts'], note=COMMON),
 P('C11', 'Tokens are read as C reads them',
   'Every spelling of a token denotes the value and type C gives it: decimal, octal and hexadecimal constants of any magnitude, character constants and string literals with escape sequences, floating constants, identifiers of any length; '
   'tokens are split by maximal munch, and neither white space, line breaks, comments nor the names chosen by the user change the meaning of a program.',
   ['inputs', 'programs'], 'all digit patterns around type limits, all simple and octal escapes, random re-spacing and renaming of whole programs, all pairs of adjacent punctuators',
   'Tests use short decimal literals and plain strings only.',
   ['src/lex.m4', 'src/parser-lex-funcs.m4', 'src/parser.m4'], [{'name': 'scanner rules', 'where': 'src/lex.m4'}],
   ['standard output of scripts'], technique='TLA+ specification of the tokens (Lex) in CMachine, TLC trace validation of recorded executions of bic', note=COMMON),
 P('C12', 'External functions and variables are used as C uses them',
   'A script sees the functions and variables of the libraries it declares exactly as a C program compiled against them would: arguments of every type and number are converted and passed in order (promoted where they are variadic), results come back with the type declared, '
   'pointers, structures and arrays are shared both ways, external variables of any type are the same object on both sides, functions of the script can be called by a library any number of times, also recursively, with arguments and results of every type, and what the C library does with them (sorting, searching, strings, exit handlers) happens.',
   ['programs', 'inputs'], 'random signatures over all scalar types and up to 12 parameters, variadic calls, callbacks of every signature, external objects of all types, random programs split between script and library at every function',
   'Tests call puts, printf and one qsort; argument and result types, variadic promotion, callbacks with other signatures and shared data are not covered.',
   ['src/function-call.c', EV, 'src/genffitypes.cpp'], [{'name': 'marshalling of arguments and results, closures', 'where': 'src/function-call.c'}, {'name': 'external symbols', 'where': EV}],
   ['standard output of scripts and of the libraries they call'], note=COMMON),
 P('C13', 'Garbage collection is invisible',
   'What a program does never depends on when garbage collections take place: at whatever allocation a collection happens (in the middle of an expression, a call, a callback from a library, while parsing), every object the program can still reach, '
   'and every type, value and piece of syntax the interpreter still needs, is unchanged afterwards. Collections end and leave the collector ready for the next one.',
   ['histories', 'programs', 'schedules'], 'programs of all other properties, long and deeply recursive programs, collections after every n-th allocation for n from 1 (every allocation) to the default',
   'A collection takes place after 2000 allocations, so that most tests never see one, and none sees one at a chosen place.',
   ['src/gc.c', 'src/gengc.cpp', EV, 'src/function-call.c'], [{'name': 'mark and sweep', 'where': 'src/gc.c'}, {'name': 'marking of the children of a node', 'where': 'src/gengc.cpp'}],
   ['standard output of scripts under different collection schedules'],
   technique='TLA+ design model of the collector (Gc) checked by TLC; TLC trace validation of executions under collection schedules against CMachine', note=COMMON,
   hook='BIC_VERIF_GC sets the number of allocations between collections'),
 P('C14', 'Memory that is no longer used is reclaimed',
   'The memory that bic needs is bounded by what the program keeps alive: however many rounds a loop runs, however many calls, blocks, expressions, strings, closures or declarations it has executed, the storage of what has become unreachable is reused.',
   ['histories', 'programs'], 'loops over every kind of statement, expression, declaration and call, for thousands of rounds',
   'Tests end after a few dozen evaluations and do not look at memory.',
   ['src/gc.c', 'src/gengc.cpp', EV, 'src/function-call.c'], [{'name': 'mark and sweep, collection trigger', 'where': 'src/gc.c'}],
   ['size of the process and of the heap during scripts'],
   technique='TLA+ design model of the collector (Gc) checked by TLC; TLC trace validation of recorded heap sizes against Memory',
   note='Workloads are loops whose live data is constant by construction; more rounds must not take more memory than the allowance (480 kB) and the live objects at collections must not grow. Each kind of garbage is bounded by its own workload.',
   hook='BIC_VERIF_GC_LOG records the number of objects at collections'),
 P('C15', 'A session of the REPL is a program',
   'Every line of a session is evaluated in the scope in which the REPL was started, with all effects of the earlier lines and of the startup file (evaluated once, before the first line), as the same statement of a program would be; '
   'the value of an expression is shown exactly (numbers, strings, pointers, structures and unions member by member); a line that is not a statement is rejected with a diagnostic and changes nothing, so that the session goes on; '
   'and a program that started the REPL continues where it was, with the changes that the session made.',
   ['histories', 'programs', 'inputs', 'schedules'], 'sessions of statements of all kinds in all orders, started alone or from any place of a program, with rejected lines anywhere, under all collection schedules',
   'The tests hardly use the REPL; a session is a history, and each line depends on all earlier ones.',
   ['src/repl.c', EV, 'src/c.lang', 'src/pretty-printer.c', 'src/parse.m4', 'src/lex.m4'], [{'name': 'read, evaluate, print loop', 'where': 'src/repl.c'}, {'name': 'showing of results', 'where': 'src/pretty-printer.c'}],
   ['standard output of sessions, diagnostics, exit status'], note=COMMON + ' Addresses shown are unified with the objects of the specification: the same object always has the same address and different ones do not overlap.'),
 P('C16', 'What is included is available, in the order in which it was included',
   'After #include <h> has been typed, every later line of the session is evaluated with the macros that all headers included so far define, as they stand after the last of them (conditions, #undef, redefinitions and nested includes followed in the order of the includes), '
   'and with the types, enumerators, functions and objects that they declare; names declared by the session keep their meaning, types and values unless a macro hides them. Headers are looked for in the directories of -I in the order given, before those of the system; '
   'the same holds for what a script includes (there "h" is looked for beside the script first). A header that cannot be found or preprocessed, or is not C, ends the program with an error status. Macros stand for expressions in typed lines. No temporary files are left behind.',
   ['histories', 'programs', 'inputs'], 'sets of headers with definitions, conditions, guards, nested includes and declarations in any directories, sessions that include them in any order with any lines between them',
   'The tests include a few system headers and look at one function of each; macros, orders of includes, and several directories are not observed.',
   ['src/preprocess.c', 'src/repl.c', EV, 'src/cscript.c', 'src/main.c', 'src/typename.c'], [{'name': 'the chain of includes', 'where': EV}, {'name': 'preprocessing of typed lines', 'where': 'src/repl.c'}, {'name': 'calls of the preprocessor', 'where': 'src/preprocess.c'}],
   ['standard output of sessions and scripts, diagnostics, exit status'], note=COMMON + ' The text of a macro is expanded by the specification as a parenthesised expression; objects that headers define are not modified before a later #include (bic evaluates all headers again: a documented limitation).'),
 P('C17', 'The inspector tells the truth',
   'For every name that is visible where the REPL was started, ?name reports exactly its type, its current value, its size and the place of its declaration (file and line): of hidden names, those of the innermost declaration. '
   'A name that is not visible is reported as not found. Asking changes nothing.',
   ['programs', 'histories'], 'names of objects, functions, constants and types of all type constructions, in all scopes, in the REPL, the startup file and scripts, at all moments of a session',
   'Three tests inspect one name each.',
   ['src/inspect.c', 'src/pretty-printer.c', EV, 'src/repl.c'], [{'name': 'inspector', 'where': 'src/inspect.c'}, {'name': 'type descriptions', 'where': 'src/inspect.c'}],
   ['standard output of sessions'], note=COMMON + ' The line of a function is that of its opening parenthesis; lines of declarations in the REPL are not compared.'),
 P('C18', 'An invocation does what its command line says',
   'Options before the script configure bic, in their order, whether written together or apart: -l loads a library under its own name or as libNAME.so (a library that is not there ends bic with status 1), -I adds a directory whose headers are found before those of later ones, -T and -D show the parsed script instead of running it, -v ends bic with status 0, anything else is a usage error with status 1. '
   'Every word after the script belongs to the script and reaches it unchanged: argc and argv of the top-level code or main(), with a null pointer after them; it can read them with getopt() from the start. Without a script the REPL starts. '
   'The exit status is that of the script: the value of main(), of a return at the top level or of exit(), 0 otherwise, 254 if it cannot be read or preprocessed, 1 if it is not a program or mixes top-level code with main(), in which case nothing of it is run.',
   ['inputs'], 'command lines of all lengths with options, values, words that look like options, empty words and words of any characters, over directories with libraries, headers and scripts of all kinds and names',
   'The tests pass one or two arguments to two scripts and never look at the exit status.',
   ['src/main.c', 'src/cscript.c', 'src/preprocess.c', EV], [{'name': 'parse_args', 'where': 'src/main.c'}, {'name': 'create_arguments, make_call_to_main', 'where': 'src/cscript.c'}, {'name': 'open_library', 'where': 'src/main.c'}],
   ['standard output and error, exit status of invocations'],
   technique='TLC trace validation of recorded invocations against a TLA+ machine that reads command lines (Cli); invariants of the machine checked on all of them',
   note='Not decided: the script named by an empty word or "-" (the standard input of gcc).'),
 P('C19', 'Errors are diagnosed where and when they are met',
   'A program with an error runs up to the place where the error is met, and no further: all effects before it take place, none after; an error that is never reached has no effect at all. '
   'The diagnostic names the file, line and column of the name or the operator that is in error - also in included files and after #line - and all functions that are active, innermost first, and the exit status is 1. '
   'No program with an error of these kinds crashes bic or is silently given a meaning.',
   ['programs', 'inputs'], 'undeclared names, unknown members, members, elements, contents and calls of what has none, wrong numbers of arguments, assignments to values, operands and initialisers without a value or of a type that cannot be converted, contradictory or repeated specifiers, repeated declarations of objects, members, tags and enumerators, incomplete types, sizes and enumerators that are no integers, unresolved symbols; in every position of a statement, in every function, block, loop, at every call depth, in any file and layout',
   'The tests contain no erroneous program: what the evaluator does with one depends on the place, the path that reaches it and the files it is spread over.',
   [EV, 'src/parser.m4', 'src/lex.m4', 'src/preprocess.c', 'src/main.c'], [{'name': 'eval_die and the backtrace', 'where': EV}, {'name': 'set_locus, line markers', 'where': 'src/parser.m4, src/lex.m4'}],
   ['standard output, diagnostics and exit status of scripts'], note=COMMON + ' Columns are those of the preprocessed text. Names of contexts in a backtrace that are not functions are not compared.'),
 P('C20', 'A text has the parse that the grammar gives it',
   'A script that is a sentence of the grammar stands for exactly one tree, the one that the precedence and associativity of the operators, the nesting of statements (an else belongs to the nearest if), and the structure of declarators and the names of types declared so far determine. '
   '-T shows that tree and -T -D draws it, completely, and neither runs any of the script. '
   'Any other text is rejected, with the exit status 1, before any of it is run; the diagnostic names the line of the first token that no program could have there.',
   ['programs', 'inputs'], 'all sequences of tokens: sentences of the whole grammar of any depth, with every layout, and sentences with tokens removed, added, replaced, exchanged or cut off',
   'The tests parse a few dozen well-formed programs, look at the value of the expressions only, and never at a tree or a rejected text.',
   ['src/parser.m4', 'src/lex.m4', 'src/gendump.cpp', 'src/gendot.cpp', 'src/tree-dump-primitives.h', 'src/cscript.c', 'src/typename.c'],
   [{'name': 'the grammar and its actions', 'where': 'src/parser.m4'}, {'name': 'the lexer and names of types', 'where': 'src/lex.m4'}, {'name': 'dumps', 'where': 'src/gendump.cpp, src/gendot.cpp'}],
   ['the output of -T and -T -D, diagnostics and exit status of scripts'],
   technique='TLC trace validation of recorded parses against a TLA+ grammar (Syntax) that derives the tree of a sequence of tokens, or the place of the first token that cannot continue it',
   note='Trees as bic represents them: qualifiers are dropped by the lexer, parentheses are expression lists. Not decided: do, switch, goto, continue, unary +, adjacent strings, compound literals, a cast as the operand of ! ~ & *, lists in lists of initial values, words as tags.'),
 P('C21', 'Completion offers what could be typed there, and does nothing',
   'In a session at a terminal, TAB after the start of a name offers exactly the names that start with it and are visible where the REPL was started: objects, functions, enumerators and names of types of that scope and of those around it, of what has been declared so far - not those of callers, of scopes that have been left, of members or tags. '
   'TAB after an expression that designates a structure or union (or points to one) and "." (or "->") offers exactly its members that start with what follows; after any other expression it offers nothing. '
   'However often TAB is pressed, and whatever the expression would do or whatever is wrong with it, nothing else happens: no effect takes place, nothing is shown, the session goes on and ends as it would have.',
   ['histories', 'programs', 'inputs'], 'sessions of all kinds, started alone or from any place of a program, with TAB pressed after the start of any name, and after expressions of all forms, with and without effects, with and without errors, at any moment',
   'No test has a terminal: completion is never run by one.',
   ['src/repl.c', EV], [{'name': 'bic_completion', 'where': 'src/repl.c'}, {'name': 'find_global_identifiers', 'where': EV}],
   ['what a session shows at a terminal, diagnostics, exit status'], note=COMMON + ' The word to be completed is that after the last blank, as readline takes it. Not decided: TAB after an empty word or after "_" (the names of the built-in functions), operators before the object without a blank ("*p." could mean either).'),
]

HOOK_COMMITS = ['c3034f7']
NOT_APPLICABLE = []


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': list(p['state']), 'mechanism': p['mech'],
                            'observe_at': p['obs'], 'hook_needed': p['hook']}}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'],
               'thorough_cmd': 'bin/check %s thorough' % p['id'], 'technique': p['technique'],
               'level': 'model_checking', 'level_note': p['note'] or COMMON} for p in PROPS]
    full = [subprocess.run(['git', '-C', '/repo', 'rev-parse', h], stdout=subprocess.PIPE, text=True).stdout.strip() for h in HOOK_COMMITS]
    m = {'version': 1, 'setup_cmd': 'bin/setup',
         'hooks': {'guard': 'BIC_VERIF', 'enable': 'lib/build.py compiles /repo/src with -DBIC_VERIF; BIC_VERIF_GC and BIC_VERIF_GC_LOG in the environment then control and record garbage collections',
                   'source_commits': full},
         'checks': checks, 'not_applicable': NOT_APPLICABLE}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
