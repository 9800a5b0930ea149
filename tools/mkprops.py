#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech]))
    if state: d["anchors"]["state"] = [dict(name=s[0], meaning=s[1], where=s[2]) for s in state]
    d["anchors"]["observe_at"] = observe or ["stdout and exit status of the program"]
    P.append(d)

VM="interpreter/VM.c"; CO="compiler/compiler.c"; PA="compiler/parser.c"; ENV="compiler/env.c"; API="yasl.c"

p("C01","Operators give the defined result or the defined error for every operand pair",
  "For every operator and every combination of operand types and values, evaluating the operator gives exactly the result the language defines (ints stay ints, a float operand makes the result a float, / is always a float, // and % truncate and reject a zero divisor, len, ~ and comparisons as documented), or stops the program with the defined kind of error. No operand combination yields any other value, error kind or crash.",
  ["inputs","programs"],"all operators x all operand types x representative and boundary values, as constants, variables and nested expressions",
  "The tests check a fixed list of operand pairs per operator; the operator x type x type table with boundary values is far larger and is only sampled.",
  [VM,"interpreter/operator_names.h","compiler/middleend.c"],
  [("binary and unary numeric/int operator dispatch",VM+": vm_num_binop, vm_int_binop, vm_fdiv, vm_pow, vm_num_unop"),("comparison dispatch",VM+": DEFINE_COMP"),("concatenation",VM+": vm_CNCT")])
p("C02","Compile-time evaluation is invisible",
  "An expression or condition whose operands are written as literals behaves exactly as the same expression with those values held in variables: same value, same type, same error, same output. Branches and loops that are decided at compile time run, or do not run, exactly as if they had been decided at run time, and the code in them is still checked.",
  ["programs","inputs"],"all constant expressions built from literals and operators, and all if/while/?: statements with literal conditions, nested",
  "Tests have a few folded expressions; the agreement between the folding pass and the run-time operators is a two-implementation equivalence over all operator/literal combinations.",
  ["compiler/middleend.c",CO,VM],[("constant folding","compiler/middleend.c: fold_BinOp, fold_UnOp"),("static branch elimination",CO+": visit_If, visit_While, Node_istruthy")])
p("C03","Equality, identity, ordering and truthiness are coherent",
  "== is an equivalence on values without NaN and user-defined equality, compares lists, tables and sets by contents and never across unrelated types, and != is always its negation; a === b implies a == b; for numbers and for strings exactly one of <, ==, > holds and <=, >= agree with them. A value is false in a condition exactly if it is undef, false, '' or NaN, in every construct that tests a condition.",
  ["inputs","programs"],"all pairs and triples of values including nested containers and mixed int/float numbers, in every conditional construct",
  "These are laws over pairs and triples of values; tests only compare a handful of literals.",
  [VM,"interpreter/YASL_Object.c","interpreter/list_methods.c","interpreter/table_methods.c","std/yasl-std-collections.c"],
  [("equality dispatch",VM+": vm_EQ"),("scalar equality","interpreter/YASL_Object.c: isequal"),("truthiness","interpreter/YASL_Object.c: isfalsey"),("comparison",VM+": DEFINE_COMP")])
p("C04","Operands are evaluated left to right, once, and only when needed",
  "Sub-expressions, arguments, collection elements and the parts of assignments are evaluated exactly once, from left to right, and the operands of &&, ||, ?? and ?: that are not needed are not evaluated at all. Operator precedence and associativity are as documented, with or without redundant parentheses.",
  ["programs"],"all expression trees, with operands whose evaluation has observable effects",
  "Tests mostly evaluate pure operands, so an operand evaluated twice, not at all or in another order goes unnoticed; precedence is a property of all operator pairs and nestings.",
  [PA,CO,VM],[("expression grammar",PA+": parse_expr .. parse_unary"),("short-circuit code",CO+": visit_BinOp"),("augmented assignment",PA+": parse_assign_or_exp")])
p("C05","Variables are lexically scoped, and scope errors are found before anything runs",
  "A name always refers to the innermost enclosing declaration that precedes it, an inner declaration never affects the outer variable of that name, and variables of a scope do not exist after it. A program that uses an undeclared name, redeclares a name in the same scope, assigns to a constant (also from inside of a function), or has a misplaced break, continue or return is rejected with a syntax error before any of it runs, also in code that is never reached; every other program is accepted.",
  ["programs"],"all nestings of blocks, loops, functions, comprehensions and match arms with shadowed and captured names",
  "Scoping is about all nestings of declarations and uses; tests cover individual forms, hardly any combination.",
  [CO,ENV],[("scopes",ENV+": scope_get, scope_decl_var"),("declaration checks",CO+": decl_var, load_var, store_var, visit_Decl"),("block exits",CO+": enter_scope, exit_scope, close_locals")])
p("C06","Closures share variables, not copies, and keep them alive",
  "A function sees and updates the variables of the enclosing scopes themselves: every closure over a variable, and the scope that declared it, see each other's assignments, before and after that scope is left. Each execution of a declaration makes a new variable, so closures made in different iterations or calls do not share it, whatever the order in which scopes are left and functions return.",
  ["programs","histories"],"all interleavings of creating closures, assigning captured variables, leaving scopes (normally, by break, continue or return) and calling the closures, across nesting levels",
  "Tests use a few fixed closures; the defects that matter need a specific combination of capture order, scope exit and later use.",
  [VM,"interpreter/closure.c","interpreter/upvalue.c",CO],[("upvalue list",VM+": add_upvalue, vm_close_from"),("closure creation",VM+": vm_CCONST"),("closing on scope exit",CO+": close_locals, O_CLOSE")],
  state=[("open upvalues","variables still on the stack that some closure refers to",VM+": vm->pending")])
p("C07","Calls pass, pad and return values exactly",
  "Missing arguments are undef and surplus ones are dropped; a call in the last position of an argument list, return statement or declaration supplies all of its results, and in any other position exactly one value (undef if there is none). A function returns exactly the values of the return statement that ended it, undef if none did, and calling something that is not a function is an error raised before its arguments are evaluated.",
  ["programs"],"all combinations of parameter count, argument count, number of returned values and position of the call, with recursion and early returns out of nested loops and blocks",
  "Arity x returned values x context x enclosing constructs is a product that the tests touch in isolated points.",
  [VM,CO],[("frame entry and argument filling",VM+": vm_enterframe_offset, vm_fill_args"),("return",VM+": vm_exitframe_multi, vm_rm_range"),("variadic contexts",CO+": visit_Call, visit_MultiReturn, visit_Decl")])
p("C08","Loops and comprehensions run exactly the iterations they should",
  "while, C-style for, for-in and comprehensions execute their body once per iteration in order, evaluate conditions and collections as often as defined, and leave exactly the intended loop on break or continue, whatever is nested in the body; afterwards execution continues with all outer variables intact. Iterating over a list or str visits its elements in index order, and over a table visits each key once.",
  ["programs","inputs"],"all nestings of loops, conditionals, matches and functions with break, continue and return at any depth, over all collection kinds and sizes",
  "Break and continue interact with whatever locals and nested loops are active at that point, which is a property of all nestings.",
  [CO,VM],[("loop code",CO+": visit_While, visit_ForIter, visit_Comp"),("checkpoints for break/continue",CO+": add_checkpoint, visit_Break, visit_Continue"),("iteration",VM+": vm_ITER_1, O_INITFOR, O_ENDFOR")])
p("C09","match runs the first arm whose pattern and guard accept the value",
  "A match statement evaluates its subject once and executes the body of exactly the first arm whose pattern accepts the value and whose guard, if any, is true, and nothing if there is none; patterns inspect structure and types without changing anything. The names bound by the chosen arm hold the matched parts, and everything outside of the arm is unaffected by bindings of arms that were tried and failed.",
  ["programs","inputs"],"all patterns (literals, types, let/const bindings, nested lists and tables, variadic, alternatives) x guards x subject values, nested in functions and loops",
  "Pattern x value is an infinite product; failures in the middle of a nested pattern after bindings were made are the interesting cases and are barely tested.",
  [VM,CO,PA],[("pattern matching",VM+": vm_MATCH_subpattern, vm_ff_subpattern"),("arm code",CO+": visit_Match_helper")])
p("C10","Lists behave as sequences under every history of operations",
  "After any sequence of list operations, the contents, length and every returned value are those of an ideal sequence, and every rejected operation raises the defined error and changes nothing. Aliases see the same list, copies, slices and concatenations are independent of their sources.",
  ["histories","inputs"],"all sequences of push, pop, insert, index get/set, slice, copy, +, reverse, clear, sort, search, count, join, spread and iteration over several aliased lists",
  "Tests check single operations on small literals; growth, aliasing and operation histories are not explored.",
  ["interpreter/list_methods.c","data-structures/YASL_List.c",VM],[("list methods","interpreter/list_methods.c"),("dynamic array","data-structures/YASL_List.c")])
p("C11","Tables behave as maps under every history of operations",
  "After any sequence of insertions, updates, removals, merges, copies and clears, a table contains exactly the entries an ideal map would, with keys distinguished by type and value; lookups, length, keys, values, iteration and equality all agree with that. Values that cannot be keys are rejected, and storing undef removes the entry.",
  ["histories","inputs"],"all sequences of table operations with keys of all types, including colliding and repeatedly removed and re-inserted keys, far beyond the initial capacity",
  "Hash tables break on specific histories (probe chains through removed slots, resizes, collisions), which short tests never build.",
  ["data-structures/YASL_Table.c","interpreter/table_methods.c","util/hash_function.c","util/prime.c"],[("open addressing with double hashing and tombstones","data-structures/YASL_Table.c"),("table methods","interpreter/table_methods.c")])
p("C12","Sets behave as mathematical sets under every history of operations",
  "After any sequence of additions and removals a set contains exactly the values an ideal set would, distinguished by type and value, and membership, length, listing, copies, equality, the subset comparisons, and union, intersection, difference and symmetric difference agree with set theory. The operators leave their operands unchanged.",
  ["histories","inputs"],"all sequences of set operations with members of all hashable types, and all pairs of sets for the operators",
  "Set algebra laws quantify over all pairs of sets and all histories that built them; tests have a few fixed sets.",
  ["data-structures/YASL_Set.c","std/yasl-std-collections.c"],[("hash set","data-structures/YASL_Set.c"),("set methods and operators","std/yasl-std-collections.c")])
p("C13","String methods compute what they document, on every string",
  "Searching, counting, replacing, splitting, trimming, repeating, case conversion, classification and prefix/suffix tests give the defined result for every subject and argument, including empty strings, overlapping occurrences and strings that are parts of other strings, and never change their operands. Invalid arguments raise the defined error.",
  ["inputs"],"all subjects and arguments over a small alphabet up to a bounded length, as literals, concatenations and slices of other strings",
  "Boundary cases of string algorithms (overlaps, empty, all-trimmed, needle longer than the rest, substring views) are individually rare and not enumerated by the tests.",
  ["interpreter/str_methods.c","data-structures/YASL_String.c"],[("string algorithms","data-structures/YASL_String.c"),("argument checks","interpreter/str_methods.c")])
p("C14","Indexing and slicing address exactly the documented elements",
  "x[i] gives the element for every valid positive or negative index and an error for every other index or index type, x[i:j] gives exactly the elements from i up to but not including j with negative bounds counted from the end and out-of-range bounds clipped, for lists and strings alike, and assignment through an index changes that element only. Member access and indexing agree, and indexing unsupported values is an error.",
  ["inputs","programs"],"all lengths x all index and bound values around them x omitted bounds x index types x collection kinds",
  "Off-by-one errors hide at particular combinations of length, sign and bound; the tests check a few.",
  [VM,"interpreter/list_methods.c","interpreter/str_methods.c","interpreter/table_methods.c"],[("slices",VM+": vm_SLICE_list, vm_SLICE_str"),("get/set",VM+": vm_GET, vm_SET")])
p("C15","Every value prints the way it is documented to",
  "echo, ~, tostr and join give the documented text of every value: ints in decimal, floats with a fractional part, strings as they are, nested lists, tables and sets with their elements in order, and containers that contain themselves with a marker in place of the recursion. Printing always terminates, changes nothing, and gives the same text wherever the value is printed.",
  ["inputs","programs"],"all values, arbitrarily nested, shared and cyclic, printed through every construct",
  "Nested, shared and cyclic structures are an infinite family of which the tests print a few.",
  ["interpreter/list_methods.c","interpreter/table_methods.c","std/yasl-std-collections.c","util/yasl_float.c",VM],[("stringification",VM+": vm_stringify_top"),("nested containers","interpreter/list_methods.c: list_tostr_helper; interpreter/table_methods.c: table_tostr_helper")])
p("C16","Metatables redirect exactly the operations they define",
  "For a value with a metatable, indexing, assignment, calls of methods, operators, len, comparison, equality and printing use the function the metatable defines for that operation, called with the operands in order, and its result; operations it does not define fail or fall back as documented. A metatable affects only the values it was set on.",
  ["programs"],"all operators and implicit operations x values with and without each metatable entry x behaviour of the handler (returning, recursing, failing)",
  "Each overloadable operation is its own path through the interpreter, and combinations (handlers called from inside other operations) are untested.",
  [VM,"std/yasl-std-mt.c"],[("method lookup",VM+": vm_lookup_method_throwing, lookup2"),("operator overloads",VM+": vm_call_method_now_1_top, vm_call_method_now_2"),("metatable assignment","std/yasl-std-mt.c")])
p("C17","A failing program stops at the failure, and reports it",
  "When an operation fails, everything printed before it has been printed, nothing after it happens, and the exit status identifies the kind of error. The message on the error output names the kind and the line of the failing statement, followed by the lines of the active calls, innermost first.",
  ["programs","inputs"],"all error kinds at all positions in programs with nested calls, loops, and matches",
  "Tests check one error at a time in tiny programs, and not where it is reported; containment is about every position at which an error can occur.",
  [VM,"yasl_error.h",API],[("throwing",VM+": vm_throw_err, vm_run"),("line tracking",VM+": printline"),("status",API+": YASL_execute")],
  observe=["stdout, stderr, exit status"])
p("C18","Programs never corrupt memory, and everything is released exactly once",
  "No program, however it ends, makes the interpreter access memory it does not own or release it twice. Values stay usable as long as the program can reach them, and once nothing refers to a value without cycles it is released: by the time the interpreter is destroyed, every host object has been destroyed exactly once, and never while it was reachable.",
  ["programs","histories"],"all programs of the other properties, plus histories of creating, storing, aliasing, overwriting and dropping host objects with observable destructors",
  "Reference-count mistakes only show for particular orders of aliasing and dropping, and mostly as silent corruption that output-comparing tests do not notice.",
  ["interpreter/refcount.c","interpreter/userdata.c",VM,API],[("reference counting","interpreter/refcount.c"),("stack slots owning references",VM+": vm_push, vm_rm_range")],
  observe=["destructor calls seen by the host","memory errors under AddressSanitizer","exit status"])
p("C19","The embedding API is a faithful value stack",
  "Any sequence of pushes, pops, peeks, duplications, type tests, list and table operations through the C API behaves as on an ideal stack of values: each call reads or changes exactly what it documents, values come back with the type and contents they were pushed with, and type tests agree with the type names. Reading a value as the wrong type gives the documented default and leaves the stack intact.",
  ["histories","inputs"],"all sequences of API calls within the documented preconditions",
  "The C API has hardly any tests in the repository, and its contract is about sequences of calls.",
  [API,"yasl.h"],[("push/pop/peek/is functions",API),("list and table functions",API+": YASL_listget, YASL_listpush, YASL_tableset, YASL_tablenext")],
  observe=["return values of the C API"])
p("C20","Host functions, globals and callbacks exchange values faithfully",
  "Functions registered by the host receive exactly the arguments the program passes (padded or cut to the declared number, or all of them with their count), and the program receives exactly the results they return. Globals set on either side are seen on the other, and functions of the program called by the host run to completion with the given arguments and leave their results and nothing else on the stack.",
  ["histories","programs"],"all combinations of declared and actual argument counts, numbers of results, call contexts, and nested calls between host and program",
  "The embedding interface is almost untested, and nested host/program calls are not tested at all.",
  [API,VM],[("host calls",VM+": vm_CALL_cfn"),("callbacks",API+": YASL_functioncall"),("globals",API+": YASL_declglobal, YASL_setglobal, YASL_loadglobal")],
  observe=["arguments seen and results received by the host","stdout of the program"])
p("C21","A state keeps exactly its globals across interactive inputs and resets",
  "In interactive use, every input sees the globals, functions and data left by the inputs before it and nothing else, prints the value of a trailing expression, and an input that fails, at compile time or at run time, leaves everything done before it intact and later inputs working. Resetting a state gives the new source a working state, with the host's globals still declared.",
  ["histories","programs"],"all sequences of inputs, some of them failing, with functions and closures defined in one input and used in later ones",
  "Tests run each program in a fresh interpreter; what survives from one input to the next is not tested at all.",
  [API,CO,"main.c"],[("REPL compilation",CO+": compile_REPL"),("reset",API+": YASL_resetstate, YASL_execute_REPL")],
  observe=["stdout and status of each input"])
p("C22","Modules run once per require, in isolation, and give their export",
  "Requiring a module runs it in an environment that has none of the requiring program's variables and gives exactly the value it exports, with its functions working on the module's own variables afterwards. A module that fails, does not export or does not exist makes the require fail with the corresponding error, at the require.",
  ["programs","histories"],"all module graphs with exports of all kinds, exported closures with state, nested requires and failing modules",
  "Tests have one module; isolation and state of exported closures depend on how modules and requirers are combined.",
  ["std/yasl-std-require.c",VM],[("require","std/yasl-std-require.c"),("export",VM+": O_EXPORT")])
p("C23","All ways of giving a program to the interpreter agree",
  "A program behaves identically whether it is read from a file or from memory, and run by the command line tool or by an embedding host with output to a stream or to a string. The syntax check mode accepts exactly the programs that would start running, runs nothing, and reports the same error for the others.",
  ["programs","configurations"],"all programs x entry points (file, buffer, -E, -C, host API)",
  "Tests use one entry point per program; agreement between entry points is a relation over all programs.",
  ["main.c",API,"compiler/lexinput.c","util/IO.c"],[("entry points","main.c; yasl.c: YASL_newstate, YASL_newstate_bb"),("input abstraction","compiler/lexinput.c"),("output redirection","util/IO.c")],
  observe=["stdout, stderr, exit status per entry point"])
p("C24","Sorting orders every list and keeps its elements",
  "After sort, a list of numbers or of strings has exactly the elements it had, in non-decreasing order, whatever their initial order and however many are equal. Lists that contain anything else, or mix numbers and strings, are rejected with an error and left unchanged.",
  ["inputs"],"all permutations of small multisets, and random lists of larger sizes, of ints, floats, mixed numbers and strings",
  "Sorting uses randomised partitioning with several boundary conditions; correctness is over all inputs and all random choices.",
  ["interpreter/list_methods.c","interpreter/YASL_Object.c"],[("quicksort","interpreter/list_methods.c: sort"),("element order","interpreter/YASL_Object.c: yasl_object_cmp")])
p("C25","Every literal and lexical form denotes the value it is documented to denote",
  "Int literals in every base with separators, floats, all string forms with their escapes and interpolation, comments, and line breaks in any permitted place denote exactly the documented values and program, and malformed ones are rejected with a syntax error. Formatting a program differently (whitespace, comments, redundant parentheses, other quotes) never changes what it does.",
  ["inputs","programs"],"all literals of bounded size, and all programs under re-formatting",
  "Tests have a few literals of each form; equivalence under formatting is a relation over all programs.",
  ["compiler/lexer.c",PA],[("lexing","compiler/lexer.c"),("number parsing","data-structures/YASL_String.c: parseint64; compiler/parser.c")])
p("C26","Unbounded recursion ends in a stack overflow error, bounded recursion works",
  "Recursion within the documented limits computes its result, and recursion beyond them, whatever mix of functions, methods, operators, host functions and nested loops it runs through, ends in a stack overflow error that leaves the process, the output so far, and a host's state intact. It never ends in a crash or in a wrong result.",
  ["programs","inputs"],"all recursion depths around the limits x what is on the stack in each frame",
  "The behaviour at the limits depends on the exact number of values each frame needs; tests do not go near the limits.",
  [VM,CO],[("frame limit",VM+": vm_enterframe_offset"),("stack limit",VM+": vm_push"),("loop frames",VM+": O_INITFOR")])
p("C27","Int arithmetic is exact 64-bit two's complement arithmetic",
  "+, -, *, unary minus, //, %, the bitwise operators, shifts by 0 to 63 and comparisons of ints give exactly the 64-bit two's complement results for all 64-bit operands, including the extremes, and int literals and printing are exact over the whole range.",
  ["inputs"],"all pairs of 64-bit operands (boundary values, powers of two and their neighbours, random ones)",
  "The tests use small numbers; wrap-around, sign and precision only matter for large ones.",
  [VM,"compiler/middleend.c","interpreter/int_methods.c","compiler/parser.c"],[("int operators",VM+": INT_BINOP, vm_int_binop"),("int printing","interpreter/int_methods.c: int_tostr")])
p("C28","Conversions between types give the documented value",
  "toint, tofloat, tobool and tostr give the documented result for every value they are defined on: strings are parsed exactly as literals of that kind (with NaN or 0 for anything else), floats truncate toward zero, tobool agrees with what conditions do, and converting to str and back gives the same number.",
  ["inputs"],"all values of the convertible types, and all strings over the characters that can occur in numbers up to a bounded length",
  "Parsing is over all strings; tests convert a few well-formed ones.",
  ["data-structures/YASL_String.c","interpreter/int_methods.c","interpreter/float_methods.c","interpreter/str_methods.c","interpreter/bool_methods.c","interpreter/undef_methods.c"],
  [("string parsing","data-structures/YASL_String.c: YASL_String_tofloat, YASL_String_toint"),("conversions","interpreter/*_methods.c")])
p("C29","Files read back exactly what was written to them",
  "Any sequence of opening, writing, reading by line or completely, seeking, flushing and closing files behaves as on ideal byte sequences with a position, in each open mode, and failures give the documented result. Handles are independent, nothing that was written is lost when a handle is dropped, and a closed handle is rejected.",
  ["histories","inputs"],"all sequences of file operations over a few files and handles, modes and contents",
  "Tests write and read one file; positions, modes and interleavings of handles are histories.",
  ["std/yasl-std-io.c"],[("file methods","std/yasl-std-io.c")])
p("C30","Math functions agree with their mathematical definition",
  "max, min, abs, gcd, lcm, isprime, floor, ceil and sqrt give the mathematically defined result, of the documented type, for every argument in range, and undef, NaN or an error outside of it as documented.",
  ["inputs"],"all small ints, all pairs and triples of small ints and floats, and argument counts",
  "These are laws over all numbers; the tests check a few values of each.",
  ["std/yasl-std-math.c","util/prime.c"],[("functions","std/yasl-std-math.c"),("primality","util/prime.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"])
        f.write(json.dumps(d) + "\n")
print(len(P))
