#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  The list of implemented checks comes from src/*.cpp (Register)."""
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
impl = set()
for f in glob.glob("src/p_*.cpp"):
    impl |= set(re.findall(r'Register \w+\(\{"([A-Z]\d+)"', open(f).read()))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))

GEN = "generators.c"; EMI = "emitters.c"; ASM = "assembler.c"; VM = "duckVM.c"; DL = "duckLisp.c"; PAR = "parser.c"; INF = "parenthesis-inferrer.c"

prop("L01", "Programs evaluate as the language manual says",
     "A program built from documented forms (variables, scopes, functions, conditionals, loops, arithmetic, sequences, strings, composites, globals) yields the value, the sequence of callback invocations and the success or run-time error that evaluating it by the language manual yields. Each form leaves exactly one value and later forms see every earlier effect.",
     ["programs", "configurations"], "every program made of documented forms, in every build configuration",
     "The tests are 64 fixed programs, most of them a few forms long; nothing varies nesting, order, shadowing or the distance between definition and use.",
     [GEN, EMI, ASM, VM, DL], [("code generation per keyword", GEN), ("scopes and stack-slot tracking", DL + " duckLisp_compile_compoundExpression"), ("assembler", ASM), ("instruction dispatch", VM)],
     ["value left on the stack after execution", "callback trace", "status codes"],
     "Differential against a reference interpreter written from the manual; trusts the interpreter and the typed generator; programs whose result depends on sibling-argument evaluation order are not generated.")
prop("L02", "Closures capture variables, not values, and share them",
     "A closure sees and assigns the variables of the scopes it was created in, for as long as it lives: assignments made by any closure or by the enclosing scope are seen by all of them, before and after the scope has ended. Each evaluation of a scope or each iteration of a loop body creates fresh variables, and collection of garbage never changes what a closure sees.",
     ["programs", "histories"], "every nesting of functions, captures, assignments, calls and scope exits",
     "Tests fix a handful of counters; nesting depth, capture order, release order and the number of intervening locals are never varied.",
     [GEN, VM, DL], [("upvalues and their release at scope exit", VM + " upvalue instructions"), ("free-variable resolution", DL + " duckLisp_scope_getFreeLocalIndexFromName"), ("upvalue emission", GEN + " pushUpvalue, closures")],
     ["values returned by closures called later", "callback trace"],
     "Differential against lexical scoping in the reference interpreter on closure-heavy programs; trusts the interpreter.")
prop("L03", "Every route to a function passes the same arguments",
     "Calling a function with given arguments has the same effect directly, through funcall, through apply with the arguments split anywhere between the fixed ones and the final list, through a higher-order or variadic forwarding function, through a composite that wraps it, through self, and from a C callback. A variadic function receives exactly its surplus arguments as a list in order, and a wrong number of arguments is a run-time error by every route.",
     ["programs", "inputs"], "every parameter count up to 254, argument list, kind of function value and route",
     "Tests call a few functions of up to three parameters by one route each.",
     [GEN, VM, EMI], [("argument shuffling for calls", VM + " duckVM_instruction_prepareForFuncall"), ("apply", VM), ("direct calls and globals", GEN + " duckLisp_generator_funcall")],
     ["values seen by the callee (returned as a list)", "run-time error status"],
     "Differential against the reference interpreter over generated functions and routes.")
prop("L04", "Lists and vectors keep their identity, sharing and bounds",
     "After any sequence of construction, access, tail and mutation operations on lists and vectors, every name shows the contents given by the manual: mutation is seen through every name and tail that shares the structure and through no other, and nothing else changes. Access or mutation outside a sequence, or of a value that is not a sequence, is a run-time error.",
     ["histories", "inputs"], "every sequence of operations over any set of aliased sequences",
     "Tests check each operation once or twice on one fresh sequence.",
     [VM, GEN, EMI], [("cons and vector instructions", VM), ("operand placement", EMI)],
     ["contents of every name after every history", "run-time error status"],
     "Model-based: histories are generated statement by statement against the reference heap.")
prop("L05", "String and symbol operations agree with byte sequences",
     "Strings behave as immutable byte sequences and symbols as interned names: concatenation, substrings, element access, tails, length, equality, null tests and conversion between symbols, strings and integer sequences give the bytes the manual prescribes, for slices as for whole strings. Indices outside the string or operands of another kind are run-time errors.",
     ["histories", "inputs"], "every sequence of string and symbol operations including operations on slices of slices",
     "Tests use a few short literals and never operate on a slice.",
     [VM, GEN, PAR], [("string instructions", VM), ("string literals", PAR), ("symbol interning", DL + " duckLisp_symbol_create")],
     ["contents of every name", "run-time error status"], "Model-based against byte strings in the reference interpreter.")
prop("L06", "Arithmetic and comparison are the same wherever operands live",
     "Each arithmetic and comparison operator gives the mathematical result for its operands' types (integers exactly, truncating division; any float operand makes the result a float), and operands of the wrong kind or an integer division by zero are run-time errors. The result does not depend on whether operands are literals, locals, captured variables, globals, parameters, call results or compile-time computed constants, nor on their distance on the stack.",
     ["inputs", "programs"], "every operator, pair of operand values and pair of operand placements",
     "Tests use one placement and small positive operands.",
     [VM, GEN, EMI], [("arithmetic instructions with operand widths", VM), ("constant and variable operand emission", GEN), ("sizes of operands", ASM)],
     ["value of the expression"], "Exhaustive pairing of generated operand values and placements against 128-bit integer and double arithmetic; float literals limited to those the reader converts exactly enough to print to 12 digits.")
prop("L07", "Composites and types are unique, mutable and transparent to calls",
     "Every type made is different from all others and equal to itself; an instance reports its own type, and its value and function slots hold what was last stored through any name, even while collections run. Calling an instance calls its function slot (through any number of instances), and operations on values that are not instances or types are run-time errors.",
     ["histories"], "every sequence of operations over aliased and nested instances",
     "Tests make one instance and read one slot.",
     [VM, GEN], [("composite instructions", VM), ("make-type counter", VM + " nextUserType")],
     ["contents of every name", "results of calling instances"], "Model-based against the reference interpreter.")
prop("L08", "Quoted data and literals mean exactly what their text says",
     "Any nesting of integers, floats, booleans, strings with escapes, symbols and lists, written in any layout, evaluates under quote to exactly the datum written, and the same datum results when it is a literal operand, a macro argument, is read by the compile-time reader, or is computed at compile time. Symbols with the same name are equal and those with different names are not, across separately loaded sources.",
     ["inputs"], "every datum and every spelling and layout of it",
     "Tests quote two or three small lists.",
     [PAR, GEN, DL, VM], [("reader", PAR), ("quote generation", GEN + " duckLisp_generator_quote"), ("object/AST conversion", DL + " duckLisp_astToObject, duckLisp_objectToAST")],
     ["value produced"], "Round trip datum -> text -> value, plus agreement between the four routes; integers limited to 32 bits and floats to 12 printed digits.")
prop("L09", "Macro use equals writing the expansion by hand",
     "A program that calls a macro behaves exactly like the program in which the call is replaced by the form the macro returns for the unevaluated argument forms. This holds for nested and repeated calls, macros that expand to definitions, scopes, loops or other macro calls, macros with variadic parameters, and macros that keep state at compile time.",
     ["programs"], "every macro body that builds source from its arguments and every place a macro call can stand",
     "Tests expand two or three fixed macros.",
     [DL, GEN, VM], [("macro generator", GEN + " duckLisp_generator_macro, duckLisp_generator_defmacro"), ("conversion between objects and source", DL)],
     ["outcome of the two programs"], "Metamorphic: program with macros vs the hand-expanded program, both also checked against the reference interpreter.")
prop("L10", "Compile-time evaluation gives the run-time value",
     "An expression evaluated at compile time yields the value (booleans, integers, floats, symbols, strings, lists) that the same expression yields at run time, and its effects happen once, at compile time, in source order. Global variables defined at compile time stay visible to later compile-time code in the same and in later sources; other variables and functions defined at compile time are visible to later compile-time code within the scope they stand in; none of them leaks into the run-time environment.",
     ["programs", "histories"], "every closed expression and every sequence of compile-time definitions and uses",
     "Tests evaluate three constants at compile time.",
     [GEN, DL, VM], [("comptime generator", GEN + " duckLisp_generator_comptime"), ("compile-time virtual machine", DL)],
     ["value", "callback trace of the compile-time machine"], "Metamorphic: expression with and without comptime, plus histories against the reference interpreter.")
prop("L11", "A session behaves like one long program",
     "Global variables and functions defined by one source are visible, with their latest values, to every source loaded later in the same session, and closures from earlier sources keep working and keep their variables whatever is compiled, executed or collected afterwards. Each executed source adds exactly one value to the stack, and a failing source leaves everything defined earlier usable.",
     ["histories"], "every sequence of loads, executions, failures and collections in one session",
     "Each test loads exactly one source.",
     [VM, DL], [("globals table", VM + " duckVM_global_get/set"), ("bytecode objects kept alive by closures", VM + " garbage collector"), ("symbol table across loads", DL)],
     ["values of globals after every step", "stack depth"], "Stateful histories against one persistent reference interpreter.")
prop("L12", "Keywords, aliases and shadowing resolve as documented",
     "Every keyword and its double-underscore alias are interchangeable, a program may use any other identifier (including ones that begin with a keyword or literal name) for its variables and functions, and a function or macro that takes a keyword's name shadows it inside its scope while the alias still reaches the keyword. Functions live in both namespaces and variables only in theirs.",
     ["programs"], "every program, every consistent renaming of its identifiers and every choice of alias",
     "Tests never use the aliases or redefine a keyword.",
     [DL, GEN, PAR], [("generator table", DL + " duckLisp_init"), ("lookup order", DL + " duckLisp_scope_getFunctionFromName")],
     ["outcome of renamed programs"], "Metamorphic renaming/aliasing of generated programs plus redefinition cases against the reference interpreter.")
prop("L13", "Conditions agree in every conditional form and every spelling",
     "A condition value selects the same branch in if, when, unless and while, whether it is a literal, a variable, a captured variable, a global, a call result or compile-time constant: nil, false, zero and empty vectors are false and all other booleans, numbers, symbols, lists, vectors, strings and functions are true. Exactly one branch is evaluated, exactly once, and loops evaluate condition and body alternately until the condition is false.",
     ["inputs", "programs"], "every condition value and placement, every nesting of conditional forms, every branch size",
     "Tests branch on literal booleans with tiny branches.",
     [GEN, VM, ASM], [("constant-condition folding", GEN + " duckLisp_generator_if, when, unless, while"), ("branch instructions", VM), ("jump offsets", ASM)],
     ["callback trace", "value"], "Generated conditions and nestings against the reference interpreter; empty strings, types and composites are left out because the manual is silent.")
prop("L14", "How much there is changes nothing: depth, length, number, size of names",
     "As long as the memory the host provides suffices, a program means the same however deep it recurses, however long its lists, vectors, strings, names and source are, however many rounds its loops make, and however many types, generated symbols, closures and earlier sources there are. In particular no count starts again at 256 or 65536: indices, lengths, types and generated symbols stay distinct, call depth is bounded by memory only, loops leave the stack as they found it.",
     ["inputs", "programs", "histories"], "every number and size that memory allows",
     "Tests have at most a few dozen of anything.",
     [VM, DL, GEN], [("call stack", VM + " call_stack_push"), ("make-type", VM + " nextUserType"), ("gensym", DL + " duckLisp_gensym"), ("sequences", VM)],
     ["values", "stack depth"], "Generated sizes around 2^8, 2^15 and 2^16 and spread over the magnitudes, in parametrised programs whose values are computed by formula.")
prop("T01", "Layout and comments never change a program",
     "Inserting or removing whitespace, newlines and comments between tokens, at the start or at the end of a source does not change what it means: it is accepted or rejected alike and produces the same value and effects.",
     ["inputs"], "every accepted program and every layout of its tokens",
     "Each test has one layout.", [PAR, DL], [("reader", PAR), ("source trimming", DL + " duckLisp_loadString")],
     ["outcome", "bytecode"], "Metamorphic: re-laid-out programs must compile to byte-identical code (or be rejected alike).")
prop("T02", "No source text can crash or wedge the compiler",
     "For any byte string offered as source, with or without parenthesis inference, loading either succeeds or returns an error (with a message, unless parenthesis inference, code run at compile time or the lack of memory is the cause), without reading or writing outside its memory and without hanging, and the session afterwards compiles and runs correct programs correctly.",
     ["inputs", "histories"], "every byte string, including truncated and mutated programs",
     "Tests load well-formed programs only.", [PAR, INF, DL, GEN, EMI, ASM], [("reader bounds", PAR), ("error paths of code generation", GEN), ("inferrer", INF)],
     ["status, messages, sanitizer reports", "a known program run afterwards"], "Random bytes, token soup and mutations of valid programs under AddressSanitizer/UBSan; macro recursion and other programs that legitimately run forever at compile time are bounded by construction.")
prop("T03", "Parenthesis inference yields the explicit program",
     "With inference enabled, a program written without the inferable parentheses means exactly the same as the fully parenthesised program, for every documented keyword and for functions, macros and variables declared by the program, including variadic ones and explicit declarations. A fully parenthesised program means the same with inference on or off.",
     ["programs"], "every program in the documented inferable subset and every choice of omitted parentheses",
     "Tests run a dozen fixed inferred programs.", [INF, PAR, DL], [("type-directed inference", INF), ("declarations", INF + " declaration scripts")],
     ["outcome of the two spellings"], "Metamorphic: generated program printed with and without parentheses; only the inference configuration is affected.")
prop("T04", "Malformed special forms are rejected when compiled",
     "A form whose keyword has the wrong number of operands, a name position that does not hold an identifier, a misplaced rest parameter, a macro called with the wrong number of arguments, or unbalanced or unterminated tokens is a compile-time error with a message, wherever in a program it stands. Nothing of a rejected source is executed and the session continues to work.",
     ["inputs", "programs"], "every documented form with every way of breaking its shape, at every position",
     "Tests contain no malformed forms.", [DL, GEN, PAR], [("argument checks", DL + " duckLisp_checkArgsAndReportError"), ("reader errors", PAR)],
     ["status and message of the load"], "Generated programs with one malformed form planted at a random place.")
prop("K01", "All build configurations and optimisations agree",
     "The same source has the same outcome in every build configuration: with either allocator, with and without the standard library, jump-size optimisation, push/pop optimisation and parenthesis inference. This holds whatever the sizes of branches, loops and functions, in particular around the ranges of one-, two- and four-byte jumps.",
     ["programs", "configurations"], "every program and pair of configurations, with code sizes around the encoding boundaries",
     "Tests run each program in one configuration with short jumps only.", [ASM, EMI, GEN, "CMakeLists.txt"], [("jump-size fixed point", ASM), ("peephole optimiser", ASM)],
     ["outcome per configuration"], "Differential between four builds; sizes around 127/128 and 32767/32768 bytes are generated on purpose.")
prop("K02", "Operand encodings reach every stack slot, constant and argument",
     "An instruction means the same whatever size of stack index, constant, element count, upvalue index or global number it needs: a program is unaffected by any number of extra local variables, globals, symbols, captured variables or arguments around it, or is rejected at compile time when it exceeds a stated limit.",
     ["programs"], "every operation with operand magnitudes on both sides of each encoding width",
     "Tests stay below 100 locals, arguments and symbols.", [EMI, ASM, VM, GEN], [("8/16/32-bit instruction variants", EMI + " and " + ASM), ("operand decoding", VM)],
     ["outcome with and without padding"], "Metamorphic padding of generated programs plus the reference interpreter; beyond 65535 only in thorough runs.")
prop("K03", "Compilation is deterministic and self-contained",
     "Compiling the same source in equal states yields byte-identical code, compiling without executing changes nothing that running programs can observe, and compiled code can be executed any number of times, and in another session with the same symbols, with the same result. Every compiled program can be disassembled completely.",
     ["programs", "histories"], "every program, order of compilations and number of executions",
     "Each test compiles once and executes once.", [DL, ASM, GEN, VM], [("compile state", DL), ("assembler", ASM), ("disassembler", "tests and " + ASM)],
     ["bytecode bytes", "outcome of repeated executions"], "Generated programs compiled repeatedly and in interleaved orders.")
prop("G01", "Garbage collection is invisible to programs",
     "Collecting at any moment at which a program can trigger a collection, or running with a heap just large enough, never changes a program's result, its effects or its errors: everything reachable from the stack, globals, closures, sequences, composites and user objects survives unchanged.",
     ["programs", "schedules", "configurations"], "every program and every schedule of collections",
     "Tests never exhaust the heap.", [VM], [("mark and sweep", VM + " duckVM_gclist_garbageCollect"), ("roots", VM)],
     ["outcome with frequent collections against none"], "Metamorphic over collection periods and heap sizes.")
prop("G02", "Unreachable objects are reclaimed, and destroyed exactly once",
     "After a collection, the heap holds only what is reachable, so a program whose live data is bounded runs forever in a bounded heap. The destructor of a user object runs exactly once: when it is collected or when the machine is shut down, and not before it becomes unreachable.",
     ["histories"], "every history of allocation, sharing, dropping and collection, including cycles",
     "Tests never count objects.", [VM], [("sweep and destructors", VM)],
     ["live object count", "destructor counts"], "Stateful histories with a model of reachability.")
prop("G03", "Heap exhaustion is a reported error, not corruption",
     "When live data exceeds the configured number of heap objects, the allocating operation fails with an error; nothing that was reachable is damaged, and after live data is dropped the machine can be used again.",
     ["inputs", "histories", "configurations"], "every program and every heap limit",
     "Tests use one large heap.", [VM], [("allocation and collection on demand", VM + " duckVM_gclist_pushObject")],
     ["status", "results of programs run afterwards"], "Programs run under every small heap limit up to sufficiency: outcome is success as with a large heap or an error, and success is monotone-checked by rerun after reset.")
prop("G04", "What a user object refers to lives as long as the object",
     "Every heap object that the marker of a host-defined object names stays alive and unchanged as long as that object is reachable, from wherever it is: the stack, variables, globals, captured variables, sequences, composites and other host-defined objects, and through cycles.",
     ["programs", "histories", "configurations"], "every shape of references through host-defined objects and every moment of collection",
     "No test defines a type of its own.", [VM], [("markers", VM + " duckVM_gclist_markObject")],
     ["results and emitted values"], "Heaps of the smallest sufficient size and forced collections, against the reference interpreter.")
prop("V01", "A run-time error is contained",
     "Any run-time error, at any depth of calls, in any instruction or callback, stops execution, is returned as an error to the host, and performs no further program effects. After the stack is reset, globals hold what was assigned before the error and later programs behave as if the failed one had ended there.",
     ["programs", "histories", "fault_sequences"], "every position and kind of run-time error followed by any programs",
     "Tests that fail stop there.", [VM], [("error propagation", VM + " duckVM_executeWithIp"), ("soft reset", VM + " duckVM_softReset")],
     ["status, trace, globals, later outcomes"], "Stateful histories with planted faults against the reference interpreter.")
prop("V02", "Host callbacks can call back into the machine",
     "A C callback may call any function value with arguments, to any nesting depth, may allocate and may collect garbage: the called function's result is returned, the caller's stack, upvalues and code are undisturbed and errors inside propagate outward.",
     ["programs", "histories"], "every nesting of program -> callback -> program calls with collections in between",
     "Tests call back at most one level without collections.", [VM], [("duckVM_call", VM)],
     ["values and trace"], "Generated re-entrant programs against the reference interpreter.")
prop("V03", "The C stack interface moves and edits values faithfully",
     "Through the C interface, pushing, copying, popping, inspecting and building booleans, integers, floats, strings, symbols, types, composites, lists and vectors changes exactly the documented stack slots and structures and returns the stored values; misuse (wrong type, index out of range) returns an error and changes nothing.",
     ["histories", "inputs"], "every sequence of interface calls on any stack",
     "Tests call a few interface functions from one callback.", [VM, "duckVM.h"], [("stack interface", VM + " duckVM_push*, duckVM_copy*, duckVM_set*")],
     ["stack contents after each call"], "Model-based call sequences; functions with recorded defects are listed as known findings.")
prop("V04", "The host's extensions of the compiler take part as its own parts do",
     "A parser action runs exactly once on every form, in code or quoted data, that begins with its name, after those inside it, and the form it leaves is what is compiled; a generator compiles the forms that begin with its name in place of the compiler; C functions and globals the host adds are known to every later load. A name stands for what it was last registered as, other names are unaffected, and a refusal by the host rejects the load and leaves the session usable.",
     ["inputs", "histories"], "every set of extensions, every program using them and every order of registrations and loads",
     "No test registers an action or generator.", ["parser.c", DL, GEN, VM], [("runAction", "parser.c"), ("registration", DL + " duckLisp_addParserAction, duckLisp_addGenerator, duckLisp_linkCFunction, duckLisp_addGlobal"), ("dispatch", DL + " duckLisp_compile_expression")],
     ["order of actions", "value and callback trace of the loaded program"], "Generated programs rewritten into what the extensions undo; model of the parser and reference interpreter as oracles.")
prop("V05", "The host can call a program's functions after the program has ended",
     "A function value in a global or on the stack, whether closure, wrapped by composites, or a C function, can be called by the host at any time with any arguments it pushes, and acts as a call from a program would: same result, effects and errors, with the variables it captured and the globals as they are then. What lies below the function on the stack is untouched, and collections, further loads and resets in between change nothing else.",
     ["programs", "histories", "configurations"], "every history of loads, host calls, collections and resets",
     "No test calls a function from outside.", [VM], [("duckVM_call", VM + " duckVM_call"), ("globals", VM + " duckVM_pushGlobal duckVM_setGlobal")],
     ["results, traces, stack contents"], "Histories of loads and host calls against the reference interpreter.")
prop("M01", "Balanced sessions leak nothing and never touch freed memory",
     "A session whose loads and executions succeed gives back every allocation when it is shut down, in every configuration, and no history of loads, executions, errors, resets and collections accesses memory outside live allocations.",
     ["histories", "configurations"], "every history ending in shutdown",
     "Tests run without leak accounting.", [VM, DL, GEN, INF, "DuckLib/memory.c"], [("ownership of compile state", DL), ("shutdown", VM + " duckVM_quit")],
     ["allocation accounting after shutdown", "sanitizer reports"], "Histories under AddressSanitizer with counted allocations; leaks on failed compilations are documented by the project and not claimed.")
prop("D01", "Dynamic arrays behave like sequences",
     "Any sequence of operations on the library's dynamic arrays (pushing and popping one or many elements, reading and writing the top or any index, clearing, shutting down and initialising again) leaves the contents and length a mathematical sequence would have, whatever the element size and resize strategy and whatever other arrays do. Popping more than there is and accesses outside of the array are reported as errors and change nothing.",
     ["histories"], "every operation sequence, element size and strategy", "No test exercises the library directly.",
     ["DuckLib/array.c"], [("growth and shrink", "DuckLib/array.c")], ["contents after every operation"], "Model-based against std::vector.")
prop("D02", "The trie is a map from byte strings to numbers",
     "Any sequence of insertions (of new keys, or of new values for old keys) leaves a trie answering every lookup exactly as a map would, for keys that are empty, prefixes of each other, share prefixes, contain any byte, or are absent.",
     ["histories"], "every sequence of operations over any keys", "No test exercises the library directly.",
     ["DuckLib/trie.c"], [("node insertion", "DuckLib/trie.c")], ["every lookup after every operation"], "Model-based against std::map.")
prop("D03", "The allocator hands out disjoint memory and keeps its contents",
     "Whatever the sequence of allocations, resizes and frees and whichever fit strategy, the blocks DuckLib's allocator hands out lie inside the pool, are aligned, never overlap each other or its own table, and keep their contents across resizes of themselves and others. A request that fails changes nothing and fails only for want of memory; freed memory becomes available again, the strategy chooses the chunk its name says, pointers that are no blocks are refused, and the reported usage is that of the live blocks and the table.",
     ["histories", "configurations"], "every sequence of operations, size and strategy, to exhaustion", "No test exercises the library directly.",
     ["DuckLib/memory.c"], [("block list", "DuckLib/memory.c")], ["addresses and contents of live blocks"], "Model-based with filled blocks; exhaustion is a legal answer only when justified.")
prop("D04", "Sorting and string conversion helpers are correct",
     "Each sorting function yields an ordered permutation for every array, element size and consistent comparison, and touches nothing outside of the range it is given. Conversions between numbers and text, comparison, copying (also of overlapping ranges) and clearing of bytes and character classes agree with their mathematical definitions, and malformed numbers are reported.",
     ["inputs"], "every array, comparison and string", "No test exercises the library directly.",
     ["DuckLib/sort.c", "DuckLib/string.c"], [("quicksort", "DuckLib/sort.c"), ("string conversions", "DuckLib/string.c")], ["results"], "Oracles: std::sort multiset equality and order; strtoll/strtod.")

KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
sel = [p for p in P if p["id"] in impl]
open("properties.jsonl", "w").write("".join(json.dumps({k: p[k] for k in KEYS}, ensure_ascii=False) + "\n" for p in sel))
m = dict(version=1, setup_cmd="./build.sh",
         checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                      technique="property-based testing (generated cases against an explicit oracle, shrinking, replay files)", level="exploration",
                      level_note=p["note"] + " Covers only what was generated; no claim of absence.") for p in sel],
         not_applicable=[],
         notes="Every check builds four configurations of duck-lisp with AddressSanitizer and UBSan from /repo's working tree, then runs generated cases in forked workers. './check.sh ID quick --replay FILE' re-runs a saved case.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print("implemented:", [p["id"] for p in sel], "missing:", [p["id"] for p in P if p["id"] not in impl], "unlisted:", sorted(impl - {p["id"] for p in P}))
for p in sel:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
