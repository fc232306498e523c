#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Concurrent property access on one object is linearizable",
 "When several threads read, write and delete properties of the same object at the same time, every operation behaves as if it took effect at one instant between its call and its return, in some order consistent with each property's history: no written value is lost, duplicated, resurrected after deletion or attributed to another key, and no value is ever read that nobody wrote. This holds also while the object's internal storage is being grown or reorganised by one or more of the threads, and every operation completes.",
 ["schedules", "histories"], "every interleaving of the threads' operations, every assignment of reads/writes/deletes to threads, every point at which storage growth starts",
 "Tests run a few stress loops on real cores and sample a vanishing fraction of interleavings; the dangerous windows are a few instructions wide and only exist while a table migration is in flight.",
 ["core/kos_object.c", "inc/kos_object.h", "inc/kos_atomic.h"],
 [("lock-free hash table with tombstone/reserved/closed markers and cooperative copy", "core/kos_object.c"),
  ("get/set/delete property", "core/kos_object.c: KOS_get_property, KOS_set_property, KOS_delete_property")],
 "return values of property reads/writes/deletes and the final property set")

prop("C02", "Concurrent element access and push on one array never corrupts it",
 "When several threads push to, read, overwrite, compare-and-swap or fill the same array at the same time, each pushed value ends up at exactly one distinct index, the size equals the number of elements pushed plus the initial size, a compare-and-swap succeeds only if the element held the expected value at that instant, and an overwritten element afterwards holds one of the values written last to it. No read ever returns a value that was never stored in the array, also while the array is being reallocated.",
 ["schedules", "histories"], "every interleaving of pushes, reads, writes, compare-and-swaps, fills and reserves issued by 2-3 threads, with the reallocation happening at any point",
 "Stress tests sample interleavings; losing an element needs a preemption inside a few-instruction window of the reallocation protocol.",
 ["core/kos_array.c", "inc/kos_array.h", "inc/kos_atomic.h"],
 [("buffer migration with per-slot closing and cooperative copy", "core/kos_array.c"), ("index reservation by CAS on size", "core/kos_array.c: KOS_array_push")],
 "return values and final contents of the array")

prop("C03", "Concurrent appends to a byte buffer get disjoint regions",
 "When several threads append room to the same byte buffer at the same time, each append is given its own contiguous region of exactly the requested size, the regions never overlap, their union together with the old contents is exactly the final buffer, and contents stored before the concurrent appends started are preserved. This holds also if some appends cause the buffer's storage to be reallocated.",
 ["schedules", "histories"], "every interleaving of appends and reserves by 2-3 threads",
 "The tests' threads rarely collide inside the reallocation window; an overlap appears only for specific interleavings.",
 ["core/kos_buffer.c", "inc/kos_buffer.h"], [("size reservation by CAS and storage replacement", "core/kos_buffer.c: KOS_buffer_make_room, KOS_buffer_reserve")],
 "pointers/offsets returned for each append and final bytes")

prop("C04", "Garbage collection never loses or corrupts data used by running threads",
 "Whenever any thread triggers a garbage collection, with other threads at arbitrary points of allocating, reading and writing objects, entering or leaving blocking calls, starting or finishing, every object still reachable from any thread keeps its identity and contents, all threads eventually continue, and at most one collection runs at a time. A thread leaving a blocking section never touches objects while a collection moves them.",
 ["schedules", "histories"], "every interleaving of a collection with other threads' allocation, suspension, resumption, registration and unregistration",
 "The protocol's errors appear only when a thread reaches a safepoint, suspends or registers inside narrow windows of the collector's phase changes.",
 ["core/kos_heap.c", "core/kos_instance.c", "inc/kos_instance.h"],
 [("stop-the-world handshake", "core/kos_heap.c: KOS_collect_garbage, stop/resume of threads"), ("suspend/resume", "core/kos_heap.c: KOS_suspend_context, KOS_resume_context")],
 "contents of live objects after collection, termination")

prop("C05", "A thread's result is delivered exactly, whatever the schedule",
 "A function started asynchronously runs exactly once with exactly the given `this` and arguments; waiting for it blocks until it has finished and then yields the value it returned or rethrows the exception it threw, no matter how the threads are scheduled, and waiting a second time or from the thread itself is refused with an exception rather than hanging or crashing. Starting more threads than the limit is refused with an exception, finished threads free their slot, and shutting the interpreter down waits for running threads without deadlock or use of freed memory.",
 ["schedules", "histories"], "every interleaving of creator, child, waiter and shutdown",
 "Lifecycle hand-over windows (finish versus join versus dispose) are only a few instructions wide.",
 ["core/kos_threads.c", "core/kos_instance.c", "modules/kos_mod_base.c"],
 [("thread slots, flags and reference counts", "core/kos_threads.c"), ("async/wait", "modules/kos_mod_base.c")],
 "values returned by wait, exceptions, process termination")

prop("C06", "Mutexes, semaphores, queues and stacks synchronise correctly",
 "Between acquiring and releasing a mutex a thread is alone; a semaphore never lets more units be acquired than were initially present plus released, never goes negative, and never leaves a waiter blocked forever although enough units are available. A thread-safe queue hands out every pushed element exactly once in first-in first-out order and a thread-safe stack hands out every pushed element exactly once, with blocked consumers always woken when elements arrive.",
 ["schedules", "histories"], "every interleaving of producers and consumers / lock holders",
 "Lost wake-ups and exclusion failures need a specific interleaving between checking a value and going to sleep.",
 ["modules/kos_mod_threads.c", "modules/threads.kos", "core/kos_threads.c"],
 [("semaphore acquire/release", "modules/kos_mod_threads.c"), ("queue/stack", "modules/threads.kos"), ("mutex/condvar wrappers", "core/kos_threads.c")],
 "order and multiset of elements received, absence of deadlock")

prop("G01", "Garbage collection is invisible to the program, wherever it happens",
 "For any program, the values it computes, the output it prints and the exceptions it throws are the same no matter at which of its allocations garbage collections happen (never, at any single one, or at all of them), because a collection keeps every reachable object intact and updates every reference to moved objects. Objects that became unreachable are eventually reclaimed, so a program whose live data stays small never runs out of memory.",
 ["programs", "crash_points"], "every allocation point of every program in the enumerated corpus as the moment at which a moving collection happens",
 "A missing root is harmless unless a collection happens exactly at the one allocation while the reference is only held unregistered.",
 ["core/kos_heap.c", "core/kos_vm.c", "modules/kos_mod_base.c", "core/kos_utils.c", "core/kos_string.c"],
 [("mark/evacuate/update", "core/kos_heap.c"), ("tracked locals", "inc/kos_instance.h")], "program output")

prop("G02", "Allocation failures surface as clean errors, never as corruption",
 "If any single memory allocation or system resource request fails, at whatever point of loading, compiling or executing a program, the interpreter reports an error (an exception the program can catch, or a failed load) and does not crash, hang, leak memory or silently produce a wrong result. After the failure the interpreter remains usable and can be shut down cleanly, and the same operation retried without failures gives its normal result.",
 ["fault_sequences", "programs"], "every index k of the failing request, for every program of the corpus",
 "Tests stop after a couple of hundred failure points and do not check leaks, state after failure or retried results.",
 ["core/kos_malloc.c", "core/kos_misc.c", "core/kos_heap.c", "core/kos_module.c", "core/kos_instance.c"],
 [("allocation wrappers and failure points", "core/kos_malloc.c, core/kos_misc.c"), ("error paths", "core/*.c, modules/*.c")], "exit status, output, memory checker")

prop("L01", "Arithmetic, bitwise and comparison operators follow the language definition",
 "For every pair of operand values and every operator, the result equals the documented one: 64-bit two's complement integers that wrap, truncating integer division and remainder with exceptions on division by zero, IEEE double arithmetic when one operand is a float, shift counts of any size and sign, bitwise operators on converted integers, string concatenation, ordering and equality across types, and conversion between types. Operands of unsupported types give an exception and no operator ever crashes the interpreter.",
 ["inputs", "programs"], "all operand pairs from a boundary-covering value set times all operators, in every operand form (literal, variable, property, compound assignment)",
 "Tests check a few dozen pairs; errors hide at boundary combinations such as minimum integer by minus one or shift by 64.",
 ["core/kos_vm.c", "core/kos_compiler_optim.c", "core/kos_utils.c"],
 [("operator instructions", "core/kos_vm.c"), ("constant folding", "core/kos_compiler_optim.c")], "printed value and type")

prop("L02", "Compile-time optimisation never changes what a program does",
 "For every expression and statement, the behaviour with operands known at compile time is the same as with the same operands only known at run time: same value, same type, same exception, same side effects in the same order. Unreachable-code elimination, constant propagation, dead variable removal and branch simplification never drop an observable effect and never make a valid program fail. (Two documented liberties: an operation on constants which is certain to throw may be rejected at compile time, and a multi-assignment none of whose targets is used may skip its extraction.)",
 ["programs", "inputs"], "all programs of bounded size built from literals, constants, variables, operators, conditionals, loops and calls with side effects",
 "The space of literal/operator/branch combinations that trigger a rewrite is combinatorial; tests sample some.",
 ["core/kos_compiler_optim.c", "core/kos_compiler.c", "core/kos_compiler_vars.c"],
 [("AST rewriting", "core/kos_compiler_optim.c")], "trace of effects and result")

prop("L03", "Control transfer runs every handler and deferred block exactly once in order",
 "For any nesting of loops, switch, conditionals, try/catch, defer and with blocks, and any placement of return, throw, break and continue in them, statements execute in the order the language defines: each deferred or released resource runs exactly once when its scope is left by any route, an exception goes to the innermost enclosing handler with its value intact, and the function returns exactly the value (or throws the exception) that won. Exceptions record the lines at which the active calls were executing.",
 ["programs"], "all programs up to a nesting depth over the control statements, with all placements of transfers",
 "Nesting combinations grow exponentially; miscompiled jumps only show for particular nestings.",
 ["core/kos_compiler.c", "core/kos_compiler_optim.c", "core/kos_vm.c", "core/kos_parser.c"],
 [("catch/finally code generation", "core/kos_compiler.c"), ("unwinding", "core/kos_vm.c")], "trace of executed statements and final result")

prop("L04", "Every call binds its arguments as declared",
 "For every function signature (required, defaulted, ellipsis and unused parameters, few or many) and every call form (positional, named, spread through apply, method call, constructor, asynchronous), each parameter receives exactly the argument the language assigns to it, defaults are used exactly for missing ones, surplus arguments go to the ellipsis in order or are ignored, and missing or unknown arguments give an exception. `this` is the object the call was made on.",
 ["programs", "inputs"], "all signatures up to a bounded number of parameters times all call shapes up to a bounded number of arguments",
 "Argument passing switches strategy with the number of parameters, registers and closures; tests sample few combinations.",
 ["core/kos_vm.c", "core/kos_compiler.c", "core/kos_compiler_args.c", "core/kos_utils.c"],
 [("argument binding", "core/kos_vm.c"), ("argument optimisation", "core/kos_compiler_args.c")], "values seen by callee")

prop("L05", "Lexical scoping, closures and constants behave as declared",
 "An identifier always denotes the innermost enclosing declaration; each activation of a function has its own variables (loop iterations of one activation share them), shared by all closures created in it and surviving its end, so an assignment through one closure is seen by all others and by nobody else. Programs that redefine, use undeclared, or assign constant variables are rejected before any of their code runs, and all other well-formed programs are accepted.",
 ["programs"], "all nestings of scopes/functions/loops up to a depth with declarations, captures and assignments in every position",
 "Variable allocation (register, captured, argument, global, constant-propagated) is decided by whole-program analysis; combinations are too many to hand-test.",
 ["core/kos_compiler_vars.c", "core/kos_compiler.c", "core/kos_compiler_optim.c", "core/kos_vm.c"],
 [("variable resolution", "core/kos_compiler_vars.c"), ("closure binding", "core/kos_compiler.c")], "values printed, compile errors")

prop("L06", "Generators resume exactly where they stopped",
 "A generator produces exactly the sequence of values its body yields, receives the values passed in, keeps its local state between resumptions independently of other generators and of the stack it is resumed from, finishes exactly once, and signals its end as documented; exceptions propagate to the resumer and end the generator. A running generator that is re-entered, by itself or from another thread, is refused with an exception and is never run twice at once; iteration loops visit every element exactly once in order.",
 ["programs", "histories", "schedules"], "all interleavings of resumptions of several generators with bodies of bounded size",
 "Sequences of resume/yield/throw/finish across generators form an exponential history space.",
 ["core/kos_vm.c", "core/kos_stack.c", "modules/base.kos", "modules/iter.kos"],
 [("generator states", "core/kos_vm.c"), ("reentrant stacks", "core/kos_stack.c")], "sequence of values and exceptions")

prop("L07", "Source text is tokenised and parsed to what the grammar says",
 "Every numeric and string literal denotes exactly the value the grammar assigns to it (all bases, separators, exponents, escapes, raw and interpolated strings), operators associate and bind as documented, line breaks end statements only where the grammar says so, and any text that does not conform is rejected with an error position, never accepted with another meaning. No input text, however malformed, crashes or hangs the compiler.",
 ["inputs", "programs"], "all token sequences up to a length, all literals over a boundary alphabet up to a length",
 "The input space is all strings; tests list a few hundred.",
 ["core/kos_lexer.c", "core/kos_parser.c", "core/kos_utils.c"], [("lexer tables", "core/kos_lexer.c"), ("recursive descent parser", "core/kos_parser.c"), ("number parsing", "core/kos_utils.c / kos_misc.c")],
 "value printed, error raised")

prop("L08", "Objects, classes and prototypes resolve members as documented",
 "Reading a property finds the nearest definition along the prototype chain, writing and deleting affect only the object itself (unless an accessor is defined), and instance tests follow the chain; constructors create objects with the right prototype, call base constructors, and methods see the right receiver. Enumeration of shallow and deep properties lists each visible property exactly once.",
 ["programs", "histories"], "all operation sequences up to a depth on small prototype forests",
 "Histories of set/delete/override along chains are exponential.",
 ["core/kos_object.c", "core/kos_vm.c", "modules/kos_mod_base.c", "modules/base.kos"], [("property lookup", "core/kos_object.c"), ("class creation", "core/kos_compiler.c, core/kos_vm.c")], "values read, keys listed")

prop("L09", "Assignments take effect after their right side was evaluated left to right",
 "In every assignment, whatever the kind of variable or target and the form of the expression, the operands are evaluated from left to right, each exactly once, and see the value the target had before the assignment; the target receives the complete value afterwards. If the evaluation throws, the target keeps its previous value. The same holds for expressions which are returned, yielded, thrown, passed or used in compound and multiple assignments.",
 ["programs"], "all expressions up to a nesting over all expression forms, with effects, failures and reads or writes of the target in every operand position, for every kind of target",
 "The compiler keeps variables in registers and builds many expressions directly in the target's register, so the errors need a particular form, kind of variable and failing or self-referring operand.",
 ["core/kos_compiler.c"], [("register allocation of expressions", "core/kos_compiler.c: assignment, gen_array, object_literal, invocation")], "trace of calls, value of the target")

prop("D05", "Number text converts both ways to the nearest value",
 "Text of a number, in source code or converted at run time, denotes exactly the integer it spells in any base, or the nearest double (to within one unit in the last place); numbers which do not fit and malformed numbers are rejected. A number converted to text and back gives the same integer, or the same float to the 15 decimals which are printed, for all magnitudes.",
 ["inputs"], "all digit strings up to a length per base, all mantissa and exponent classes with all roundings around powers of two, all exponents of the double format",
 "Rounding, carry and overflow errors only happen at a few boundary values of each exponent.",
 ["core/kos_misc.c", "modules/kos_mod_base.c"], [("number parser", "core/kos_misc.c: kos_parse_numeric"), ("number printer", "core/kos_misc.c: kos_print_float")], "parsed numbers, printed text")

prop("D01", "Strings behave as immutable sequences of code points",
 "Every string operation (indexing, slicing, concatenation, repetition, search, comparison, case conversion, splitting, stripping, justification, conversion) gives the result defined on the sequence of Unicode code points, independently of how the string is stored internally (code unit width, reference into another string, or concatenation history). Equal strings hash and compare equal, and ordering is by code point.",
 ["inputs", "histories"], "all strings up to a length over an alphabet spanning the storage widths, all index pairs, all ways of constructing the same string",
 "Each operation has separate code per width pair and representation; tests cover few of the combinations.",
 ["core/kos_string.c", "core/kos_utils.c", "modules/kos_mod_base.c", "modules/base.kos"], [("width-specific code paths", "core/kos_string.c")], "resulting strings")

prop("D02", "Arrays and buffers follow their sequence model under any operation history",
 "After any sequence of element writes, pushes, pops, inserts, replacements, slices, fills, resizes and reserves, with any combination of positive, negative, omitted and out-of-range indices, an array or byte buffer holds exactly the sequence the documented operations produce, and a rejected operation leaves it unchanged. Packing and unpacking binary data are mutually inverse and produce the documented byte layout for every format.",
 ["histories", "inputs"], "all operation sequences up to a depth with all index classes",
 "Index normalisation and reallocation interact with history; tests sample few sequences.",
 ["core/kos_array.c", "core/kos_buffer.c", "modules/kos_mod_base.c", "modules/base.kos"], [("insert/resize/rotate", "core/kos_array.c"), ("pack/unpack", "modules/kos_mod_base.c")], "contents after each step")

prop("D03", "Sorting yields a stable ordered permutation",
 "Sorting an array, in place or not, ascending or descending, with any key function, yields a permutation of the original elements ordered by their keys with the `<` operator; ascending order keeps the original relative order of elements with equal keys, and descending order is exactly the reverse of ascending order. The key function is called exactly once per element, in order (arrays with fewer than two elements need no keys). If the key function throws, the exception propagates and the array is unchanged; a key function which changes the array cannot crash the interpreter, nor can the length or initial order of the array. Read-only arrays are refused.",
 ["inputs"], "all arrays up to a length over small key alphabets, all direction/key options, all positions of a throwing key",
 "Errors show only for specific patterns of equal keys and sizes around algorithm thresholds.",
 ["modules/kos_mod_base.c", "modules/base.kos"], [("sort", "modules/kos_mod_base.c: array sort")], "resulting arrays")

prop("D04", "UTF-8 decoding and encoding are exact inverses and reject malformed input",
 "Every sequence of code points survives encoding to bytes and decoding back, every well-formed UTF-8 byte sequence decodes to the code points the standard assigns, and malformed sequences (missing or stray continuation bytes, truncated sequences, bytes which cannot start a sequence, values out of the range of the encoding) are rejected with an exception wherever text enters the system: source code, files, buffers and command line. (Longer than necessary three and four byte forms, and the contents of comments, are not judged.) The number of bytes computed in advance always equals the number of bytes produced.",
 ["inputs"], "all byte sequences up to length 4 over class representatives, all code points, all positions",
 "There are 2^32 four-byte sequences; tests use a handful.",
 ["core/kos_utf8.c", "core/kos_string.c", "core/kos_lexer.c"], [("decoder/encoder", "core/kos_utf8.c")], "decoded code points or exception")

prop("M01", "Regular expression search agrees with leftmost backtracking semantics",
 "For every supported pattern and every subject string, search finds a match if and only if one exists, reports the leftmost one with the backtracking-preference extent, and reports the correct bounds of every capture group; start/end arguments restrict the search as documented. Invalid patterns are rejected with an exception and no pattern makes the matcher crash or read outside the string.",
 ["inputs"], "all patterns up to a size over the operator set times all subjects up to a length",
 "Pattern-subject pairs form an exponential space; backtracking bugs need specific nesting of repetition, alternation and groups.",
 ["modules/kos_mod_re.c", "modules/re.kos"], [("pattern compiler and backtracking matcher", "modules/kos_mod_re.c")], "match bounds and groups")

prop("M02", "JSON text and values convert both ways without loss",
 "Every value made of objects, arrays, strings, 64-bit integers, finite floats (to 15 decimals), booleans and void serialises to text that is valid JSON and parses back to an equal value; every valid JSON text whose numbers fit parses to the value the JSON standard assigns and every invalid text is rejected with an exception (redundant commas, comments and wider white space are tolerated as extensions). This includes all escapes, surrogate pairs and nesting as deep as the interpreter's stack allows.",
 ["inputs"], "all JSON token sequences up to a length and all values up to a size",
 "The grammar's language is infinite; tests list some documents.",
 ["modules/json.kos"], [("parser and serialiser", "modules/json.kos")], "parsed values, produced text")

prop("M03", "File input and output transfer exactly the bytes requested",
 "For any sequence of open, read, read line, write, print, seek, resize and close operations, the file contents, positions, end-of-file indication and returned data are those of a byte-sequence model, also when the operating system shortens individual transfers; a transfer which fails or is interrupted gives an exception and never passes for success. Operations on a closed file are refused, and text lines are returned whole whatever their length.",
 ["histories", "fault_sequences"], "all operation sequences up to a depth and all placements of short or failed system transfers",
 "Short and interrupted transfers do not occur in ordinary test runs.",
 ["modules/kos_mod_io.c", "modules/io.kos"], [("file object", "modules/kos_mod_io.c")], "data read and file contents")

prop("M04", "Modules load exactly once and expose exactly their public names",
 "Importing a module runs its body exactly once, before the importing module's body, whatever the import graph; importers see exactly its public names with shared current values; a cyclic import is reported as an error, and a module that fails to load raises an exception naming the cause and can be tried again without corrupting the modules already loaded. Search order of module paths is respected.",
 ["configurations", "programs"], "all import graphs up to a number of modules, with all placements of failures and import forms",
 "Graph shapes and failure placements multiply; tests have a few.",
 ["core/kos_module.c", "core/kos_instance.c", "core/kos_compiler.c"], [("module loading", "core/kos_module.c")], "order of printed effects, visible names, exceptions")

prop("M05", "Iteration utilities compute their documented sequences",
 "The lazy iteration functions (ranges, map, filter, reduce, zip, enumerate, product, cycle, repeats, reverse, slices, first, last, count, any, all, sum, join and others) produce exactly the documented sequence for any finite input iterable, bounds, step and callback, evaluate the callback once per element in order, consume no more input than needed, and terminate exactly when the sequence ends.",
 ["inputs", "programs"], "all inputs up to a length from small alphabets, all bound/step combinations in a range covering signs and zero",
 "Boundary combinations (empty input, zero or negative step, unequal lengths) multiply.",
 ["modules/base.kos", "modules/iter.kos", "modules/math.kos"], [("generator functions", "modules/base.kos, modules/iter.kos")], "sequence of values")

prop("M06", "Calendar conversion is exact and rejects impossible dates",
 "For every timestamp from 1970 on, the calendar fields (year, month, day, hour, minute, second, microsecond, leap flag) are those of the proleptic Gregorian calendar in UTC, and constructing a date from fields gives back exactly that timestamp; any combination of fields that is not a real date or time is refused with an exception.",
 ["inputs"], "every day of several 400-year cycles and every boundary second of the day; every field combination at month ends",
 "Off-by-one errors appear only on particular days (leap days, century ends, year boundaries).",
 ["modules/datetime.kos"], [("day/year arithmetic", "modules/datetime.kos")], "fields and timestamp of the created object")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
