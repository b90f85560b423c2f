#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (both are committed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None, hook=None, level="exploration"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, note, level))

L = "src/lib/"
SAN = "AddressSanitizer and UndefinedBehaviorSanitizer builds of the real library (a hook gives each heap object its own malloc block)"

prop("C01", "Running any program never corrupts memory or has undefined behaviour",
  "Whatever Noja source or bytecode is run, and whenever garbage collections happen during it, the interpreter never reads or writes memory it doesn't own, never uses a dead object and never has undefined behaviour. The run always ends by completing, by reporting an error or by being stopped by the embedder; it never crashes.",
  ["programs", "inputs", "schedules"], "all sources and bytecode programs, all heap sizes, all points at which a collection may happen",
  "The tests run a few dozen tiny valid bytecode programs without sanitizers and hardly ever collect; a dangling reference only exists for particular combinations of live values and collection points.",
  [L+"objects/heap.c", L+"objects/objects.c", L+"runtime.c", L+"run.c", L+"objects/o_list.c", L+"objects/o_map.c", L+"objects/o_closure.c", L+"objects/o_buffer.c"],
  [("copying collector", L+"objects/heap.c Heap_StartCollection, Heap_StopCollection, Heap_CollectReference"), ("roots of the collection", L+"runtime.c Runtime_CollectGarbage"), ("walk/walkexts methods of the types", L+"objects/o_*.c"), ("operand and type checks of the instructions", L+"run.c runInstruction")],
  "sanitizers (ASan+UBSan) over generated, hostile and mutated programs with forced collections",
  "Observed executions only. " + SAN + "; a second build keeps the shipped pool allocator. Assumes clang's sanitizers report what they instrument.",
  state=[("heap", "two semi-spaces and a list of overflow allocations", L+"objects/heap.c struct xHeap")], observe=["sanitizer reports", "process exit", "instruction callback"], hook="NOJA_VERIF makes Heap_RawMalloc use one malloc per object, so that the sanitizer sees the bounds and the lifetime of each")

prop("C02", "Garbage collection is invisible to programs",
  "A program's output, its result and its error are the same however large the heap is (as long as it's enough) and whenever the collections happen; objects keep their identity, contents and sharing across collections.",
  ["schedules", "programs", "configurations"], "all programs, all sets of points between two instructions at which a collection runs, all heap sizes that suffice",
  "A collection has to happen at the wrong point, with the relevant object reachable only in the relevant way; tests don't choose when it happens and nearly never fill the heap.",
  [L+"objects/heap.c", L+"objects/objects.c", L+"runtime.c", L+"objects/o_list.c", L+"objects/o_map.c", L+"objects/o_closure.c", L+"objects/o_buffer.c", L+"objects/o_nullable.c", L+"objects/o_sum.c"],
  [("moving objects and updating references", L+"objects/heap.c Heap_CollectReference"), ("what each type refers to", L+"objects/o_*.c walk, walkexts"), ("the frames' roots", L+"runtime.c Runtime_CollectGarbage")],
  "differential monitoring of executions under forced collection schedules, with sanitizers and the reference evaluator",
  "Each program is run without collections and under several forced schedules (up to one collection per instruction) and heap sizes; outputs must agree with each other and with the model where it covers the program.",
  observe=["stdout", "result and error", "number of collections (callback)"], hook="none besides the public callback and Runtime_CollectGarbage; NOJA_VERIF sharpens dangling references")

prop("C03", "Arithmetic, comparison and logical operators compute what is documented",
  "For every pair of operands, each operator yields the documented value (64-bit integers, doubles, mixed operands promoted to floating point, short-circuiting logic) or aborts the program with a run-time error where the operation isn't defined (overflow, division by zero, wrong types). Printed numbers denote the values computed.",
  ["inputs"], "all operators and all pairs of operand values and types, as literals, variables and results of calls",
  "The tests try each operator on one or two small values; overflow, sign, promotion and rounding boundaries are a product space.",
  [L+"run.c", L+"objects/o_int.c", L+"objects/o_float.c", L+"objects/objects.c", L+"compiler/codegen.c"],
  [("arithmetic and comparison instructions", L+"run.c do_math_op, do_relational_op, runInstruction"), ("equality", L+"objects/objects.c Object_Compare"), ("short circuit", L+"compiler/codegen.c EXPR_AND, EXPR_OR")],
  "differential monitoring against a reference evaluator over boundary, random and type-crossing operands, under UBSan",
  "Values, types and failures of every operation observed are compared with the reference model (Python integers and IEEE doubles).", observe=["stdout", "error kind"])

prop("C04", "Control flow, scoping and closures follow the language's definition",
  "For every program, the sequence of observable effects (output, final values, success or error) is the one the language definition gives: conditions select branches, loops repeat and break where they should, assignments create variables in the innermost function, reads find the innermost enclosing definition, and functions keep access to the variables of the scope they were born in.",
  ["programs"], "all programs built from statements, expressions, functions and closures",
  "The tests contain single instructions or single constructs; interactions of nesting, shadowing, closures that outlive their scope and early exits are unbounded.",
  [L+"compiler/codegen.c", L+"compiler/parse.c", L+"run.c", L+"runtime.c", L+"objects/o_closure.c"],
  [("code generation for statements", L+"compiler/codegen.c"), ("variable lookup and assignment", L+"run.c OPCODE_ASS, OPCODE_PUSHVAR"), ("closures", L+"objects/o_closure.c"), ("jumps", L+"run.c OPCODE_JUMPIFANDPOP, OPCODE_JUMPIFNOTANDPOP, OPCODE_JUMP")],
  "differential monitoring of random programs against a reference evaluator",
  "The reference evaluator walks the syntax tree and shares nothing with the implementation; its agreement was established on the order of 10^5 programs.", observe=["stdout", "result and error kind"])

prop("C05", "Calls pass, default, drop and return values as documented",
  "In every call the callee receives its arguments in order, missing ones as none (or their default, evaluated at that call), extra ones dropped; the callee's values are assigned to the targets in order, missing ones as none. Arguments, callee, defaults and targets are evaluated exactly once, in a fixed order; method calls pass the object as first argument; calling something that can't be called, or nesting calls too deep, is an error that stops the program.",
  ["programs", "inputs"], "all combinations of parameter, argument, return value and target counts, defaults, annotations, nested and method calls",
  "Counts, defaults and evaluation order multiply; tests call one-argument functions.",
  [L+"run.c", L+"compiler/codegen.c", L+"objects/objects.c", L+"runtime.c"],
  [("call instruction", L+"run.c OPCODE_CALL and the function types' call methods"), ("argument and return adjustment", L+"run.c"), ("defaults and annotations", L+"compiler/codegen.c EXPR_FUNC")],
  "differential monitoring of traced calls against a reference evaluator",
  "Evaluation order and multiplicity are observed through tracing functions.", observe=["stdout trace", "error kind"])

prop("C06", "Type annotations and istypeof decide exactly the documented relation",
  "istypeof(T, v) and parameter annotations hold exactly when v matches T, for every type, nullable, sum, list and map pattern and every value; when an annotation doesn't hold the call is aborted with a run-time error before the body runs, and otherwise the call is unaffected. type and typename agree with it.",
  ["inputs"], "all patterns (nested to any depth) and all values",
  "Patterns and values nest without bound; the tests don't exercise annotations at all.",
  [L+"objects/objects.c", L+"objects/o_nullable.c", L+"objects/o_sum.c", L+"objects/o_any.c", L+"objects/o_list.c", L+"objects/o_map.c", L+"run.c", L+"builtins/basic.c"],
  [("istypeof methods", L+"objects/o_*.c istypeof"), ("CHECKTYPE", L+"run.c"), ("istypeof, type, typename", L+"builtins/basic.c")],
  "differential monitoring against a reference matcher", "Random patterns biased towards near-matches of random values, plus the full table of plain types against plain values.", observe=["stdout", "error kind"])

prop("C07", "Maps behave as dictionaries for every history of operations",
  "After any sequence of insertions and lookups with any mix of hashable keys, a map returns for each key the value last inserted with an equal key and none for others; its count is the number of distinct keys and its keys are listed in the order of their first insertion. Unhashable keys make the insertion fail.",
  ["histories"], "all sequences of insertions, overwrites, lookups, counts, key listings on aliased and nested maps, with any keys, at any size",
  "Collisions, growth and probing depend on the whole history and on hash values; the tests insert one or two keys.",
  [L+"objects/o_map.c", L+"objects/objects.c", L+"objects/o_int.c", L+"objects/o_float.c", L+"objects/o_string.c", L+"utils/hash.c"],
  [("open addressing table over an insertion-ordered array", L+"objects/o_map.c insert, select, grow"), ("hash and equality of keys", L+"objects/o_*.c hash, op_eql")],
  "history checking of map operations against a dictionary model", "Histories of up to 150 operations plus loops to 2050 keys with strides chosen to collide; also under forced collections.", observe=["stdout of every lookup"])

prop("C08", "Lists behave as sequences for every history of operations",
  "After any sequence of operations a list holds exactly the items written to it at their positions: writing at the count appends, writing at an existing index replaces, any other index fails without changing it; reading outside it (including huge, negative and non-integer indices) yields none. Aliases of a list observe the same contents.",
  ["histories"], "all sequences of appends, writes, reads, counts on aliased and nested lists of any size",
  "Growth and index arithmetic depend on history and size; tests build lists of a couple of items.",
  [L+"objects/o_list.c", L+"objects/objects.c", L+"run.c"],
  [("list insertion, growth, selection", L+"objects/o_list.c"), ("insertion instructions", L+"run.c OPCODE_INSERT, OPCODE_INSERT2")],
  "history checking of list operations against a sequence model", "Histories with aliasing, invalid indices and growth to 3000 items; also under forced collections.", observe=["stdout"])

prop("C09", "Strings are sequences of Unicode characters and their functions agree with it",
  "Count, indexing, equality, concatenation, trimming, chr/ord, toInt and slicing give, for every string, the result its sequence of characters (or, for slicing, of UTF-8 bytes) determines, including empty strings, NUL and multi-byte characters; out-of-range or invalid requests fail or yield none and never produce ill-formed strings.",
  ["inputs"], "all strings of Unicode characters and all integer arguments",
  "The tests have no string operation beyond pushing an ASCII literal.",
  [L+"objects/o_string.c", L+"builtins/string.c", L+"utils/utf8.c", L+"compiler/parse.c"],
  [("UTF-8 decoding", L+"utils/utf8.c"), ("string object", L+"objects/o_string.c"), ("string module", L+"builtins/string.c")],
  "differential monitoring against a model on Python's str", "All UTF-8 length boundaries, random and boundary arguments.", observe=["stdout", "error kind"])

prop("C10", "Buffers are fixed windows on shared bytes, for every history",
  "A buffer holds exactly the bytes written to it; a slice made by sliceUp is the requested window of the buffer or slice it's made from, shares its bytes in both directions for as long as either lives, and can't be used to reach bytes outside the window. Out-of-range sizes, windows, indices and values are refused; conversion to a string succeeds exactly on well-formed UTF-8.",
  ["histories"], "all histories of creation, slicing (nested), reads, writes, conversions, with any integer arguments, at any collection points",
  "Windows of windows and 64-bit arguments form a large space and the tests never use buffers.",
  [L+"objects/o_buffer.c", L+"builtins/buffer.c", L+"utils/utf8.c"],
  [("payload shared with reference counting", L+"objects/o_buffer.c"), ("buffer module", L+"builtins/buffer.c")],
  "history checking against a byte-array model, under sanitizers", "Exhaustive slices of a 6 byte buffer, random histories otherwise.", observe=["stdout", "error kind", "sanitizer reports"])

prop("C11", "An error stops the program there, and is reported faithfully once",
  "When any operation fails nothing after it takes effect, what came before is kept, exactly one error is reported with its kind and message, and the stack trace lists the active calls innermost first with the lines they are at. Success is never reported with an error pending.",
  ["programs", "inputs"], "all failing operations at all places of all call nestings",
  "The tests check a handful of error messages of single instructions; where a failure happens (argument, default, method, loop, native function) multiplies.",
  [L+"run.c", L+"runtime.c", L+"utils/error.c", L+"utils/source.c", L+"executable.c"],
  [("error propagation", L+"run.c, " + L+"utils/error.c Error_Report"), ("stack trace", L+"runtime.c Runtime_PrintStackTrace"), ("instruction to source offset", L+"executable.c, " + L+"compiler/codegen.c")],
  "monitoring of injected failures at known lines: output prefix, error record, stack trace", "The expected trace is computed from the position at which the generator plants the failure.", observe=["stdout", "stderr", "Error structure"])

prop("C12", "Any text is accepted or rejected with a located error, never worse",
  "For every byte sequence given as Noja source, assembly or diagram input, the front end terminates and either produces a result or reports one error of a syntax, semantic or internal kind whose offset lies within the text. It never crashes, hangs, corrupts or leaks memory.",
  ["inputs"], "all byte strings",
  "The compiler tests are well-formed sources with two or three errors; truncations, stray bytes, deep nesting and long tokens aren't reachable by examples.",
  [L+"compiler/parse.c", L+"compiler/codegen.c", L+"assembler/assemble.c", L+"compiler/graphviz.c", L+"diagram.c", L+"utils/source.c"],
  [("tokenizer and recursive descent parser", L+"compiler/parse.c"), ("assembler scanner", L+"assembler/assemble.c"), ("nesting limits", L+"compiler/parse.c enter, leave, check_chain_length")],
  "sanitizers over mutated, truncated, random and grammar-generated texts (libFuzzer in the thorough tier)", "Observed inputs only.", observe=["sanitizer reports", "Error structure", "allocated bytes"])

prop("C13", "What a source means depends only on its tokens and the grammar",
  "Whitespace, comments, redundant parentheses and the choice of quotes never change what a program is compiled to; precedence and associativity group expressions as documented; two programs whose structure differs are not compiled to the same code.",
  ["programs"], "all programs, all layouts of each",
  "Tests have one layout per program.",
  [L+"compiler/parse.c", L+"compiler/codegen.c", L+"executable.c"],
  [("tokenizer", L+"compiler/parse.c tokenize"), ("operator precedence parser", L+"compiler/parse.c parse_expression_2"), ("code equivalence", L+"executable.c Executable_Equiv")],
  "metamorphic monitoring: random programs printed in several layouts must compile to equivalent code, altered ones must not", "Structure comes from the generator, so grouping errors show as different code or different results.", observe=["compiled code", "stdout"])

prop("C14", "Disassembly and assembly are faithful; bytecode means what its source does",
  "The textual form of any compiled program, assembled again, is the same code, and running it has the same effects as running the source. Every bytecode program either assembles to what is written or is refused.",
  ["programs", "inputs"], "all compiled programs and all bytecode texts, with all operand values",
  "The tests assemble a few instructions each; operand ranges, escapes and label layouts are unbounded.",
  [L+"executable.c", L+"assembler/assemble.c", L+"run.c", L+"utils/labellist.c"],
  [("disassembler", L+"executable.c Executable_Dump"), ("assembler", L+"assembler/assemble.c"), ("promises for forward labels", L+"utils/promise.c, " + L+"utils/labellist.c")],
  "round-trip and differential monitoring (source run vs. disassembled, reassembled run) and a model of the instruction set", "INT64_MIN and strings over 1 KB can't be written in assembly; they are outside the property.", observe=["disassembly", "stdout"])

prop("C15", "Running out of a resource is an orderly error",
  "When the heap, the call stack, the frame's stack, the argument or return slots or the nesting limits are exhausted, the program stops with an error after a prefix of its output and the process survives, whatever point the exhaustion happens at; with enough of each the program runs unaffected. Strings, buffers, lists and heaps too big for the interpreter's counters are handled exactly or refused.",
  ["fault_sequences", "configurations", "programs"], "all programs, every heap size from zero up, every depth and count around the limits",
  "Exhaustion can happen at any allocation; tests never reach a limit.",
  [L+"objects/heap.c", L+"runtime.c", L+"run.c", L+"compiler/parse.c", L+"compiler/codegen.c"],
  [("bounds of the heap", L+"objects/heap.c Heap_RawMalloc"), ("stack bounds", L+"runtime.c Runtime_Push, Runtime_PushFrame"), ("limits", L+"defs.h, " + L+"compiler/parse.c")],
  "fault injection by sweeping heap sizes and limits, with sanitizers, output-prefix and leak monitors", "Every heap size in a range is tried for each program of a corpus (step in the quick tier).", observe=["stdout prefix", "error kind", "sanitizer reports", "allocated bytes"])

prop("C16", "Everything a runtime acquired is released, exactly once",
  "After a runtime is freed all the memory, files and directories its programs acquired are released, however the run ended (normally, with an error, out of heap, interrupted, refused by the compiler) and whenever collections happened; nothing is released while it's still usable or twice.",
  ["histories", "fault_sequences"], "all programs, all ways of ending, all collection points",
  "A leak or double release has no visible effect in a test that prints the right answer.",
  [L+"objects/heap.c", L+"runtime.c", L+"objects/o_file.c", L+"objects/o_dir.c", L+"objects/o_buffer.c", L+"executable.c", L+"run.c"],
  [("destructors of heap objects", L+"objects/heap.c Heap_SetDestructor, Heap_Free"), ("reference counted executables and sources", L+"executable.c, " + L+"utils/source.c"), ("payload reference count", L+"objects/o_buffer.c")],
  "resource accounting (allocated bytes, open descriptors) around executions, with AddressSanitizer", "Exact byte accounting through the sanitizer allocator; descriptors through /proc/self/fd.", observe=["allocated bytes", "/proc/self/fd"])

prop("C17", "File operations read and write exactly what they report",
  "For every history of opening, reading, writing and listing in any mode, the bytes read and the files' contents after the run are those a file model gives, counts returned are the bytes moved, requests larger than the buffer are limited to it, and failures to open are returned as none with a message. Only the requested paths are touched.",
  ["histories", "inputs"], "all histories of operations on several files and directories, all modes and counts",
  "No test opens a file.",
  [L+"builtins/files.c", L+"objects/o_file.c", L+"objects/o_dir.c"],
  [("files module", L+"builtins/files.c"), ("file and directory objects", L+"objects/o_file.c, " + L+"objects/o_dir.c")],
  "history checking against a file-system model, in scratch directories", "Contents are compared after the process ends.", observe=["stdout", "files on disk"])

prop("C18", "Network calls deliver the bytes in order and report failures",
  "A program that creates a socket, binds it to a local address, listens and accepts can be connected to at that address; recv yields exactly the bytes the peer sent and the peer gets exactly the bytes passed to send: complete, in order, unaltered, never more than the buffer holds or the count requested, with the counts returned being the bytes moved (0 when the peer has closed). Failures (address in use or invalid, bad descriptor, peer that reset, invalid argument) are returned to the script with a message, without killing it.",
  ["histories", "fault_sequences"], "all exchanges over loopback connections, all chunk sizes, peers closing at any point",
  "No test uses the network.",
  [L+"builtins/net.c"], [("net module", L+"builtins/net.c")],
  "recorded exchanges with a scripted peer over loopback, checked for conservation and order", "Loopback only.", observe=["bytes at the peer", "stdout"])

prop("C19", "A running program can be stopped promptly at any instruction",
  "Wherever in its execution a program is asked to stop (by the embedder's callback, by an interrupt, or by SIGINT/SIGTERM to the command), it stops without executing further instructions, reports an error, has output a prefix of what it would have, and leaves the runtime in a state that can be released without leaks.",
  ["schedules", "fault_sequences"], "all programs, all points of their execution, both kinds of request",
  "The point of the request ranges over every instruction; no test interrupts anything.",
  [L+"run.c", L+"runtime.c", "src/cli/main.c"], [("callback before each instruction", L+"run.c"), ("interrupt flag", L+"runtime.c Runtime_Interrupt"), ("signal handlers", "src/cli/main.c")],
  "fault injection at every instruction index, with output-prefix, error and leak monitors; signals to the real command", "Sweeps all instruction indices of each program (capped).", observe=["stdout", "error kind", "instruction count"])

prop("C20", "The standard functions keep their contracts on every value",
  "toString is the documented textual form of any value (recursively, honouring toString methods), abs, min, max, append, isCallable and integer/string conversions are correct on every argument they accept and abort on those they don't, and iterators visit every item of a collection once, in order. A library has exactly its documented members, selected only by their names.",
  ["inputs"], "all values", "No test calls them.",
  [L+"builtins/start.noja", L+"builtins/basic.c"], [("prelude", L+"builtins/start.noja")],
  "differential monitoring against a reference model", "Floats are compared with a tolerance of 0.011 because the prelude truncates to two decimals.", observe=["stdout", "error kind"])

prop("C21", "Executions are deterministic and independent of one another",
  "The effects of a program depend only on the program, its input and the configuration: running it again, in the same process, in another runtime, in the middle of another runtime's execution, or in another thread with its own runtime, gives the same output and result, and doesn't disturb the other one.",
  ["schedules", "histories"], "all pairs of programs, all interleavings of their instructions, repeated runs",
  "Shared mutable state only shows when two runtimes interleave; the tests use one runtime per process.",
  [L+"runtime.c", L+"run.c", L+"objects/heap.c", L+"builtins/basic.c", L+"utils/error.c"], [("all state hangs off the Runtime", L+"runtime.c")],
  "race detection (ThreadSanitizer) and interleaved executions compared with isolated ones", "random.* shares the C library's generator by design and is excluded. Runtimes of different threads are set up one at a time, before they run concurrently (registering the modules fills tables that are shared).", observe=["stdout per runtime", "TSan reports"])

prop("C22", "Importing a file runs it once per import and yields its result",
  "import evaluates the named file in a fresh global scope, returns what it returns (or its variables as a map), and its effects are those of running that file; failures in the imported file (missing, invalid, failing) stop the importer with an error that names it. Running a file and running its text are equivalent.",
  ["programs", "histories"], "all programs split over files, all import graphs within the call depth", "No test imports.",
  [L+"builtins/basic.c", L+"run.c", L+"runtime.c", L+"utils/path.c", L+"utils/source.c"], [("import", L+"builtins/basic.c bin_import"), ("running files", L+"run.c runFileEx")],
  "differential monitoring of split programs against the reference evaluator", "Import by relative path, in nested directories.", observe=["stdout", "error", "stack trace"])

prop("C23", "Profiling doesn't change behaviour and counts calls exactly",
  "A program run with profiling enabled has the same output and result as without, and the profile reports each function of the program that was called with the exact number of calls.",
  ["programs"], "all programs", "No test profiles.",
  [L+"timing.c", L+"runtime.c", L+"objects/o_closure.c", "src/cli/main.c"], [("timing table", L+"timing.c"), ("profile report", L+"runtime.c Runtime_SerializeProfilingResultsToStream")],
  "monitoring of call counts against the reference evaluator's trace", "Times aren't checked beyond being well-formed; functions that are part of maps have no name and are counted as a whole.", observe=["profile report", "stdout"])

prop("C24", "The AST diagram is a faithful, well-formed picture of the program",
  "For every program that compiles, the diagram is produced, is a well-formed GraphViz graph forming a tree, and shows every construct, literal, name and operator of the program once, in order, where it belongs. Sources that don't compile syntactically are refused.",
  ["programs"], "all programs", "The tests don't produce diagrams.",
  [L+"compiler/graphviz.c", L+"diagram.c", "src/cli/main.c"], [("graph printer", L+"compiler/graphviz.c")],
  "structural monitoring of generated diagrams against the generator's syntax tree", "The DOT text is parsed by the check and the tree compared node by node; how inner nodes are labelled isn't specified, only that each construct has a label of its own.", observe=["diagram text"])

prop("C25", "random.generate stays in the range, and is reproducible from the seed",
  "random.generate(a, b) always yields an integer between a and b (in either order, both included, zero and the highest integer when they're missing) whatever they are, reaches all values of small ranges (but possibly the upper bound), spreads over wide ones, and gives the same sequence after the same seed and another after another seed. Bounds and seeds that aren't integers abort the program.",
  ["inputs", "histories"], "all pairs of bounds and seeds", "No test generates random numbers.",
  [L+"builtins/random.c"], [("random module", L+"builtins/random.c")],
  "monitoring of generated values for range, coverage and reproducibility under UBSan", "", observe=["stdout"])

prop("C26", "input() returns the lines of the standard input, each once",
  "Successive calls of input return the successive lines of the standard input without their terminator, of whatever length, and none after the end; a line that isn't valid UTF-8 is an error.",
  ["inputs", "histories"], "all byte streams", "No test provides input.",
  [L+"builtins/basic.c"], [("line reader", L+"builtins/basic.c bin_input")],
  "differential monitoring against a line model", "Streams from files and pipes fed in pieces.", observe=["stdout"])

prop("C27", "The library's containers and text utilities behave as their models",
  "The bump allocator returns disjoint aligned blocks that keep their contents, the bucket list and promise mechanisms reproduce exactly the bytes appended and patched, stacks are LIFO with working read-only copies, label lists resolve each label to its value, and UTF-8, path and source utilities agree with their documentation on every input.",
  ["histories", "inputs"], "all histories of operations and all arguments", "No unit test covers them.",
  [L+"utils/bpalloc.c", L+"utils/bucketlist.c", L+"utils/promise.c", L+"utils/labellist.c", L+"utils/stack.c", L+"utils/utf8.c", L+"utils/path.c", L+"utils/source.c", L+"utils/hash.c"],
  [("bump allocator", L+"utils/bpalloc.c"), ("bucket list", L+"utils/bucketlist.c"), ("promises", L+"utils/promise.c"), ("label list", L+"utils/labellist.c"), ("stack", L+"utils/stack.c")],
  "model-based random histories on the real modules under sanitizers", "A C driver linked with the real objects.", observe=["return values", "sanitizer reports"])

prop("C28", "The math module computes the C library's functions, or fails",
  "Each function of the math module returns the IEEE double the corresponding function gives for every float argument; floor and ceil return the exact integer or fail when it can't be represented; arguments of other types abort the program. PI and E are the nearest doubles.",
  ["inputs"], "all float arguments, all argument types", "No test calls the module.",
  [L+"builtins/math.c"], [("math module", L+"builtins/math.c")],
  "differential monitoring against the C library through Python, under UBSan", "Every bit of the results is observed, through exact operations of the language (comparison, halving, doubling), and compared with the C library called from Python.", observe=["stdout", "error kind"])

prop("C29", "The command behaves as its options say",
  "The noja command runs files, inline text, assembly and diagrams as its options select, honours the heap size and output options, exits with status zero exactly on success, writes program output to standard output and everything about errors to standard error, changes no other file than the one given with -o when there's something to write to it, and reports misuse (missing or invalid option arguments, no input) without running anything.",
  ["inputs", "configurations"], "all option combinations and argument strings", "The tests don't run the command.",
  ["src/cli/main.c"], [("option parsing and dispatch", "src/cli/main.c main")],
  "monitoring of the real command over option combinations", "Runs in scratch directories.", observe=["exit status", "stdout", "stderr", "output files"])

prop("C30", "Failure to get memory from the system is an orderly error",
  "If any single request for memory to the system, or any request and all those after it, fails while a program is set up, compiled, run, collected, profiled, drawn or disassembled, the operation either completes with the same result or stops after a prefix of its output with an internal error that has a message; it never crashes, corrupts memory, invents values or blames the program, and everything acquired is still released.",
  ["fault_sequences", "programs"], "every request for memory made while setting up, compiling and running every program", "No test makes an allocation fail, and each failing request is a different path through the error handling.",
  [L+"objects/heap.c", L+"utils/bpalloc.c", L+"utils/source.c", L+"executable.c", L+"compiler/codegenctx.c", L+"run.c", L+"runtime.c", L+"timing.c", L+"objects/o_buffer.c", L+"builtins/files.c", L+"compiler/graphviz.c"],
  [("heap's own requests", L+"objects/heap.c Heap_RawMalloc, Heap_Malloc, Heap_StartCollection"), ("objects whose creation can fail half way", L+"objects/o_buffer.c Object_NewBuffer, "+L+"run.c Object_FromNojaFunction"), ("compile-time memory", L+"utils/bpalloc.c, "+L+"compiler/codegenctx.c"), ("propagation of the error", L+"run.c OPCODE_SELECT, "+L+"runtime.c Runtime_GetVariable")],
  "allocation fault injection (link-time interposition) at the requests of a run, under AddressSanitizer and UBSan, judged against the run without faults", "The n-th malloc/calloc/realloc/strdup of the library fails, alone or with all the following ones; in one of the two builds every heap object is a request of its own. Requests made inside libc aren't refused. Quick samples the requests of each program, thorough tries nearly all.", observe=["stdout prefix", "error kind and message", "sanitizer reports", "allocated bytes", "open descriptors", "number of requests refused"], hook="NOJA_VERIF (one build) turns each heap object into a request")

prop("C31", "The invariants the library asserts about itself hold",
  "In the build meant for development, where the library checks its assertions, no program, bytecode, schedule of collections, size of the heap or interruption makes an assertion fail or an error be reported over another one, and every run ends like in the release build: same output, same kind of error, same message.",
  ["programs", "configurations"], "every program, every bytecode, every heap size and schedule of collections, with every assertion of the library watching", "The tests run the release build, where the assertions are compiled away, over a few dozen programs.",
  [L+"utils/defs.h", L+"utils/error.c", L+"run.c", L+"runtime.c", L+"compiler/parse.c", L+"executable.c", L+"objects/heap.c"],
  [("assertions", L+"utils/defs.h ASSERT, UNREACHABLE; assert() everywhere"), ("one error at a time", L+"utils/error.c _Error_Report2"), ("what only a debug build compiles", L+"compiler/parse.c next, Error_Report_")],
  "the library's own assertions as monitors, in an instrumented debug build (AddressSanitizer, UBSan) run under generated, mutated and hostile programs and bytecode, and compared with the release build", "The debug build logs its tokens to a file through a global variable, so it's only watched with one runtime at a time. Programs whose result depends on files are only watched, not compared.", observe=["assertion failures", "stdout", "error kind and message", "sanitizer reports"], hook="NOJA_VERIF (half of the runs) turns each heap object into an allocation")

prop("C32", "No result depends on uninitialised or left-over memory",
  "What a program prints, the error it ends with and the number of instructions it executes depend only on the program and its input: the library never branches on, prints or passes to the system a byte that nothing has written, and the same run over differently filled memory, or built by another compiler at another optimisation level, is the same run.",
  ["programs", "configurations"], "every program, bytecode, schedule of collections and previous content of the memory", "In a test the memory is usually fresh, so a value nobody wrote is zero and looks right.",
  [L+"objects/heap.c", L+"objects/o_map.c", L+"objects/o_buffer.c", L+"utils/bpalloc.c", L+"executable.c", L+"run.c", L+"compiler/codegenctx.c"],
  [("memory of the objects", L+"objects/heap.c Heap_RawMalloc, Heap_Malloc"), ("zeroed buffers", L+"objects/o_buffer.c Object_NewBuffer"), ("memory of the compiler", L+"utils/bpalloc.c BPAlloc_Malloc"), ("values returned and arguments", L+"run.c func_call, native_func_call, runExecutableAtIndex")],
  "MemorySanitizer over generated, mutated and hostile programs and bytecode, and a comparison of runs of two compilers and optimisation levels with the allocator filling memory with different bytes", "MemorySanitizer reports a byte when it is branched on or reaches the system, not when it is copied. Only the C library's calls it intercepts are modelled.", observe=["MemorySanitizer reports", "stdout", "error kind and message", "instructions executed"], hook="NOJA_VERIF (some of the builds) gives each heap object its own, unwritten, allocation")

prop("C33", "A host program and the scripts it runs see each other as the interface says",
  "A program that embeds the library through its public functions and the scripts it runs agree about everything they exchange: native functions are called with the declared number of arguments, receive the very values passed and return the values they report; an error a host function reports becomes the script's error with its kind, message and trace; the tables and sources plugged as builtins are visible under their names, the first that defines a name wins, and one that fails is reported and leaves the runtime as it was; variables read and injected from the host are those of the script's current frame; output goes to the streams configured, the callback gets its own data, profiles written to a file and a stream are equal; and everything is released with the runtime.",
  ["programs", "histories", "configurations"], "every table of builtins, host function, library source, script and order of calls", "The repository's tests only run scripts through the command line, so the host's side of the interface is covered only by what the built-in modules happen to use.",
  [L+"runtime.h", L+"runtime.c", L+"run.h", L+"run.c", L+"o_staticmap.c", L+"builtins/utils.c", L+"utils/error.c"],
  [("builtins", L+"runtime.c Runtime_plugBuiltins, Runtime_plugBuiltinsFromStaticMap, Runtime_plugBuiltinsFromSource"), ("native calls", L+"run.c native_func_call; "+L+"o_staticmap.c"), ("arguments and results", L+"builtins/utils.c parseArgs, returnValues"), ("configuration", L+"runtime.c Runtime_New, RuntimeConfig")],
  "differential oracle: a model of host and script against an event log written by a real host program (lib/embed.c) under AddressSanitizer and UndefinedBehaviorSanitizer", "", observe=["calls of host functions and their arguments", "values returned to the host", "variables read by the host", "errors and traces", "streams", "profiles", "memory left"], hook="NOJA_VERIF (some of the builds) gives each heap object its own allocation")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, *_ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    commits = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook:")]
    checks, na = [], []
    for p, tech, note, level in P:
        c = f"checks/{p['id'].lower()}.py"
        if os.path.exists(os.path.join(ROOT, c)):
            checks.append({"property": p["id"], "quick_cmd": f"python3 {c}", "thorough_cmd": f"VERIF_TIER=thorough python3 {c}", "technique": tech, "level": level, "level_note": note or "Observed executions only."})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "runtime monitoring applies, but its check isn't built yet")})
    m = {"version": 1, "setup_cmd": "python3 lib/build.py", "hooks": {"guard": "NOJA_VERIF", "enable": "lib/build.py compiles /repo's sources with -DNOJA_VERIF for the 'asan', 'tsan' and 'fuzz' variants", "source_commits": commits},
         "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Known findings and repaired defects are in known-findings.jsonl."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", [x["property"] for x in na])
NA = {}
main()
