MC_E2E = "bounded exhaustive exploration of real executions against a reference model"
prop("C01", "Fixed-width integer arithmetic is exact or panics",
 "For every integer type from i8 to u64 (and int, uint, byte), each of + - * / % unary minus, ++, -- and the compound assignments, applied to variables, struct fields, array elements, map values or through pointers, yields the exact mathematical result when it fits the type. Otherwise the program stops with a runtime panic and a non-zero exit; it never wraps, truncates or continues. Division and modulo by zero always panic, and division truncates toward zero.",
 "inputs programs", "All operand pairs of the 8-bit types, all pairs of boundary values of the wider types, every operator and every assignable place.",
 "Tests try a few values in bounds per type and one or two panics; the guarantee is over every operand pair, width, operator and place.",
 [G+"codegen/codegen.c", R+"runtime.h", R+"runtime.c"], [("checked arithmetic helpers", R+"runtime.h"), ("emission of checked operations per width and per l-value", G+"codegen/codegen.c")],
 observe="stdout, stderr and exit status of compiled programs",
 check=(MC_E2E, "exploration", "Programs are compiled by the current grayc and run; the oracle is exact Python integer arithmetic. 8-bit operand pairs are complete, wider widths use all pairs of a boundary lattice."))
prop("C02", "Wide integers (128/256 bit) compute exactly or panic",
 "i128, u128, i256 and u256 addition, subtraction, multiplication, division, modulo, negation, comparison, printing and conversion from and to other integers give the exact mathematical result whenever it fits. A result that does not fit, a division by zero, or a conversion to a type that cannot hold the value stops the program with a runtime panic.",
 "inputs", "All pairs from a lattice of boundary values (powers of two and ten, limb edges, their neighbours and negations) for each of the four types and every operator.",
 "Tests use small values far from limb and sign boundaries.",
 [R+"bigint.h", G+"codegen/codegen.c"], [("wide arithmetic", R+"bigint.h")],
 observe="stdout and exit status of compiled programs",
 check=(MC_E2E, "exploration", "All lattice pairs for each operator and type on the real runtime, oracle is Python big integers."))
prop("C03", "Numeric and string conversions preserve the value or fail",
 "Wherever a number changes type - a constructor such as i8(x), cast of a value or of an array, or an implicit conversion in a declaration, assignment, argument, return value, field, element, map value or operand - the result to an integer type is the exact value (fractions are truncated toward zero), and to a float type the nearest representable value; a value the target type cannot hold panics at run time or is rejected at check time, and is never silently changed. int, uint and float of a text give the value exactly for a complete decimal literal in range and panic otherwise, and the text of an integer reads back as the same integer.",
 "inputs", "Every source/target type pair with every boundary value of the source and of the target, in every place a conversion can happen, and every short text over a numeric alphabet.",
 "Tests sample a handful of conversions; boundary and malformed inputs are unbounded.",
 [G+"codegen/codegen.c", R+"runtime.h", S+"builtins.c"], [("conversion helpers", S+"builtins.c"), ("cast emission", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "Complete type matrix times boundary lattice in every place of conversion, plus all texts up to a length bound; oracle is exact rational arithmetic in Python."))
prop("C04", "Expressions evaluate by the documented precedence and order",
 "Every expression built from the arithmetic, comparison, logical, bitwise, shift and membership operators evaluates as the precedence table and left associativity dictate, with the value the operators define for its operand types. Operands and call arguments take effect from left to right, each exactly once, and && and || evaluate their right operand only when the left does not decide the result.",
 "programs inputs", "All operator sequences up to three binary operators with optional unary operators, all operand values of a small set, and all placements of side-effecting calls.",
 "Tests check single fixed expressions; the precedence/associativity product and the evaluation order are combinatorial.",
 [G+"parser/parser.c", G+"codegen/codegen.c"], [("precedence climbing", G+"parser/parser.c"), ("expression emission", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "Complete enumeration of operator sequences to the bound; oracle is an independent parser/evaluator of the documented table."))
prop("C05", "Statements execute with the documented control flow",
 "if/or/otherwise, for over ranges, for_each over arrays, strings and maps, while, loop, break, continue, return and when run exactly the statements their conditions select, in program order, for every nesting of them. Ranges evaluate their bounds and step once, include their start and exclude their end, reject a zero step with a panic, run no iteration when the start is already past the end, panic when the next value does not fit an int, and a for_each over an array visits exactly the elements present when it began.",
 "programs inputs", "All statement trees up to a depth bound and all range triples of a boundary set, executed and compared step by step with a reference interpreter.",
 "Tests run a few fixed nestings; interactions (continue inside when inside for, shadowing, early return) are combinatorial.",
 [G+"codegen/codegen.c", G+"parser/parser.c"], [("statement emission", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "All statement trees to the stated depth are compiled and their traces compared with a reference interpreter."))
prop("C06", "ensure runs once per exit and or_return propagates errors",
 "Every ensure statement reached during a call runs exactly once when that call ends, in reverse order of registration, after the return value is computed, whether the function falls off its end, returns early, returns from inside loops or when branches, or leaves through or_return; an ensure that was not reached does not run. or_return continues with the value when the error is nil and otherwise returns at once with that error and zero or given fallback values.",
 "programs", "All functions built from ensure, return, or_return, loops, branches and nested calls up to a size bound, on every path through them.",
 "Tests exercise single ensure/or_return shapes, not every exit path of every nesting.",
 [G+"codegen/codegen.c"], [("ensure lowering and return rewriting", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "Every program of the grammar to the bound, every path, trace compared with a reference interpreter."))
prop("C07", "Memory stays valid for as long as a value is reachable",
 "A value that a program can still reach (a local, a returned value, a value stored into an outer variable, container, struct field, global, map key or channel, or referenced by an error or pointer from new) keeps its content whatever scopes, loop iterations and calls end and whatever is allocated afterwards. No safe program reads freed or recycled memory.",
 "programs histories", "All combinations of value kind, creation site, escape route and scope nesting, each followed by allocation churn that overwrites recycled memory.",
 "Tests check a few escape shapes; use of recycled memory shows only when the right allocation follows the right escape.",
 [G+"codegen/codegen.c", R+"runtime.c", G+"util/arena.c"], [("scope arenas with save/restore and escape promotion", G+"codegen/codegen.c"), ("arena", R+"runtime.c")],
 na='Model checking applies (the product of value kinds, escape routes and nestings under AddressSanitizer); the check was not finished in the time available. Parts are covered by C11, C09, C10, C32 and C47, which run sanitized programs over the same constructs.')
prop("C08", "Memory use is bounded by what is live",
 "A loop or a repeatedly called function whose iterations keep nothing alive runs in memory bounded independently of the number of iterations, for every kind of temporary value. Memory obtained by a scope is available again after the scope ends, including scopes whose allocations exceed one arena block, are nested, or are left by break, continue or return.",
 "programs histories", "All sequences of allocate, mark, release and reset up to a depth on the arena, with sizes around the block size, and every temporary kind in every loop form.",
 "Tests never measure memory over long runs or over block-size boundaries.",
 [R+"runtime.c", R+"runtime.h", G+"codegen/codegen.c"], [("scope save/restore", R+"runtime.c")],
 na='Model checking applies (arena operation sequences, loop programs under a memory limit); not built in the time available.')
prop("C09", "Arrays behave as bounds-checked growable lists",
 "Every sequence of array operations (indexing, element assignment, append, prepend, insert, remove, pop, slice, concat, reverse, sort, search, aggregation and the rest of @arrays) gives the results of a mathematical list, leaves every other array unchanged, and an out-of-range index or empty-array access panics without touching memory. Higher-order functions call their argument once per element in order.",
 "histories inputs", "All operation sequences up to a depth over small arrays with every index in and around the bounds.",
 "Tests run one fixed sequence per function; growth, aliasing and boundary indices interact.",
 [R+"array.c", R+"array.h", S+"arrays.c", S+"arrays.h"], [("dynamic array", R+"array.c"), ("arrays module", S+"arrays.c")],
 check=(MC_E2E, "exploration", "All operation sequences to the depth bound against a Python list model."))
prop("C10", "Maps behave as dictionaries under every operation history",
 "For every key type and every history of insert, update, delete, clear, lookup, membership and @maps calls, a map holds exactly the last value stored for each present key, with len equal to the number of present keys and a panic for reading an absent key. Iteration visits every present key exactly once, and inserting, deleting or clearing during for_each over that map panics.",
 "histories inputs", "All operation histories up to a depth over colliding keys, across growth and tombstone reuse, for each key type.",
 "Tests use a few keys; probing, deletion and growth faults need specific collision histories.",
 [R+"map.c", R+"map.h", S+"maps.c", S+"maps.h"], [("open-addressing table", R+"map.c"), ("maps module", S+"maps.c")],
 check=("explicit-state exploration of map operation histories on the real runtime against a dictionary model", "exploration", "All histories to the depth bound with deliberately colliding keys; end-to-end language programs cover the generated code."))
prop("C11", "Copies are independent and mutable references alias exactly",
 "Declaring or assigning one variable or field from another, passing a variable to a value parameter, and calling copy() give a struct, array or map whose later modification never changes the original, nor the reverse, with every nested array, map and struct copied too; passing to a & parameter, or modifying through a pointer (addr) or ref of a variable, field or element makes every modification visible in exactly that place and nowhere else. (Storing a variable into an array or map element or a struct literal shares it, as the standard's reference semantics say, and is outside this property.)",
 "programs histories", "All combinations of value shape, transfer form, modified part and direction.",
 "Tests check few shapes; each new nesting or transfer path is a separate code path in the generator.",
 [G+"codegen/codegen.c", R+"array.c", R+"map.c"], [("copy emission", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "Full product of shapes, transfers and mutations; oracle from the language standard's value semantics."))
prop("C12", "String operations are exact on every byte string",
 "Each string operation of the language and of @strings (concatenation, comparison, indexing, interpolation, slicing, searching, splitting, joining, replacing, trimming, case mapping, repetition, counting) returns the mathematically defined result for every input, of any length and content, with join inverting split, and out-of-range positions handled as documented without reading outside the string. len counts bytes, char_count counts code points and to_char returns the code point at each index below char_count.",
 "inputs", "All strings up to a length bound over an alphabet with spaces, letters, multi-byte characters and separators, all argument tuples, and long strings around internal buffer sizes.",
 "Tests use typical words; empty needles, overlaps, boundaries and long inputs are unbounded.",
 [S+"strings.c", S+"builtins.c", R+"runtime.c"], [("strings module", S+"strings.c")],
 check=(MC_E2E, "exploration", "All argument tuples to the length bound under AddressSanitizer against Python definitions."))
prop("C13", "Enums, tagged unions and when select exactly one matching branch",
 "An enum value compares equal only to its own variant, prints and casts as declared (explicit, implicit, flags and string enums), and a tagged union returns from a pattern exactly the payload it was built with. A when statement runs the first branch one of whose values or ranges matches and otherwise the default, and #strict rejects every when that misses a variant while accepting every complete one.",
 "programs inputs", "All enums up to a number of variants, payload shapes and value assignments, and all branch subsets and orders of a when over them.",
 "Tests pick a few enums; exhaustiveness and dispatch range over all subsets and orders.",
 [G+"typechecker/typechecker.c", G+"codegen/codegen.c"], [("strict exhaustiveness", G+"typechecker/typechecker.c"), ("when lowering", G+"codegen/codegen.c")],
 check=(MC_E2E, "exploration", "All enum declarations and branch subsets to the bound; oracle in Python."))
prop("C14", "Runtime faults stop the program cleanly and lose no output",
 "Every runtime fault (nil dereference, index or key out of range, failed assertion, explicit panic, unbounded recursion, arithmetic fault) in any nesting of calls, loops and threads ends the process with exit status 1 and a panic message with its code on standard error, with all earlier output delivered and no later statement executed. A program that ends normally exits 0, or with the status it passed to os.exit.",
 "programs fault_sequences", "All fault kinds at all program places (main, callee, loop, branch, ensure, closure, spawned thread), with output buffered before.",
 "Tests check that some faults print a message, not that every fault in every place stops the program with earlier output intact.",
 [R+"runtime.c", R+"runtime.h", G+"codegen/codegen.c"], [("panic", R+"runtime.c"), ("recursion depth guard", R+"runtime.h")],
 check=(MC_E2E, "exploration", "Full product of fault kinds and places run as compiled programs with piped output."))
prop("C15", "Accepted programs compile; ill-typed programs are rejected",
 "Whenever the check command accepts a program, building it also succeeds and the resulting C compiles, and a program that uses a value of one type where another is required (assignment, argument, return, operator, element, field, condition, wrong argument count, undefined name) is rejected with an error and produces no executable. check and build always agree.",
 "programs", "The full matrix of type against type in every value position, and all operators against all operand type pairs.",
 "Tests list individual error programs; the matrix of types and positions is far larger.",
 [G+"typechecker/typechecker.c", G+"codegen/codegen.c", G+"main.c"], [("type checker", G+"typechecker/typechecker.c")],
 na='Model checking applies (all small programs over a typed grammar: gray check accepts exactly those that build); not built in the time available. C16, C17, C19 and C47 decide the acceptance verdicts of their own parts.')
prop("C16", "Immutability and visibility rules are enforced everywhere",
 "No accepted program modifies a const variable, an element or field reached through it, a by-value parameter, or a const global, by any assignment form, ++/--, mutating call or & argument, and no accepted program uses a private function, constant or variable of another module or a private function of another struct (by qualified name, alias, using, or function reference). Programs that only do this to mutable or visible things are accepted.",
 "programs", "All mutation forms applied to all kinds of immutable place, and all kinds of private declaration used in all ways from another module.",
 "Tests list some rejections; each place/form pair is its own path in the checker.",
 [G+"typechecker/typechecker.c"], [("mutability checks", G+"typechecker/typechecker.c")],
 check=(MC_E2E, "exploration", "Full product of places and mutation forms, with the mutable twin of every program as the positive control."))
prop("C17", "The compiler front end survives every input",
 "For any file content, check, build and fmt end by themselves with exit status 0 or 1 and, when 1, at least one diagnostic; they never crash, hang, read outside their buffers or produce an executable from a rejected file. Diagnostics name an existing line of the file.",
 "inputs", "All token sequences up to a length bound, all single-token deletions, duplications and substitutions and all prefixes of valid programs, and deep nestings.",
 "Tests feed well-formed or singly broken programs; crash inputs are unbounded.",
 [G+"lexer/lexer.c", G+"parser/parser.c", G+"typechecker/typechecker.c", G+"main.c"], [("error recovery", G+"parser/parser.c")],
 check=("exhaustive enumeration of short token sequences and single-token mutations on the sanitised front end", "exploration", "All token sequences to the bound and all single mutations of a corpus, run through the AddressSanitizer/UBSan build of the compiler."))
prop("C18", "Compilation is deterministic and concurrent builds do not interfere",
 "Building the same sources twice, from any directory, gives identical C output and the same program behaviour. Builds and runs that overlap in time, whatever their output names and directories, each produce the program of their own source.",
 "schedules configurations", "All interleavings of the file-system steps of two concurrent builds with equal and different output names.",
 "Tests run one compilation at a time.",
 [G+"main.c"], [("temporary C file and compiler invocation", G+"main.c")],
 check=("exhaustive interleaving of the file-system steps of concurrent compiler processes", "exploration", "All interleavings of the observable file operations of two compiler processes, controlled through a gated cc and interposed file calls."))
prop("C19", "Imports resolve the whole module graph or report why not",
 "Every program whose modules form an acyclic import graph, in any shape and directory layout the standard allows, builds and behaves as if each imported name came from exactly the module that declares it, including names that coincide in different modules or with locals. A cyclic graph either behaves the same way or is reported, and missing modules and unknown members are reported as errors; none crashes or loops the compiler.",
 "programs", "All import graphs up to a number of modules, with all placements of coinciding names.",
 "Tests have a few fixed module layouts.",
 [G+"main.c", G+"typechecker/typechecker.c"], [("module loading, merging and renaming", G+"main.c")],
 check=(MC_E2E, "exploration", "All import graphs of up to three modules, in every import style and several layouts, every name declared in every module and in the program; oracle is module-qualified name resolution."))
prop("C20", "The formatter preserves meaning, is idempotent and agrees with --check",
 "Formatting a file changes only white space outside literals: the formatted file has the same tokens, comments and literal contents, formatting it again changes nothing, and --check reports exactly the files that formatting would change. A line outside literals and comments is indented by four spaces for each block that is open where it starts. A file that cannot be read or written is reported and is never left truncated.",
 "inputs programs fault_sequences", "All token/white-space/comment/literal sequences up to a bound, and every write failure point.",
 "Tests format a few snippets.",
 [G+"fmt/fmt.c", "cli/fmt.go", G+"main.c"], [("line formatter", G+"fmt/fmt.c")],
 check=("bounded exhaustive enumeration of source texts and of write faults on the real formatter", "exploration", "All texts over a token alphabet to the bound; oracle is an independent tokenizer."))
prop("C21", "JSON encoding and decoding are lossless inverses",
 "Encoding any map, array or scalar the module accepts yields text that any JSON parser reads back as the same value, and decoding that text returns it; is_valid accepts exactly the JSON grammar. Malformed input yields an error, never a crash, an endless loop or an invented value.",
 "inputs", "All byte strings up to a length bound over a JSON alphabet and all small maps with special characters.",
 "Tests decode a few well-formed documents.",
 [S+"json.c"], [("encoder, decoder and validator", S+"json.c")],
 check=(MC_E2E, "exploration", "All strings to the bound against Python's JSON grammar, all small documents round-tripped, AddressSanitizer build with a step limit."))
prop("C22", "CSV text round-trips every table",
 "Turning any table of strings into CSV text and parsing it back returns the same rows and fields, including empty fields and fields with commas, quotes and line breaks, and parsing conforming text returns exactly its fields.",
 "inputs", "All tables up to a size bound over an alphabet with comma, quote, CR, LF and ordinary bytes.",
 "Tests use plain words.",
 [S+"csv.c"], [("parser and writer", S+"csv.c")],
 check=(MC_E2E, "exploration", "All tables to the bound; oracle is Python's csv module."))
prop("C23", "Byte encodings are exact inverses and reject malformed input",
 "Base64, hexadecimal, URL and integer/float byte encodings of every input equal their standard definition, and decoding an encoding returns the input. Malformed or too short encoded input is reported or handled as documented and never reads outside it.",
 "inputs", "All byte strings up to a length bound plus all lengths to a larger bound, all short candidate encodings.",
 "Tests encode a few words.",
 [S+"encoding.c", S+"bytes.c", S+"binary.c"], [("encoders", S+"encoding.c")],
 check=(MC_E2E, "exploration", "All inputs to the bound; oracle is Python's base64/binascii/urllib/struct."))
prop("C24", "Text to number parsing accepts exactly the valid literals",
 "strconv parsing functions return the exact value of every well-formed in-range literal in every supported base and an error, with a zero value, for every other string whatever its length, and formatting a number and parsing the text returns the same number.",
 "inputs", "All strings up to a length bound over a numeric alphabet, all boundary literals in each base, and padded long literals.",
 "Tests try a few literals.",
 [S+"strconv.c"], [("parsers and formatters", S+"strconv.c")],
 check=(MC_E2E, "exploration", "All strings to the bound in every base; oracle in Python."))
prop("C25", "Regular expression functions agree with POSIX matching",
 "For every pattern and text, matching, finding, finding all, splitting and replacing agree with leftmost-longest POSIX extended matching applied from left to right over the whole text, of any length, and an invalid pattern is reported. Splitting and joining with the matches rebuilds the text.",
 "inputs", "All patterns up to a length bound over a regex alphabet, all texts up to a bound, plus long texts around internal limits.",
 "Tests match a few words.",
 [S+"regex.c"], [("regex wrappers", S+"regex.c")],
 check=(MC_E2E, "exploration", "All pattern/text pairs to the bound against an independent backtracking-free matcher."))
prop("C26", "Formatting functions render every value exactly",
 "Each @fmt function returns the exact rendering of its arguments (padding, alignment, bases, precision, grouping) for every value, width and precision, at any length, never reading or writing outside its buffers and never truncating.",
 "inputs", "All boundary values times all widths and precisions around internal buffer sizes.",
 "Tests format a few typical numbers.",
 [S+"fmt.c"], [("formatters", S+"fmt.c")],
 check=(MC_E2E, "exploration", "Full product of boundary values, widths and precisions under AddressSanitizer against Python."))
prop("C27", "Calendar computations are correct for every timestamp",
 "Breaking a timestamp into components (in the local time zone of the process), formatting it with any format string, building a timestamp from its components and date arithmetic agree with the proleptic Gregorian calendar for every timestamp whose year fits in 32 bits, and timestamps beyond that are handled without a crash. The results do not depend on what other threads do at the same time.",
 "inputs schedules", "All days of a 400-year cycle, all boundary timestamps, every component function.",
 "Tests check a few dates.",
 [S+"time.c"], [("calendar wrappers", S+"time.c")],
 check=(MC_E2E, "exploration", "All days of the cycle and boundary timestamps; oracle is Python's datetime."))
prop("C28", "Random values stay in range and shuffles are permutations",
 "Every random function returns a value within its documented bounds for all bounds, reaches every value of a small range, returns the lower bound of an empty numeric range and panics on an impossible choice or sample instead of crashing, and shuffle, choice and sample return permutations and members of their input, which they leave unchanged. A seed fixes the sequence.",
 "inputs schedules", "All bounds pairs of a boundary lattice and all possible outputs of the underlying generator at its extremes.",
 "Tests draw a few numbers in small ranges.",
 [S+"random.c", S+"math.c"], [("range reduction", S+"random.c")],
 check=("exhaustive enumeration of generator outputs (replaced by a controlled source) and bounds on the real code", "exploration", "The generator is replaced by every extreme and small output; all bounds of the lattice."))
prop("C29", "Digests, random tokens and UUIDs are well formed and exact",
 "SHA-256 and MD5 equal their standards on every input content and length, random_hex returns exactly the requested number of hexadecimal digits, and UUID generation, parsing and validation accept and produce exactly the standard format with correct version, variant and timestamp bits for every draw of the random source; a generator whose random source fails stops the program instead of returning a predictable value.",
 "inputs", "All message lengths to several blocks with varied content, all single-character mutations of UUID strings.",
 "Tests check one or two vectors.",
 [S+"crypto.c", S+"uuid.c"], [("hash implementations", S+"crypto.c")],
 check=(MC_E2E, "exploration", "All lengths across block boundaries against Python hashlib."))
prop("C30", "Mathematical functions are exact on integers or panic",
 "Integer functions of @math (abs, min, max, clamp, sign, gcd, lcm, factorial, power, primality, digit and parity tests) return the exact result for every argument or panic when it does not fit; rounding functions and the special-value predicates are exact for every float.",
 "inputs", "All small arguments and all pairs of boundary values.",
 "Tests check a few values.",
 [S+"math.c", S+"math.h"], [("math module", S+"math.c")],
 check=(MC_E2E, "exploration", "All arguments to a bound and all boundary pairs; oracle in Python."))
prop("C31", "Channels deliver each message once, in order, under every schedule",
 "Under every interleaving of senders, receivers and close, each value sent on a channel is received at most once and, if a receiver keeps receiving, exactly once, in per-sender order, unchanged even if the sender modifies or frees its copy. Receivers blocked on an empty channel and senders blocked on a full one wake when they can proceed or the channel closes, sends after close are refused as documented, and no schedule deadlocks, loses a wake-up or races on memory.",
 "schedules histories", "All interleavings up to a preemption bound of small multi-thread programs over channels of capacity 0..2.",
 "Tests run one arbitrary schedule; lost wake-ups and close races need specific interleavings.",
 [S+"channels.c", S+"channels.h"], [("mutex and condition variables around a ring", S+"channels.c")],
 check=("stateless model checking of the real code under a controlled scheduler", "exploration", "All schedules to the preemption bound of the real channel code under an interposed pthread layer with happens-before race detection."))
prop("C32", "Threads start, join and detach safely under every schedule",
 "Under every interleaving, a spawned function runs exactly once with the arguments given to it, join returns only after it finished and with its effects visible, a thread that cannot be started is reported, and starting, finishing, joining and detaching never free state still in use, leak it, or disturb the memory of another thread. Each thread has its own allocation areas and call-depth accounting.",
 "schedules", "All interleavings of programs with spawn, join, detach, queries and thread exit, and of two threads calling the functions of each module.",
 "Tests run one arbitrary schedule.",
 [S+"threads.c", S+"threads.h", R+"runtime.c"], [("thread state handshake", S+"threads.c")],
 check=("stateless model checking of the real code under a controlled scheduler", "exploration", "All schedules to the preemption bound with allocation tracking and happens-before race detection."))
prop("C33", "Locks exclude, and waiting threads always wake",
 "Under every interleaving at most one thread holds a mutex or spinlock, try_lock and try_acquire take it exactly when it is free and never wait, a waiting thread is woken once the lock is free so that no schedule of matching lock and unlock calls hangs, what was written before an unlock is visible after the next lock, distinct locks do not affect one another, and creating and destroying locks never frees state in use or leaks it.",
 "schedules", "All interleavings up to a preemption bound of small programs over each primitive.",
 "Tests run one arbitrary schedule.",
 [S+"sync.c", S+"sync.h", S+"atomic.c"], [("pthread wrappers", S+"sync.c")],
 check=("stateless model checking of the real code under a controlled scheduler", "exploration", "All schedules to the preemption bound."))
prop("C34", "Atomic operations are indivisible and return the documented value",
 "Every load, store, add, sub, exchange, compare-and-swap, bit and spinlock operation of @atomic takes effect at a single instant under every interleaving, returns the documented old or new value, and changes exactly its own variable, for all operand values including wrap-around boundaries.",
 "schedules inputs", "All instruction-level interleavings of two or three concurrent operations and all boundary operands.",
 "Tests run single-threaded or one arbitrary schedule.",
 [R+"arch/x86_64/atomic.s", S+"atomic.c"], [("lock-prefixed instructions", R+"arch/x86_64/atomic.s")],
 check=("explicit-state exploration of all instruction interleavings of the real machine code, run on the processor one instruction at a time", "model_checking", "Registers, stacks, memory and store buffers form the state; unlocked read-modify-write instructions are split in two; outcomes compared with indivisible operations."))
prop("C35", "File operations store exactly the given bytes or report failure",
 "After a file operation reports success the file system is exactly as the operation's documentation says (content byte for byte, other files untouched, source intact after copy), and when the system refuses or shortens any underlying call the operation reports failure instead of success and a copy or move never destroys the source. Reading returns the complete content for any file size and content.",
 "fault_sequences histories inputs", "All operation sequences to a depth on a small tree, and each operation with a fault injected at every system call it makes.",
 "Tests run the success path on a few files.",
 [S+"io.c"], [("stdio wrappers", S+"io.c")],
 check=("exhaustive fault enumeration and operation-sequence exploration on the real code against a file-system model", "fault_enumeration", "Every libc file call of every operation fails once (error and short count), and all sequences to the depth, in a scratch directory."))
prop("C36", "Recursive directory operations stay inside their tree; path functions are exact",
 "Removing, walking, listing and creating directories affects exactly the entries below the given path, never following a symbolic link out of it, terminates on link cycles, and reports success only when the documented end state holds. Join, normalize, base name, directory, extension and absolute/relative tests return the lexically defined path for every input of any length.",
 "inputs histories", "All trees up to a number of entries with directories, files, links (dangling, cyclic, outward), and all path strings up to a length bound.",
 "Tests use plain trees and typical paths.",
 [S+"io.c"], [("recursive remove and walk", S+"io.c"), ("path normalisation", S+"io.c")],
 check=("exhaustive enumeration of small directory trees and path strings on the real code", "exploration", "All trees and paths to the bound inside a scratch directory run as an unprivileged user."))
prop("C37", "Running a program passes arguments verbatim and returns its output and status",
 "os.exec runs exactly the named program with exactly the given arguments, never through a shell, and returns its complete output of any size up to 64 MiB per stream and its exit status, whatever order it writes to its output streams and however it ends. Environment, argument and process functions reflect the real process state.",
 "inputs schedules", "All argument strings of a shell-metacharacter alphabet, all exit statuses, output sizes around pipe capacity, and interleavings of the two streams.",
 "Tests run echo.",
 [S+"os.c"], [("fork/exec and pipe draining", S+"os.c")],
 check=(MC_E2E, "exploration", "All arguments, exit statuses and stream interleavings to the bound."))
prop("C38", "The HTTP server answers every request stream correctly and stays up",
 "For every well-formed request, however the bytes are split into network segments, the server calls the first route whose method and pattern match with exactly the request's path parameters, query, headers and body, and sends one well-formed response whose length and body are exactly what the handler returned. Malformed requests, early disconnects and slow clients never crash it, leak connections or affect other requests, and handler-supplied text cannot inject header lines.",
 "inputs fault_sequences schedules", "All split points of a request corpus, all route tables and paths up to a bound, disconnects at every byte.",
 "Tests send one whole request per connection.",
 [S+"server.c"], [("request parsing and routing", S+"server.c")],
 na='Model checking applies (all splits of request streams and peer faults against the real server on loopback); not built in the time available.')
prop("C39", "The HTTP client sends exact requests and returns exact responses",
 "A client call sends one well-formed request with exactly the given method, target, headers and body, and returns the status, headers and complete body of the response whatever its length, framing (content length, chunked, close) and segmentation; truncated or malformed responses and refused connections yield an error. Arguments cannot inject header lines or overflow internal buffers.",
 "inputs fault_sequences", "All response segmentations of a corpus, truncation at every byte, all URL forms up to a bound, header sizes around internal limits.",
 "Tests cannot reach the network.",
 [S+"http.c"], [("request builder and response reader", S+"http.c")],
 na='Model checking applies (all response streams, splits and truncations from a scripted peer); not built in the time available.')
prop("C40", "Sockets transfer every byte and survive peers that go away",
 "Data sent on a connection arrives complete, unchanged and in order however the system splits or interrupts the transfers, a peer that closes or resets is reported as an error value, never by killing the process, and every descriptor is released when closed.",
 "fault_sequences schedules", "All patterns of short, interrupted and failing send/recv results up to a length, and peer close at every step.",
 "Tests exchange one short message.",
 [S+"net.c"], [("send/recv wrappers", S+"net.c")],
 na='Model checking applies (all short transfers, signals and peer closes injected at each socket call); not built in the time available.')
prop("C41", "Version ordering is a total order that follows semantic versioning",
 "Comparing versions is antisymmetric, transitive and total, agrees with semantic-version precedence for every pair including pre-releases, numeric identifiers of any size and development builds, so the updater offers a release exactly when it is newer than the running one.",
 "inputs", "All triples of versions from a grammar up to a bound.",
 "Tests compare a dozen pairs.",
 ["cli/update.go"], [("parse and compare", "cli/update.go")],
 check=("bounded exhaustive enumeration of version triples on the real code against a reference order", "exploration", "All pairs and triples of an enumerated version set."))
prop("C42", "Self-update is authentic and leaves a working binary at every crash point",
 "An update installs only a complete, undamaged archive member downloaded over https from the project's own release location, of the release the user asked for and agreed to, and at every point where the process can stop or a file operation can fail there is a complete old or complete new executable at the installed path. An update reports success only if the new version is installed; a failed one leaves the previous version in place.",
 "crash_points fault_sequences inputs", "Every crash point and every failing file operation of an install; all URLs up to a bound.",
 "Tests call helpers on the success path.",
 ["cli/update.go"], [("download, extract, rename", "cli/update.go"), ("trusted origin test", "cli/update.go")],
 check=("exhaustive crash-point and fault enumeration of the real install code", "fault_enumeration", "The install runs with a crash or an injected error at every file-system step."))
prop("C43", "The embedded runtime is extracted completely and safely under concurrency",
 "Whatever the state of the cache directory (absent, partial, corrupted, from another version) and however many processes extract at once or die half-way, a caller that gets a runtime path finds there exactly the embedded files, complete and executable where needed.",
 "schedules crash_points histories", "All interleavings of two extractors' file operations, all crash points, all single-file corruptions.",
 "Tests extract once into an empty directory.",
 ["internal/grayc/embedded.go"], [("temporary file and rename", "internal/grayc/embedded.go")],
 check=("exhaustive interleaving and crash-point enumeration of the real extractor's file-system steps", "fault_enumeration", "Extractor processes are stopped at every file-system step and interleaved."))
prop("C44", "The command line forwards programs, arguments and exit codes faithfully",
 "Running a program through the gray or grayc command passes its arguments unchanged, returns its exit status and output unchanged, and every command that fails exits non-zero with a message; commands that succeed exit 0. gray new never overwrites existing files and creates a project that builds.",
 "inputs configurations", "All exit statuses, all argument strings of a metacharacter alphabet, all commands with valid, missing and bad operands.",
 "Tests run a few commands.",
 ["cli/commands.go", "cli/new.go", "cli/main.go", G+"main.c"], [("command dispatch", "cli/commands.go"), ("run mode", G+"main.c")],
 check=(MC_E2E, "exploration", "All statuses 0..255, all arguments of the alphabet, every command against every operand state."))
prop("C45", "Watch mode reruns on every change that affects the program",
 "Watching a program finds every local file the program depends on, directly or through imports, whatever the import syntax and layout, and a change to any of them, however the editor saves it, leads to a rerun on the final content, with bursts coalesced and no change missed.",
 "histories inputs", "All import graphs and import syntaxes up to a bound and all save patterns (write, truncate, rename, delete and recreate).",
 "Tests scan a single file.",
 ["cli/watch.go"], [("import scan", "cli/watch.go")],
 check=("bounded exhaustive enumeration of import graphs on the real scanner", "exploration", "All import graphs and syntaxes to the bound; oracle is the compiler's own resolution."))
prop("C46", "Printing and interpolation render every value completely",
 "println, print, eprint, string interpolation and string conversion render every value of every type, nested arrays, maps and structs included, completely and identically, at any size, and never read or write outside a buffer. Integers, booleans, characters and strings print exactly their value, and a printed float reads back as the value its documented precision gives.",
 "inputs", "All value shapes to a depth with element sizes around internal buffer limits, all output functions.",
 "Tests print small values.",
 [S+"builtins.c", G+"codegen/codegen.c"], [("value renderers", S+"builtins.c")],
 check=(MC_E2E, "exploration", "All shapes and sizes to the bound under AddressSanitizer; oracle is a reference renderer."))
prop("C47", "Functions bind arguments, defaults, names and multiple results exactly",
 "Every call, positional, named, defaulted, grouped, through a function reference, generic or recursive, binds each parameter to the argument or default the standard defines, evaluated once, and returns every result in its declared position; calls that omit a required or repeat or misname an argument are rejected.",
 "programs", "All signatures up to a number of parameters with all default sets and all positional/named argument assignments.",
 "Tests check a few signatures.",
 [G+"typechecker/typechecker.c", G+"codegen/codegen.c"], [("argument binding", G+"typechecker/typechecker.c")],
 check=(MC_E2E, "exploration", "All signatures and call forms to the bound; oracle is the binding rule."))
