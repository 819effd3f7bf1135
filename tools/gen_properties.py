#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Garbage collection is invisible to scripts",
 "A script produces the same results, in the same order, whatever the moments at which garbage collection happens to run: before any instruction, inside any host function it calls, or in any nested file, callback or apply. "
 "Every object, array, string, function import and prototype the script can still reach keeps its identity and contents across every collection, including values that are only reachable from half-evaluated expressions, call arguments, pending method receivers and running loops.",
 ["schedules", "programs", "histories"],
 "for all programs in the supported language and all placements of collections (plain or full) between instructions and inside host calls",
 "The suite runs each script with one fixed collection schedule (default, or one before every instruction in one build variant); a bad root or relocation needs a particular live value at a particular instruction.",
 ["src/mjs_gc.c", "src/mjs_exec.c", "src/mjs_string.c", "src/mjs_core.c", "src/mjs_json.c", "src/mjs_builtin.c"],
 [("root marking", "src/mjs_gc.c:mjs_gc"), ("string relocation", "src/mjs_gc.c:gc_compact_strings, gc_mark_string"),
  ("cell sweep", "src/mjs_gc.c:gc_sweep"), ("collection points", "src/mjs_exec.c:mjs_execute")],
 "step hook in the instruction loop")

prop("P02", "Values the host owns stay alive, intact and current until disowned",
 "A value the embedding program has taken ownership of keeps its identity and contents, through its registered variable, across any history of script runs, calls, errors and collections, however many other values are owned or released in between. "
 "Releasing a value reports success exactly when that variable was registered, releases one registration only, and never affects any other registered variable.",
 ["histories", "schedules"],
 "for all histories of own, disown, value creation, mutation, script execution, calls, failures and collections",
 "Tests own one or two values over one collection; corruption needs interleaved own/disown orders with relocating strings and reused cells.",
 ["src/mjs_core.c", "src/mjs_gc.c", "src/mjs_object.c", "src/mjs_array.c", "src/mjs_string.c"],
 [("ownership registry", "src/mjs_core.c:mjs_own, mjs_disown"), ("root marking", "src/mjs_gc.c:mjs_gc")],
 "step hook in the instruction loop")

prop("P03", "Unreachable data is reclaimed and destroy releases everything",
 "Memory held by an engine is bounded by what is still reachable: repeating any balanced operation (call a function, import and drop a function, register and free a callback, fail and recover, run a host callback) followed by a full collection does not grow it without bound (compiled code of scripts is kept as long as the engine). "
 "Destroying an engine after any history, including failed scripts, failed file reads and injected errors, returns every allocation, file handle and file mapping it made, each exactly once.",
 ["histories", "fault_sequences"],
 "for all histories of operations and injected failures, at every length",
 "Leak checking in the suite only sees the end of a handful of short scripts and not growth inside a living engine; leaks sit on error and teardown paths that need a fault at one point.",
 ["src/mjs_core.c", "src/mjs_gc.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_bcode.c", "src/mjs_json.c", "src/common/cs_file.c"],
 [("teardown", "src/mjs_core.c:mjs_destroy"), ("arena sweep and release", "src/mjs_gc.c:gc_sweep"),
  ("callback registry", "src/mjs_ffi.c:mjs_ffi_cb_free, mjs_ffi_args_free_list"), ("frame restore", "src/mjs_exec.c:mjs_apply")],
 "allocator, stdio and mmap behind link-time wrappers")

prop("P04", "Host events reach the right script callback exactly once, with the right data",
 "Every event a host raises on a script callback it was given runs exactly the registered script function once, with that registration's own user data and the event's arguments in their declared positions and types, and hands the function's result back to the host. "
 "This holds for any order and nesting of registrations, events, frees (also from inside the callback being run), failing callbacks and collections, until that registration is freed; freeing one registration affects no other.",
 ["schedules", "histories", "inputs"],
 "for all event orders, nestings, registration and free histories and callback signatures of the supported shapes",
 "Tests fire one or two callbacks immediately; lost, crossed or stale deliveries need many live registrations, re-entrancy, frees and collections in one history.",
 ["src/mjs_ffi.c", "src/ffi/ffi.c", "src/mjs_gc.c", "src/mjs_exec.c"],
 [("callback trampoline", "src/mjs_ffi.c:ffi_cb_impl_generic"), ("registration", "src/mjs_ffi.c:mjs_ffi_call2, ffi_get_matching"),
  ("free", "src/mjs_ffi.c:mjs_ffi_cb_free")],
 "host event loop supplied through the engine's symbol resolver; step hook")

prop("P05", "A failure at any instruction is contained and leaves the engine usable",
 "When a script fails at any point, in any depth of calls, loops, callbacks, apply or loaded files, the failing run reports an error to whoever started it, no later statement of it runs, and every effect before the failure stays. "
 "After that the engine behaves as if the failed run had simply ended there: later scripts, calls, callbacks and `this`, scopes, loops and variables all work normally, any number of times.",
 ["fault_sequences", "programs", "histories"],
 "for all programs, all failure instants (every instruction, every host call) and all sequences of failures and further work",
 "Tests look at the error of a few scripts and then discard the engine; unbalanced state needs a failure at a particular nesting followed by more work.",
 ["src/mjs_exec.c", "src/mjs_core.c", "src/mjs_builtin.c", "src/mjs_ffi.c"],
 [("unwinding", "src/mjs_exec.c:mjs_execute error branch"), ("call unwinding", "src/mjs_exec.c:mjs_apply"), ("nested load", "src/mjs_builtin.c:mjs_load")],
 "failure hook in the instruction loop")

prop("P06", "Error reports name the failing place: message, file, line, call chain",
 "When a script fails, the error text given to the host is that of the failure itself and the stack trace lists, innermost first, the file and line of the failing statement and of each active call in the failing run. A host function that asks for the call frames gets the places of the calls active at that moment. "
 "This holds whichever instruction fails, across functions defined in different files, and whatever failed earlier in the same engine.",
 ["fault_sequences", "programs", "histories"],
 "for all multi-file programs, failure instants and earlier failures in the same engine",
 "Tests compare a few hand-written traces; offsets to lines are rebuilt by every code insertion, so wrong lines need particular code shapes, sizes and failure instants.",
 ["src/mjs_core.c", "src/mjs_bcode.c", "src/mjs_util.c", "src/mjs_parser.c"],
 [("trace generation", "src/mjs_core.c:mjs_gen_stack_trace"), ("line map", "src/mjs_util.c:mjs_get_lineno_by_offset"), ("line map upkeep", "src/mjs_bcode.c:add_lineno_map_item, mjs_bcode_insert_offset")],
 "failure hook in the instruction loop")

prop("P07", "Running a script file is all or nothing under I/O faults",
 "Running a script file either executes exactly the stored program or reports a file read error having executed nothing, whichever open, seek, size, read or allocation step fails or comes back short. "
 "No handle or buffer is left behind and the engine, and a later retry of the same file, work normally.",
 ["fault_sequences", "crash_points", "inputs"],
 "for all file contents and sizes and all sequences of I/O and allocation faults during reading",
 "The suite only reads files that are present and whole, or absent; partial and failing I/O never happens on a test machine.",
 ["src/common/cs_file.c", "src/mjs_exec.c", "src/mjs_builtin.c"],
 [("file reader", "src/common/cs_file.c:cs_read_file"), ("file execution", "src/mjs_exec.c:mjs_exec_file")],
 "stdio behind link-time wrappers onto a simulated disk")

prop("P08", "load() evaluates each file once, retries failures, and isolates namespaces",
 "A file that was loaded (or run by the host) successfully in the shared namespace is not evaluated again by later loads of it from any file, function or callback, while a file whose last evaluation failed is evaluated again by the next load; loads with an explicit namespace object always evaluate, define names in that object, and leave the shared namespace as it was. "
 "A load that fails, for whatever reason, makes the loading script fail and leaves nothing of the namespace switch behind.",
 ["histories", "fault_sequences"],
 "for all graphs of files loading each other (also cyclic), histories of loads with and without a namespace object, and failures inside or while reading a file",
 "Tests load two fixed files; the once/retry decision depends on the history of all earlier loads and failures.",
 ["src/mjs_builtin.c", "src/mjs_exec.c", "src/mjs_bcode.c"],
 [("load", "src/mjs_builtin.c:mjs_load, mjs_get_loaded_file_bcode"), ("evaluation result memory", "src/mjs_exec.c:mjs_execute (exec_res)"), ("bytecode parts", "src/mjs_bcode.c:mjs_bcode_commit")],
 "stdio behind link-time wrappers onto a simulated disk")

prop("P09", "The compiled-code cache never changes what a script does",
 "With compiled-code caching on, running a script file has the same effect as with caching off, whatever state the cache file was left in (missing, stale, truncated or torn by a crash, read-only, full disk) and whatever open, write, close, stat or map step fails. "
 "Code an engine has already loaded keeps running unchanged when the script or its cache file is later rewritten by this or another engine.",
 ["fault_sequences", "crash_points", "histories", "schedules"],
 "for all cache file contents, crash points inside cache writing, disk faults and interleavings of engines sharing the directory",
 "One test checks that a cache file appears on a healthy disk; faults, crashes and concurrent engines are never exercised.",
 ["src/mjs_exec.c", "src/common/cs_file.c", "src/mjs_bcode.c"],
 [("cache write and map", "src/mjs_exec.c:mjs_exec_internal"), ("mapping", "src/common/cs_file.c:cs_mmap_file")],
 "stdio, open, fstat and mmap behind link-time wrappers onto a simulated disk")

prop("P10", "Growable buffers keep their contract when allocation fails",
 "For any sequence of init, append, insert, remove, resize, trim, clear, move and free on a growable byte buffer, with any allocation failing and any reallocation moving the block, contents and length are exactly those of a byte vector to which the successful operations were applied. "
 "An operation that cannot get memory reports that nothing was stored and leaves the buffer as it was, and capacity never falls below length.",
 ["fault_sequences", "histories", "inputs"],
 "for all operation sequences, offsets, sizes and sets of failing or moving allocations",
 "No test exercises the buffer under allocation failure, and the engine's own use covers few operation orders.",
 ["src/common/mbuf.c", "src/common/mbuf.h"],
 [("buffer operations", "src/common/mbuf.c")],
 "allocator behind link-time wrappers")

prop("P11", "Engine instances in one process do not influence each other",
 "Several engines used in the same process behave exactly as each would alone, however their work is interleaved, on one thread or on several, also when one is interrupted in the middle of an instruction, of parsing, of a collection or of a library call: results, errors, error texts and traces, callbacks, collections and destruction of one never change another.",
 ["schedules", "histories", "programs"],
 "for all sets of programs and all interleavings of their steps",
 "Every test uses one engine at a time; shared hidden state only shows when two engines are in the middle of something at once.",
 ["src/mjs_core.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_string.c", "src/mjs_parser.c", "src/mjs_tok.c", "src/mjs_json.c", "src/mjs_util.c"],
 [("engine state", "src/mjs_core.h:struct mjs"), ("instruction loop", "src/mjs_exec.c:mjs_execute")],
 "step hook used as coroutine switch point")

prop("P12", "The File library reports exactly what reached or left the disk",
 "Writing a string through the File library always ends within a number of steps bounded by the string's length. It reports the full length only if every byte reached the file (and the file could be closed), the bytes that did reach it are a prefix of the string placed according to the open mode, and when the failing call is the write itself (rather than the deferred write of a buffered stream) the result is the number of bytes stored, whatever short writes, errors or full disk occur. "
 "Reading returns exactly the stored bytes up to the end or the first read error, null only when the file cannot be opened, and no handle stays open.",
 ["fault_sequences", "inputs", "histories"],
 "for all strings (any bytes and length), modes, file histories and sequences of short or failing I/O",
 "The suite has no test of the File library under I/O faults.",
 ["lib/api_file.js", "src/mjs_ffi.c", "src/ffi/ffi.c", "src/mjs_string.c"],
 [("library", "lib/api_file.js"), ("native calls", "src/mjs_ffi.c:mjs_ffi_call2")],
 "simulated C file functions supplied through the engine's symbol resolver")

prop("P13", "JSON conversion survives faults and collections without side effects",
 "JSON.parse and JSON.stringify of any value give the value they give in a fresh engine, whatever conversions, failed conversions, allocation failures and collections came before or come in between; cyclic values are cut at the point where the cycle closes and nowhere else. "
 "When the conversion's own working memory (as opposed to the engine's cell arenas, which end the process when they cannot grow) cannot be had the script gets an error, not a wrong or partial value, and the engine leaks nothing and stays usable.",
 ["fault_sequences", "histories", "inputs"],
 "for all values and texts, all histories of earlier conversions, and all sets of failing allocations during a conversion",
 "Tests convert a few values in a healthy engine; stale cycle tracking or half-built results need a failing conversion first.",
 ["src/mjs_json.c", "src/frozen/frozen.c", "src/mjs_string.c"],
 [("stringify", "src/mjs_json.c:mjs_json_stringify, to_json_or_debug"), ("parse", "src/mjs_json.c:mjs_json_parse, frozen_cb")],
 "allocator behind link-time wrappers; step hook")

prop("P14", "Results do not depend on where memory lands or what it held",
 "What a program computes is independent of the allocator: whether growing a block moves it, which addresses are reused, and what fresh memory contains. "
 "No string, array, object or call operation reads or writes memory that was released, never written or not its own, at any sizes and in any order of operations.",
 ["configurations", "programs", "histories"],
 "for all programs of string, array, object, call and host-import operations and all allocator behaviours (moving or in-place growth, immediate or delayed reuse, any fill)",
 "Tests run on one allocator in which growth rarely moves; pointers held across growth only go wrong at particular sizes and placements.",
 ["src/mjs_string.c", "src/mjs_array.c", "src/mjs_object.c", "src/mjs_exec.c", "src/mjs_conversion.c", "src/mjs_gc.c", "src/common/mbuf.c"],
 [("string storage", "src/mjs_string.c:embed_string, mjs_mk_string"), ("stacks", "src/common/mbuf.c:mbuf_insert"), ("array edits", "src/mjs_array.c:mjs_array_splice")],
 "allocator behind link-time wrappers")

prop("P15", "Automatic collection keeps up with the garbage",
 "A script or host program that runs on and on, keeping a bounded amount of data, needs a bounded amount of memory although nobody ever asks for a collection: "
 "the most memory the engine holds at once stops growing, however long one run, one loop, one nested run or the sequence of calls and events gets, "
 "whatever kind of value becomes garbage, and whatever failed before or fails on the way.",
 ["programs", "histories", "schedules"],
 "for all workloads that keep a bounded amount of data, all ways of repeating them (one long loop, nested runs, callbacks, events, host calls) and all earlier or concurrent failures",
 "Tests end after a few instructions or collect explicitly; a missing trigger only shows after thousands of iterations, in one kind of loop, or after a particular failure.",
 ["src/mjs_gc.c", "src/mjs_exec.c", "src/mjs_string.c"],
 [("triggers", "src/mjs_gc.c:gc_alloc_cell, gc_strings_is_gc_needed; src/mjs_string.c:mjs_mk_string"), ("collection point", "src/mjs_exec.c:mjs_execute (need_gc)"), ("sweep", "src/mjs_gc.c:gc_sweep, gc_compact_strings")],
 "allocator behind link-time wrappers (high-water mark)")

prop("P16", "Memory that cannot be had is reported as a failure",
 "When an allocation the engine makes for one operation is refused (arguments of a call, a registration or its signature, a converted key, a JSON buffer, the contents of a file), "
 "that operation fails with an error: it neither crashes, nor silently gives another result, nor leaks, and the engine stays usable. "
 "A failure stays a failure, with its error code, when there is no memory for its message or its stack trace: these then become shorter, never something else.",
 ["fault sequences", "histories"],
 "for all histories of scripts, files, calls, callbacks and conversions and all sequences of refused allocations (other than those of the cell arenas and the engine's growing buffers)",
 "Tests never refuse an allocation.",
 ["src/mjs_core.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_conversion.c", "src/mjs_json.c", "src/mjs_object.c", "src/common/cs_file.c", "src/common/str_util.c"],
 [("messages", "src/mjs_core.c:mjs_set_errorf, mjs_prepend_errorf, mjs_append_stack_trace_line"), ("arguments", "src/mjs_exec.c:mjs_call, mjs_apply_"), ("registrations", "src/mjs_ffi.c:mjs_ffi_call2, mjs_parse_ffi_signature, ffi_cb_impl_generic"), ("keys", "src/mjs_conversion.c:mjs_to_string")],
 "allocator behind link-time wrappers")

prop("P17", "Work the host starts inside a call leaves the interrupted script alone",
 "While a script has called host code (a foreign function, an FFI function, a callback's caller), the host may start further work on the same engine: run a script or a file, call a function, raise an event, let any of that fail and clear the error, collect, and do so again from within. "
 "The interrupted script then continues exactly as if nothing had happened: its pending expressions, call arguments, receiver, loops, scopes and error state are as they were. "
 "The nested work behaves as it would on its own: a break, continue or return it has no loop or function for does not act on the interrupted script, and what it looks like from outside does not depend on where it was started.",
 ["programs", "histories", "schedules", "fault sequences"],
 "for all programs, all points at which they call host code, all nested work (to any depth) and all ways it ends",
 "Tests nest an engine entry at most once, from a simple statement; what goes wrong depends on what is pending outside and how the inner work ends.",
 ["src/mjs_exec.c", "src/mjs_core.c", "src/mjs_gc.c", "src/mjs_parser.c", "src/mjs_ffi.c"],
 [("entry and exit", "src/mjs_exec.c:mjs_execute, mjs_apply_, mjs_exec_internal"), ("stacks", "src/mjs_core.h:struct mjs"), ("jumps", "src/mjs_exec.c:OP_BREAK, OP_CONTINUE, OP_RETURN")],
 "host functions and FFI functions (nested work at seeded calls)")

prop("P18", "A for..in loop copes with changes to the object",
 "A for..in loop visits every property that exists throughout the loop exactly once, never one that was deleted before its turn, each with its current value, and ends, "
 "whatever its body, functions it calls, host code or nested loops over the same object add, change, delete or collect meanwhile, and however those loops are left "
 "(a property added during the loop may or may not be visited; one deleted and added again is a new one). Likewise for the host's own walk (mjs_next) over an object it does not delete from.",
 ["programs", "histories", "schedules"],
 "for all objects, nestings of loops and sequences of changes by script and host between any two steps of a loop",
 "Tests walk objects that nobody changes; what goes wrong depends on which property is deleted at which step of which of several loops.",
 ["src/mjs_object.c", "src/mjs_exec.c", "src/mjs_gc.c", "src/mjs_array.c"],
 [("iterator", "src/mjs_object.c:mjs_next, mjs_del"), ("loop", "src/mjs_exec.c:OP_FOR_IN_NEXT"), ("iterators and collection", "src/mjs_gc.c")],
 "host functions called from the loop body (changes at seeded steps)")

# not decided by this technique (see MANIFEST not_applicable)
prop("N01", "Language semantics: operators, precedence, control flow follow ES6",
 "Every accepted program evaluates its expressions and statements as ES6 does.",
 ["programs"], "for all programs", "Tests sample programs.", ["src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_tok.c"],
 [("compiler", "src/mjs_parser.c"), ("evaluator", "src/mjs_exec.c:exec_expr")])
prop("N02", "JSON text format conforms and round-trips",
 "Text produced from a JSON-representable value parses back to an equal value and is valid JSON.",
 ["inputs"], "for all values", "Tests sample values.", ["src/mjs_json.c", "src/frozen/frozen.c"], [("codec", "src/mjs_json.c")])
prop("N03", "Parsing any bytes ends in success or a syntax error",
 "Compiling any byte sequence terminates with success or a syntax error and never touches memory outside the text and the output.",
 ["inputs"], "for all byte sequences", "Tests sample texts.", ["src/mjs_parser.c", "src/mjs_tok.c"], [("parser", "src/mjs_parser.c")])
prop("N04", "DataView and struct access honour offsets, widths and byte order",
 "Reads and writes through the DataView library and structure conversion touch exactly the addressed bytes in the requested byte order.",
 ["inputs"], "for all offsets, widths and values", "Tests sample a few widths.", ["src/mjs_dataview.c", "lib/api_dataview.js", "src/mjs_object.c"],
 [("views", "src/mjs_dataview.c"), ("struct conversion", "src/mjs_object.c:mjs_struct_to_obj")])
prop("N05", "Import signatures map to the native calling convention",
 "A function imported with a supported signature receives each argument and returns its result as the C declaration says, and unsupported signatures are rejected.",
 ["inputs"], "for all signatures and argument values", "Tests sample signatures.", ["src/mjs_ffi.c", "src/ffi/ffi.c"], [("signature parser", "src/mjs_ffi.c:mjs_parse_ffi_signature"), ("call", "src/ffi/ffi.c:ffi_call")])
prop("N06", "Formatted value output fits the buffer and reads back",
 "Rendering any value as text never writes past the given buffer and equals the unbounded rendering cut to size.",
 ["inputs"], "for all values and buffer sizes", "Tests sample values.", ["src/mjs_util.c", "src/mjs_json.c"], [("printing", "src/mjs_util.c:mjs_jprintf")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
