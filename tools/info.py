"""What each check explores; read by check.py and gen_manifest.py."""
SAMPLED = 'Sampled, not exhaustive: seeded executions of the real engine code against a reference model, every violation replayed in a fresh process. '
INFO = {
    'P01': {
        'tech': 'seeded collection schedule at every instruction and host call, results compared with a heap model without a collector',
        'note': SAMPLED + 'Trusts the script model (sim/model.cpp) for the generated subset of the language, and ASan for memory errors.',
        'rule': 'A case is one seeded execution: 1-5 generated script chunks (run directly, from a file or through load) with collections decided before every instruction and inside every host call; counted if at least one collection was injected and its event log differs from all others.',
        'faults': ['gc_at_instruction', 'gc_in_host_call', 'full_gc_in_host_call'],
    },
    'P02': {
        'tech': 'seeded histories of own/disown/assign/script/failure/collection against a registration-count and heap model',
        'note': SAMPLED + 'Assigning through a registered variable is modelled as the host program doing it between calls.',
        'rule': 'A case is one seeded history of 6-40 own, disown, take, give, mutate, script, failing script, call and collection operations over 12 host variables; counted if a collection or failure was injected and its event log is new.',
        'faults': ['gc_at_instruction', 'gc_in_host_call', 'full_gc_in_host_call'],
    },
    'P03': {
        'tech': 'seeded repetition of operations and their combinations under injected failures and collections with live memory compared between full collections, seeded histories with I/O faults ended by destroy with allocations, handles and mappings counted, and the same program texts repeated in two engines, failing in one and succeeding in the other',
        'note': SAMPLED + 'Growth is judged after 310-790 repetitions of 1-3 of about 80 operations, above a slack for high-water marks; a leak smaller than about 4 bytes per repetition of the whole set is not seen.',
        'rule': 'A case is one seeded execution: 1-3 operations repeated 310-790 times, or 1-3 program texts run 960 times in each of two engines, or a history of 1-14 scripts, file runs, loads, operations and failures ended by destroy; counted if a fault fired and its event log is new.',
        'faults': ['fail_at_instruction', 'fail_in_host_call', 'gc_at_instruction', 'gc_in_host_call', 'open_fails', 'short_read', 'read_error', 'write_error', 'close_fails', 'mmap_fails'],
        'measure': 'set of repeated operations and kind of faults',
    },
    'P04': {
        'tech': 'seeded histories of registrations, host events, frees, failing callbacks, nested activity inside callbacks and collections, against a table of registrations',
        'note': SAMPLED + 'Callback signatures the engine rejects are not exercised further; if it accepts one, delivery must be right. A free releases every registration of its function and user data.',
        'rule': 'A case is one seeded history of 4-45 registrations (18 callback signatures x 6 parameter orders), events, frees, failures and collections, with re-entrant activity decided inside every callback; counted if a fault or re-entrance fired and its event log is new.',
        'faults': ['gc_at_instruction', 'gc_in_host_call', 'full_gc_in_host_call', 'reentrant_work'],
        'measure': 'hash of the table of registrations (function, user data, signature, live) after an operation',
    },
    'P05': {
        'tech': 'seeded failure at any instruction, host call or checkpoint, or by the script itself, in any nesting; state after it compared with every cut of a model run, then the engine is probed',
        'note': SAMPLED + 'After an injected failure the state must be that of some point of the model run between the last event seen and the next one.',
        'rule': 'A case is one seeded history of 2-9 scripts, file runs, loads, host calls and collections with failures decided at every instruction, host call or checkpoint; counted if a failure or collection was injected and its event log is new.',
        'faults': ['fail_at_instruction', 'fail_in_host_call', 'gc_at_instruction', 'gc_in_host_call'],
    },
    'P06': {
        'tech': 'seeded multi-file call chains with a known failing place (or a failure injected at any instruction); error text, file:line trace and call frames seen by host functions compared with the places the generator wrote down',
        'note': SAMPLED + 'Statements end in semicolons (without them the line of the next token is reported). A loop header or call spread over several lines may be reported as any of its lines.',
        'rule': 'A case is one seeded history of 1-9 chain runs, reruns, host calls, parse errors, missing files and native failures; chains are 1-6 calls deep through 10 ways of calling, over up to 9 files; counted if a fault fired and its event log is new.',
        'faults': ['fail_at_instruction', 'gc_at_instruction', 'gc_in_host_call'],
        'measure': 'hash of a reported stack trace',
    },
    'P07': {
        'tech': 'seeded open/seek/tell/short-read/read-error/allocation faults while files run or load, checked all-or-nothing against the script model, then retried without faults',
        'note': SAMPLED + 'Allocation failures are injected only while the engine holds the file open (elsewhere the engine documents no recovery).',
        'rule': 'A case is one seeded history of 1-10 file runs, loads, reruns and rewrites with I/O and allocation faults decided at every call; counted if a fault fired and its event log is new.',
        'faults': ['open_fails', 'seek_fails', 'tell_fails', 'short_read', 'read_error', 'alloc_fails'],
    },
    'P08': {
        'tech': 'seeded file graphs, load/call/callback histories with failing checkpoints, unreadable and repaired files and collections, against a model of load',
        'note': SAMPLED + 'Load graphs are acyclic. Whether a file evaluated only in namespaces is evaluated again by a shared load is not specified: runs end there.',
        'rule': 'A case is one seeded history of 2-14 scripts, host calls, repairs and collections over 7 generated files loading each other; counted if a fault fired and its event log is new.',
        'faults': ['fail_in_host_call', 'open_fails', 'gc_at_instruction', 'gc_in_host_call'],
    },
    'P09': {
        'tech': 'seeded histories over caching engines and a twin without caching, with I/O faults, torn cache files and crashes at any I/O step; every run compared with the twin',
        'note': SAMPLED + 'The oracle is the same engine code with caching off. A crash ends the process: unflushed file data is lost in part, mappings and handles vanish.',
        'rule': 'A case is one seeded history of runs, loads, calls, rewrites, spoiled and read-only cache files, full disks, collections, crashes and engine drops on 1-3 caching engines; counted if a fault fired and its event log is new.',
        'faults': ['open_fails', 'seek_fails', 'short_read', 'read_error', 'short_write', 'write_error', 'disk_full', 'close_fails', 'stat_fails', 'mmap_fails', 'crash', 'gc_at_instruction'],
    },
    'P10': {
        'tech': 'seeded sequences of buffer operations with failing and moving allocations against a byte-vector model',
        'note': SAMPLED + 'Bytes inserted without a source are unspecified and not compared.',
        'rule': 'A case is one seeded sequence of 5-120 operations on three buffers; counted if an allocation failed or a reallocation decision was made and its event log is new.',
        'faults': ['alloc_fails', 'realloc_moves'],
        'measure': 'hash of (operation, length, capacity) after an operation',
    },
    'P11': {
        'variants': ['v0', 'v1', 'v2', 'v2', 'v0', 'v2', 'v1', 'v2'],
        'tech': '2-4 engines on threads passing a baton at seeded instructions, host calls and points inside instructions (in one build, at any branch of the engine), with failures, collections, events and another engine used inside host functions; each action compared with the same action recorded with the engine alone',
        'note': SAMPLED + 'Exactly one thread runs at a time: switches between two branches of the engine (build v2), at library and allocator calls, instructions and host calls; not torn single memory accesses. The oracle is the same code running alone.',
        'rule': 'A case is one seeded interleaving of 2-4 engines; counted if a switch, failure or collection was injected and its event log is new.',
        'faults': ['switch_engine', 'switch_inside_instruction', 'reentrant_work', 'gc_at_instruction'],
        'measure': 'hash of the engine\'s rendered state after an action',
    },
    'P13': {
        'tech': 'seeded sequences of conversions with allocation failures inside the engine\'s JSON code, malformed texts, collections and swallowed errors; results compared with the generated value graph, with a fresh engine for malformed texts, and kept results re-checked',
        'note': SAMPLED + 'Allocations for a conversion itself fail; the cell arenas (the engine aborts by design) and growth of stores that exist already do not.',
        'rule': 'A case is one seeded sequence of 3-22 conversions of generated value graphs (shared, cyclic, deep) and texts; counted if an allocation failed or a collection was injected and its event log is new.',
        'faults': ['alloc_fails', 'realloc_moves', 'gc_at_instruction', 'gc_in_host_call', 'full_gc_in_host_call'],
        'measure': 'hash of (text, outcome) of a conversion',
    },
    'P12': {
        'tech': 'seeded File.write/File.read histories under short, failing and full-disk I/O on a simulated disk (buffered and unbuffered streams) and collections, file contents and results compared with a byte model, step-bounded',
        'note': SAMPLED + 'The C file functions reached through the resolver are the simulated disk; lib/api_file.js, the engine and its native call path are real. Strings contain no NUL bytes when passed as names or modes.',
        'rule': 'A case is one seeded history of writes, reads and host-side file changes over a few files; counted if a fault fired and its event log is new.',
        'faults': ['open_fails', 'short_read', 'read_error', 'short_write', 'write_error', 'disk_full', 'close_fails', 'gc_at_instruction'],
        'measure': 'hash of (operation, result, file contents)',
    },
    'P14': {
        'tech': 'two engines under different seeded allocator behaviours (moving or in-place growth, room behind blocks, immediate reuse of released blocks, fill of fresh memory) run the same operations at boundary sizes with collections; compared with each other and with the model, ASan watching',
        'note': SAMPLED + 'Operations with odd arguments are outside the model: there only the two engines are compared. Access through raw pointers (indexing foreign values, mkstr, s2o at arbitrary addresses) is the script\'s own responsibility and left out.',
        'rule': 'A case is one seeded sequence of 4-30 operations of 28 kinds run on two engines with their own allocator configurations; counted if a block moved or a collection was injected and its event log is new.',
        'faults': ['realloc_moves', 'gc_at_instruction', 'gc_in_host_call'],
    },
    'P15': {
        'tech': 'seeded workloads (1-4 of ~85 bodies that keep bounded data) repeated in one loop, nested runs, callbacks, events, host calls, recursion, loaded files or scope-less loops, after seeded histories of failures and with failures injected on the way, with no collection injected; the allocator\'s high-water mark has to stop growing',
        'note': SAMPLED + 'Bounded means: over 3, then 6 times as many repetitions the high-water mark grows by less than a few kilobytes, or ever more slowly. Text records of foreign memory (known finding of P03) are left out.',
        'rule': 'A case is one seeded history of 0-8 operations followed by one workload repeated 150, 150, 450 (and 900) times; counted if a failure was injected, or for its event log, if new.',
        'faults': ['fail_at_instruction'],
        'measure': 'hash of (workload, way of repeating it)',
    },
    'P16': {
        'tech': 'two engines run one seeded history of scripts, files, calls, events, conversions and host errors; one is refused memory for messages and traces at seeded points and, in one operation, any other memory it asks for; codes, events, state, texts and traces are compared with the other engine',
        'note': SAMPLED + 'The oracle is the same code without refusals. Cell arenas and growing buffers (mbuf: stacks, string store, byte code) are never refused: running out there is not survivable by design. Once other memory than that for texts has been refused, the run ends with a battery that the engine still works.',
        'rule': 'A case is one seeded history of 1-12 operations with a refusal plan; counted if an allocation was refused or a collection injected and its event log is new.',
        'faults': ['alloc_fails', 'message_alloc_fails', 'gc_at_instruction'],
        'measure': 'hash of (error text, trace, kinds of refusals) after an operation',
    },
    'P17': {
        'tech': 'seeded programs, files, loads and host calls run against the reference model while, at seeded host and FFI calls, the host starts further work on the engine (one of ~45 pieces: scripts, files, calls, events, failures of every kind, collections), up to three deep; the outer work has to match the model, which knows of no nested work, and the inner work what it did on its own',
        'note': SAMPLED + 'Nested top-level declarations and `this` at the top level of nested scripts land in the interrupted scope by design and are left out. The host clears the error of failed nested work; letting it through is P02 and P11.',
        'rule': 'A case is one seeded history of 2-9 operations; counted if nested work or a collection was injected and its event log is new.',
        'faults': ['reentrant_work', 'gc_at_instruction', 'gc_in_host_call', 'fail_at_instruction', 'fail_in_host_call'],
        'measure': 'hash of (global values) after an operation',
    },
    'P18': {
        'tech': 'seeded nests of for..in loops over a few objects and an array; at seeded steps host code adds, changes, deletes, re-adds, collects or takes the freed room, and loops are left at seeded steps; every visit and every end of a loop is checked against a model of the objects with times',
        'note': SAMPLED + 'Up to 4 loops deep, up to ~50 properties per object.',
        'rule': 'A case is one seeded history of 2-9 operations; counted if a change, an early leave or a collection was injected and its event log is new.',
        'faults': ['object_changed', 'loop_left', 'gc_at_instruction', 'gc_in_host_call'],
        'measure': 'hash of the contents of all objects after an operation',
    },
}
PURE = 'A pure function of its input: no schedule, fault, clock or I/O takes part, so simulation with fault injection has nothing to decide here; '
NA = {
    'N01': PURE + 'the interpreter is exercised as the workload of P01, P05, P11 and P14.',
    'N02': PURE + 'JSON under faults and collections is P13.',
    'N03': PURE + 'this is a fuzzing target over source text.',
    'N04': PURE + 'memory safety under allocator faults is P14.',
    'N05': PURE + 'callback delivery, which has a history, is P04.',
    'N06': PURE + 'it has no history or fault to inject.',
}
