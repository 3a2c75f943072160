"""Texts of the properties, the checks' manifest entries and the not-applicable list (gen.py writes properties.jsonl and MANIFEST.json from it)."""
def P(id, title, statement, over, quant, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None))
PROPERTIES = [
 (P("O01", "Evaluation never loses references to values",
    "Every reference to a value that any operation of the system obtains (a new result, a copy, a retained value, a buffer) is released, handed to its receiver, stored or returned on every path of that operation, including every error path and early exit. No sequence of evaluations, failing or not, makes live memory grow by values that nothing refers to any more.",
    ["inputs", "histories", "fault_sequences"], "for every input of every operation, every failing sub-evaluation and every early exit",
    "Tests check results, not the reference balance, and the failing paths (a type error in the third column of a query, an allocation or length check that fails half way) are almost never taken by them.",
    ["core/rayforce.c", "core/eval.c", "core/query.c", "core/join.c", "core/items.c", "core/iter.c", "core/io.c"],
    [("reference counts", "core/rayforce.c clone_obj/drop_obj"), ("per-operation cleanup on error paths", "all core/*.c")],
    ["memory statistics after evaluation", "every return statement of every function"], [("rc", "number of references to the value", "object header")]),
  dict(technique="path-sensitive ownership dataflow (typestate of references) with interprocedural summaries over LLVM IR", level="other",
       note="Decides, for every function and every feasible-looking path through it, that each obtained reference is accounted for. Trusted: the object API contracts and the inferred summaries; not followed: references inside raw (non-object) memory, core/update.c, the sites listed as undecided, and the functions listed as partially explored in the evidence.")),
 (P("O02", "No value is released twice, used after release or handed out unowned",
    "No operation gives up a reference it does not hold: a value is never released more often than it was retained, never read, written or passed on after its last reference on that path was released, and every operation returns a value the caller really owns. In particular the arguments of an operation stay valid for its caller whatever the operation does, including when it fails.",
    ["inputs", "histories", "fault_sequences"], "for every input of every operation, every failing sub-evaluation and every early exit",
    "An over-release only shows when the block is reused by a later allocation; tests rarely reach the failing path and, when they do, the stale memory usually still holds the old bytes.",
    ["core/rayforce.c", "core/eval.c", "core/query.c", "core/join.c", "core/items.c", "core/iter.c", "core/cmp.c", "core/compose.c"],
    [("reference counts", "core/rayforce.c clone_obj/drop_obj"), ("borrowed-argument convention of builtins", "core/eval.c unary_call/binary_call/vary_call")],
    ["every use of a value", "every return statement of every function"], [("rc", "number of references to the value", "object header")]),
  dict(technique="path-sensitive ownership dataflow (typestate of references) with interprocedural summaries over LLVM IR", level="other",
       note="Decides, for every function and every feasible-looking path through it, that releases, transfers and uses respect the references held. Trusted: the object API contracts and the inferred summaries; not followed: references inside raw (non-object) memory, core/update.c, the sites listed as undecided, and the functions listed as partially explored in the evidence.")),
 (P("M01", "Values behave as values: an operation never changes its operands",
    "Evaluating an operation never changes a value that something else still refers to: the operands it was given, values bound to other names, constants in source text, elements of other containers and columns of other tables keep their contents. In-place updates happen only on values that the operation itself created or holds the only reference to; everything else is copied first.",
    ["inputs", "histories"], "for every operation, every sharing pattern of its operands and every history of bindings",
    "A test compares the result of an operation; whether an operand was changed shows only when the operand is looked at again later, under the particular sharing (same value bound twice, an element shared by two lists) that made the in-place path wrong.",
    ["core/update.c", "core/items.c", "core/iter.c", "core/logic.c", "core/math.c", "core/compose.c", "core/join.c", "core/query.c", "core/rayforce.c"],
    [("copy on write", "core/rayforce.c cow_obj/copy_obj"), ("in-place reuse of unshared operands", "rc_obj(x) == 1 tests in core/math.c, core/logic.c, core/cast.c"), ("variable updates", "core/update.c")],
    ["every variable after any evaluation"], [("rc", "number of references to the value", "object header")]),
  dict(technique="interprocedural effect analysis with uniqueness (alias) typestate over LLVM IR", level="other",
       note="Decides, for every function registered as an operation of the language and every feasible-looking path, that each write goes to an object created on the path or tested to be unshared. Writes through raw (non-object) memory are not followed; the compiled form cached in a function value is exempt.")),
 (P("T01", "Elements are read and written with the width of the value's type",
    "Wherever the system reads or writes an element of a vector, or the value held by an atom, it does so with the size of the type the value has there: a vector of 1-, 2-, 4-, 8- or 16-byte elements is never accessed as if its elements had another size, in any arm of any type dispatch, for any combination of operand types. A result of one element type is never filled in with elements of another width, an index vector of one width is never read with another, and an atom is never read wider than it was written.",
    ["inputs"], "for every operation and every combination of operand types it accepts",
    "There are thousands of (operation, left type, right type) arms produced by macros; a test covers a few, and a wrong width often still gives the right answer for small values on a little-endian machine.",
    ["core/math.c", "core/items.c", "core/rayforce.c", "core/cmp.c", "core/aggr.c", "core/cast.c", "core/sort.c", "core/group.c"],
    [("type dispatch", "MTYPE2 switches of all operations"), ("typed access macros", "core/rayforce.h AS_I64/AS_I32/...")],
    ["result of any operation"], [("type", "tag of the value", "object header")]),
  dict(technique="path-sensitive type-set dataflow checked against access widths over LLVM IR", level="other",
       note="Decides every access whose object has a type narrowed by the checks on the path (type tag tests, constructors, inferred result types); accesses of objects of unknown type are not decided, nor is signed/float interpretation at equal width.")),
 (P("E01", "An error is never treated as a value",
    "When a step of an operation fails, its error result is passed on (or deliberately discarded): no operation reads the length, the value or the elements of an error as if it were data, no operation builds a list, table or dict that has an error among its elements, and no operation completes as if nothing had happened when a step of it failed. This holds for errors of nested evaluations, of tasks run on worker threads, of parts of partitioned columns and of values received from files and peers.",
    ["inputs", "fault_sequences"], "for every operation, every step of it that can fail and every failure of it",
    "Each failing step needs its own malformed input to be reached (a part of a partitioned column with another type, a missing symbol file, a failing task); tests exercise few of them.",
    ["core/aggr.c", "core/items.c", "core/io.c", "core/query.c", "core/index.c", "core/ops.c", "core/compose.c", "core/serde.c", "core/eval.c"],
    [("error results", "core/error.c err_* and IS_ERR tests at every call"), ("parallel error collection", "core/pool.c pool_run")],
    ["result of any operation"], [("ERR_OBJ", "the shared error value; its details live in the VM", "core/error.c")]),
  dict(technique="path-sensitive dataflow of error outcomes (type sets, inferred failure summaries) over LLVM IR", level="other",
       note="Decides, for every call whose error outcome the summaries know, that the paths on which it failed do not read or store the error as data, and that somebody looks at it before the operation succeeds. Not decided: errors that depend on a relation between two operand types and deliberate discards (listed sites).")),
 (P("R01", "Every file, socket, mapping and process opened is released exactly once",
    "Whatever an operation opens - a file, a directory, a socket, a file mapping, a child process stream, a shared library - is closed again on every path of that operation, including every failing step after the opening, unless it is returned to the caller or kept in a structure whose owner closes it later. Nothing is closed twice and no closed handle is used again. Repeating an operation, failing or not, never uses up descriptors or mappings.",
    ["inputs", "histories", "fault_sequences"], "for every operation that opens something and every step of it that can fail",
    "Leaked handles are invisible in results; they show after thousands of failures of a particular step (a short file, a peer that hangs up in the handshake, a malformed header), which no test stages.",
    ["core/io.c", "core/binary.c", "core/unary.c", "core/fs.c", "core/sock.c", "core/ipc.c", "core/epoll.c", "core/sys.c", "core/mmap.c", "core/heap.c", "core/dynlib.c"],
    [("closing on error paths", "core/unary.c ray_get, core/io.c ray_read_csv, core/binary.c ray_set"), ("connection teardown", "core/epoll.c poll_deregister"), ("mapped files of the runtime", "core/fdmap.c")],
    ["open descriptors and mappings of the process"], [("fd", "descriptor of a connection", "core/poll.h selector_t")]),
  dict(technique="path-sensitive typestate analysis of operating-system resources with interprocedural effects over LLVM IR", level="other",
       note="Decides, for every call that obtains a resource, each path from there to the function's returns (branch conditions over the same value taken consistently). Values kept in structures: some function must load that member and release it; whether it does so for every instance is not decided. Anonymous memory belongs to the allocator and is not followed; the Linux configuration is analysed.")),
 (P("L01", "Whatever an operation enters it leaves on every path",
    "Operations that enter something leave it again exactly once on every path, failing or not: a query that installed its context (column resolution) removes it before its activation ends, a batch of parallel tasks that was prepared is run before the function returns and tasks are added only to a prepared batch, a lock that was taken is released (and never taken twice), shared reference counting switched on for a batch is switched off, a timing span that was started is ended, looked-up addresses are freed.",
    ["inputs", "histories", "fault_sequences", "schedules"], "for every operation that enters one of these and every path through it",
    "A context left behind by a failing query points into a dead stack frame and is only consulted by a later, unrelated evaluation; a lock left on an error path blocks the next caller.",
    ["core/query.c", "core/join.c", "core/update.c", "core/pool.c", "core/eval.c", "core/chrono.c", "core/sock.c", "core/index.c", "core/aggr.c"],
    [("query context", "core/query.c query_ctx_init/query_ctx_destroy"), ("task batches", "core/pool.c pool_prepare/pool_add_task/pool_run"), ("locks", "core/thread.c mutex_lock/mutex_unlock"), ("timing spans", "core/chrono.c timeit_span_start/timeit_span_end")],
    ["vm state after any evaluation"], [("query_ctx", "context columns are resolved in", "core/eval.h vm_t"), ("rc_sync", "atomic reference counting on", "core/eval.h vm_t")]),
  dict(technique="path-sensitive typestate analysis of paired operations with net effects of callees over LLVM IR", level="other",
       note="Decides, for every function that performs one of the paired operations (directly or through callees with a net effect), that all paths to its returns agree on a balanced depth. Pairing is by kind, not by instance (two locks of one kind are not told apart).")),
 (P("C01", "Memory shared between threads is only accessed synchronised",
    "Everything that more than one thread can reach - the task and result queues, the symbol table, block lists, executors' state, reference counts while tasks run - is read and written through atomic operations of sufficient order, under the lock that protects it, or before it is published to other threads; slots of the shared queues and tables are claimed by an atomic exchange before they are filled. Tasks run on worker threads write no global state and call nothing that is only safe on the main thread, and every wait for a condition re-checks it under the lock. So no schedule of the workers changes a result, loses a task or a wake-up, or tears a value.",
    ["schedules", "inputs"], "for every interleaving of main thread and workers and every operation split over them",
    "The tests run a few schedules of small inputs on strongly ordered hardware; an unlocked increment or a relaxed publication fails once in millions of runs, or only on another processor.",
    ["core/pool.c", "core/mpmc.c", "core/symbols.c", "core/heap.c", "core/rayforce.c", "core/thread.c", "core/hash.c"],
    [("bounded MPMC queues", "core/mpmc.c"), ("lock-free symbol interning", "core/symbols.c symbols_intern"), ("executor handshake", "core/pool.c executor_run/pool_run"), ("atomic reference counts while tasks run", "core/rayforce.c clone_obj/drop_obj, vm->rc_sync")],
    ["results of parallel operations under any schedule"], [("cells", "ring slots with sequence numbers", "core/mpmc.c"), ("syms", "interned strings", "core/symbols.c"), ("running/busy/round", "handshake of the pool with its executors", "core/pool.c")]),
  dict(technique="shared-location inference with atomicity, publication-order, lockset and task-effect analyses over LLVM IR", level="other",
       note="Decides every access to the members and globals that threads share (inferred from thread entries, tasks and the atomic operations used on them). Exempt: fresh and torn-down structures, the sequential variants of the hash tables. Not decided: disjointness of the element ranges tasks write, and user lambdas that assign globals in parallel.")),
 (P("K01", "What is called through a pointer gets the arguments it takes",
    "Every function reached through a pointer - tasks of the worker pool, aggregation and join parts, comparison and hash callbacks, builtins - is called with as many arguments, and of the kinds, that it is defined with: each task is given exactly its parameters in the order of their kinds, the dispatcher of the pool handles every number of arguments that is used, and lists built from counted argument lists name as many elements as they are given.",
    ["inputs", "schedules"], "for every task, callback and counted call and every input that selects it",
    "The compiler accepts any function there (a cast or variadic call hides the types); a task is run through its own path only for inputs above the splitting threshold, so small tests never call it.",
    ["core/pool.c", "core/aggr.c", "core/index.c", "core/join.c", "core/iter.c", "core/math.c", "core/cmp.c", "core/sort.c", "core/hash.c"],
    [("task construction", "pool_add_task calls"), ("task dispatch", "core/pool.c pool_call_task_fn"), ("counted construction", "vn_list, vn_symbol")],
    ["result of any operation on large inputs"]),
  dict(technique="call-graph (function-pointer target) and signature-agreement analysis over LLVM IR", level="other",
       note="Decides each task, counted and pointer call whose possible targets are found by following the stored function pointers. Values of the same kind in a wrong order are not told apart.")),
 (P("F01", "Data is never interpreted as a format",
    "Text that comes from values, files, peers or the user - symbol names, column names, strings, paths - is only ever an argument of formatted output, never its format: printing, formatting, error messages and file output reproduce any such text, whatever percent signs it contains, and each format names as many arguments, of the right kinds and widths, as it is given.",
    ["inputs"], "for every text that reaches a formatting operation",
    "Tests print ordinary names; a percent sign in a symbol, column or file name makes the difference, and a wrong conversion width often prints correctly for small values.",
    ["core/format.c", "core/io.c", "core/error.c", "core/repl.c", "core/log.c", "core/os.c"],
    [("formatting primitives", "core/format.c str_fmt_into/str_vfmt_into"), ("file output", "core/io.c fprintf of csv cells"), ("error texts", "core/error.c")],
    ["any printed, formatted or written text"]),
  dict(technique="format-string provenance and argument-agreement analysis over LLVM IR", level="other",
       note="Decides every call of a printf-like function, external or of the system's own: the format must be a constant (or the caller's own format parameter handed on with its arguments) and agree with the arguments after promotion.")),
 (P("S01", "Serialisation and deserialisation agree for every type",
    "For every type of value, the size computed in advance, the bytes written and the bytes read back agree: a value that can be serialised takes exactly the announced number of bytes, is decoded from exactly those bytes, wherever it stands inside an enclosing list, dict or table, and comes back with the same type, length, elements and order of its parts; no type is known to only some of the three steps.",
    ["inputs"], "for every value of every type, nested to any depth",
    "A disagreement by one byte shows only when something follows the value (a nested list, the next message, the end of an allocation) and only for the type concerned; tests serialise a few types at top level.",
    ["core/serde.c", "core/ipc.c", "core/binary.c", "core/io.c"],
    [("size", "core/serde.c size_obj"), ("encoding", "core/serde.c ser_raw"), ("decoding", "core/serde.c de_raw")],
    ["(de (ser x))", "values sent over IPC", "files of lists"]),
  dict(technique="abstract interpretation over linear (affine) forms: per-type specialisation of the encoder, decoder and size functions, with loop summaries", level="other",
       note="Decides each of the 33 serialisable type tags; the contents of text are compared by where they are taken from and how long they are, not byte by byte.")),
 (P("S02", "Decoding stays within the bytes it is given",
    "Whatever bytes a peer, a file or the user supplies, decoding reads only within them, trusts no length or text terminator found in them before checking it against what is left, and either yields a value or an error; those who call the decoder (messages, files, map lists, the de function) give it no more bytes than there are, and those who encode have room for everything that is written.",
    ["inputs", "fault_sequences"], "for every byte sequence handed to the decoder, truncated or corrupt ones included",
    "Tests decode what the system itself encoded; a hostile or truncated message needs particular bytes at particular places, and a read slightly beyond the end usually goes unnoticed.",
    ["core/serde.c", "core/ipc.c", "core/io.c", "core/unary.c", "core/cmp.c", "core/compose.c", "core/binary.c"],
    [("decoder", "core/serde.c de_raw"), ("entry", "core/serde.c de_obj"), ("messages", "core/ipc.c ipc_read_header/ipc_read_msg"), ("files", "core/unary.c ray_get, core/io.c ray_read"), ("map lists", "core/serde.c maplist_data")],
    ["process stays up and answers with an error"]),
  dict(technique="abstract interpretation over linear (affine) forms with linear entailment of bounds", level="other",
       note="Decides each read, copy and length in the decoder per type tag, and each call of the decoder and encoder. The contents of decoded values (e.g. symbols in place of lists inside a lambda) and recursion depth are not bounded.")),
 (P("V01", "Element-wise operations agree across shapes, types and parts",
    "Arithmetic, comparison and rounding operations compute each element of the result from the elements at the same place, over exactly the part they were given, whether the vector is handled whole or in parts by several executors; an atom and a vector of the same value give the same result, in the type the same operation on atoms has; a comparison means the same for every pair of types, sums and products do not depend on the order of their operands, and a null operand of arithmetic makes a null result.",
    ["inputs", "schedules"], "for every operation, every pair of operand types, every shape (atom or vector on either side), every length and every split into parts",
    "There are about 1300 combinations of operation, type pair and shape, each written out by hand; tests sample some of them on short vectors that are never split, with values that fit every type.",
    ["core/math.c", "core/cmp.c", "core/ops.h", "core/cmp.h"],
    [("arithmetic", "core/math.c ray_*_partial, __BINOP_*"), ("mapping", "core/math.c binop_map, unop_map, infer_*_type"), ("comparison", "core/cmp.c ray_*_partial, cmp_map")],
    ["values of (+ x y), (< x y), (div x y) ... for atoms, vectors, long vectors"]),
  dict(technique="abstract interpretation with hash-consed normalised expressions per type pair, relational comparison of the arms", level="other",
       note="Decides every arm of every operation handed to the mappers (1329 arms, 945 pairs of shapes). Whether the formula of an operation is the right one is not decided, only that all its arms agree on it. 15 arms (rounding of integers, which hands its operand back) are undecided.")),
 (P("P01", "Work divided among executors covers every element exactly once",
    "Whenever an operation on a long value is divided among the executors of the pool, the parts are consecutive, start at the first element, end at the last, do not overlap, leave nothing out and never reach beyond the end, whatever the length and the number of executors; every task reads and writes exactly the places of its part, element numbers it hands out are numbers in the whole, and a value that is the same for all elements is the same in every part. The undivided form does all of the work.",
    ["inputs", "schedules"], "for every length, every number of executors and every operation that is divided",
    "Division only starts above 16384 elements and depends on the number of cores; the rounding of parts to pages matters only for some lengths. Tests use short vectors and the cores of one machine.",
    ["core/pool.c", "core/aggr.c", "core/index.c", "core/math.c", "core/cmp.c", "core/logic.c", "core/compose.c", "core/iter.c", "core/items.c", "core/io.c", "core/order.c", "core/sort.c"],
    [("division", "core/pool.c pool_split_by, pool_chunk_aligned, pool_map"), ("aggregation", "core/aggr.c aggr_map_*, AGGR_ITER"), ("grouping and joins", "core/index.c *_partial"), ("masks", "core/logic.c logic_map")],
    ["results of operations on vectors of more than 16384 elements with -c 1 and -c 8"]),
  dict(technique="symbolic normal forms of the part's start and length over loop-carried values, range and place analysis of every task function", level="other",
       note="33 divisions (81 forms of part), 58 task functions, about 1200 loops. Two divisions are undecided (one by hash partition, one whose counter's address escapes). Combination of the partial results is not decided.")),
 (P("A01", "Aggregates of parts combine to the aggregate of the whole",
    "When an aggregation or a fold (sum, min, max, avg, dev, count, first, last and the like, plain or by group, over plain and parted columns) is computed in parts, combining the partial results gives what one pass over all rows in order gives: for every type, every kind of group index, every way the rows fall into parts, including parts in which a group has no rows or only nulls. Sums of floats may be rounded differently.",
    ["inputs", "schedules"], "for every data set, every number of executors and parts, and every element type",
    "Parts exist only above 16384 rows and several executors, or for parted tables; a group that is missing from the first part, or has only nulls in one, needs particular data; tests run small vectors.",
    ["core/aggr.c", "core/math.c", "core/ops.h"],
    [("accumulation", "core/aggr.c AGGR_ITER, aggr_*_partial"), ("combination", "core/aggr.c AGGR_COLLECT, PARTED_MAP, aggr_avg, aggr_dev"), ("folds", "core/math.c unop_fold, ray_cnt, ray_*_partial")],
    ["results of select with aggregates by group, and of sum/min/max/count/avg, with -c 1 and -c 8"]),
  dict(technique="guarded transfer functions of accumulating and combining loops, homomorphism decided by case analysis over order types of the values", level="other",
       note="300 accumulating loops, 103 pairs of accumulation and combination, 27 folds. The closing formulas (division by the count, deviation) are not decided; a combination step spelled through registers across a nested call (avg over parted columns) is not recognised.")),
]
NOT_APPLICABLE = [
 (P("N01", "Arithmetic and aggregate results are the mathematically right ones",
    "For every pair of operands and types, +, -, *, /, div, %, xbar, sum, avg, med, dev and the like return the value their documentation defines, including the treatment of nulls, infinities, overflow and empty vectors.",
    ["inputs"], "for all operands of all numeric types",
    "Tests sample values; the arms for rare type pairs, negative divisors, nulls and overflow are not all sampled.",
    ["core/math.c", "core/ops.h", "core/aggr.c"], [("operations", "core/ops.h ADD*, DIV*, MOD*, XBAR*; core/math.c"), ("documentation", "docs/")],
    ["results of expressions"]),
  "the right value is defined by prose, not by a second construct in the source; V01 and A01 decide the relative form (all arms agree, parts agree with the whole), the absolute one needs an oracle that is run"),
 (P("N02", "Queries select, group and join the rows they describe",
    "select, update, insert, upsert, left/inner/asof/window joins return for every table exactly the rows, groups and columns their clauses describe, in row order.",
    ["inputs"], "for all tables, clauses and key distributions",
    "Hash collisions, null keys, duplicate keys, empty tables and mixed types interact; tests sample small tables.",
    ["core/query.c", "core/join.c", "core/update.c", "core/index.c", "core/group.c"], [("select", "core/query.c ray_select"), ("joins", "core/join.c"), ("indices", "core/index.c")],
    ["tables returned by queries"]),
  "quantifies over contents of tables and hash tables; no sound static argument in reach bounds them (P01 and A01 decide that the division among executors does not change results)"),
 (P("N03", "Sorting returns a stable sorted permutation for every type and length",
    "asc, desc, iasc, idesc, xasc, xdesc, rank return a permutation of the indices that orders the values, nulls in their documented place, equal values in their original order.",
    ["inputs"], "for all vectors",
    "Counting, radix and merge sort are chosen by type, length and range of the values.",
    ["core/sort.c", "core/order.c"], [("sorting", "core/sort.c ray_sort_asc, ray_sort_desc")],
    ["results of sorting"]),
  "sortedness and permutation are invariants of array contents in nested loops with counting tables; no static domain in reach expresses them"),
 (P("N04", "Every index into a vector stays within its bounds",
    "No read or write goes beyond the elements of a vector, whatever index, key, range or position a program or a file supplies.",
    ["inputs"], "for all programs and files",
    "An index one past the end usually reads zeros; only a sanitizer and the right input show it.",
    ["core/items.c", "core/compose.c", "core/index.c", "core/vary.c"], [("element access", "core/items.c ray_at, at_idx, set_idx")],
    ["crashes, values that are not in the data"]),
  "in general the index is data (contents of index vectors, results of hashing); the decidable parts are claimed elsewhere: parts of a division (P01), widths (T01), positions in serialised input (S01, S02)"),
 (P("N05", "A failing insert, update or set leaves its target as it was",
    "When insert, upsert, update, set or a write to a file fails half way (type error, memory, disk), the value or file it was to change is as before.",
    ["inputs", "crash_points"], "for all points of failure",
    "The failure has to happen between two columns or two writes.",
    ["core/update.c", "core/io.c", "core/items.c"], [("updates", "core/update.c ray_insert, ray_upsert, ray_update"), ("files", "core/io.c")],
    ["state after an error"]),
  "the code does not provide it: columns are extended one after the other in place and files are overwritten in place; a check could only report that design"),
 (P("N06", "Saved tables survive a crash of the process or machine",
    "A table, vector or splayed/parted directory written with set can be read back after a crash at any point as either the old or the new one.",
    ["crash_points"], "for all points of a crash",
    "Tests do not crash.", ["core/io.c", "core/fs.c", "core/binary.c"], [("set to file", "core/binary.c binary_set, core/io.c")],
    ["files after a crash"]),
  "no write-ahead log, no fsync, no rename protocol exists in the code; the project does not claim it"),
 (P("N07", "The server answers every request in order and never starves a connection",
    "Every complete request on a connection is answered once, in order, while other connections are served, whatever the packet boundaries and closing times.",
    ["schedules", "histories"], "for all interleavings of connections, packets and timers",
    "Packets in tests arrive whole.", ["core/poll.c", "core/ipc.c", "core/sock.c"], [("event loop", "core/epoll.c poll_run"), ("protocol", "core/ipc.c")],
    ["replies on connections"]),
  "a liveness and history property of an event loop over kernel state; needs a model of the environment that is explored, which is another family (R01, K01 and S01 decide the resource, callback and format parts)"),
 (P("N08", "Parsing and reading nested input needs bounded stack",
    "No input text, message or file, however deeply nested, exhausts the C stack.",
    ["inputs"], "for all nesting depths",
    "Tests nest a few levels.", ["core/parse.c", "core/serde.c", "core/format.c"], [("parser", "core/parse.c parser_advance"), ("deserialiser", "core/serde.c de_raw")],
    ["crashes on deep input"]),
  "the recursive parser and reader have no depth limit, so it does not hold in general and a limit is a design decision of the maintainers; only presence of a guard would be decidable"),
 (P("N09", "Parallel operations are faster than sequential ones and memory is returned",
    "Work above the threshold scales with the executors; freed blocks are merged and returned to the system.",
    ["histories"], "for all workloads", "Time is not tested.", ["core/pool.c", "core/heap.c"], [("pool", "core/pool.c"), ("allocator", "core/heap.c")],
    ["run time, resident memory"]),
  "performance depends on the machine; not a property of the source"),
 (P("N10", "Globals assigned inside parallel lambdas have a sequential meaning",
    "When functions run by pmap or timers assign globals, the outcome is that of some order of the calls.",
    ["schedules"], "for all interleavings", "Races need two writers at once.", ["core/env.c", "core/iter.c", "core/eval.c"], [("globals", "core/env.c set"), ("parallel map", "core/iter.c map_lambda_partial")],
    ["values of globals after pmap"]),
  "the variables a lambda assigns are data (symbols evaluated at run time); the code does not synchronise them and does not promise to. C01 decides the memory the C code itself shares"),
]
