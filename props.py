PROPS = {
    "O01": dict(
        rules=["leak"], engine=True, args=["--no-lints"],
        counts=["function", "acquire-site", "exits", "abstract-states"], floor={"acquire-site": 2500, "function": 700},
        explanation="Path-sensitive ownership dataflow over every function: each reference obtained on a path must be released, handed over, stored or returned before the path ends or the loop repeats; callees through inferred or contract summaries.",
        assumptions=["object API contracts in tool/contracts.txt", "references stored into raw (non-object) memory are not followed further"]),
    "O02": dict(
        rules=["over-release", "double-release", "use-after-release", "returns-borrowed"], engine=True, args=["--no-lints"],
        counts=["function", "release-site", "acquire-site", "abstract-states"], floor={"release-site": 1000, "function": 700},
        explanation="Path-sensitive ownership dataflow over every function: no reference is given up more often than it is held, no released object is read, written, passed on or returned, and builtins return only references they own.",
        assumptions=["object API contracts in tool/contracts.txt", "references stored into raw (non-object) memory are not followed further"]),
    "M01": dict(
        rules=["shared-write"], engine=True, args=["--no-lints"],
        counts=["builtin-arguments", "function", "abstract-states"], floor={"builtin-arguments": 120, "function": 700},
        explanation="Interprocedural effect analysis over every function: a store into an object's tag, length or payload (directly or through callees, tasks and callbacks) is allowed only when the object was created on that path, or was found to be referred to once; no builtin may write into an argument its caller still refers to, nor hand an element of a shared container to an operation that updates in place when the element looks unshared.",
        assumptions=["object API contracts in tool/contracts.txt", "the compiled form cached inside a function value is not a visible change"]),
    "T01": dict(
        rules=["width"], engine=True, args=["--no-lints"],
        counts=["payload-access", "atom-access", "array-argument", "function"], floor={"payload-access": 10000, "atom-access": 4000, "array-argument": 100, "function": 700},
        explanation="Type-set dataflow: on every path the set of types an object can have is tracked from the checks and constructors passed on the way (and through result types of callees); each load and store of its payload or atom value must have the width of an element of every type still possible there.",
        assumptions=["objects whose possible types are not narrowed on the path are not decided", "element widths of the documented object layout (core/rayforce.h)"]),
    "E01": dict(
        rules=["error-value", "error-stored", "error-ignored", "error-operand", "null-value"], engine=True, args=["--no-lints"],
        counts=["payload-access", "atom-access", "element-store", "call-outcome", "function"], floor={"payload-access": 10000, "atom-access": 4000, "element-store": 1500, "call-outcome": 3000, "function": 700},
        explanation="Type-set dataflow: the result of every call that can fail is split into its error and its success outcome (inferred summaries, pool runs and contracts); on the error outcome the value may only be tested, released and handed on: reading its length or payload, storing it as an element (directly or through the container operations), or completing without having looked at it is reported.",
        assumptions=["callees whose error outcome depends on a relation between the types of two operands are listed as undecided sites", "object API contracts in tool/contracts.txt"]),
    "R01": dict(
        rules=["resource-leak", "resource-double-release", "resource-use-after-release", "resource-never-released"], engine=False, args=["--no-engine", "--lint", "typestate"],
        counts=["resource-acquired", "resource-kept"], floor={"resource-acquired": 25},
        explanation="For every call that obtains a descriptor, stream, directory, mapping, process or library (library calls and the functions found to return one), all paths to the returns of the function are explored with the value's aliases, range facts from branch conditions, and the effects of callees (releases, keeps, uses); what is kept in a structure member must be released by a function that loads that member.",
        assumptions=["external functions keep no descriptor they are given", "a resource in a structure passed to a function is handed over"]),
    "L01": dict(
        rules=["left-open", "entered-twice", "not-inside"], engine=False, args=["--no-engine", "--lint", "typestate"],
        counts=["paired-operation", "paired-function"], floor={"paired-operation": 120, "paired-function": 30},
        explanation="For every function that enters or leaves one of the paired states, all paths are explored with the depth of each; callees contribute their net effect; every return must be at the same depth, balanced unless direct callers complete the pair.",
        assumptions=["pairing is by kind of state"]),
    "C01": dict(
        rules=["unsynchronised", "weak-order", "published-too-early", "not-claimed", "unlocked", "wait-unchecked", "task-writes-global", "task-unsafe-call"], engine=False, args=["--no-engine", "--lint", "concur"],
        counts=["shared-access", "publication", "locked-access", "condition-wait", "task-function", "task-reachable", "thread-entry"], floor={"shared-access": 60, "locked-access": 20, "task-function": 40, "thread-entry": 1},
        explanation="Members and globals reachable from two threads are inferred from thread entries, tasks and atomic operations; every plain access to one must be before its publication, under its lock or after the threads were joined; publications need release order and may not precede the initialising stores; claims need compare-and-swap; condition waits need a re-checking loop under the lock; everything reachable from a task is checked for writes to globals and calls of main-thread-only functions.",
        assumptions=["POSIX locks and C11 atomics", "element ranges given to different tasks are disjoint"]),
    "K01": dict(
        rules=["task-arguments", "task-signature", "task-dispatch", "counted-arguments", "call-signature"], engine=False, args=["--no-engine", "--lint", "calls"],
        counts=["task-call", "task-target", "task-direct", "task-dispatch", "counted-call", "pointer-call"], floor={"task-call": 50, "task-target": 100, "counted-call": 70, "pointer-call": 80, "task-dispatch": 5},
        explanation="The targets of every function pointer given to the pool or called are resolved through parameters, members, tables and selections; the number and kinds of the arguments at the call must agree with each target's definition; the pool's dispatcher must handle every number of arguments in use, and counted variadic constructors must be given as many arguments as they announce.",
        assumptions=["an indirect call may leave out trailing parameters only where the code base does so by design (atoms given to *_partial functions)"]),
    "F01": dict(
        rules=["format-arguments", "format-not-constant"], engine=False, args=["--no-engine", "--lint", "calls"],
        counts=["format"], floor={"format": 100},
        explanation="Every call of a printf-like function (libc and the system's own, found by how they hand their format on): the format is traced to constants; its conversions are parsed and compared with the arguments given after promotion.",
        assumptions=["LP64 data model"]),
    "S01": dict(
        rules=["serde-arm", "serde-layout", "serde-size", "serde-consumed", "serde-value"], engine=False, args=["--no-engine", "--lint", "serde"],
        counts=["serde-type", "serde-decided", "serde-undecided"], floor={"serde-type": 25, "serde-decided": 8},
        explanation="size_obj, ser_raw and de_raw are specialised to each type tag by abstract evaluation over linear forms (lengths, text lengths, sizes of children), loops being summarised by their change per round. Per type: the encoding is contiguous, as long as it says and as size_obj says; decoding, with every field it reads replaced by the expression written there, uses up exactly that many bytes and rebuilds type, length, elements and order of the parts.",
        assumptions=["strings of the symbol table hold no NUL and their stored length is their strlen", "sizes do not overflow 63 bits", "sums over elements in opposite directions are not compared (counted as undecided)"]),
    "S02": dict(
        rules=["read-beyond", "length-drift", "length-unchecked", "framing", "write-beyond"], engine=False, args=["--no-engine", "--lint", "serde"],
        counts=["bounds-type", "bounds-read", "bounds-user", "bounds-undecided", "bounds-user-undecided"], floor={"bounds-type": 30, "bounds-read": 25, "bounds-user": 5},
        explanation="The decoder, specialised to each type tag of the first byte, is evaluated over linear forms in the number N of bytes it is given: each read must be within N on the comparisons passed before it, each length taken from the data must be known not negative and not more than what is left before it sizes a value, and the remaining length never becomes negative. Every function that hands bytes to the decoder must pass no more than there are (objects, mapped files, message buffers), and every function that encodes must have allocated at least the size of the value.",
        assumptions=["linear entailment by combination of the path's comparisons (no solver); what needs non-linear facts is counted as undecided", "a received buffer is as long as was requested for it (poll_rx_buf_request/extend)", "allocation failures are not modelled", "vectors mapped from files are as long as their header says"]),
    "V01": dict(
        rules=["elem-index", "elem-shape", "elem-type", "elem-null", "elem-order", "elem-commutes"], engine=False, args=["--no-engine", "--lint", "elem"],
        counts=["elem-operation", "elem-arm", "elem-pair", "elem-type", "elem-null", "elem-order", "elem-commutes", "elem-undecided"], floor={"elem-operation": 12, "elem-arm": 900, "elem-pair": 600, "elem-type": 700, "elem-null": 900},
        explanation="Every element-wise operation handed to a mapping function is specialised to each pair of operand types (atoms, vectors, enumerations); its loop is taken at a general round and values are hash-consed expressions with normalised sums and comparisons. Compared: place read against place written and the range covered; the value computed for atoms against each vector shape; element width and type against the vector the mapper allocates; the value for a null operand; the meaning of comparisons and the independence of commutative operations from the order of their operands across types.",
        assumptions=["what a comparison means and whether an operation is commutative is taken from the great majority of its type pairs", "calls into tables of variables (the key of an enumeration) are uninterpreted", "the kernel macros' arms that raise errors are not compared"]),
    "P01": dict(
        rules=["split"], engine=False, args=["--no-engine", "--lint", "split"],
        counts=["split-part", "split-bound", "split-whole", "split-undecided", "place-work", "place-loop", "place-access", "place-number", "place-single", "place-call", "place-undecided"], floor={"split-part": 50, "split-bound": 20, "split-whole": 12, "place-work": 25, "place-loop": 300, "place-access": 1000},
        explanation="For every function that adds tasks: the argument that starts the part and the one that says how long it is are found, and with loop-carried values as symbols it is decided that the first part starts at 0, that each part starts where the one before ends, that the last one ends at the total the division was computed from, that no part can reach beyond it (total / n, a clamp, or a length function proven to leave room), that the other arguments move along alike, and that the undivided call is given all of it. For every function such a task may run (through function pointers): its loops over the part cover exactly [offset, offset + len), the places they access are those of the part's elements, numbers handed out are numbers in the whole, single values are not advanced.",
        assumptions=["pool_split_by* returns at least 1", "loops that step by more than one or through pointers are not decided (place-undecided or not counted)", "how the partial results are combined is not decided here"]),
    "A01": dict(
        rules=["combine"], engine=False, args=["--no-engine", "--lint", "combine"],
        counts=["combine-step", "combine-alike", "combine-pair", "combine-place", "combine-parts", "combine-undecided", "fold-step", "fold-pair"],
        floor={"combine-step": 150, "combine-alike": 120, "combine-pair": 50, "combine-place": 40, "combine-parts": 40, "fold-step": 14, "fold-pair": 14},
        explanation="For every aggregation that runs in parts, the loop that accumulates values (per element type, per way through the rows) and the loop that combines the parts are turned into guarded transfer functions P(so far, element) and H(so far, part). It is decided, over all orderings of the values involved among the constants the functions mention (nulls, infinities, zero), that all ways through the rows accumulate alike, that a part without elements of the group changes nothing, that H(a, P(b, x)) = P(H(a, b), x) (combining after one more element is the same as taking that element after combining), that every part is combined exactly once, group into same group, starting from the same initial value. The same for folds of whole vectors, where the partial results are unified into one vector and folded again.",
        assumptions=["a sum never equals the null value", "sums of numbers are regrouped freely (rounding of floating point sums depends on the division)", "parts are combined in the order of the rows (pool_run keeps the order of the tasks)", "the last step of avg and dev (division, root) is not decided"]),
}
