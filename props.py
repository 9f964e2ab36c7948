HB = [("ctl", ""), ("ctl", "buddy")]
HBD = HB + [("ctl", "debug"), ("ctl", "buddy,debug")]
ALLMODES = {"ctl": ["", "buddy", "debug", "buddy,debug"], "sched": ["", "buddy"], "schedg": ["", "buddy"], "plain": ["", "buddy"]}

TRUST = "The harness, the instrumenter (tools/instrument) and the shim harness/vrt are trusted; the verdict comes from running the library's own code, so there is no model that could drift from it."
CTL = "When a dropped reference is noticed is a choice of the explorer (runtime.SetFinalizer is redirected to the harness); in these executions finalizers run between calls, or where the check says otherwise."
COMMON = [TRUST, CTL]

MACHINE = ("Breadth-first search over the histories of a user program with 2 or 3 slots that hold nodes over 3 variables (operations, drops, "
           "lazily noticed drops, garbage, forced collections) in node tables that are so small that collections and resizes happen inside the operations; "
           "histories that lead to the same memory (hash of everything reachable from the BDD) are merged. ")

CHECKS = {
    "C01": dict(runs=HB, level="exploration",
        technique="bounded-exhaustive enumeration of operand tuples on the real code against truth tables",
        rule="Every operator on every pair (and Ite on every triple) of the 256 functions of 3 variables, for several cache sizes and level embeddings; And/Or on all argument lists over 2 variables; all 65536 functions of 4 variables against representatives; symmetric functions of 6 variables; And/Or on lists of up to 4097 operands of which one or two differ from the others; operators outside of the ten. The result must be the very node that is held for the expected truth table. Non-trivial: the result differs from the operands and constants.",
        bounds=dict(quick="3 variables complete (Ite: 2 of 5 configurations), 4 variables x 13 operands, up to 7 arguments for And/Or", thorough="3 variables complete for 4 configurations, larger alphabets for 6 and 7 arguments"),
        assumptions=COMMON,
        note="Complete for functions of 3 variables, in each configuration listed in the evidence; larger functions by representatives."),
    "C02": dict(runs=HB, level="model_checking",
        technique="explicit-state search over histories of the real code, structural invariant in every state",
        rule=MACHINE + "In every state the node table is checked: order, reduction, uniqueness, active successors, literals and constants, and Equal against truth tables.",
        bounds=dict(quick="depth 3 (about 50 actions, 5 configurations), depth 5 (11 to 14 actions, 3 configurations), deterministic histories of 1500 steps in 72 configurations, Makeset on all sequences up to length 5, all 3-variable functions x renamings", thorough="depth 4 (50 actions), depth 6 (14 actions)"),
        assumptions=COMMON,
        note="Exhaustive up to the stated depths; a violation that needs a longer history from these initial states is not covered, except by the long deterministic histories."),
    "C03": dict(runs=HB, level="model_checking",
        technique="explicit-state search over histories of the real code, and every reference count",
        rule=MACHINE + "In every state each held slot must denote the function it was computed for. In addition every number of references up to 1100 to one node, dropped in several orders down to one, and all sequences of takes and drops around 8, 9 and 10-bit counts; counts around powers of two up to the maximum of the counter for every function of 3 variables; what every call returns as the only reference to its result; every call with every number of free slots.",
        bounds=dict(quick="depths as for C02; 1..1100 references and 7 larger counts; all sequences of 9 takes/drops from 13 base counts", thorough="depth 4 (50 actions), depth 6 (14 actions); 1..2200 references; sequences of 13"),
        assumptions=COMMON,
        note="Exhaustive within the bounds."),
    "C04": dict(runs=HB, level="model_checking",
        technique="explicit-state search over histories of the real code, exact reachability after every collection",
        rule=MACHINE + "In every state Stats is compared with the active nodes; after each forced collection the active nodes must be exactly those reachable from constants, literals and references (held or not noticed). In addition every number of references below the maximum of the counter, in several orders; what every call, every failing call, every traversal and every operation that fails at a node limit leaves behind.",
        bounds=dict(quick="depths as for C02", thorough="depth 4 (50 actions), depth 6 (14 actions)"),
        assumptions=COMMON,
        note="Exhaustive within the bounds."),
    "C06": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of ordered call pairs and of reclaimed-and-reused identities on the real code",
        rule="All ordered pairs of adjacent calls (Not, Apply, Ite, Exist, AppEx, Replace over all functions of 2 variables, and over 10 functions of 3 variables with all sets and renamings) on one long-lived BDD, for several cache sizes; each call repeated after its result was reclaimed and its slots given to other held nodes; each kind of call over families of functions that take the same identities after a collection; every call repeated after collections that reclaim only its own nodes in tables (67 to 1009 slots) that are full of nodes in use; sets numbered around the wrap of the counter. Non-trivial: both calls have different results, or the result was a node that could be reclaimed.",
        bounds=dict(quick="pairs complete for caches 3, 101, 211 (about 10^8 pairs), every 4th first call for caches 11 and 7", thorough="pairs complete for 6 caches"),
        assumptions=COMMON,
        note="Exhaustive within the bounds."),
    "C07": dict(runs=HB, level="exploration",
        technique="bounded-exhaustive enumeration of functions, sets and operators on the real code against truth tables",
        rule="Exist on all functions of 4 variables and all 16 sets (two call orders, three caches and level embeddings); AppEx and AndExist on all pairs of functions of 3 variables, all sets, all supported operators; sets with variables outside of the support at every position; symmetric functions of 6 variables with all 64 sets; all ordered pairs of (set, operator) on adjacent calls; histories of 70000 calls after which the first sets come back; operators that are not supported. Non-trivial: the quantification changes the function.",
        bounds=dict(quick="4 variables (Exist), 3 variables (AppEx) in 3 configurations, 7 levels for foreign sets", thorough="5 configurations for AppEx"),
        assumptions=COMMON, note="Complete for the stated numbers of variables; larger functions by representatives."),
    "C08": dict(runs=HB, level="exploration",
        technique="bounded-exhaustive enumeration of functions and renamings on the real code against truth tables",
        rule="All functions of 3 variables with all renamings, also ill-defined ones, in fresh BDDs in 4 level embeddings, followed by more operations; all ordered pairs of replacers on a long-lived BDD for several caches; functions of 4 variables with all renamings; functions of 3 variables moved (wholly or in part) to any other 3 of 6 variables in any order; replacers that are up to 70000 others apart; functions with chosen identities. Non-trivial: a well-defined substitution or two different ones.",
        bounds=dict(quick="3 variables and 4 variables complete", thorough="the same"),
        assumptions=COMMON, note="Complete for the stated numbers of variables. Replacers implemented by the user are not covered."),
    "C09": dict(runs=HB, level="exploration",
        technique="bounded-exhaustive enumeration on the real code against truth tables, closed forms for many variables",
        rule="All functions of 4 variables in several level embeddings up to 129 variables, functions of 3 variables at every triple of 9 levels, and for up to 2100 variables constants, literals, all pairs of selected variables, cubes, parity and binomial functions; nodes that take the identities of others. The numbers returned belong to the caller, who changes them. The memory of the BDD is hashed before and after.",
        bounds=dict(quick="4 variables complete, up to 2100 variables by closed form", thorough="up to 65537 variables by closed form"),
        assumptions=COMMON, note="Complete for the stated numbers of variables; beyond that by representatives."),
    "C10": dict(runs=HB + [("plain", ""), ("plain", "buddy")], level="exploration",
        technique="exhaustive enumeration of functions, error positions and re-entrant callbacks on the real code",
        rule="Allsat on all functions of 4 variables in 4 level embeddings (the assignments must be a partition of the satisfying ones); an error returned at every call; a callback that at every call (or all) collects, resizes, computes, traverses or misuses the BDD, for all functions of 3 variables; up to 1000 variables. The last two builds use the real runtime: the caller keeps no reference, the callback lets the runtime collect and reuses the table. Non-trivial: more than one call, or an error, or a callback that uses the BDD.",
        bounds=dict(quick="4 variables complete; errors for every third function; 3 variables x every call x 5 uses x 3 table modes", thorough="the same"),
        assumptions=COMMON + ["In the plain builds the moment of runtime collections is the real runtime's, forced with runtime.GC."], note="Complete for the stated numbers of variables. The liveness of an argument under the real compiler is tested, not enumerated."),
    "C11": dict(runs=HB + [("plain", ""), ("plain", "buddy")], level="exploration",
        technique="exhaustive enumeration of roots, error positions and re-entrant callbacks on the real code",
        rule="Allnodes from all pairs of functions of 3 variables (also with repeated roots and constants) and from nothing, against a reachability computed independently and against Label/Low/High; an error at every call, (also on tables with no or few free slots) followed by a comparison of the memory of the BDD, operations and an exact collection; callbacks that use the BDD at every call. Non-trivial: two roots, an error or a callback that uses the BDD.",
        bounds=dict(quick="3 variables complete (pairs of roots), sample of functions of 4 variables; 3 variables x every call x 5 uses x 2 table modes", thorough="the same"),
        assumptions=COMMON, note="Complete for the stated numbers of variables."),
    "C16": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of nodes on the real code, output parsed back and compared",
        rule="Print and Dot of every function and of all pairs of functions of 3 variables, of all active nodes in tables with garbage before and after collections and resizes, constants, error state, illegal nodes, nodes with chosen identities and nodes that take the identity of others, long histories; the text is parsed back and compared with the reachable nodes, and the memory of the BDD is hashed before and after.",
        bounds=dict(quick="3 variables complete in 2 embeddings", thorough="the same"),
        assumptions=COMMON, note="Complete for the stated numbers of variables. Errors of the writer are not covered."),
    "C12": dict(runs=HBD, level="exploration",
        technique="exhaustive enumeration of entry points, argument positions and kinds of invalid arguments, alone and in ordered pairs, on the real code",
        rule="Every entry point x argument position x kind of illegal node (nil, negative, at or above the size, huge, free slot), index (around 0, Varnum, 2^31, 2^32, 2^63), slice length and operator; alone, repeated, and all ordered pairs; every operation with illegal nodes in every non-empty set of positions and constants and functions in all the others. The failure value and the error status are checked, then all 16 functions that are held and a set of valid operations of every kind. In all four builds.",
        bounds=dict(quick="about 900 misuses, all ordered pairs, 2 variables", thorough="the same"),
        assumptions=COMMON, note="Complete for the list of kinds; sequences of misuses up to length 2 (3 for the same one). The kernel functions Makenode and Retnode are only checked for the error values that the library passes through them."),
    "C13": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of node limits and operations on the real code against an independent count of the nodes needed",
        rule="For each operation on functions of 3 variables, every limit from the live nodes to more than enough, with different amounts of garbage and increments: right result or nil with the error status; it has to succeed when live plus created nodes fit; table size, well-formedness, held nodes and later operations are checked; renamings of all functions of 3 variables to a fourth one; histories of 400 operations under 135 limits and options; tables of up to 2^20 slots filled up to their limit and emptied; all small combinations of limit, initial size and variables. Non-trivial: the operation fails.",
        bounds=dict(quick="about 4000 calls x every limit x 4 variants", thorough="the same"),
        assumptions=COMMON + ["The nodes that an operation creates are counted in a run without limit."], note="Exhaustive within the bounds."),
    "C14": dict(runs=HB, level="exploration",
        technique="bounded-exhaustive enumeration of arguments on the real code, results read back through Label, Low and High",
        rule="Makeset and Scanset on all sequences of up to 6 of 5 variables and on all sets of 12 variables in 3 orders; Makecube on all cubes of 6 variables in 2 embeddings and all full cubes; all literals up to 40000 variables; the Shannon expansion of all functions of 4 variables; nodes that take the identities of others. Slices that are passed are not changed, and are changed afterwards by the caller, as are those that are returned.",
        bounds=dict(quick="as stated", thorough="the same"),
        assumptions=COMMON, note="Complete for the stated sizes. Makecube with an unsorted list is documented as unsupported and not checked."),
    "C21": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of argument slices on the real code against the definition",
        rule="NewReplacer on all pairs of slices of length up to 3 with values -1..3 for 3 variables, slices of length 4 over 5 variables, and special values for up to 70000 variables. A replacer is checked level by level, through Replace, by its text, and for a fresh identity, after the caller has changed the slices.",
        bounds=dict(quick="as stated", thorough="the same"),
        assumptions=COMMON, note="Complete for lengths up to 3; the limit of 2^29 replacers is not reached."),
    "C22": dict(runs=HB, level="exploration",
        technique="monitor on every allocation of exhaustively enumerated configurations on the real code",
        rule="For every combination of 9 initial sizes, 11 minimum free ratios, 9 increments and 6 patterns of held nodes, nodes are allocated one by one; each growth is checked against the documented policy, using Stats before and after; tables of up to 1.5 million slots are filled in three patterns until they have grown twice. Non-trivial: the table grows.",
        bounds=dict(quick="5346 configurations x 250 to 500 allocations", thorough="the same"),
        assumptions=COMMON, note="The ratio is compared with the rounding of integer percentages; the next prime is allowed for the buddy implementation."),
    "C18": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of operands and of the allocation that collects, for operations written with the kernel functions on the real code",
        rule="Three recursive ternary operations of a user (majority, exclusive or, if-then-else) on all triples of a set of functions of 3 variables, with the operands held or protected by the reference stack only; every number of free slots at the start, until no collection happens inside, in 5 regimes (collection only, with resize, a resize at every allocation, collections that find 2 nodes, cache ratio); stacks of 1 to 40 nodes with Popref in between; Makenode on all ordered triples of the functions of 3 variables and of 900 functions of 4; stacks of up to 10000 nodes. Non-trivial: a collection inside the operation, or Makenode with different successors.",
        bounds=dict(quick="11 functions (1331 triples x 3 operations x 2 embeddings)", thorough="22 functions"),
        assumptions=COMMON, note="Exhaustive within the bounds."),
    "C19": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of calls and of the allocation that collects, on the real code",
        rule="For every call (all operations over a set of functions of 3 variables with all sets and renamings, And/Or with up to 5 operands, all sets and cubes; functions of 4 variables; renamings of all functions of 3 variables to a fourth one) and every number of free slots at the start until no collection happens inside, in 5 regimes (collection only, with resize, a resize at every allocation, collections that find 2 nodes only, cache ratio) and after 3 preparations (none, the same call with its result dropped, other operations on the operands): the result, operands, other held nodes, the structure and the statistics are checked, then the same call again, and again after another collection that reuses the slots. Non-trivial: a collection happens inside the operation.",
        bounds=dict(quick="18 functions of 3 variables, 12 of 4 variables (every 7th call)", thorough="48 functions of 3 variables, all calls over 12 functions of 4 variables"),
        assumptions=COMMON, note="Exhaustive within the bounds; finalizers that run inside an operation are C05."),
    "C05": dict(runs=[("sched", ""), ("sched", "buddy")], level="model_checking",
        technique="stateless exploration of thread schedules of the instrumented implementation, bounded preemptions",
        rule="The user's goroutine runs one operation (all kinds of calls, traversals with callbacks that collect, output, kernel functions, errors) while two finalizers run, one at a time as in the runtime, at every point: a scheduling point precedes every statement that may touch shared memory, and read-modify-write statements are split. Regimes: no collection, a collection or resize at the first, second or third allocation. Noticed references: copies of an operand, two references to one node, the last references to the operands, the earlier result, garbage, counters at their maximum. Replace is run on 6 variables with operands of several levels; the slot of a variable set is given to another node. After each schedule: result, held nodes, structure, and after the next collection exactly the needed nodes. Non-trivial: a finalizer was moved into the operation.",
        bounds=dict(quick="1 preemption (2 for Low/High/Retnode), 2 finalizers", thorough="2 preemptions for a fifth of the calls and all other operations"),
        assumptions=[TRUST, "Sequentially consistent interleavings of statements; RWMutex is modelled (writers have priority over new readers).", "An operand's last reference is noticed at any point after the call has begun (after the last runtime.KeepAlive on it, when there is one)."],
        note="Exhaustive up to the preemption bound. Executions with more preemptions, or with more than two finalizers inside one operation, are not covered."),
    "C17": dict(runs=[("ctl", ""), ("ctl", "buddy"), ("sched", ""), ("sched", "buddy"), ("schedg", ""), ("schedg", "buddy")], level="model_checking",
        technique="exhaustive interleaving of programs on distinct BDDs (call level), and stateless exploration of thread schedules of the instrumented implementation",
        rule="All 70 interleavings of pairs of programs of 4 steps (operations, quantifications, replacers, garbage, drops, errors, traversals) on two BDDs with equal or different options, compared with each program alone (results, statistics, nodes, errors); 40 BDDs in turn; replacers made and used alternately for 4 BDDs. Two goroutines with their own BDDs, created before or inside, under all schedules with at most 1 preemption (thorough: 2) at any statement that may touch shared memory, and at most 4 (5) preemptions at the statements that mention package-level variables; single calls of every entry point on two BDDs whose tables have the same identities. In the latter executions data races on package-level variables, on their elements and on maps are looked for with vector clocks (happens-before from locks, Once, Pool and atomic operations). Package-level state is put back before every execution. Non-trivial: a schedule that is not sequential.",
        bounds=dict(quick="all pairs of 32 programs x 70 interleavings x 3 pairs of options; all pairs of 16 steps with 4 preemptions (package variables) and 1 preemption (all statements)", thorough="5 preemptions (package variables), 2 preemptions (all statements)"),
        assumptions=[TRUST, "Sequentially consistent interleavings of statements."],
        note="Exhaustive within the bounds."),
    "C15": dict(runs=HBD, level="exploration",
        technique="exhaustive enumeration of call histories on the real code, replayed in every configuration and every build",
        rule="All histories of 3 calls out of 40 (operations, quantifications, replacements, sets, garbage, drops, misuse) from the same initial nodes are played in several configurations (initial size, cache size and ratio, increment, free ratio, limit; also values that are out of the ordinary); after each call everything observable of the result is compared with the default configuration (function, count, assignments, nodes per level, label, set, equalities, errors). A digest of the outcomes is compared between the default, buddy, debug and buddy+debug builds. In addition 64 long histories with 12 configurations in step, all calls over 24 functions of 3 variables, and the outcome of New. Non-trivial: a comparison with another configuration.",
        bounds=dict(quick="64000 histories of 3 calls, each in 3 of 11 other configurations; 64 histories of 150 calls; 4 builds", thorough="64000 histories of 3 calls in all 11 other configurations; 64 histories of 600 calls; 4 builds"),
        assumptions=COMMON + ["Allsat is compared as a set of assignments, nodes up to their identity."], note="Exhaustive within the bounds; the 64 long histories are fixed ones."),
    "C20": dict(runs=HB, level="exploration",
        technique="exhaustive enumeration of calls on the real code at enumerated magnitudes of levels and node identities",
        rule="New on all counts 1..3000 (every literal) and around every power of two up to the limit, and on counts outside of the range. For 45 numbers of variables up to 2097151 and triples of levels around and apart by powers of two: all kinds of calls over all functions of 3 variables (node of the result, counting, enumerating, sets, cubes, traversal), with a collection in between. Families of functions whose nodes are a power of two apart (2^7 to 2^21, thorough 2^22): every call on each family in turn and with operands of different families, in tiny and large caches, and Makenode on their nodes. Operators and quantification on all pairs of literals around powers of two. Functions that depend on all of up to 2097151 variables. Non-trivial: results that differ from operands and constants, or calls on families that could be confused.",
        bounds=dict(quick="45 counts x 2 configurations x 3 to 70 triples; 9 distances x 2 caches; up to 1048577 variables for deep functions", thorough="3 configurations, about 100 triples per count; 17 distances; 2097151 variables"),
        assumptions=COMMON, note="Complete over functions of 3 variables at the stated levels; the levels are boundaries of bytes and bit fields, not all."),
    "C23": dict(runs=HB, level="exploration", hang=25,
        technique="exhaustive enumeration of the functions of small automata over many variables, operations on the real code under a watchdog",
        rule="The functions of all automata with 3 states (and with 2 states, and counters and sums modulo 2 to 13) that read 48 to 64 variables: at most a few nodes per level, up to 2^64 paths. Not, Satcount, Allnodes, Print, Dot and Allsat (stopped by its callback) on each of them; the ten operators on all pairs, Ite on all triples and AppEx and AndExist on all pairs and 9 sets, of the automata with 2 states and some counters; Exist on all automata with 3 states and 9 sets; nine renamings that keep the order of the variables (of all, half, some and one of them); collections. The result must be the node that was built for the product (or subset) automaton, and no call may take 25 s: a call that loses sharing follows the paths and never returns. Four configurations: a large table, the default options, a small table that grows, and caches that grow with it. Non-trivial: the result is not a constant.",
        bounds=dict(quick="48 to 64 variables, automata with 2 states (pairs, triples) and 3 states", thorough="up to 200 variables, two further configurations, automata with 4 states and one accepting state"),
        assumptions=COMMON + ["Operation caches that are large enough for the operands; caches much smaller than the operands lose results by design.", "Renamings that change the order of the variables rebuild the nodes without a cache, by design, and are not covered; nor is enumerating all assignments."],
        note="Sharing is decided by a watchdog of 25 s per call; the calls take milliseconds on the unchanged tree."),
}
