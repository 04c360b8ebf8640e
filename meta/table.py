HOOKS = ["d140a67", "2476777", "ea79ff2"]
NA = {}
NOTES = ("Every check is ./run.sh ID; it rebuilds its harness against /repo's working tree with the hook on, runs a fixed amount of generated cases "
         "derived from VERIF_SEED, shrinks a failure and writes replays/ID.json (replay with ./run.sh ID --replay FILE). "
         "Wall-clock stalls end with exit 2, never with a violation.")
SEQ = "model-based property testing of operation sequences, with shrinking"
CONC = "model-based concurrency testing: generated workloads x generated thread schedules on a cooperative scheduler, history oracle"
SRC_TREE = ["src/tree.rs", "src/tree/generic.rs", "src/tree/optimistic.rs", "src/tree/split.rs", "src/leaf24.rs", "src/internode.rs", "src/key.rs", "src/suffix.rs"]
SCHED = ("Sequentially consistent interleavings of the library's atomic operations only (one thread runs at a time; switches at every atomic access, "
         "lock and spin hint of the library); weak-memory reorderings are not explored here. Trusts the scheduler in kit/.")

prop("C01", "A map used by one thread behaves like a dictionary from byte strings to values",
 "For every sequence of inserts and lookups, a lookup returns exactly the value most recently inserted for that byte string, or nothing if it was never inserted, and an insert returns exactly the value it replaced, or nothing for a new key. "
 "This holds for every mixture of key lengths and shared prefixes and at every size, through all node splits and nested layers.",
 ["inputs", "histories"], "every sequence of insert/get/get_ref calls over keys of 0 to 256 bytes, from the empty map up to tens of thousands of keys",
 "The tests insert a few hand-picked patterns (sequential integers, some shared prefixes); a wrong answer needs a specific order of keys with related slices around a split or a layer creation.",
 SRC_TREE, [("descent, leaf search and layer switch", "src/tree/generic.rs"), ("leaf split choice", "src/leaf24.rs calculate_split_point"), ("layer creation from two keys with equal slice", "src/tree/generic.rs")],
 "Random search with a BTreeMap oracle after every step; no proof. Sizes to 14k keys quick, 60k thorough.", SEQ,
 observe=["MassTree::insert/get/get_ref", "MassTree24Inline"])
prop("C02", "Distinct byte strings are distinct keys, whatever order they arrive in",
 "Two keys denote the same entry exactly when they are equal as byte strings: keys that differ only in length, in trailing or embedded zero bytes, in a late 8-byte chunk, or in being a prefix of another never alias or hide each other. "
 "The resulting contents do not depend on the order in which keys were inserted, and keys near stored ones that were never inserted are absent.",
 ["inputs", "histories"], "every set of byte strings of 0 to 256 bytes and every insertion order of it",
 "Aliasing needs particular families (zero padding, equal chunks at equal depth, more keys with one chunk than a split can separate); the tests contain a handful of such pairs in one order.",
 SRC_TREE + ["src/ksearch.rs"], [("slice plus length code comparison", "src/key.rs, src/leaf24.rs keylenx"), ("split never separates equal slices", "src/leaf24.rs")],
 "Random search; two insertion orders of one set are compared with each other and with a set of byte strings, including neighbours of stored keys.", "metamorphic and model-based property testing over key families",
 observe=["MassTree::insert/get/len"])
prop("C03", "The reported length is the number of distinct keys ever inserted",
 "After every step of every single-threaded history, the length equals the number of distinct keys inserted so far and emptiness agrees with it; lookups and updates of existing keys never change it.",
 ["histories"], "every sequence of inserts, updates and lookups",
 "Tests check the count after a few bulk loads; a miscount needs an insert that takes a rarely used path (retry after a split, layer creation, root change).",
 ["src/tree.rs", "src/tree/generic.rs"], [("count incremented once per new key", "src/tree/generic.rs insert paths")],
 "Random search; the count is compared after every single operation.", SEQ, observe=["len", "is_empty"])
prop("C04", "Every map variant, calling style and value type gives the same answers",
 "The map that shares values, the map that copies values inline and the index wrapper return the same results for the same history, whether operations are called with or without an explicit guard, by reference or by value, on maps built by any constructor. "
 "Values of any size, alignment or type (zero-sized, over-aligned, optional, heap-owning, 16 bytes and more) come back bit for bit.",
 ["inputs", "configurations"], "every history crossed with every public variant, constructor, calling style and value type",
 "Tests exercise each variant alone with u64 or String values; divergence needs the same history on two variants.",
 ["src/tree.rs", "src/tree/index.rs", "src/slot.rs", "src/value.rs", "src/leaf24.rs"], [("value slot encodings", "src/slot.rs"), ("index wrapper", "src/tree/index.rs")],
 "Random search, differential between variants.", "differential property testing across the public variants", observe=["MassTree", "MassTree24Inline", "MassTreeIndex"])
prop("C05", "Keys up to 256 bytes work and longer keys are refused without effect",
 "Every key of 0 to 256 bytes can be inserted and read back. Every operation with a longer key panics and leaves the map exactly as it was: no entry, no change of length, the offered value released, and the map still usable.",
 ["inputs", "fault_sequences"], "every key length around and beyond the limit, at any point of a history",
 "Tests try one accepted and one refused length on an empty map.",
 ["src/key.rs", "src/tree.rs"], [("length assertion on key construction", "src/key.rs")],
 "Random search over lengths, contents and histories.", "property testing with panic injection at the length limit", observe=["insert", "get", "get_ref"])
prop("C06", "Concurrent operations are linearizable",
 "For every schedule of threads that insert, update and look up keys in a shared map, there is one order of all calls, consistent with real time, that a single-threaded dictionary would have answered identically. "
 "In particular a key that was completely inserted is never missed later, no lookup returns a value that was never stored or has been superseded before it began, and no two calls both replace the same value.",
 ["schedules", "histories"], "every interleaving of any number of threads, including ones that split leaves and inner nodes, create layers and replace roots under concurrent readers",
 "Stress tests on real threads sample a few interleavings, almost never one suspended between two particular memory accesses.",
 SRC_TREE + ["src/nodeversion.rs"], [("version validation", "src/tree/optimistic.rs, src/nodeversion.rs"), ("sibling links during splits", "src/tree/generic.rs"), ("publication by permutation store", "src/leaf24.rs")],
 SCHED, CONC, observe=["insert_with_guard", "get_with_guard", "get_ref"], hook="crate::sync routes atomics and spin hints to a scheduler under cfg(masstree_verif)")
prop("C07", "After concurrent inserts the map holds exactly what was inserted",
 "Once all threads have finished, every key any thread inserted is present with a value that some thread stored last for it, every other key is absent, the length equals the number of distinct keys, and every key can still be updated and returns the value it held.",
 ["schedules", "histories"], "every interleaving of concurrent inserters, including splits propagating to the root and layer creation",
 "A lost key needs a split in one thread between two steps of another; the concurrent tests rarely place it there and count only totals.",
 SRC_TREE, [("locked insertion and re-validation", "src/tree/generic.rs"), ("split propagation", "src/tree/generic.rs, src/internode.rs"), ("count", "src/tree.rs")],
 SCHED, CONC, observe=["get", "get_ref", "len", "insert"], hook="as C06")
prop("C09", "Every call finishes: no deadlock, no endless retry, no panic",
 "In every fair schedule every insert and lookup returns after a bounded number of its own steps once the other threads stop interfering, no set of threads waits for each other, and no internal assertion or panic fires. This includes calls a value makes on the map while it is being dropped.",
 ["schedules", "histories"], "every fair interleaving of inserters and readers over splits, layer creations and root changes",
 "Tests only notice a hang they happen to run into; a lost unlock or a retry that cannot succeed needs a specific interleaving.",
 SRC_TREE + ["src/nodeversion.rs"], [("lock ordering child to parent", "src/tree/generic.rs"), ("bounded retry and lock guards", "src/nodeversion.rs")],
 SCHED + " Waiting is judged by counted steps of a fair schedule, not by time.", CONC, observe=["insert_with_guard", "get_with_guard"], hook="as C06")
prop("C10", "A reference taken under a guard stays valid and unchanged until the guard ends",
 "A reference returned by a guarded lookup keeps pointing at exactly the value it was given for, intact and not released, for as long as the guard lives, whatever is updated, split or replaced meanwhile by any thread. "
 "Every value a lookup returns is one that was stored under that key. "
 "A guard of another map never leaves a reference unprotected: a call that is given one is refused without effect, or protects alike.",
 ["schedules", "histories"], "every interleaving of guarded readers with updates of the same keys, splits and reclamation",
 "Use after release usually still reads the old bytes, so tests pass; it needs poisoned memory and reclamation at a precise moment.",
 ["src/tree.rs", "src/tree/generic.rs", "src/tree/optimistic.rs", "src/leaf24.rs", "src/alloc24.rs"], [("deferred retirement of replaced values", "src/leaf24.rs, src/tree/generic.rs"), ("guards", "src/tree.rs guard")],
 SCHED + " Released memory is poisoned and quarantined by the checking allocator, and values carry checksums.", CONC + "; poisoning allocator", observe=["get_ref"], hook="as C06")
prop("C11", "Every stored value is released exactly once, and only when nothing can reach it",
 "A value handed to the map is released exactly once: never while it is in the map, never while a handle returned by a lookup or an insert is held, and always by the time the map and all handles are gone, also when the drop of one value calls the map again.",
 ["schedules", "histories"], "every history and interleaving of inserts, replacements and lookups, with handles and guards held across them and dropped in any order relative to the map",
 "Tests count references in one or two fixed scenarios.",
 ["src/tree/generic.rs", "src/leaf24.rs", "src/alloc24.rs", "src/slot.rs"], [("reference count transfers", "src/slot.rs, src/leaf24.rs"), ("deferred retirement", "src/tree/generic.rs"), ("teardown", "src/alloc24.rs, src/tree.rs drop")],
 SCHED + " Drops are counted per value.", CONC + "; per-value drop accounting", observe=["Drop of the value type"], hook="as C06")
prop("C13", "Dropping a map returns all of its memory, and updates do not accumulate",
 "After a map and everything obtained from it is dropped, exactly the memory allocated since before it was created has been returned, whatever keys, layers, splits and updates it went through. "
 "While it lives, any number of updates of existing keys keeps only a bounded amount of memory beyond what the keys need.",
 ["histories", "inputs"], "every history of inserts and updates, with and without guards held",
 "No test measures memory; a leak of one node kind or of suffix storage on one path is invisible.",
 ["src/alloc24.rs", "src/suffix.rs", "src/leaf24.rs", "src/tree.rs"], [("node tracking and teardown", "src/alloc24.rs"), ("suffix bag ownership", "src/leaf24.rs, src/suffix.rs")],
 "Byte-exact accounting by a counting allocator; per-thread, single-threaded histories.", "property testing of histories with a counting allocator as oracle", observe=["global allocator"])
prop("C14", "Slot permutations behave as an ordered list plus a free list",
 "For every width and every sequence of operations, a permutation always contains each slot exactly once; inserting moves one free slot to the chosen position, removing returns one to the free part, and exchange, rotate and resize change nothing else. "
 "Freezing a permutation is recognisable, hides no other position, and unfreezing restores it exactly.",
 ["inputs", "histories"], "every operation sequence at widths 1 to 24",
 "Bit-packed shifts fail only for particular positions, sizes and widths; tests check some positions of one or two widths.",
 ["src/permuter.rs", "src/permuter24.rs", "src/freeze24.rs", "src/leaf_trait.rs"], [("nibble/5-bit field shifts", "src/permuter.rs, src/permuter24.rs"), ("frozen marker", "src/freeze24.rs")],
 "Random operation sequences against a plain list, millions of cases.", SEQ, observe=["Permuter", "Permuter24", "Freeze24Utils"])
prop("C15", "Node versions exclude concurrent writers and expose every change to readers",
 "At most one holder has a node's lock at any time. A reader that takes a stable version, reads and validates it sees success only if no insert or split was completed or in progress in between, and a completed insert or split is always reported as such, including after the counters wrap within their documented period. "
 "Flags (leaf, root, deleted) survive every lock, unlock and split.",
 ["schedules", "inputs", "histories"], "every sequence of operations on a version and every interleaving of lockers and readers",
 "Tests check single transitions and a couple of two-thread cases; counter carry into a neighbouring field and lost exclusion need particular values or interleavings.",
 ["src/nodeversion.rs"], [("lock, mark, unlock transitions", "src/nodeversion.rs"), ("stable / has_changed / has_split", "src/nodeversion.rs")],
 SCHED + " Arbitrary starting counter values, including ones about to wrap.", "model-based property testing of operation sequences and generated thread schedules",
 observe=["NodeVersion", "LockGuard"], hook="as C06")
prop("C16", "Keys are cut into big-endian 8-byte slices that order and reconstruct them",
 "For every byte string the sequence of slices and the remaining suffix rebuild exactly that string, comparing slices as integers and then lengths orders keys as byte strings are ordered, and shifting to the next slice and back never loses or repeats a byte. "
 "Comparisons between a key and a stored slice and length agree with comparing the byte strings.",
 ["inputs"], "every byte string of 0 to 256 bytes and every pair of them",
 "Tests cover some lengths with ASCII contents; errors hide in zero bytes, lengths that are multiples of 8 and positions deep in the key.",
 ["src/key.rs"], [("slice extraction", "src/key.rs read_ikey"), ("shift and unshift", "src/key.rs"), ("comparison", "src/key.rs compare")],
 "Random search, oracle is byte-string comparison and slicing of the standard library.", "property testing against byte-string order and round-trip", observe=["Key"])
prop("C18", "Inner nodes keep keys and children in order through inserts and splits",
 "For every sequence of inserts at every node width, an inner node holds exactly the inserted keys in order with each child between the right keys. A split distributes keys and children over two nodes and one separator without losing, repeating or reordering any, reports the side that received the new child, and every moved child points to its new parent.",
 ["histories", "inputs"], "every insert and split sequence at widths 2 to 15, at any height",
 "Off-by-one errors show only for one insert position relative to the middle of a full node; tests split at a few positions and do not check all children and parents.",
 ["src/internode.rs"], [("insert shift", "src/internode.rs insert_key_and_child"), ("three-way split", "src/internode.rs split_into")],
 "Random search against a sorted list; any balanced-enough split is accepted.", SEQ, observe=["InternodeNode", "TreeInternode"])
prop("C20", "Every in-node search returns what a plain scan would",
 "Vectorised, unrolled, binary and linear searches over slices, inner nodes and leaves all return the result of scanning the keys as unsigned numbers: the first equal position, the number of keys less or equal, or the mask of equal slots, for every length and every 64-bit key, including the extremes.",
 ["inputs"], "every array of 64-bit keys up to 130 long, every inner node at widths 1 to 15, every leaf, and every target",
 "Lane, tail and sign errors of vector code need particular positions and key values; tests use small positive integers.",
 ["src/ksearch.rs", "src/ksearch/simd.rs", "src/ksearch/simd_search.rs"], [("AVX2/SSE/scalar dispatch", "src/ksearch/simd.rs"), ("upper bound routing", "src/ksearch.rs"), ("leaf match mask", "src/ksearch/simd_search.rs")],
 "Random search against a plain scan; only the vector variant this CPU selects and the scalar one are run.", "differential property testing against a plain scan", observe=["ksearch"])
prop("C08", "What one call costs depends on the key and the map's size, not on the history",
 "Filling a map with n keys takes time and memory proportional to n times the depth of the tree, in whatever order the keys arrive: no single insert or lookup walks, copies or allocates more than a bounded amount per level of the tree and per layer of its key. "
 "In particular ascending, descending and clustered orders, repeated updates and long shared prefixes stay cheap, and nodes do not fill up with unused space.",
 ["histories", "inputs"], "every insertion order of every key set, with updates in between",
 "Tests do not measure cost; a quadratic path or degenerate splits only slow them down, and show for one order of keys of one shape.",
 SRC_TREE, [("split point choice", "src/leaf24.rs calculate_split_point"), ("suffix storage growth", "src/leaf24.rs assign_ksuf, src/suffix.rs"), ("sibling walks", "src/tree/generic.rs, src/tree/optimistic.rs")],
 "Counts the library's atomic accesses and allocated bytes per call, not time; bounds are several times what correct code needs, so only growth is judged, not constants.", "property testing of histories against cost bounds, with counted steps and bytes", observe=["insert", "get", "global allocator"], hook="crate::sync counts atomic accesses under cfg(masstree_verif)")
prop("C12", "At rest, the nodes form one well-ordered tree holding exactly the contents",
 "Whenever no operation runs, every layer is a search tree of uniform height: each key slice lies between the separators above it, leaves are linked both ways in key order, each node's parent, recorded height and root mark are right, nothing is left locked, marked or half split, and no slice is spread over two leaves. "
 "Reading all leaves yields exactly the keys and values of the map, each once.",
 ["schedules", "histories"], "every history and every interleaving of concurrent inserters, examined after it ends",
 "A misplaced separator, stale parent or broken link can stay invisible to lookups until a later split; tests only look up keys.",
 SRC_TREE, [("split propagation and parent update", "src/tree/generic.rs, src/internode.rs"), ("sibling links", "src/leaf24.rs link_sibling"), ("layer roots", "src/tree/generic.rs")],
 SCHED, CONC + "; structural invariant walker", observe=["nodes reachable from the root"], hook="masstree_verif: root pointer accessor; crate::sync as C06")
prop("C17", "Stored key suffixes come back byte for byte",
 "A suffix stored for a slot is returned unchanged and matched only by equal bytes until that slot is overwritten or cleared, whatever is assigned to, cleared from or moved between the other slots, through growth, compaction and reallocation of the storage. "
 "Comparisons against a stored suffix agree with comparing byte strings, and unused space is reclaimed.",
 ["histories", "inputs"], "every sequence of assignments, clears and compactions over slots and suffixes of any length",
 "Overlap and stale offsets need a particular sequence of lengths; tests assign a few suffixes in order.",
 ["src/suffix.rs", "src/leaf24.rs"], [("offset and length table", "src/suffix.rs"), ("leaf suffix assignment", "src/leaf24.rs assign_ksuf, clear_ksuf")],
 "Random operation sequences against a table of byte strings, single-threaded.", SEQ, observe=["SuffixBag", "LeafNode24 suffix operations"])
prop("C19", "Leaf contents and sibling links survive inserts, splits and moves",
 "For every leaf content and every split point the code chooses, splitting moves exactly the upper keys to the new leaf with their slices, lengths, suffixes, layers and values, keeps both halves in order, and never separates keys with equal slices; the chosen split leaves both halves non-empty. "
 "Linking the new leaf keeps the doubly linked list whole in both directions.",
 ["histories", "inputs"], "every sequence of leaf inserts and splits, over keys with many equal slices, suffixes and layers, for both storage kinds",
 "An entry copied without its suffix, or a link left stale, needs one content at one split position.",
 ["src/leaf24.rs", "src/leaf_trait.rs"], [("split point", "src/leaf24.rs calculate_split_point"), ("split into preallocated leaf", "src/leaf24.rs split_into_preallocated, split_all_to_right_preallocated"), ("linking", "src/leaf24.rs link_sibling")],
 "Random search against a list of sorted runs, single-threaded.", SEQ, observe=["LeafNode24", "TreeLeafNode"])
prop("C21", "A leaf's permutation, slots and sibling links change atomically",
 "Every successful compare-and-swap publication of a permutation starts from the permutation it expected, and none is lost. While a leaf is frozen no publication succeeds, readers are never given the frozen word as a permutation, and ending or abandoning the freeze publishes exactly the chosen or the original permutation. "
 "A slot pointer is claimed by one thread and taken exactly once. Siblings linked concurrently all end up in the chain once, in both directions, and a walk along the chain never misses a leaf that was there before it began.",
 ["schedules", "histories"], "every interleaving of publishers, a freezer, readers, slot claimers and linkers on one leaf",
 "Tests run each operation alone, or race two threads a few hundred times; a lost or doubled publication needs a switch between two particular accesses.",
 ["src/leaf24.rs", "src/leaf24/cas.rs", "src/leaf24/freeze.rs", "src/permuter24.rs", "src/freeze24.rs", "src/leaf_trait.rs"],
 [("publication by compare-and-swap", "src/leaf24/cas.rs, src/permuter24.rs"), ("freeze and unfreeze", "src/leaf24/freeze.rs, src/freeze24.rs"), ("marked sibling links", "src/leaf24.rs link_sibling, safe_next")],
 SCHED + " The publications of a run must form one path through all published words (each consumed once); links are checked at every step of concurrent walkers and at rest.", CONC,
 observe=["TreeLeafNode: cas_permutation_raw, freeze_permutation, unfreeze_set_permutation, permutation_try, permutation_wait, cas_slot_value, take_leaf_value_ptr, link_sibling"], hook="as C06")
prop("C22", "A leaf's value slot gives back exactly what was put in, and owns it once",
 "A value slot of either kind holds nothing, one value or one layer pointer, and says which. What is read, taken, replaced or turned into a raw pointer and back is exactly what was stored, bit for bit, for every value and value type. "
 "Shared values gain and lose exactly one reference per handle made or given up, raw pointers included, so each is released once; inline slots allocate one block per raw pointer and release exactly that one.",
 ["histories", "inputs"], "every sequence of slot operations over values of every kind",
 "Tests check single conversions; a reference counted twice or never shows only after a particular sequence.",
 ["src/value.rs", "src/slot.rs"], [("slot variants and conversions", "src/value.rs, src/slot.rs"), ("raw pointer ownership", "src/slot.rs")],
 "Random operation sequences against a model with reference counts and byte-exact memory accounting, single-threaded.", SEQ, observe=["LeafValue", "LeafValueIndex", "ValueSlot"])
prop("C23", "The run analyser reports exactly what the logs contain",
 "For every directory of logs, however long, malformed or odd, the analyser (bin analyze_runs) ends normally, and its report and summary state exactly what is in the logs: lines and events of each kind, retries, the most frequent leaf bound with its share and severity (elevated above 30 %, critical above 50 %), splits near it, per-key events with the sticky and churning keys, keys recurring over runs, and clean and problem runs. "
 "A line that is not a well-formed event is counted as a line and otherwise skipped, without affecting any other. The same logs always give the same report apart from its date.",
 ["inputs"], "every directory of NDJSON logs, valid or not",
 "The program has no tests; miscounts and crashes need particular combinations of events, lengths and ties.",
 ["src/bin/analyze_runs.rs"], [("line parsing and event classes", "src/bin/analyze_runs.rs analyze_run"), ("severity and near splits", "src/bin/analyze_runs.rs finalize_stuck_leaf_analysis"), ("report", "src/bin/analyze_runs.rs generate_markdown_report, print_summary")],
 "The real program is run twice on every generated directory, in a scratch directory; numbers and rows are compared with an own count, wording is not judged beyond the labels the numbers stand beside.", "property testing of a program on generated input files against an own count", observe=["AnalyzerSummary.md", "standard output"])
prop("C24", "Safe calls never cause undefined behaviour, under Rust's own memory model",
 "However the public calls are mixed, over any number of threads and any schedule, including reorderings that weakly ordered processors allow, no execution has a data race, reads freed or uninitialised memory, breaks the aliasing rules, converts pointers invalidly or leaks; and also under such reorderings every lookup finds a value that was stored under its key, no insert is lost, and no call fails to end.",
 ["schedules", "histories"], "every workload of the map's public calls on one to five threads, every schedule, every reordering the memory model allows",
 "On the x86 machine the tests run on, a missing acquire or release ordering or an aliasing violation changes nothing.",
 ["src/nodeversion.rs", "src/ordering.rs", "src/leaf24.rs", "src/internode.rs", "src/suffix.rs", "src/slot.rs", "src/alloc24.rs", "src/tree/generic.rs", "src/tree/optimistic.rs"],
 [("orderings of field accesses", "src/ordering.rs and its users"), ("version protocol", "src/nodeversion.rs"), ("publication of nodes and values", "src/tree/generic.rs, src/leaf24.rs")],
 "Generated workloads interpreted by Miri with generated scheduler seeds and preemption rates: its data-race detector, weak-memory emulation, aliasing model and leak check, plus the value oracle. Directed runs also stop one thread inside an operation, at an access that conflicts with the other thread, and run the other meanwhile; the stops use relaxed accesses and order nothing. Workloads are small (Miri is slow) and schedules are sampled, so rare interleavings may be missed. "
 "One finding is known (in-place suffix assignment under readers) and reported as such.",
 "property testing: generated concurrent workloads and directed schedules under a memory-model interpreter (Miri), with a value oracle and shrinking", observe=["insert", "get", "get_ref", "len"], hook="as C06")
prop("C25", "Every build of the library behaves the same",
 "What the library does depends on neither the build profile nor the optional features: built without debug assertions and overflow checks, as users' release builds are, or with the tracing feature and every log call active, every sequence of calls and every concurrent history gives the same correct answers, leaves the same well-formed tree, finishes, and neither panics nor accesses freed memory. Assertions and log calls only observe.",
 ["histories", "schedules", "configurations"], "every history of public calls and every interleaving, in each build",
 "The tests run in one build only, with assertions on and tracing off; code that differs between builds, or whose effect hides in an assertion or a log call, is never executed by them in the form users run.",
 ["Cargo.toml", "src/lib.rs", "src/tree/generic.rs", "src/tree/optimistic.rs", "src/tree/split.rs", "src/tree/split/propagation.rs", "src/leaf24.rs", "src/leaf24/freeze.rs", "src/internode.rs", "src/nodeversion.rs", "src/permuter24.rs"],
 [("debug assertions and debug-only code", "debug_assert and cfg(debug_assertions) throughout src"), ("tracing-only code", "cfg(feature = \"tracing\") throughout src")],
 "The model-based, scheduled and node-walking arms of the other checks, run against two more builds: plain (no assertions or overflow checks) and traced (tracing feature, a subscriber that formats every event at every level, assertions on). The other checks use a third: assertions on, tracing off. The mimalloc feature only chooses a global allocator and is not run.",
 "model-based property testing and scheduled concurrency over several build configurations", observe=["insert", "get", "get_ref", "len"])

prop("C26", "The diagnostics of a tracing build report what happened",
"In a build with the tracing feature the debug counters add up: after reset_debug_counters() every one is zero, and after any calls by any number of threads locked_insert plus cas_insert_success is the number of inserts that succeeded, split is the number of leaves added by splitting (leaves minus layers), and search_not_found is the number of get calls that found nothing; get_all_debug_counters(), get_debug_counters() and get_parent_wait_stats() give back each counter, its maxima and its averages (0 without hits). init_tracing() works from its first call on, however often it is called: every event its filter lets through (RUST_LOG, masstree=info by default) is in MASSTREE_LOG_DIR/masstree.jsonl (logs/ by default, created if missing) as one line of valid JSON with time, level, target, place, thread and fields, in each thread's order, none is lost when the process ends right afterwards, and the console shows the same events unless MASSTREE_LOG_CONSOLE is 0.",
["histories", "schedules", "configurations"], "every history of calls and every interleaving; every sequence of events, filter and environment",
"No test is built with the tracing feature, and whether counts are right or log lines get lost depends on the path each call took, on interleavings and on when the process ends.",
["src/lib.rs", "src/tree/optimistic.rs", "src/tree/generic.rs", "src/tree.rs", "src/tracing_helpers.rs"],
[("counters", "reset_debug_counters, get_all_debug_counters, get_debug_counters, get_parent_wait_stats"), ("places that count", "cfg(feature = \"tracing\") fetch_add in tree/generic.rs"), ("log", "init_tracing")],
"Traced build. Generated call sequences, alone and under the scheduler, against counts of the calls' own results and of the nodes in the finished map; generated counter values against the summaries; generated events, filters and environments in a process of their own that ends right after its last event, against its log file and console.",
"model-based property testing of the instrumented build, with scheduled concurrency and generated log sessions", observe=["reset_debug_counters", "get_all_debug_counters", "get_debug_counters", "get_parent_wait_stats", "init_tracing"])

prop("C27", "A map hands each of its nodes to its allocator once, and is torn down once",
"A map built over any node allocator (MassTreeGeneric::with_allocator) hands every leaf and every inner node it makes to that allocator exactly once (alloc_leaf, track_leaf, alloc_internode_erased, track_internode_erased), under its right kind, from the empty root on; it goes on with the address alloc_leaf and alloc_internode_erased return, so an allocator may move the node to a place of its own; at rest, what was handed over and not retired is exactly the map's nodes, whatever the interleaving that built it, and every map has its own. Dropping the map first releases everything replaced or retired, then calls teardown_tree once with the map's root, then drops the allocator once, and nothing is handed over or retired after the teardown. SeizeAllocator24 counts exactly the nodes given to it and not retired, frees a retired node only when no guard from before can see it, and frees each node with its values and suffixes exactly once: retired, torn down or when it is dropped.",
["histories", "schedules"], "every history of inserts, alone or concurrent, over every allocator; every order of allocating, tracking, retiring, tearing down and dropping",
"The tests use one allocator that keeps addresses, so a node that is not handed over, handed over twice or used at its old address shows only with another allocator, on the path (layer, twig chain, inner split, root growth) and interleaving that makes the node.",
["src/alloc_trait.rs", "src/alloc24.rs", "src/tree.rs", "src/tree/generic.rs", "src/tree/split/root_creation.rs", "src/tree/split/propagation.rs"],
[("contract", "NodeAllocatorGeneric"), ("own allocator", "SeizeAllocator24"), ("end", "Drop for MassTreeGeneric"), ("places that make nodes", "with_allocator, create_layer_concurrent_generic, handle_leaf_split_generic, RootCreation, Propagation")],
"Maps over two book-keeping allocators, one that moves every node it is given and frees nothing before its end, one that passes everything on to SeizeAllocator24. Generated insert sequences (one map or two side by side) and scheduled concurrent runs; the books against a walk over the finished map's nodes, the contents against a model, the calls and releases around the drop, and the memory left. SeizeAllocator24 itself: generated sequences of calls against a model of counts and drops.",
"model-based property testing with generated histories and schedules over instrumented allocators", observe=["with_allocator", "insert", "get", "SeizeAllocator24::leaf_count", "SeizeAllocator24::internode_count"])
