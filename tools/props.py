NOTES = ("Every check is a bounded exhaustive exploration of the real code of /repo, rebuilt from its working tree. "
         "./check.sh <id> <tier> --replay <file> re-runs one recorded violation. See DESIGN.md.")
MAPF = ["rubymap/src/map.rs", "rubymap/src/map/core.rs", "rubymap/src/map/core/entry.rs"]
BOUND = "Exhaustive within the stated bounds (operation alphabet, start sizes and histories, hash profiles, depth); says nothing beyond them."

prop("P01", "Hash container behaves as an insertion-ordered association list",
     "For every sequence of operations on the hash container, each result and the contents afterwards are those of an association list kept in insertion order: at most one entry per key (keys being the same when they have equal hash values and are eql?), lookups find exactly the stored keys, updating a key keeps its position and its stored key object, and every positional, removing, sorting, moving, splitting or bulk operation has its documented effect on the order. This holds at every size, whatever the hash values are and however they collide, and whatever operations came before.",
     ["histories", "inputs"],
     "All operation sequences (about 130 operations over the whole public API with symbolic operands: first, second, middle, last, absent and previously removed keys; positions from zero to beyond the end), all hash value patterns of ten profiles from all-distinct to all-equal, all start sizes around each growth and storage threshold, sixteen ways of having arrived at the start state.",
     "The unit tests call a few dozen hand-picked sequences with integers; the index table, the small unindexed form, growth, tombstones in the index and displaced positions make the outcome depend on the whole history and on collisions tests never produce.",
     MAPF,
     [("entries vector plus hash index of positions", "rubymap/src/map/core.rs IndexMapCore"), ("unindexed form for small maps", "rubymap/src/map/core.rs"), ("index repair on removal, shifting and swapping", "rubymap/src/map/core.rs decrement_indices/increment_indices/move_index/swap_indices")],
     state=[("entries", "the ordered buckets (hash, key, value)", "rubymap/src/map/core.rs"), ("indices", "hash table of positions", "rubymap/src/map/core.rs")],
     observe=["every public method of the map type"], note=BOUND)

prop("P02", "Storage strategy is invisible; user hash and eql? are called by the rules",
     "A key's hash is asked at most once per keyed operation and its result is kept, and eql? is only ever asked between the given key and a stored key whose kept hash value is equal. So results never depend on the size of the map or on which internal representation it currently has: keys that are eql? but hash differently stay distinct, and a key whose hash changes while stored is not found under its new hash until the map is rehashed.",
     ["histories", "inputs"],
     "As for the association list, with keys whose eql? answers true against their hash, keys that change their hash while stored, and a monitor on every call into user code; sizes on both sides of each representation change, reached by growing and by shrinking.",
     "The tests only use keys whose equality and hash agree, for which a comparison that skips the hash gives the same result.",
     MAPF + ["hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs"],
     [("comparison of kept hashes before eql?", "rubymap/src/map/core.rs equivalent"), ("linear search of the unindexed form", "rubymap/src/map/core.rs")], note=BOUND)

prop("P03", "An error raised by a key's hash or eql? leaves the hash container intact",
     "When user code called during a keyed operation (a key's hash or eql?) fails, the operation reports exactly that failure, makes no further calls into user code and does not panic. The container then has exactly the contents and order it had before the operation, and every later operation works normally.",
     ["fault_sequences", "histories"],
     "Every keyed operation from every start state, failing in turn each of the callbacks it makes, alone and after a preceding operation.",
     "The tests' keys never fail; the error paths inside the probe loops and the half-finished states behind them are not executed at all.",
     MAPF + ["hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs"],
     [("fallible probe", "hashbrown/src/raw/mod.rs find/find_or_find_insert_slot"), ("error propagation with ?", "rubymap/src/map.rs")],
     technique="exhaustive fault enumeration: every callback of every bounded operation sequence fails once, on the real code", note=BOUND)

prop("P04", "Deleting entries while a hash is being traversed is safe and exact",
     "While deletions are deferred during a traversal, a deleted key is no longer found, every other entry keeps its position, key and value, values of remaining keys may be updated in place, and the numbers of remaining and deleted entries are exact. When the traversal ends and the deleted entries are dropped, the container holds exactly the remaining entries in their order and behaves as if the deleted ones had been removed directly.",
     ["histories"],
     "Every sequence of traversal steps, lookups, updates and deletions up to the bound, every subset of deleted entries, from every start history and hash profile.",
     "Tests delete one or two entries from one small map; the marking interacts with the index, with the unindexed form and with entries deleted twice or last.",
     MAPF, [("tombstone marking and compaction", "rubymap/src/map/core.rs"), ("deferred deletion contract", "monoruby/src/value/rvalue/hash.rs")], note=BOUND)

prop("P05", "Symbol and precomputed-hash fast paths agree with the general path",
     "Looking up, inserting or removing through the fast paths for symbol keys and for keys with a precomputed hash has exactly the result and effect of the general operation on the same key, in every state of the map. Entries put in by either path are found, updated and removed by the other.",
     ["histories", "inputs"],
     "All bounded sequences mixing the fast and general paths at every size around the representation thresholds, under all hash profiles.",
     "Each fast path has a couple of direct tests on one representation; mixing them across the threshold and under collisions is not tested.",
     MAPF, [("borrowed-key lookup and insertion", "rubymap/src/map.rs"), ("precomputed hash operations", "rubymap/src/map.rs, rubymap/src/map/core.rs")], note=BOUND)

prop("P06", "Entry handles read, replace and remove exactly the entry they name",
     "A handle obtained for a key or a position reports that entry's key, value and position, or that the key is absent; writing, inserting, moving or removing through it has the effect of the same operation on the association list and touches no other entry. This holds in every state of the map and however the handle was obtained.",
     ["histories"],
     "All bounded sequences of handle operations (by key and by position, occupied and vacant, each with all its methods) mixed with the other mutations, from every start state and hash profile, and with each callback failing in turn.",
     "Handles hold positions and index slots; whether those stay right depends on the state of the index, of which tests visit one or two.",
     MAPF, [("entry handles", "rubymap/src/map/core/entry.rs")], note=BOUND)

prop("P07", "Iterators and slices show exactly the entries, in order, from both ends",
     "Every iterator over a map, set or slice yields each remaining entry exactly once in container order, from whichever ends and by whatever steps it is driven, reports the exact number left, and stays finished. Ranges, slices, splits and positional access show exactly the entries of those positions, refuse positions out of range, and searches over sorted content find the right position; draining removes exactly the drained range.",
     ["inputs", "histories"],
     "All sequences of stepping from both ends up to the bound, times all ways to finish, for each kind of iterator; all pairs of range bounds for all sizes up to the bound; all split points and all position triples.",
     "Tests walk each iterator once from the front; mixed stepping, partial consumption and boundary ranges are only sampled.",
     ["rubymap/src/map/iter.rs", "rubymap/src/map/slice.rs", "rubymap/src/set/iter.rs", "rubymap/src/set/slice.rs", "rubymap/src/util.rs"],
     [("iterator wrappers", "rubymap/src/map/iter.rs"), ("range simplification", "rubymap/src/util.rs")], note=BOUND)

prop("P08", "Ordered set behaves as a list of distinct elements; set relations are exact",
     "For every sequence of operations on the ordered set, each result and the contents afterwards are those of a list of distinct elements in insertion order; inserting a present element changes nothing, replacing exchanges the stored object only. Subset, superset, equality, and union-like bulk operations give the answers of mathematical sets whatever the order and history of the two operands, and a failing hash or eql? is reported and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "All bounded operation sequences over the set API from start sizes around each storage threshold and all hash profiles; all pairs of subsets of a small universe in different insertion orders for the relations; each callback failing in turn.",
     "Tests relate a few literal sets of integers; collisions, histories with removals and failing elements are not tried.",
     ["rubymap/src/set.rs", "rubymap/src/map.rs", "rubymap/src/map/core.rs"],
     [("set as map with unit values", "rubymap/src/set.rs RubySet"), ("relations", "rubymap/src/set.rs is_subset/is_superset/eql")], note=BOUND)

RAWF = ["hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs", "hashbrown/src/control/bitmask.rs", "hashbrown/src/control/tag.rs", "hashbrown/src/control/group/sse2.rs"]
prop("P09", "Probing table holds exactly the elements put in and not taken out",
     "After any history of insertions, removals, growth, shrinking, in-place rehashing, filtering, draining, copying and clearing, the probing hash table holds exactly the elements put in and not taken out: a lookup finds an element if and only if one with that hash for which the comparison answers true is stored, iteration shows each element once, the table never reports room it does not have, and looking up an absent element in a full table ends. A failing comparison is reported as such and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "All bounded operation sequences from all start sizes and nine kinds of history (with removal marks, in-place rehashed, shrunk, copied, full), ten patterns of hash values chosen to collide in bucket, tag or both; every subset of removals of tables up to 17 elements; long churn; filling to the reported capacity; element types of six sizes and alignments; each comparison failing in turn.",
     "Removal marks, wrapped probe groups and in-place rehashing only arise in tables of more than sixteen slots with clustered hashes and a history of removals; the tests' tables are small or randomly hashed.",
     RAWF, [("probe sequence over control groups", "hashbrown/src/raw/mod.rs find_inner/find_or_find_insert_slot_inner"), ("removal marks", "hashbrown/src/raw/mod.rs erase"), ("in-place rehash", "hashbrown/src/raw/mod.rs rehash_in_place"), ("growth accounting", "hashbrown/src/raw/mod.rs growth_left")],
     state=[("ctrl", "control byte of every slot", "hashbrown/src/raw/mod.rs RawTableInner"), ("growth_left", "insertions possible before growing", "hashbrown/src/raw/mod.rs RawTableInner")], note=BOUND)

prop("P10", "Hash map from keys to values is exact under every history",
     "After any history of operations each key inserted and not removed maps to the value last stored for it under the key object first stored, and no other key is present; every insertion, removal, handle, bulk and traversal operation returns what a finite map would. Two maps are equal exactly when they hold equal keys with equal values. A failing comparison is reported and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "All bounded sequences over the whole map API, including entry handles by value and by reference with every method, from the start states and hash patterns of the probing table; each comparison failing in turn.",
     "Tests use integer keys with a good hash function and rarely follow a removal by anything but a lookup.",
     ["hashbrown/src/map.rs"] + RAWF[:1], [("entry handles", "hashbrown/src/map.rs Entry/OccupiedEntry/VacantEntry/EntryRef"), ("in-place replacement", "hashbrown/src/raw/mod.rs replace_bucket_with")], note=BOUND)

prop("P11", "Hash set holds exactly its elements; relations and replacement are exact",
     "After any history of operations the set holds exactly the elements inserted and not removed, each once, with the object first stored unless it was explicitly replaced; subset, superset and equality are the mathematical relations. An element produced for a probe that is not equal to it is refused. A failing comparison is reported as an error, never as a crash, and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "All bounded sequences over the whole set API from the start states and hash patterns of the probing table; each comparison failing in turn.",
     "Tests use integers with a good hash function; failing comparisons and colliding histories are not tried.",
     ["hashbrown/src/set.rs", "hashbrown/src/map.rs"] + RAWF[:1], [("set as map with unit values", "hashbrown/src/set.rs"), ("get_or_insert_with", "hashbrown/src/set.rs")], note=BOUND)

prop("P12", "Every element is owned once and released once; memory is returned as taken",
     "At every moment exactly the elements the hash containers hold are alive. Each element put in is either handed back or released exactly once, whatever operation removes, replaces, copies, filters or refuses it, also when an operation fails midway or an owning iterator is consumed only partly. Every heap block is returned once with its own size and alignment, nothing is touched outside or after it, and nothing is left when the container is gone.",
     ["histories", "fault_sequences"],
     "All bounded operation sequences over the ordered map and the three probing containers with counted elements and a checking allocator; each callback failing in turn; fifteen kinds of owning iterators and drains consumed 0-5 steps from either end and then dropped, finished or forgotten.",
     "Containers keep elements in raw memory; a double or missing release shows in no result and the tests' elements are mostly integers.",
     MAPF + ["hashbrown/src/raw/mod.rs", "hashbrown/src/raw/alloc.rs", "hashbrown/src/table.rs"],
     [("raw buckets", "hashbrown/src/raw/mod.rs RawTable/RawTableInner"), ("owning iterators and drains", "hashbrown/src/raw/mod.rs RawIntoIter/RawDrain"), ("clone and clone_from", "hashbrown/src/raw/mod.rs clone_from_impl")], note=BOUND)

prop("P13", "A panic in user code never breaks memory safety of the hash containers",
     "Whichever piece of user code panics during an operation (a hash, a comparison, a closure, the copying or the release of an element), no element is released twice, none is shown or used after its release, the container reports and shows the same number of elements, the heap stays intact, and the container can be used on, filled to its reported capacity and dropped. Elements may be lost.",
     ["fault_sequences", "histories"],
     "Every operation of the ordered map and the three probing containers from start states of seven sizes and all kinds of history, alone and after another operation, with a panic at each occasion of user code in turn, for elements with and without release code.",
     "Guards that restore the table during unwinding run only when user code panics in the middle of an operation; the tests do that for two or three operations in one state.",
     MAPF + ["hashbrown/src/raw/mod.rs", "hashbrown/src/scopeguard.rs", "hashbrown/src/table.rs", "hashbrown/src/map.rs"],
     [("guards run on unwinding", "hashbrown/src/raw/mod.rs rehash_in_place, clone_from_impl, clear, resize_inner"), ("guard of in-place retain", "rubymap/src/map/core.rs")],
     technique="exhaustive fault enumeration: a panic at every occasion of user code in every bounded operation, on the real code", note=BOUND)

prop("P14", "Room asked for is there; impossible requests are refused; memory stays bounded",
     "A container made or asked to have room for some number of further elements takes that many without using more memory, however it got to its present state. Giving room back keeps enough for the elements and holds no more memory than a new container of that size would; an empty container without room holds none. A request that cannot be met, because it overflows or because memory is exhausted, is refused without changing the contents or leaving a container that cannot be used. Replacing elements for any length of time does not let the container grow without bound.",
     ["histories", "inputs", "fault_sequences"],
     "Five containers times element types of five sizes and alignments times all sizes up to the bound times ten histories times three hash patterns, with every listed request from zero over the growth thresholds to beyond what can be addressed; every allocation beyond the present one failing; windows of every size replaced many times in four orders.",
     "Capacity arithmetic has rounding, load factor, removal marks and overflow cases that depend on the size, the element size and the history; tests ask for capacity a few times on new containers.",
     ["hashbrown/src/raw/mod.rs", "rubymap/src/map/core.rs", "rubymap/src/map.rs"],
     [("capacity to buckets and back", "hashbrown/src/raw/mod.rs capacity_to_buckets/bucket_mask_to_capacity"), ("growth accounting", "hashbrown/src/raw/mod.rs reserve_rehash_inner"), ("layout of a table", "hashbrown/src/raw/mod.rs TableLayout"), ("room of entries and index together", "rubymap/src/map/core.rs reserve/reserve_entries")], note=BOUND)

prop("P15", "The memory layout told to generated code shows exactly the entries",
     "Generated code that walks a hash by the announced offsets and strides (number of entries, start of entries, size of an entry, place of hash, key and value) reads exactly the entries the hash shows, in order, in every state and for every kind of key and value.",
     ["histories", "inputs"],
     "All pairs of fifteen shapes of keys and values by size and alignment, with different context and error types, all sizes up to the bound, with and without room, all pairs of further operations; entries read by offsets are compared with the safe view after each.",
     "The layout is found by probing one sample value; the tests look at one pair of types.",
     ["rubymap/src/map.rs", "rubymap/src/map/core.rs", "rubymap/src/lib.rs"],
     [("entries layout", "rubymap/src/map.rs entries_layout")], note=BOUND)

prop("P16", "Equality, construction from lists and printing depend only on the contents",
     "Two hash containers are equal exactly when they hold the same keys with the same values, asked either way round, no matter how and in which order each was built, how large it is or how its hashes collide; a failing callback is reported and changes nothing. A container made from a list has each key once, at its first place, with its last value; reading by key or position and printing show exactly the contents.",
     ["inputs", "histories", "fault_sequences"],
     "All ordered pairs of all contents over four keys and two values, each built in seven ways, with further common entries crossing the thresholds, several hash patterns, each callback failing in turn; all lists of up to four pairs.",
     "Equality is tested on a few equal and unequal small maps built in the same way.",
     ["rubymap/src/map.rs", "rubymap/src/set.rs", "rubymap/src/map/slice.rs", "hashbrown/src/map.rs", "hashbrown/src/set.rs"],
     [("fallible equality", "rubymap/src/map.rs eql"), ("construction", "rubymap/src/map.rs from/from_iter")], note=BOUND)

prop("P17", "Key traits: equal keys hash equally, lists compare element by element",
     "For every key type the library implements, two keys are eql? exactly when their values are equal, and then feed the hasher the same data whether given by value or by reference, borrowed or owned, so that they find each other in every container. Lists compare and hash element by element from the front, stop at the first difference or failure and report it, options compare as their contents, and symbol keys match exactly themselves.",
     ["inputs", "fault_sequences"],
     "All ordered pairs of values of each implemented type (all for small types, boundary values for wide ones), by value and by reference, alone, in options and in lists and as keys of the containers; all pairs of lists up to the bound with each comparison or hash failing in turn.",
     "The trait crate has one unit test for options.",
     ["ruby_traits/src/lib.rs"],
     [("key traits", "ruby_traits/src/lib.rs RubyEql/RubyHash/Equivalent/RubySymEql")], note=BOUND)

prop("P18", "Built-in wrappers pass results, errors, returns; object wrappers guard writes",
     "The value of a built-in method reaches its caller as it is. Its failure becomes the one pending error, with this method's frame added once. A non-local return addressed to the method's own frame ends there with its value and nothing left pending; addressed to any other frame it passes on. An object wrapper reads and writes exactly the object it was made for, marks it, and a wrapper declared with a write barrier never hands the object out for writing before the barrier ran.",
     ["histories", "inputs"],
     "All nestings of up to five wrapped methods whose bodies answer, fail, return from any frame on or off the stack, throw, pass on, rescue, replace or repeat; all histories of up to four (five) uses of two wrapped objects of both kinds.",
     "The attribute crate has no tests of its own; a wrong target comparison or a missing barrier only shows in nested non-local returns or after a collection at an unlucky moment.",
     ["monoruby_attr/src/lib.rs"],
     [("wrapper of built-in methods", "monoruby_attr/src/lib.rs monoruby_builtin"), ("object wrapper with barrier", "monoruby_attr/src/lib.rs monoruby_object")],
     note=BOUND + " The generated code is compiled against stand-ins for the interpreter types it names.")

VM = "exhaustive enumeration of small programs, run on the real interpreter and its compiler at every stage of warming up, against an independent reference"
VMNOTE = "The interpreter is built from the repository's sources; the crates that are not available offline (assembler, number library, regular expressions, parser and others) are replaced by stand-ins kept in /verif/shims. The bounds are the listed operands, program sizes and stages."
JITF = ["monoruby/src/codegen/jitgen.rs", "monoruby/src/codegen/jitgen/state/slot.rs", "monoruby/src/codegen/jitgen/state/binop.rs", "monoruby/src/codegen/jitgen/state/join.rs"]

prop("P20", "Integer arithmetic is exact, whether interpreted or compiled",
     "Every operation on integers gives the mathematically exact result of Ruby's definition (floored division and modulo, arithmetic shifts in both directions, unlimited size), the answer is the same whether the code runs in the interpreter, is compiled as a method or a loop, is deoptimised or compiled anew for other operand classes, and whether operands are variables or literals. Divisions by zero, impossible conversions and bad arguments raise the documented exception at every stage.",
     ["inputs", "histories"],
     "Every operation of the table on every ordered pair of operands around the limits of small and native integers, 64- and 128-bit words, in every operand form (variables, literal right, literal left, both literal, in a loop), each executed from cold through compiled, deoptimised and recompiled by a fixed schedule that changes the operand classes on the way.",
     "Overflow checks sit in hand-written machine code for each operand form; tests run the operations on a few small numbers and mostly before compilation.",
     ["monoruby/src/builtins/numeric/integer.rs", "monoruby/src/executor/op.rs", "monoruby/src/codegen/arch/x86_64/compile/binary_op.rs"] + JITF,
     [("compiled integer operations with overflow exits", "monoruby/src/codegen/arch/x86_64/compile/binary_op.rs"), ("constant folding", "monoruby/src/codegen/jitgen/state/binop.rs"), ("generic operations", "monoruby/src/executor/op.rs")],
     technique=VM, note=VMNOTE)

prop("P21", "Float arithmetic and mixed arithmetic keep values, types and variables apart",
     "Every operation with at least one float gives the IEEE double result (exact comparisons included) and the right class, for every representation of the numbers involved; conversions, rounding and printing are exact. A variable holding numbers keeps its own value and class through any sequence of assignments, arithmetic, conditionals, blocks and loops, whether the code is interpreted or compiled, however many floats are alive, and whenever compiled code is left or entered again.",
     ["inputs", "histories"],
     "Every operation on every listed pair of numbers with at least one float, in every operand form and at every stage of warming up; all loops of up to 3 (4 thorough) of 18 statements over two variables from four starts; all conditionals with up to 3 (4) assignments in their arms over three variables, in hot methods and loops; 1-20 floats alive at once with nine ways of leaving compiled code; all boundary bit patterns of the immediate representation.",
     "Compiled code keeps floats unboxed in registers and moves them where paths meet; whether a move goes wrong depends on which variables share a register there, which example programs rarely vary.",
     ["monoruby/src/builtins/numeric/float.rs", "monoruby/src/value.rs", "monoruby/src/codegen/arch/x86_64/compile/binary_op.rs"] + JITF,
     [("placement of floats in registers, spill slots and boxes", "monoruby/src/codegen/jitgen/state/slot.rs LinkMode"), ("joining of paths", "monoruby/src/codegen/jitgen/state/join.rs"), ("moves between placements", "monoruby/src/codegen/jitgen/state/slot.rs bridge"), ("immediate floats", "monoruby/src/value.rs")],
     state=[("placement", "where each variable lives: box, register, both, constant", "monoruby/src/codegen/jitgen/state/slot.rs SlotState")],
     technique=VM, note=VMNOTE)
prop("P22", "Every way of leaving code runs what must run and ends where Ruby says",
     "For every nest of control structures and every way of leaving it (exception, next, break, return, throw, redo, retry), the clauses that run, their order, the value of every construct, the result, the exception that comes out with its causes, and $! at every step are those of Ruby's rules. In particular every ensure body on the way out runs exactly once, an exit or exception inside it replaces the one under way, and interpreted and compiled code agree.",
     ["histories", "inputs"],
     "All pairs of 55 constructs (25 kinds, five of them with each of six actions in their clause) around each of 11 actions, in four modes each (action not taken, always, always together with the clause's own action, only the second time), with and without looking at $!; all triples of the main constructs (thorough: all triples around the full middle); each called about 70 times from cold to compiled, with every mode again after compiling.",
     "Ensure bodies are copied into the code for every exit, exceptions go by a table of code ranges, non-local exits are suspended while an ensure body runs, and compiled blocks leave by dropping frames; the combinations of nested constructs are far too many for example tests.",
     ["monoruby/src/bytecodegen.rs", "monoruby/src/bytecodegen/statement.rs", "monoruby/src/bytecodegen/expression.rs", "monoruby/src/codegen/jit_module.rs", "monoruby/src/codegen/jitgen/context.rs", "monoruby/src/executor.rs"],
     [("copies of ensure bodies for local exits", "monoruby/src/bytecodegen.rs gen_loop_pending_ensures"), ("begin, rescue, else, ensure", "monoruby/src/bytecodegen/statement.rs gen_begin"), ("looking for a handler", "monoruby/src/codegen/jit_module.rs handle_error"), ("suspended unwinds", "monoruby/src/executor.rs defer_unwind, finish_ensure"), ("leaving compiled blocks", "monoruby/src/codegen/jitgen/context.rs method_caller_specialized_ids")],
     state=[("suspended unwinds", "what a running ensure body will resume", "monoruby/src/executor.rs deferred_unwind"), ("exception table", "code ranges and their handlers", "monoruby/src/globals/store/iseq.rs exception_map")],
     technique=VM, note=VMNOTE)

prop("P23", "Arguments reach parameters by Ruby's rules, whichever way the call is made",
     "For every parameter list (required, optional, rest, post, required and optional keyword, keyword rest, block) and every argument list (positional, splat, keywords, double splat, braced hash, block), every parameter holds exactly what Ruby's rules give it, or ArgumentError is raised with Ruby's message; defaults are evaluated only when needed; and the caller's arrays and hashes are not changed. This holds alike for methods, super, send, method objects, method_missing, lambdas, procs, yield, define_method, new, instance_exec, forwarding and the rest of 25 ways of calling, interpreted and compiled.",
     ["inputs", "histories"],
     "Parameter lists with up to one required, one optional, rest, one post, k:, o:, **kr and block in all combinations x argument lists of up to two positional parts x all 25 ways; up to two of each with up to five parts in the main ways; single arrays and objects that convert to arrays given to blocks, with and without a rest parameter; every call repeated from cold to compiled. Thorough: up to two of each and five parts in all ways.",
     "Arguments are bound by at least five implementations: a runtime routine, a fast copy for simple calls, two compiled forms, native wrappers for procs and method objects, and the forwarding of `...`. They have to agree on some hundreds of combinations.",
     ["monoruby/src/executor/frame.rs", "monoruby/src/codegen/runtime/args.rs", "monoruby/src/codegen/jitgen/compile/method_call.rs", "monoruby/src/builtins/proc.rs", "monoruby/src/bytecodegen/method_call/arguments.rs"],
     [("binding at run time", "monoruby/src/codegen/runtime/args.rs set_frame_arguments"), ("binding in compiled code", "monoruby/src/codegen/jitgen/compile/method_call.rs set_arguments"), ("argument lists in bytecode", "monoruby/src/bytecodegen/method_call/arguments.rs handle_arguments")],
     state=[("call site", "what a call passes, and its inline cache", "monoruby/src/globals/store.rs CallSiteInfo")],
     technique=VM, note=VMNOTE)

prop("P24", "Operands are evaluated once, left to right, and keep the value they had",
     "For every expression form (operators, comparisons, calls with receivers, arguments, keywords and blocks, safe navigation, literals, ranges, indexing, all kinds of assignment, conditionals, string interpolation, defined?), its operands are evaluated exactly once and from left to right, and an operand that was read keeps the value it had then, even when a later operand assigns to the same variable directly, in a block, a proc, a lambda or an ensure clause, or changes its type. The variable itself ends with the value last assigned. Interpreted and compiled code agree.",
     ["histories", "inputs"],
     "About 70 expression forms with every filling of their operands from 13 leaves, for eight kinds of variable (local, local of a loop, captured before or after, outer local, instance variable, global variable and so on), starting with an integer and with a float; then every form with every two-operand form inside its first operand (thorough: all leaves in both, and all places); each called from cold to compiled with the types mixed.",
     "The bytecode refers to local variables in place instead of copying them, and compiled code keeps them in registers, as constants, or as unboxed floats; every form has to notice when a later operand changes the variable under it.",
     ["monoruby/src/bytecodegen.rs", "monoruby/src/bytecodegen/binary.rs", "monoruby/src/bytecodegen/expression.rs", "monoruby/src/bytecodegen/method_call.rs", "monoruby/src/codegen/jitgen/compile/method_call.rs", "monoruby/src/codegen/jitgen/compile/dispatch.rs", "monoruby/src/codegen/jitgen/state/slot.rs"],
     [("using locals in place", "monoruby/src/bytecodegen.rs gen_expr_reg"), ("operators", "monoruby/src/bytecodegen/binary.rs gen_binop"), ("where compiled code keeps a variable", "monoruby/src/codegen/jitgen/state/slot.rs LinkMode"), ("operators on several classes", "monoruby/src/codegen/jitgen/compile/dispatch.rs declare_merge")],
     state=[("slot state", "how compiled code holds each register: stack, constant, float register", "monoruby/src/codegen/jitgen/state/slot.rs SlotState")],
     technique=VM, note=VMNOTE)
prop("P25", "A call reaches the method that lookup finds now, however warm it is",
     "After any history of defining (def, define_method, attr_reader, alias), removing and undefining methods, changing their visibility, including and prepending modules, extending one object and adding or removing method_missing, every call answers what lookup along the present ancestors finds: direct calls, private calls, calls through send, public_send, Symbol#to_proc, method objects, super and alias, respond_to?, and the ancestors themselves. This holds for call sites that were interpreted, cached or compiled before the change, and for a compiled loop in which the change happens.",
     ["histories", "inputs"],
     "Five arrangements of two classes, two modules and a singleton class; all histories of one and two of about 50 changes and of three of the main changes (thorough: from all arrangements), with 16 kinds of calls warm before each change; the same changes made by a block in the middle of a compiled loop, once and twice.",
     "Every call site keeps the method it found together with a version number, and compiled code keeps it as a constant; each of the ways of changing a class has to invalidate them, and super, visibility and method_missing have caches of their own.",
     ["monoruby/src/globals/store/class.rs", "monoruby/src/globals/store/iseq.rs", "monoruby/src/globals/store/function.rs", "monoruby/src/value/rvalue/module.rs", "monoruby/src/codegen/runtime.rs", "monoruby/src/codegen/jitgen/compile/method_call.rs", "monoruby/src/builtins/kernel.rs", "monoruby/src/codegen/arch/x86_64/compile/method_call.rs"],
     [("lookup", "monoruby/src/globals/store/class.rs search_method"), ("visibility", "monoruby/src/globals/store/class.rs change_method_visibility_for_class"), ("super", "monoruby/src/codegen/runtime.rs find_super"), ("inclusion", "monoruby/src/value/rvalue/module.rs include_module"), ("compiled send", "monoruby/src/builtins/kernel.rs object_send")],
     state=[("class version", "counter by which warm call sites notice changes of classes", "monoruby/src/codegen.rs class_version"), ("global method cache", "what lookup found per class and name", "monoruby/src/globals/store.rs GlobalMethodCache")],
     technique=VM, note=VMNOTE)
prop("P26", "Array operations do what an ordered list does, inline, shared or compiled",
     "Every operation on an array (reading and writing at indexes, pairs of index and length and ranges; adding and taking away at both ends and in the middle; searching, filtering, turning, filling, replacing) answers what a plain list gives, leaves that list behind, raises IndexError, ArgumentError or FrozenError where Ruby does, and never touches another array. An iteration whose block changes the array sees the elements Ruby shows it.",
     ["histories", "inputs"],
     "Reading and writing at indexes -10 to 10 of arrays of 0 to 8 elements at places compiled for another use; all sequences of one and two of the operations on arrays of 0 to 9 (7) elements and of three operations that move elements (thorough: all of those); every way of iterating over 0 to 7 elements whose block makes one of those changes after 1 to 3 elements; all repeated until compiled.",
     "Short arrays live inside the object and long ones on the heap, indexing has its own machine code, and a dozen methods are written in Ruby over raw indexes; the places where these meet are where elements get lost.",
     ["monoruby/src/builtins/array.rs", "monoruby/builtins/array.rb", "monoruby/src/value/rvalue/array.rs", "monoruby/src/codegen/arch/x86_64/compile/index.rs", "monoruby/src/codegen/jitgen/compile/index.rs"],
     [("the storage", "monoruby/src/value/rvalue/array.rs ArrayInner"), ("compiled writing", "monoruby/src/codegen/arch/x86_64/compile/index.rs array_index_assign"), ("iteration", "monoruby/builtins/array.rb reverse_each, map"), ("slicing", "monoruby/src/builtins/array.rs slice_")],
     state=[("array contents", "elements, inline up to five and on the heap beyond", "monoruby/src/value/rvalue/array.rs ArrayInner")],
     technique=VM, note=VMNOTE)
prop("P27", "Hash operations do what an ordered list of pairs does, through the interpreter",
     "Every operation on a Ruby hash (reading, writing, deleting, defaults, merging, filtering, sorting out, turning round, comparing, iterating with changes in the block) answers what an ordered list of pairs with unequal keys gives and leaves that list behind, for integer, float, symbol, string, array and nil keys; string keys are copied; adding a key during an iteration raises; other hashes are never touched.",
     ["histories", "inputs"],
     "All sequences of one and two of the operations, and of three of those that add or take away (thorough: all of those), from hashes of 0 to 16 entries on both sides of the change from a plain list to an index table, each repeated until compiled.",
     "The checks of the containers use the Rust interface; programs reach it through built-in methods, partly written in Ruby, that keep iteration levels, default procs and key copies on top of it.",
     ["monoruby/src/builtins/hash.rs", "monoruby/builtins/hash.rb", "monoruby/src/value/rvalue/hash.rs", "rubymap/src/map.rs", "rubymap/src/map/core.rs"],
     [("built-in methods", "monoruby/src/builtins/hash.rs init"), ("the value", "monoruby/src/value/rvalue/hash.rs HashmapInner"), ("written in Ruby", "monoruby/builtins/hash.rb"), ("iteration level", "monoruby/src/value/rvalue/hash.rs iter_lev")],
     state=[("hash contents", "ordered pairs, default and iteration level", "monoruby/src/value/rvalue/hash.rs HashmapInner")],
     technique=VM, note=VMNOTE)
prop("P28", "Variables and constants are read as they stand now, however warm the place",
     "Instance variables hold per object what was last stored in them, whatever the class, shape or kind of the object and whichever objects the same place met before; frozen objects refuse; removed variables are gone. A constant reference answers what lookup along the lexical scopes and ancestors finds now, after any history of setting, const_set, removing, making private or public, including a module with the constant and adding const_missing. Class variables are shared along the ancestors, and an overtaken one is reported. This holds for interpreted, cached and compiled places and for a compiled loop in which the change happens.",
     ["histories", "inputs"],
     "All sequences of one, two and three uses of instance variables in a method body (34 uses) with 18 kinds of receivers that take turns; all histories of one, two and three changes of a constant from six arrangements, with 22 kinds of reading warm before each change; each change made in the middle of a compiled loop; all histories of three (thorough: four) changes of a class variable in a class, its subclass and a module.",
     "Each reference keeps a slot number or the value itself under a version; every way of changing the variable or constant has to raise that version, also from Ruby-level reflection.",
     ["monoruby/src/codegen/jitgen/compile/variables.rs", "monoruby/src/codegen/runtime.rs", "monoruby/src/executor/constants.rs", "monoruby/src/executor.rs", "monoruby/src/globals/store/class/constants.rs", "monoruby/src/builtins/module.rs"],
     [("constants", "monoruby/src/executor/constants.rs"), ("cached constants", "monoruby/src/codegen/runtime.rs vm_get_constant"), ("visibility", "monoruby/src/builtins/module.rs set_constants_visibility"), ("class variables", "monoruby/src/executor.rs set_class_variable"), ("compiled instance variables", "monoruby/src/codegen/jitgen/compile/variables.rs")],
     state=[("constant version", "counter by which warm references notice changes of constants", "monoruby/src/codegen.rs const_version"), ("slots", "per class numbering of instance variables", "monoruby/src/globals/store/class.rs ivar_names")],
     technique=VM, note=VMNOTE)
prop("P29", "A redefined built-in operator is called wherever the operator is used",
     "When a built-in operator or method that the interpreter answers without a call is redefined (def, define_method, alias, prepending a module), every use of it calls the new method and takes its answer: written as operator, as call, through send, in conditions and loops, with constant operands, within blocks. Uses of other methods are not affected. Putting the old method back brings the old answers back. Receivers of a subclass or with a singleton method get their own method.",
     ["histories", "inputs"],
     "153 pairs of built-in class (with its operands) and operator with 1647 uses, each warm, then redefined in one of four ways, put back, redefined in another way and put back, looked at interpreted and compiled after each step; the same in the middle of a compiled loop; places warm with plain receivers that meet an object of a subclass or with a singleton method.",
     "These operators are compiled to a few instructions without a guard; only the table of redefinitions and the list of dependent code make a later redefinition visible.",
     ["monoruby/src/globals/store/basic_op.rs", "monoruby/src/globals/store/class.rs", "monoruby/src/executor/op.rs", "monoruby/src/executor/op/binary_ops.rs", "monoruby/src/codegen/jitgen/compile/binary_op.rs", "monoruby/src/codegen/jitgen/compile/unary_op.rs", "monoruby/src/codegen/jitgen/compile/method_call.rs"],
     [("the table", "monoruby/src/globals/store/basic_op.rs BasicOpTable"), ("redefinition", "monoruby/src/globals/store/class.rs set_bop_redefine"), ("comparison", "monoruby/src/executor/op.rs eq_values_vis"), ("compiled operators", "monoruby/src/codegen/jitgen/compile/binary_op.rs basic_op_assumable")],
     state=[("redefined operators", "pairs of class and operator whose fast path is off", "monoruby/src/globals/store/basic_op.rs BasicOpTable")],
     technique=VM, note=VMNOTE)
prop("P30", "String operations change exactly the characters they name, and no other string",
     "Reading, assigning, inserting, removing, searching, splitting, replacing, casing, padding, comparing and measuring give the answers a list of characters gives, and leave the string with exactly those characters, whether it is ASCII or not, short enough to lie within its object or on the heap, and however it was made. A string from which another was copied or cut keeps its characters. What is known about a string (whether it is ASCII only, its length, its validity) stays true after each change. A block that changes the string it is called for sees what Ruby shows it.",
     ["histories", "inputs"],
     "All sequences of one and two of 202 operations on 14 (quick: 9 for two) starting strings, of three changing operations on 4 of them; every changing operation made by the block of every way of iterating after 1 to 3 parts; interpreted and compiled.",
     "Strings share buffers, move between two representations and remember what is known about their encoding; each shortcut can read freed memory or keep an outdated answer.",
     ["monoruby/src/builtins/string.rs", "monoruby/builtins/string.rb", "monoruby/src/value/rvalue/string.rs"],
     [("iteration", "monoruby/src/builtins/string.rs each_char"), ("assignment", "monoruby/src/builtins/string.rs index_assign"), ("removal", "monoruby/src/builtins/string.rs slice_"), ("suffixes", "monoruby/src/builtins/string.rs chomp_byte_end"), ("representation", "monoruby/src/value/rvalue/string.rs RStringInner")],
     state=[("what is known of a string", "its bytes, encoding and remembered code range", "monoruby/src/value/rvalue/string.rs RStringInner")],
     technique=VM, note=VMNOTE)
prop("P31", "Fibers and external enumerators go on where they stopped, and end once",
     "A fiber goes on after the place of its last Fiber.yield, within whatever calls, blocks, loops and handlers were open, with its variables as they were, and hands over exactly the values given to resume and Fiber.yield. raise in a waiting fiber meets the handlers around the yield, kill runs only its ensure clauses, and a fiber that is new, active, resuming another or dead refuses what its state does not allow with FiberError. An enumerator gives the values of its source in order to next and peek, independently of other enumerators and of internal iteration, stops with the result of the source, stays stopped until rewound, and starts again after an error of its source.",
     ["histories", "interleavings"],
     "Two fibers with bodies of up to two and one of 13 pieces that may resume one another, raise, rescue, return and yield from within calls, loops, blocks; all histories of up to 4 (5) resumes, raises and kills; two enumerators over each of 26 sources with all histories of 4 (5) of next, peek, rewind, first and loop.",
     "Each fiber has its own stack that is switched by hand-written machine code; a wrong state, a stack given back too early or a lost handler shows only in particular interleavings.",
     ["monoruby/src/builtins/fiber.rs", "monoruby/src/builtins/enumerator.rs", "monoruby/src/value/rvalue/fiber.rs", "monoruby/src/value/rvalue/enumerator.rs", "monoruby/src/executor.rs"],
     [("switching", "monoruby/src/value/rvalue/fiber.rs resume_fiber"), ("yielding", "monoruby/src/executor.rs yield_fiber"), ("injected errors", "monoruby/src/builtins/fiber.rs kill"), ("external iteration", "monoruby/src/value/rvalue/enumerator.rs next_values")],
     state=[("state of a fiber", "created, waiting at a yield, active, or terminated, with its stack", "monoruby/src/executor.rs FiberState")],
     technique=VM, note=VMNOTE)
